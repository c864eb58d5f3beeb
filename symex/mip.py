"""A stand-in for the MIP solver interface `gurobipy`.

The installed solver takes numbers only and has a size limited licence; this
one also takes symbolic data.  It solves 0/1 models exactly by enumeration: every assignment that satisfies
the constraints is found, and the one with the least (largest) objective is the
optimum; of equally good ones the first in lexicographic order is taken.  The
data of a model may be symbolic: comparisons then branch as everywhere else.

* constraints and objectives are linear, variables are binary;
* lazy constraints are added by the callback until it adds no more;
* feasRelax minimises the number (type 2) or the sum (types 0 and 1; the real
  type 1 sums squares) of the violations first and the objective second;
* a model is always solved to the end (status OPTIMAL or INFEASIBLE) unless
  FAULT is set: FAULT(k) gives the status of the k-th call."""
import sys
import types

FAULT = None
CALLS = [0]


class GurobiError(Exception):
    def __init__(self, errno=0, message=""):
        Exception.__init__(self, errno, message)
        self.errno = errno
        self.message = message


class GRB(object):
    BINARY = "B"
    MINIMIZE = 1
    MAXIMIZE = -1
    OPTIMAL = 2
    INFEASIBLE = 3
    TIME_LIMIT = 9
    INTERRUPTED = 11

    class callback(object):
        MIPSOL = 4


class LinExpr(object):
    def __init__(self, coeffs=None, variables=None):
        self.c = 0
        self.t = []
        if isinstance(coeffs, LinExpr):
            self.c, self.t = coeffs.c, list(coeffs.t)
        elif isinstance(coeffs, Var):
            self.t = [(1, coeffs)]
        elif variables is not None:
            assert len(coeffs) == len(variables)
            self.t = list(zip(coeffs, variables))
        elif coeffs is not None:
            self.c = coeffs

    def size(self):
        return len(self.t)

    def __add__(self, o):
        o = LinExpr(o)
        r = LinExpr()
        r.c = self.c + o.c
        r.t = self.t + o.t
        return r
    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-LinExpr(o))

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, k):
        r = LinExpr()
        r.c = self.c * k
        r.t = [(a * k, v) for a, v in self.t]
        return r
    __rmul__ = __mul__

    def __le__(self, o):
        return TempConstr(self - o, "<")

    def __ge__(self, o):
        return TempConstr(LinExpr(o) - self, "<")

    def __eq__(self, o):
        return TempConstr(self - o, "=")
    __hash__ = None

    def getValue(self):
        tot = self.c
        for a, v in self.t:
            if v.x:
                tot = tot + a
        return tot


class Var(object):
    def __init__(self, model, i, obj):
        self.model, self.i, self.obj = model, i, obj
        self.ub = 1
        self.x = 0.0

    def __add__(self, o):
        return LinExpr(self) + o
    __radd__ = __add__

    def __neg__(self):
        return -LinExpr(self)

    def __sub__(self, o):
        return LinExpr(self) - o

    def __mul__(self, k):
        return LinExpr(self) * k
    __rmul__ = __mul__


class TempConstr(object):
    def __init__(self, e, op):
        self.e, self.op = e, op
        self.rows = None

    def ready(self):
        co = {}
        for a, v in self.e.t:
            co[v.i] = co[v.i] + a if v.i in co else a
        self.co = co
        self.plain = all(plain(x) for x in list(co.values()) + [self.e.c])

    def value(self, on):
        tot = self.e.c
        for i in on:
            if i in self.co:
                tot = tot + self.co[i]
        return tot

    def holds(self, on):
        v = self.value(on)
        return bool(v <= 1e-9) if self.op == "<" else bool(
            v == 0) if not isinstance(v, float) else abs(v) <= 1e-9

    def violation(self, on):
        v = self.value(on)
        if v <= 1e-9:
            if self.op == "<" or v >= -1e-9:
                return 0
            return -v
        return v


def plain(x):
    return isinstance(x, (int, float)) or type(x).__module__ == "numpy" or \
        type(x).__name__ == "Fraction"


class tupledict(dict):
    def _match(self, pat):
        for k, v in self.items():
            kk = k if isinstance(k, tuple) else (k,)
            if all(p == "*" or p == q for p, q in zip(pat, kk)):
                yield k, v

    def sum(self, *pat):
        return quicksum(v for _, v in self._match(pat))

    def prod(self, coeff, *pat):
        return quicksum(coeff[k] * v for k, v in self._match(pat))


def quicksum(items):
    r = LinExpr()
    if isinstance(items, dict):
        items = items.values()
    for e in items:
        e = LinExpr(e)
        r.c = r.c + e.c
        r.t.extend(e.t)
    return r


class _Params(object):
    pass


class Model(object):
    def __init__(self, name=""):
        self.vars = []
        self.cons = []
        self.relaxed = None
        self.modelSense = GRB.MINIMIZE
        self.params = _Params()
        self.Status = self.status = 1
        self.Runtime = 0.0

    def addVar(self, lb=0, ub=1, obj=0, vtype=None, name=""):
        assert vtype == GRB.BINARY, "only binary variables"
        v = Var(self, len(self.vars), obj)
        self.vars.append(v)
        return v

    def addVars(self, keys, obj=0, vtype=None, name=""):
        r = tupledict()
        for n, k in enumerate(keys):
            o = obj[k] if isinstance(obj, dict) else obj[n] if isinstance(
                obj, (list, tuple)) else obj
            r[k] = self.addVar(obj=o, vtype=vtype)
        return r

    def addConstr(self, c, name=""):
        if c is True or c is False:
            raise GurobiError(10001, "not a constraint")
        self.cons.append(c)
        return c

    def update(self):
        pass

    def setParam(self, *a):
        pass

    def write(self, *a):
        pass

    def getObjective(self):
        return LinExpr([v.obj for v in self.vars], self.vars)

    def getAttr(self, name, td):
        assert name in ("x", "X")
        return tupledict((k, v.x) for k, v in td.items())

    @property
    def X(self):
        return [v.x for v in self.vars]

    @property
    def objVal(self):
        return self.getObjective().getValue()

    def cbGetSolution(self, td):
        return self.getAttr("x", td)

    def cbLazy(self, c):
        self.lazy.append(c)

    def feasRelax(self, relaxobjtype, minrelax, variables, lbpen, ubpen,
                  constrs, rhspen):
        assert minrelax and not variables and all(p == 1 for p in rhspen)
        self.relaxed = relaxobjtype, list(constrs)

    def optimize(self, callback=None):
        k = CALLS[0]
        CALLS[0] += 1
        for v in self.vars:
            v.x = 0.0
        st = FAULT(k) if FAULT is not None else None
        if st is None:
            st = self.search()
            while st == GRB.OPTIMAL and callback is not None:
                self.lazy = []
                callback(self, GRB.callback.MIPSOL)
                if not self.lazy:
                    break
                self.cons += self.lazy
                st = self.search()
        self.Status = self.status = st

    # ------------------------------------------------------------ search ---

    def assignments(self, cons):
        """all sets of variables that satisfy the constraints"""
        n = len(self.vars)
        uses = [[] for _ in range(n)]
        state = []
        for r, c in enumerate(cons):
            c.ready()
            if c.plain:
                lo = c.e.c + sum(min(0, a) for a in c.co.values())
                hi = c.e.c + sum(max(0, a) for a in c.co.values())
                state.append([lo, hi])
                for i, a in c.co.items():
                    uses[i].append((r, a))
            else:
                state.append(None)
        late = [c for c in cons if not c.plain]
        eq = [c.op == "=" for c in cons]

        def bad(r):
            lo, hi = state[r]
            return lo > 1e-9 or eq[r] and hi < -1e-9
        if any(s is not None and bad(r) for r, s in enumerate(state)):
            return
        on = []

        def go(i):
            if i == n:
                if all(c.holds(on) for c in late):
                    yield tuple(on)
                return
            for x in (0, 1):
                if x > self.vars[i].ub:
                    continue
                ok = True
                done = []
                for r, a in uses[i]:
                    # x fixed: the bounds of the row become tighter
                    s = state[r]
                    done.append((r, s[0], s[1]))
                    if x:
                        s[0] += max(a, 0)
                        s[1] += min(a, 0)
                    else:
                        s[0] -= min(a, 0)
                        s[1] -= max(a, 0)
                    if bad(r):
                        ok = False
                        break
                if ok:
                    if x:
                        on.append(i)
                    for z in go(i + 1):
                        yield z
                    if x:
                        on.pop()
                for r, lo, hi in reversed(done):
                    state[r][0], state[r][1] = lo, hi
        for z in go(0):
            yield z

    def search(self):
        objs = [v.obj for v in self.vars]

        def cost(on):
            tot = 0
            for i in on:
                tot = tot + objs[i]
            return tot
        soft = self.relaxed[1] if self.relaxed else []
        hard = [c for c in self.cons if not any(c is s for s in soft)]
        for c in soft:
            c.ready()
        if not soft and all(plain(x) for x in objs):
            # the cheapest first: the first one that satisfies the rest wins
            late = []
            early = []
            for c in hard:
                c.ready()
                (early if c.plain else late).append(c)
            best = None
            allof = sorted(self.assignments(early), key=lambda on:
                           self.modelSense * cost(on))
            for on in allof:
                if all(c.holds(on) for c in late):
                    best = on
                    break
        else:
            best = key = None
            for on in self.assignments(hard):
                k = []
                if soft:
                    if self.relaxed[0] == 2:
                        k.append(sum(1 for c in soft if not c.holds(on)))
                    else:
                        k.append(sum((c.violation(on) for c in soft), 0))
                k.append(self.modelSense * cost(on))
                if key is None or less(k, key):
                    best, key = on, k
        if best is None:
            return GRB.INFEASIBLE
        for v in self.vars:
            v.x = 0.0
        for i in best:
            self.vars[i].x = 1.0
        return GRB.OPTIMAL


def less(a, b):
    for x, y in zip(a, b):
        if x < y:
            return True
        if not x == y:
            return False
    return False


def install():
    """make `import gurobipy` give this stand-in"""
    global FAULT
    m = types.ModuleType("gurobipy")
    for k in ("GRB", "GurobiError", "LinExpr", "Model", "quicksum", "Var",
              "tupledict"):
        setattr(m, k, globals()[k])
    sys.modules["gurobipy"] = m
    FAULT = None
    CALLS[0] = 0
