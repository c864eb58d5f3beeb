"""V01 validator, V02 objective, E01 encodings, R01 route data, T02 service
time, B01 comparison of solutions, D01 containers, D02 list helpers."""
import importlib
import itertools
import operator
from symex.base import *
from symex.core import IMPLIES

OPS = "verypy.cvrp_ops"
UT = "verypy.util"
RDM = "verypy.routedata"
NN = "verypy.classic_heuristics.nearest_neighbor"


def idx(x):
    return operator.index(x)


def asym_matrix(ctx, n):
    D = np.zeros((n, n), dtype=object if ctx.symbolic else float)
    for i in range(n):
        D[i, i] = 0.0
        for j in range(n):
            if i != j:
                D[i, j] = ctx.var("D%d_%d" % (i, j))
    return D


def nodes(ctx, m, n, name="x"):
    """m arbitrary node numbers below n"""
    return [ctx.var("%s%d" % (name, i), 0, n - 1, integer=True)
            for i in range(m)]


def IFF(flag, f):
    return f if flag else NOT(f)


# ---------------------------------------------------------------- V01 --------

class Verdict(Harness):
    def bounds(self):
        return "every node sequence of length %d over %d nodes visiting the" \
            " depot, every (also asymmetric) distance matrix%s%s" % (
                self.m, self.n, ", every demands and capacity" if self.useC
                else "", ", every route limit" if self.useL else "")

    def build(self, ctx):
        n = self.n
        D = asym_matrix(ctx, n)
        C = L = d = None
        if self.useC:
            C = ctx.var("C")
            ctx.assume(LT(0, C))
            d = [0.0] + [ctx.var("d%d" % i) for i in range(1, n)]
        if self.useL:
            L = ctx.var("L")
            ctx.assume(LT(0, L))
        x = nodes(ctx, self.m, n)
        ctx.assume(OR(*[LE(v, 0) for v in x]))
        if self.closed:
            ctx.assume(LE(x[0], 0))
            ctx.assume(LE(x[-1], 0))
        return dict(D=D, d=d, C=C, L=L, x=x)

    def run(self, inp):
        (m,) = modules_ready(OPS)
        x = list(inp["x"])
        r = m.validate_solution_feasibility(x, inp["D"], inp["d"], inp["C"],
                                            inp["L"])
        inp["seq"] = [idx(v) for v in inp["x"]]
        return r

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        s, D, d, C, L = inp["seq"], inp["D"], inp["d"], inp["C"], inp["L"]
        res = tuple(res)
        yield "not three verdicts", len(res) == 3
        cov, cap, rl = [bool(v) for v in res]
        z = s.index(0)
        rot = s[z:] + s[:z]
        routes = split(rot + [0])
        served = sorted(v for v in s if v)
        yield "coverage verdict of %s is %s" % (s, cov), \
            cov == (served == list(range(1, self.n)))
        yield "capacity verdict of %s is %s" % (s, cap), IFF(
            cap, AND(*[LE(demand(r, d), C) for r in routes])
            if C is not None else True)
        yield "route limit verdict of %s is %s" % (s, rl), IFF(
            rl, AND(*[LE(route_cost(r, D), L) for r in routes])
            if L is not None else True)


def V01(tier):
    T = tier == "thorough"
    hs = []

    def add(m, n, cons, closed):
        for C, L in cons:
            hs.append(Verdict("verdict/len%d/n%d%s%s%s" % (
                m, n, "/closed" if closed else "", "/C" if C else "",
                "/L" if L else ""), m=m, n=n, useC=C, useL=L, closed=closed,
                priority=m, functions=(OPS + ".validate_solution_feasibility",)))
    CONS = ((0, 0), (1, 0), (0, 1), (1, 1))
    for m in (1, 2, 3, 4):
        for n in (2, 3):
            add(m, n, CONS, False)
    for m, n in ((5, 3), (6, 3), (5, 4), (6, 4)) + (((7, 4), (7, 3), (8, 3))
                                                   if T else ()):
        add(m, n, CONS, True)
    add(5, 3, CONS, False)
    add(5, 4, CONS if T else CONS[3:], False)
    if T:
        add(6, 3, CONS, False)
        add(6, 4, CONS[3:], False)
        add(7, 5, CONS[3:], True)
    return hs


# ---------------------------------------------------------------- V02 --------

class Objective(Harness):
    def bounds(self):
        return "every node sequence of length %d over %d nodes, as one tour" \
            " and as every list of routes, every (also asymmetric) matrix" % (
                self.m, self.n)

    def build(self, ctx):
        n = self.n
        return dict(D=asym_matrix(ctx, n), x=nodes(ctx, self.m, n),
                    d=[0.0] + [ctx.var("d%d" % i) for i in range(1, n)])

    def run(self, inp):
        ops, ut = modules_ready(OPS, UT)
        x = [idx(v) for v in inp["x"]]
        inp["s"] = x
        D = inp["D"]
        out = {"tour": ops.recalculate_objective(list(x), D),
               "objf": ut.objf(list(x), D),
               "totald": ut.totald(list(x), list(inp["d"])),
               "none": ut.totald(list(x), None)}
        # all ways to cut the sequence to non-empty routes
        inp["cuts"] = []
        for k in range(2 ** (len(x) - 1)):
            parts = [[x[0]]]
            for i in range(1, len(x)):
                if k >> (i - 1) & 1:
                    parts.append([])
                parts[-1].append(x[i])
            inp["cuts"].append((parts, ops.recalculate_objective(
                [list(p) for p in parts], D)))
        return out

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        s, D, d = inp["s"], inp["D"], inp["d"]
        yield "length of the closed tour %s" % s, \
            EQ(res["tour"], path_cost(s, D) + D[s[-1], s[0]])
        yield "length of the path %s" % s, EQ(res["objf"], path_cost(s, D))
        yield "total demand of %s" % s, EQ(res["totald"], demand(s, d))
        yield "total demand without demands", EQ(res["none"], 0)
        for parts, v in inp["cuts"]:
            c = 0
            for p in parts:
                q = (p if p[0] == 0 else [0] + p)
                q = (q if q[-1] == 0 else q + [0])
                c = c + path_cost(q, D)
            yield "length of the routes %s" % parts, EQ(v, c)


def V02(tier):
    T = tier == "thorough"
    hs = []
    for m, n in ((1, 2), (2, 3), (3, 3), (4, 3), (3, 4), (5, 3), (4, 4)) + (
            ((6, 3), (5, 4), (6, 4), (5, 5)) if T else ()):
        hs.append(Objective("objective/len%d/n%d" % (m, n), m=m, n=n,
                            priority=m, functions=(
                                OPS + ".recalculate_objective", UT + ".objf",
                                UT + ".totald")))
    return hs


# ---------------------------------------------------------------- E01 --------

def distinct_tour(ctx, m, n):
    """tour 0 ... 0 of length m in which no customer repeats"""
    x = nodes(ctx, m, n)
    ctx.assume(LE(x[0], 0))
    ctx.assume(LE(x[-1], 0))
    for i in range(m):
        for j in range(i + 1, m):
            ctx.assume(OR(LE(x[i], 0), LT(x[i], x[j]), LT(x[j], x[i])))
    return x


def canon(routes):
    return sorted(min(list(r), list(r)[::-1]) for r in routes if r)


class Encoding(Harness):
    def bounds(self):
        return "every tour of length %d over %d nodes with any number of " \
            "depot visits" % (self.m, self.n)

    def build(self, ctx):
        return dict(x=distinct_tour(ctx, self.m, self.n))

    def run(self, inp):
        ut, ops, rd = modules_ready(UT, OPS, RDM)
        # the functions see the symbolic sequence; it is read out afterwards
        x = inp["x"]
        o = {}
        o["routes"] = ut.sol2routes(list(x))
        o["without"] = ut.without_empty_routes(list(x))
        o["back"] = ut.routes2sol([list(r) for r in o["routes"]])
        o["back2"] = ut.routes2sol([list(r)[1:-1] for r in o["routes"]])
        o["norm"] = ops.normalize_solution(list(x))
        o["norm_rev"] = ops.normalize_solution(list(x)[::-1])
        s = [idx(v) for v in x]
        inp["s"] = s
        rs = split(s)
        o["norm_twice"] = ops.normalize_solution(list(o["norm"]))
        if rs:
            o["norm_parts"] = ops.normalize_solution(
                [[0] + r[::-1] + [0] for r in rs[::-1]])
            o["norm_bare"] = ops.normalize_solution([list(r) for r in rs[::-1]])
            o["norm_empty"] = ops.normalize_solution(
                [[0] + r + [0] for r in rs] + [[0, 0]])
            o["edges"] = ut.sol2edgeset(list(s), symmetric=True)
            o["arcs"] = ut.sol2edgeset(list(s), symmetric=False)
        D = np.zeros((self.n, self.n))
        rds = rd.RouteData.from_solution(list(s), D, None)
        o["rds"] = [list(r.route) for r in rds]
        o["rdsol"] = rd.RouteData.to_solution(rds)
        o["nodesets"] = [set(r.node_set) for r in rds]
        return o

    def props(self, inp, o, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        s = inp["s"]
        rs = split(s)
        full = [0]
        for r in rs:
            full += r + [0]

        def conc(v):
            return [idx(a) for a in v]
        closed = [[0] + r + [0] for r in rs]
        yield "routes of %s" % s, [conc(r) for r in o["routes"]] == closed
        yield "empty routes removed from %s" % s, \
            conc(o["without"]) == full
        if rs:
            yield "tour of the routes of %s" % s, conc(o["back"]) == full
            yield "tour of the bare routes of %s" % s, \
                conc(o["back2"]) == full
        nrm = conc(o["norm"])
        yield "normal form %s of %s is not a tour" % (nrm, s), \
            nrm[0] == 0 and nrm[-1] == 0 and \
            all(a or b for a, b in zip(nrm, nrm[1:]))
        nr = split(nrm)
        yield "normal form %s of %s has other routes" % (nrm, s), \
            canon(nr) == canon(rs)
        yield "normal form %s is not ordered" % nrm, \
            all(r[0] <= r[-1] for r in nr) and \
            [r[0] for r in nr] == sorted(r[0] for r in nr)
        yield "normal form of the reversed tour %s" % s, \
            conc(o["norm_rev"]) == nrm
        yield "normalising twice %s" % s, conc(o["norm_twice"]) == nrm
        if rs:
            for k in ("norm_parts", "norm_bare", "norm_empty"):
                yield "normal form of %s given as routes (%s)" % (s, k), \
                    conc(o[k]) == nrm
            es = set((min(a, b), max(a, b)) for a, b in zip(s, s[1:]))
            yield "undirected edges of %s: %s" % (s, o["edges"]), \
                set(o["edges"]) == es
            yield "directed edges of %s: %s" % (s, o["arcs"]), \
                set(o["arcs"]) == set(zip(s, s[1:]))
        yield "route data of %s" % s, o["rds"] == closed
        yield "tour of the route data of %s" % s, o["rdsol"] == full
        yield "node sets of %s" % s, o["nodesets"] == [set(r) for r in rs]


def E01(tier):
    T = tier == "thorough"
    hs = []
    for m, n in ((2, 2), (3, 3), (4, 3), (5, 3), (5, 4), (6, 4), (6, 5)) + (
            ((7, 5), (7, 4), (8, 4), (8, 5), (7, 6)) if T else ((7, 5),)):
        hs.append(Encoding("encoding/len%d/n%d" % (m, n), m=m, n=n, priority=m,
                           functions=tuple(UT + f for f in (
                               ".sol2routes", ".routes2sol",
                               ".without_empty_routes", ".sol2edgeset")) +
                           (OPS + ".normalize_solution", RDM + ".RouteData")))
    return hs


# ---------------------------------------------------------------- R01 --------

class Aux(Harness):
    def bounds(self):
        return "every route of %d customers, every symmetric matrix%s" % (
            self.m, " and demands" if self.useC else "")

    def build(self, ctx):
        n = self.m + 1
        d = [0.0] + [ctx.var("d%d" % i) for i in range(1, n)] if self.useC \
            else None
        x = nodes(ctx, self.m, n)
        for i in range(self.m):
            ctx.assume(LE(1, x[i]))
            for j in range(i):
                ctx.assume(OR(LT(x[i], x[j]), LT(x[j], x[i])))
        return dict(D=sym_matrix(ctx, n), d=d, x=x)

    def run(self, inp):
        (rd,) = modules_ready(RDM)
        r = [0] + [idx(v) for v in inp["x"]] + [0]
        inp["r"] = r
        D, d = inp["D"], inp["d"]
        a = rd.RouteData.from_routes([list(r)], D, d)[0]
        a.update_auxiliary_data(D, d)
        b = rd.RouteData.from_routes([list(r)], D, d)[0]
        b.normalize()
        c = rd.RouteData(list(r), 1.0, 2.0, generate_node_set=True)
        e = rd.RouteData()
        a.update_node_set()
        return a, b, c, e

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        a, b, c, e = res
        r, D, d = inp["r"], inp["D"], inp["d"]
        yield "route changed", list(a.route) == r
        yield "cost of %s" % r, EQ(a.cost, path_cost(r, D))
        if d:
            yield "demand of %s" % r, EQ(a.demand, demand(r, d))
        yield "node set of %s" % r, set(a.node_set) == set(r) - {0} and \
            set(c.node_set) == set(r) - {0}
        m = len(r)
        for i in range(m):
            yield "length of %s up to position %d" % (r, i), \
                EQ(a.fwd_l[i], path_cost(r[:i + 1], D))
            yield "length of %s from position %d" % (r, i), \
                EQ(a.rwd_l[i], path_cost(r[i:], D))
            if d:
                yield "demand of %s up to position %d" % (r, i), \
                    EQ(a.fwd_d[i], demand(r[:i + 1], d))
                yield "demand of %s from position %d" % (r, i), \
                    EQ(a.rwd_d[i], demand(r[i:], d))
        yield "normalised route %s of %s" % (b.route, r), \
            list(b.route) == (r if r[1] <= r[-2] else r[::-1])
        yield "emptiness", e.is_empty() and not a.is_empty() and \
            list(e.route) == [0, 0]
        yield "unpacking", list(a)[:3] == [a.route, a.cost, a.demand] \
            if type(a.cost) is not Sym and type(a.demand) is not Sym else \
            (a[0] is a.route and a[1] is a.cost and a[2] is a.demand and
             a[3] is a.node_set)


class NodeSet(Harness):
    """routes written with any number of depot visits at their ends"""

    def bounds(self):
        return "every route of %d customers with 0..%d depot visits before " \
            "and after them" % (self.m, self.k)

    def build(self, ctx):
        n = self.m + 1
        x = nodes(ctx, self.m, n) if self.m else []
        for i in range(self.m):
            ctx.assume(LE(1, x[i]))
            for j in range(i):
                ctx.assume(OR(LT(x[i], x[j]), LT(x[j], x[i])))
        a = ctx.var("before", 0, self.k, integer=True)
        b = ctx.var("after", 0, self.k, integer=True)
        if not self.m:      # a single depot visit is not a route
            ctx.assume(OR(LE(a + b, 0), LE(2, a + b)))
        return dict(D=sym_matrix(ctx, n), x=x, a=a, b=b, d=[0.0] + [
            ctx.var("d%d" % i) for i in range(1, n)])

    def run(self, inp):
        (rd,) = modules_ready(RDM)
        r = [0] * idx(inp["a"]) + [idx(v) for v in inp["x"]] + \
            [0] * idx(inp["b"])
        inp["r"] = r
        a = rd.RouteData(list(r), 1.0, 2.0)
        a.update_node_set()
        if not r:
            return a, a, a
        return a, rd.RouteData(list(r), generate_node_set=True), \
            rd.RouteData.from_routes([list(r)], inp["D"], inp["d"])[0]

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        r = inp["r"]
        for a in res:
            yield "route changed", list(a.route) == r
            yield "node set %s of %s" % (sorted(a.node_set), r), \
                set(a.node_set) == set(r) - {0}
        if r:
            yield "cost of %s" % r, EQ(res[2].cost, path_cost(r, inp["D"]))
            yield "demand of %s" % r, EQ(res[2].demand,
                                         demand(r, inp["d"]))
        if not set(r) - {0} and len(r) in (0, 2):
            yield "emptiness of %s" % r, bool(res[0].is_empty())
        elif set(r) - {0}:
            yield "emptiness of %s" % r, not res[0].is_empty()


def R01(tier):
    T = tier == "thorough"
    return [NodeSet("nodeset/%d" % m, m=m, k=3 if T else 2, priority=m,
                    functions=(RDM + ".RouteData",))
            for m in range(0, 5 if T else 4)] + [Aux("aux/%d%s" % (m, "/d" if C else ""), m=m, useC=C, priority=m,
                functions=(RDM + ".RouteData",))
            for m in range(1, 6 if T else 5) for C in (0, 1)]


# ---------------------------------------------------------------- T02 --------

class DType(object):
    """dtype of a matrix of proxies: real or integer numbers"""

    def __init__(self, integer):
        self.integer = integer
        self.kind = 'i' if integer else 'f'

    def type(self, v):
        if self.integer:
            return v if isinstance(v, int) or (
                type(v) is Sym and v.is_int_valued()) else int(v)
        return FloatShim(v)

    def __eq__(self, o):
        return o in ((int, 'int64', 'i', np.int64) if self.integer else
                     (float, 'd', 'float64', np.float64))

    def __hash__(self):
        return 1


class ProxyMatrix(np.ndarray):
    kind = False

    @property
    def dtype(self):
        return DType(self.kind_int)

    def astype(self, t, **kw):
        a = self.copy()
        if DType(False) == t or t in (float, 'd'):
            a.kind_int = False
        return a

    def __array_finalize__(self, o):
        self.kind_int = getattr(o, 'kind_int', False)


class Service(Harness):
    def bounds(self):
        return "every symmetric %s matrix of %d nodes, every %s service " \
            "time%s" % ("integer" if self.ints else "real", self.n,
                        "integer" if self.sint else "real",
                        " up to 9" if self.ints or self.sint else "")

    def build(self, ctx):
        n = self.n
        D = np.zeros((n, n), dtype=object if ctx.symbolic else
                     (int if self.ints else float))
        for i in range(n):
            for j in range(i + 1, n):
                D[i, j] = D[j, i] = ctx.var("D%d_%d" % (i, j), 0,
                                            integer=self.ints)
        st = ctx.var("st", 0, 9 if self.ints or self.sint else None,
                     integer=self.sint)
        ctx.assume(LT(0, st))
        return dict(D=D, st=st, sym=ctx.symbolic)

    def run(self, inp):
        (m,) = modules_ready(OPS)
        D = inp["D"]
        if inp["sym"]:
            if not isinstance(m.np, _CopyShim):
                m.np = _CopyShim(m.np)
            D = D.view(ProxyMatrix)
            D.kind_int = bool(self.ints)
        inp["arg"] = D
        inp["before"] = D.copy()
        return m.D2D_c(D, inp["st"])

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        D, st, n = inp["before"], inp["st"], self.n
        for i in range(n):
            for j in range(n):
                yield "the given matrix was changed at %d,%d" % (i, j), \
                    EQ(inp["arg"][i, j], D[i, j])
                yield "asymmetric at %d,%d" % (i, j), \
                    EQ(res[i, j], res[j, i])
            yield "staying at %d is not free" % i, EQ(res[i, i], 0)
        for k in range(1, n):
            for r in itertools.permutations(range(1, n), k):
                q = [0] + list(r) + [0]
                yield "cost of %s with service times" % q, EQ(
                    path_cost(q, res), path_cost(q, D) + st * k)


class _CopyShim(object):
    """np.copy keeps proxy matrices"""

    def __init__(self, np):
        self.__dict__["_np"] = np

    def __getattr__(self, k):
        return getattr(self._np, k)

    def copy(self, a):
        return a.copy()


def T02(tier):
    T = tier == "thorough"
    return [Service("service/n%d/%s/%s" % (
        n, "int" if i else "real", "int" if s else "real"), n=n, ints=i,
        sint=s, priority=n, functions=(OPS + ".D2D_c",))
        for n in range(2, 6 if T else 5) for i in (0, 1) for s in (0, 1)]


# ---------------------------------------------------------------- B01 --------

class Better(Harness):
    def bounds(self):
        return "every pair of costs and vehicle counts, objective %s" % (
            "vehicles" if self.mk else "cost")

    def build(self, ctx):
        return dict(f=[ctx.var("f%d" % i) for i in range(3)],
                    k=[ctx.var("k%d" % i, 0, None, integer=True)
                       for i in range(3)])

    def run(self, inp):
        (m,) = modules_ready(UT)
        f, k = inp["f"], inp["k"]
        b = m.is_better_sol
        mk = bool(self.mk)
        return ([[bool(b(f[i], k[i], f[j], k[j], mk)) for j in range(3)]
                 for i in range(3)],
                bool(b(None, None, f[0], k[0], mk)),
                bool(b(float('inf'), 10 ** 6, f[0], k[0], mk)),
                bool(b(f[0], k[0], None, None, mk)),
                bool(b(f[0], k[0], float('inf'), float('inf'), mk)),
                bool(b(None, None, None, None, mk)))

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        t, first, inf1, worse, inf2, none = res
        f, k = inp["f"], inp["k"]
        for i in range(3):
            for j in range(3):
                fl, kl = LT(f[j], f[i]), LT(k[j], k[i])
                want = OR(kl, AND(EQ(k[i], k[j]), fl)) if self.mk else fl
                yield "comparison of solutions %d and %d" % (i, j), \
                    IFF(t[i][j], want)
        yield "a solution is better than none", first
        yield "a solution is better than the worst", IFF(inf1, OR(
            LT(k[0], 10 ** 6), LE(k[0], 10 ** 6)) if self.mk else True)
        yield "no solution is not better", not worse and not none
        yield "an infinitely bad solution is not better", not inf2


def B01(tier):
    return [Better("better/%s" % ("K" if mk else "cost"), mk=mk,
                   functions=(UT + ".is_better_sol",)) for mk in (0, 1)]


# ---------------------------------------------------------------- D01 --------

class SetHistory(Harness):
    """ordered set: every history of operations, against a list"""
    path_seconds = 30

    def bounds(self):
        return "every history of %d operations on an ordered set of up to %d" \
            " elements started from %d elements" % (self.k, self.e, self.start)

    def build(self, ctx):
        return dict(op=[ctx.var("op%d" % i, 0, 5, integer=True)
                        for i in range(self.k)],
                    el=[ctx.var("el%d" % i, 0, self.e - 1, integer=True)
                        for i in range(self.k)])

    def run(self, inp):
        (m,) = modules_ready(UT)
        ref = list(range(self.start))
        s = m.OrderedDictSet(list(ref)) if self.start else m.OrderedDictSet()
        log = []
        for o, e in zip(inp["op"], inp["el"]):
            o = idx(o)
            if o == 0:
                e = idx(e)
                s.add(e)
                if e not in ref:
                    ref.append(e)
                log.append(("add", e, True))
            elif o == 1:
                e = idx(e)
                try:
                    s.remove(e)
                    ok = e in ref
                except KeyError:
                    ok = e not in ref
                if e in ref:
                    ref.remove(e)
                log.append(("remove", e, ok))
            elif o == 2:
                e = idx(e)
                s.difference_update([e, e + 1])
                ref = [r for r in ref if r not in (e, e + 1)]
                log.append(("difference", e, True))
            elif o == 3:
                e = idx(e)
                try:
                    v = s[e]
                    ok = e < len(ref) and v == ref[e]
                except IndexError:
                    ok = e >= len(ref)
                log.append(("get", e, ok))
            elif o == 4:
                try:
                    v = s[-1]
                    ok = len(ref) > 0 and v == ref[-1]
                except IndexError:
                    ok = not ref
                log.append(("last", None, ok))
            else:
                e = idx(e)
                log.append(("in", e, (e in s) == (e in ref)))
            log.append(("state", None, list(s) == ref and len(s) == len(ref)))
        return log

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        h = [r[:2] for r in res if r[0] != "state"]
        for r in res:
            yield "history %s: wrong result of %s" % (h, r[:2]), r[2]


class QueueHistory(Harness):
    """two-ended queue that is consumed by peeking and popping"""

    def bounds(self):
        return "every history of %d peeks and pops of a queue of %d" % (
            self.k, self.n)

    def build(self, ctx):
        return dict(op=[ctx.var("op%d" % i, 0, 4, integer=True)
                        for i in range(self.k)])

    def run(self, inp):
        (m,) = modules_ready(NN)
        ref = list(range(10, 10 + self.n))
        q = private(m, "_PeekQueue")(list(ref))
        if not all(hasattr(q, x) for x in (
                "peekleft", "popleft", "peekright", "popright",
                "__getitem__", "__len__")):
            raise core.NotApplicable("_PeekQueue has other operations")
        log = []
        for o in inp["op"]:
            o = idx(o)
            name = ("peekleft", "popleft", "peekright", "popright", "get")[o]
            try:
                v = q[max(len(ref) - 1, 0)] if o == 4 else getattr(q, name)()
                ok = bool(ref) and v == (ref[0] if o < 2 else ref[-1])
            except IndexError:
                ok = not ref
            if ref and o == 1:
                ref.pop(0)
            if ref and o == 3:
                ref.pop()
            log.append((name, ok and len(q) == len(ref)))
        return log

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        for i, r in enumerate(res):
            yield "queue of %d, history %s: wrong result" % (
                self.n, [x[0] for x in res[:i + 1]]), r[1]


def D01(tier):
    T = tier == "thorough"
    hs = []
    for start in (0, 1, 2, 3):
        for k, e in ((3, 3), (4, 2)) + (((4, 3), (5, 2)) if T else ()):
            hs.append(SetHistory("set/%d/%dops/%del" % (start, k, e), k=k, e=e,
                                 start=start, priority=k,
                                 functions=(UT + ".OrderedDictSet",)))
    for n in range(0, 4):
        for k in (3, 4) + ((5, 6) if T else ()):
            hs.append(QueueHistory("queue/%d/%dops" % (n, k), n=n, k=k,
                                   priority=k, functions=(NN + "._PeekQueue",)))
    return hs


# ---------------------------------------------------------------- D02 --------

FRAGMENTS = ("", "0", "2", "10", "007", "a", "A", "b", "B", "-", " ", ".",
             "\u00b2", "\u0663", "_9")


def natural_le(a, b):
    """is name a before b for a human reader, or equally good?"""
    def chunks(s):
        out, i = [], 0
        while i < len(s):
            j = i
            num = s[i] in "0123456789"
            while j < len(s) and (s[j] in "0123456789") == num:
                j += 1
            out.append((num, int(s[i:j]) if num else s[i:j].lower()))
            i = j
        return out
    x, y = chunks(a), chunks(b)
    for p, q in zip(x, y):
        if p[0] != q[0]:
            return p[0]           # numbers before letters
        if p[1] != q[1]:
            return p[1] < q[1]
    return len(x) <= len(y)


class NaturalSort(Harness):
    path_seconds = 30

    def bounds(self):
        return "every %d names of %s fragments out of %s" % (
            len(self.lens), self.lens, list(FRAGMENTS[:self.k]))

    def build(self, ctx):
        return dict(f=[[ctx.var("f%d_%d" % (i, j), 0, self.k - 1, integer=True)
                        for j in range(m)] for i, m in enumerate(self.lens)])

    def run(self, inp):
        (m,) = modules_ready(UT)
        names = ["".join(FRAGMENTS[::-1][idx(v)] if self.rev else
                         FRAGMENTS[idx(v)] for v in row) for row in inp["f"]]
        return names, m.natural_sort(list(names)), m.natural_sort(iter(names))

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        names, out, out2 = res
        yield "names %s were lost or added: %s" % (names, out), \
            sorted(names) == sorted(out)
        yield "%s sorted naturally gives %s" % (names, out), \
            all(natural_le(a, b) for a, b in zip(out, out[1:]))
        yield "another order from an iterator", list(out) == list(out2)


class Neighbours(Harness):
    """nearest neighbour lists of an arbitrary matrix"""
    path_seconds = 30

    def bounds(self):
        return "every %s matrix of %d nodes" % (self.mode, self.n)

    def build(self, ctx):
        n = self.n
        if self.mode == "symmetric":
            return dict(D=sym_matrix(ctx, n))
        if self.mode == "one row of every":
            D = fixed_matrix(ctx, n, "tie", 3)
            for j in range(n):
                D[self.row, j] = ctx.var("D%d" % j)
            return dict(D=D)
        return dict(D=asym_matrix(ctx, n))

    def run(self, inp):
        (m,) = modules_ready(UT)
        D = inp["D"].copy()
        res = m.produce_nn_list(D)
        return [[(operator.index(j), x) for j, x in row] for row in res], D

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        lists, after = res
        D, n = inp["D"], self.n
        yield "one list per node", len(lists) == n
        for i, row in enumerate(lists):
            yield "list of node %d does not hold every node once" % i, \
                sorted(j for j, x in row) == list(range(n))
            for j, x in row:
                yield "wrong distance from %d to %d" % (i, j), EQ(x, D[i, j])
            for (j, x), (k, y) in zip(row, row[1:]):
                yield "neighbours of %d are not ordered by distance" % i, \
                    LE(D[i, j], D[i, k])
        for i in range(n):
            for j in range(n):
                yield "distance matrix was changed", EQ(after[i, j], D[i, j])


class Lists(Harness):
    """is_sorted and first_valid on an arbitrary list"""

    def bounds(self):
        return "every list of %d numbers" % self.n

    def build(self, ctx):
        return dict(x=[ctx.var("x%d" % i, lo=None) for i in range(self.n)],
                    none=[ctx.var("n%d" % i, 0, 1, integer=True)
                          for i in range(self.n)])

    def run(self, inp):
        (m,) = modules_ready(UT)
        x = list(inp["x"])
        s = bool(m.is_sorted(x))
        items = [None if idx(v) else a for v, a in zip(inp["none"], x)]
        return s, items, m.first_valid(items)

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        s, items, first = res
        x = inp["x"]
        yield "is_sorted says %s" % s, IFF(s, AND(*[
            LE(a, b) for a, b in zip(x, x[1:])]) if len(x) > 1 else True)
        zero = lambda a: a is None or EQ(a, 0)
        if first is None:
            yield "a valid item was overlooked", AND(*[
                zero(a) for a in items if a is not None]) \
                if any(a is not None for a in items) else True
        else:
            alts = []
            for i, a in enumerate(items):
                if a is not None:
                    alts.append(AND(EQ(a, first), NOT(EQ(a, 0)), *[
                        EQ(b, 0) for b in items[:i] if b is not None]))
            yield "not the first valid item", OR(*alts) if alts else False


def D02(tier):
    T = tier == "thorough"
    hs = []
    N = len(FRAGMENTS)
    for lens, k, rev in (((1, 1), N, 0), ((2, 1), N, 0), ((1, 1, 1), N, 0),
                         ((2, 2), 9, 0), ((2, 2), 9, 1), ((3, 3), 4, 0)) + (
            (((2, 2), N, 0), ((3, 2), 9, 1), ((2, 2, 2), 5, 0),
             ((3, 3), 6, 0)) if T else ()):
        hs.append(NaturalSort("natural/%s/%d/%d" % (
            "-".join(map(str, lens)), k, rev), lens=lens, k=k, rev=rev,
            priority=sum(lens), functions=(UT + ".natural_sort",)))
    nn = (UT + ".produce_nn_list",)
    for n, mode in ((1, "arbitrary"), (2, "arbitrary"), (3, "arbitrary"),
                    (4, "symmetric")) + (((4, "arbitrary"),) if T else ()):
        hs.append(Neighbours("nn/%s/%d" % (mode, n), n=n, mode=mode,
                             priority=n, functions=nn))
    for n in (4, 5) + ((6, 7) if T else ()):
        for row in (0, n - 1):
            hs.append(Neighbours("nn/row/%d/%d" % (n, row), n=n, row=row,
                                 mode="one row of every", priority=n,
                                 functions=nn))
    for n in range(0, 5 if not T else 7):
        hs.append(Lists("lists/%d" % n, n=n, priority=n, functions=(
            UT + ".is_sorted", UT + ".first_valid")))
    return hs


PROPS = {"V01": V01, "V02": V02, "E01": E01, "R01": R01, "T02": T02,
         "B01": B01, "D01": D01, "D02": D02}
