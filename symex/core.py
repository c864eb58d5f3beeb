"""Concolic symbolic executor for the real VeRyPy code.

The functions under test are the ones imported from /repo; they are executed by
CPython on proxy numbers (class Sym).  Every comparison of proxy numbers is a
branch of the path tree.  For each branch met on a path the SMT solver decides
whether the other side is feasible under the path condition; feasible sides are
explored later (depth first, deepest first).  At the end of a path the property
is turned into a formula over the proxies and the solver is asked for
   path condition  AND  NOT property.
"unsat" = the property holds for every input taking this path.

Numbers: every input quantity is k/GRID for an arbitrary integer k, i.e. a
dyadic rational.  Doubles represent sums of such numbers exactly (up to the
magnitudes met in replays), and comparisons with the 1e-10 tolerances used in
the code base normalise to integer comparisons, so the real-arithmetic encoding
and IEEE doubles agree.
"""
import math
import signal
import sys
import time
from fractions import Fraction

import z3

GRID = 1024


class Unsupported(Exception):
    """The real code did something with a proxy the encoding can not follow."""


class NotApplicable(Unsupported):
    """the internal helper this harness drives is not there"""


class PathAbort(BaseException):
    """Give up on this path (step budget)."""


# ---------------------------------------------------------------- proxies ---

# when set, formatting a proxy writes a token that stands for it (see h_io)
TOKENS = None


class Tokens(object):
    """text tokens that stand for proxies: 77xxxxx or 77xxxxx.5"""

    frac = 0      # hundredths of the number that a real proxy is printed as

    def __init__(self):
        self.vals = []

    def num(self, s):
        self.vals.append(s)
        return 7700000 + len(self.vals) - 1

    def text(self, s):
        return "%d" % self.num(s) if s.is_int_valued() else \
            "%d.5" % self.num(s)

    def lookup(self, text):
        t = text.strip()
        if t.startswith("77"):
            k, _, f = t.partition(".")
            if k.isdigit() and 0 <= int(k) - 7700000 < len(self.vals):
                v = self.vals[int(k) - 7700000]
                if self.frac and not v.is_int_valued() and f not in (
                        "5", "%02d" % self.frac):
                    return None       # printed with another precision
                return v
        return None


def _num(x):
    """python / numpy number -> int or Fraction (exact) ; None for inf/nan"""
    if type(x) is int:
        return x
    if type(x) is float:
        if x.is_integer():
            return int(x)
        if x != x or x in (math.inf, -math.inf):
            return None
        return Fraction(repr(x))
    if type(x) is Fraction:
        return x
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        return _num(float(x))
    # numpy scalars
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
        return _num(x.item())
    raise TypeError


def _mk(t, c):
    t = {k: v for k, v in t.items() if v != 0}
    if not t:
        if type(c) is Fraction:
            if c.denominator == 1:
                return int(c)
            return float(c)
        return c
    return Sym(t, c)


_FMT_OPS = None


def _caller_is_formatting(depth=2):
    """__float__ of a proxy is allowed from string formatting only."""
    global _FMT_OPS
    import dis
    if _FMT_OPS is None:
        _FMT_OPS = {"BINARY_OP", "FORMAT_VALUE", "FORMAT_SIMPLE",
                    "FORMAT_WITH_SPEC", "BUILD_STRING", "BINARY_MODULO"}
    f = sys._getframe(depth)
    op = dis.opname[f.f_code.co_code[f.f_lasti]]
    return op in _FMT_OPS


class Sym(object):
    __slots__ = ('t', 'c')

    def __init__(self, t, c):
        self.t = t
        self.c = c

    # -- arithmetic
    def __add__(self, o):
        if type(o) is Sym:
            t = dict(self.t)
            for k, v in o.t.items():
                t[k] = t.get(k, 0) + v
            return _mk(t, self.c + o.c)
        try:
            n = _num(o)
        except TypeError:
            return NotImplemented
        if n is None:
            return float(o)
        return Sym(self.t, self.c + n)
    __radd__ = __add__

    def __neg__(self):
        return Sym({k: -v for k, v in self.t.items()}, -self.c)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if type(o) is Sym:
            t = dict(self.t)
            for k, v in o.t.items():
                t[k] = t.get(k, 0) - v
            return _mk(t, self.c - o.c)
        try:
            n = _num(o)
        except TypeError:
            return NotImplemented
        if n is None:
            return -float(o)
        return Sym(self.t, self.c - n)

    def __rsub__(self, o):
        try:
            n = _num(o)
        except TypeError:
            return NotImplemented
        if n is None:
            return float(o)
        return Sym({k: -v for k, v in self.t.items()}, n - self.c)

    def __mul__(self, o):
        if type(o) is Sym:
            t = {}
            for k1, v1 in list(self.t.items()) + [((), self.c)]:
                for k2, v2 in list(o.t.items()) + [((), o.c)]:
                    k = tuple(sorted(k1 + k2))
                    t[k] = t.get(k, 0) + v1 * v2
            c = t.pop((), 0)
            return _mk(t, c)
        try:
            n = _num(o)
        except TypeError:
            return NotImplemented
        if n is None:
            raise Unsupported("symbolic * inf")
        if n == 0:
            return 0
        return Sym({k: v * n for k, v in self.t.items()}, self.c * n)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) is Sym:
            return Quot.make(self, o)
        try:
            n = _num(o)
        except TypeError:
            return NotImplemented
        if n is None:
            return 0.0
        if n == 0:
            raise ZeroDivisionError("float division by zero")
        return self * (Fraction(1) / n)

    def __rtruediv__(self, o):
        return Quot.make(o, self)

    def __ceil__(self):
        if self.is_int_valued():
            return self
        return _search_int(lambda k: self <= k)

    def __floor__(self):
        if self.is_int_valued():
            return self
        return -_search_int(lambda k: -self <= k)

    def __trunc__(self):
        """an actual integer: branches on its value"""
        if self >= 0:
            return -_search_int(lambda k: -self <= k)
        return _search_int(lambda k: self <= k)

    def __floordiv__(self, o):
        raise Unsupported("floor division of a symbolic value")
    __rfloordiv__ = __mod__ = __rmod__ = __floordiv__

    def __pow__(self, o):
        if o == 2:
            return self * self
        if o == 1:
            return self
        raise Unsupported("power")

    def __abs__(self):
        return self if self >= 0 else -self

    # -- comparisons : branch
    def __lt__(self, o):
        return _cmp(self, o, '<')

    def __le__(self, o):
        return _cmp(self, o, '<=')

    def __gt__(self, o):
        return _cmp(self, o, '>')

    def __ge__(self, o):
        return _cmp(self, o, '>=')

    def __eq__(self, o):
        return _cmp(self, o, '==')

    def __ne__(self, o):
        r = _cmp(self, o, '==')
        return NotImplemented if r is NotImplemented else not r

    def __hash__(self):
        return 7

    def __bool__(self):
        return not (self == 0)

    # -- concretisation
    def __float__(self):
        if _caller_is_formatting():
            if TOKENS is not None:
                return float(TOKENS.num(self)) + TOKENS.frac / 100.0
            return float(value_of(self))
        return STATE.concretise(self)

    def __int__(self):
        if _caller_is_formatting():
            if TOKENS is not None:
                return TOKENS.num(self if self.is_int_valued() else
                                  self.__trunc__())
            return int(value_of(self))
        return self.__trunc__()

    def __round__(self, n=None):
        raise Unsupported("round() of a symbolic value")

    def __index__(self):
        if self.is_int_valued():
            if _caller_is_formatting():
                if TOKENS is not None:
                    return TOKENS.num(self)
                return int(value_of(self))
            return self.__trunc__()
        raise TypeError("symbolic value used as an index")

    def is_int_valued(self):
        """integer for every value of the (integer) variables"""
        return type(self.c) is int and all(
            type(v) is int and STATE.gridof(k) == 1 for k, v in self.t.items())

    def rint(self):
        """nearest integer, ties to even, by branching"""
        if self.is_int_valued():
            return self
        f = self.__floor__()
        if self * 2 == 2 * f + 1:
            return f if f % 2 == 0 else f + 1
        return f if self * 2 < 2 * f + 1 else f + 1

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def is_integer(self):
        raise Unsupported("is_integer")

    def conjugate(self):
        return self

    def __repr__(self):
        return "Sym(%s=%s)" % ("+".join(
            "%s*%s" % (v, "*".join(STATE.names[i] for i in k))
            for k, v in self.t.items()) + "+%s" % (self.c,), float(value_of(self)))

    def __str__(self):
        return TOKENS.text(self) if TOKENS is not None else repr(self)

    def __format__(self, spec):
        if TOKENS is not None:
            return TOKENS.text(self)
        return format(float(value_of(self)), spec)

    def __reduce__(self):
        raise Unsupported("pickling of a symbolic value")


BIG_NUMBERS = False      # values that are rounded may be large (but bounded)


def _search_int(pred, limit=64):
    """smallest integer satisfying a monotone predicate, by branching"""
    k = 0
    if BIG_NUMBERS:
        hi = 1
        while not pred(hi):
            hi *= 16
            if hi > 1 << 48:
                raise Unsupported("rounding of a large symbolic value")
        lo = -1
        while pred(lo):
            lo *= 16
            if lo < -1 << 48:
                raise Unsupported("rounding of a large symbolic value")
        while hi - lo > 1:      # pred(hi), not pred(lo)
            k = (hi + lo) // 2
            if pred(k):
                hi = k
            else:
                lo = k
        return hi
    if pred(0):
        while pred(k - 1):
            k -= 1
            if k < -limit:
                raise Unsupported("rounding of a large symbolic value")
        return k
    while not pred(k):
        k += 1
        if k > limit:
            raise Unsupported("rounding of a large symbolic value")
    return k


class Quot(object):
    """quotient of two values, the denominator is positive"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n = n
        self.d = d

    @staticmethod
    def make(n, d):
        if d == 0:
            raise ZeroDivisionError("float division by zero")
        if d < 0:
            n, d = -n, -d
        return Quot(n, d)

    @staticmethod
    def _parts(o):
        if type(o) is Quot:
            return o.n, o.d
        if type(o) is Sym:
            return o, 1
        try:
            v = _num(o)
        except TypeError:
            return None
        if v is None:
            raise Unsupported("infinite value and a symbolic quotient")
        return v, 1

    def _cmp(self, o, op):
        p = self._parts(o)
        if p is None:
            return NotImplemented
        a = self.n * p[1] - p[0] * self.d
        return {'<': lambda: a < 0, '<=': lambda: a <= 0, '>': lambda: a > 0,
                '>=': lambda: a >= 0, '==': lambda: a == 0}[op]()

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        r = self._cmp(o, '==')
        return r if r is NotImplemented else not r

    def __hash__(self):
        return 7

    def __bool__(self):
        return not (self.n == 0)

    def __add__(self, o):
        p = self._parts(o)
        if p is None:
            return NotImplemented
        return Quot(self.n * p[1] + p[0] * self.d, self.d * p[1])
    __radd__ = __add__

    def __neg__(self):
        return Quot(-self.n, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        p = self._parts(o)
        if p is None:
            return NotImplemented
        return Quot(self.n * p[0], self.d * p[1])
    __rmul__ = __mul__

    def __truediv__(self, o):
        p = self._parts(o)
        if p is None:
            return NotImplemented
        if p[0] == 0:
            raise ZeroDivisionError("float division by zero")
        n, d = self.n * p[1], self.d * p[0]
        return Quot.make(n, d)

    def __ceil__(self):
        return _search_int(lambda k: self.n <= self.d * k)

    def __floor__(self):
        return -_search_int(lambda k: -self.n <= self.d * k)

    def __trunc__(self):
        return self.__floor__() if self >= 0 else self.__ceil__()

    def __int__(self):
        return self.__trunc__()

    def __float__(self):
        if _caller_is_formatting():
            if TOKENS is not None:
                return float(TOKENS.num(self)) + TOKENS.frac / 100.0
            return float(value_of(self.n)) / float(value_of(self.d))
        return STATE.concretise(self)

    def __abs__(self):
        return self if self >= 0 else -self

    def __float__(self):
        if _caller_is_formatting():
            return float(Fraction(value_of(self.n)) / Fraction(value_of(self.d)))
        raise Unsupported("float() of a symbolic quotient")

    def __format__(self, spec):
        return format(float(Fraction(value_of(self.n)) /
                            Fraction(value_of(self.d))), spec)

    def __repr__(self):
        return "Quot(%r/%r)" % (self.n, self.d)
    __str__ = __repr__


def value_of(s):
    if type(s) is not Sym:
        return s
    m = STATE.model
    tot = Fraction(s.c)
    for k, v in s.t.items():
        p = 1
        for i in k:
            p *= m[i]
        tot += Fraction(v) * Fraction(p, STATE.gridof(k))
    return tot


# atoms: (T, b) stands for  sum(coef * prod(k)) <= b , T a canonical tuple
def _norm(t, c, strict):
    """value = sum t/GRID^deg + c  (<|<=) 0  ->  (T, b, polarity) or a bool"""
    maxdeg = 1
    for k in t:
        if len(k) > maxdeg:
            maxdeg = len(k)
    S = STATE
    # common integer scaling
    den = 1
    full = GRID ** maxdeg
    items = []
    for k, v in t.items():
        w = v * (full // S.gridof(k))
        if type(w) is Fraction:
            den = den * w.denominator // math.gcd(den, w.denominator)
        items.append((k, w))
    cc = c * full
    if den != 1:
        items = [(k, int(w * den)) for k, w in items]
        cc = cc * den
    else:
        items = [(k, int(w)) for k, w in items]
    # sum items + cc < 0   or <= 0 ; sum is an integer
    rhs = -cc
    if strict:
        b = math.ceil(rhs) - 1
    else:
        b = math.floor(rhs)
    g = 0
    for _, w in items:
        g = math.gcd(g, w)
    if g > 1:
        items = [(k, w // g) for k, w in items]
        b = b // g
    items.sort()
    if items[0][1] < 0:
        # sum <= b  <=>  -sum >= -b  <=>  not(-sum <= -b-1)
        items = [(k, -w) for k, w in items]
        return tuple(items), -b - 1, False
    return tuple(items), b, True


def _cmp(a, o, op):
    if type(o) is Sym:
        t = dict(a.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) - v
        t = {k: v for k, v in t.items() if v != 0}
        c = a.c - o.c
    else:
        if type(o) is Quot:
            return NotImplemented
        if o is None or isinstance(o, (str, list, tuple, dict)):
            if op == '==':
                return False
            return NotImplemented
        try:
            n = _num(o)
        except TypeError:
            return NotImplemented
        if n is None:
            if o != o:
                return False
            pos = o > 0
            return {'<': pos, '<=': pos, '>': not pos, '>=': not pos,
                    '==': False}[op]
        t = a.t
        c = a.c - n
    if not t:
        return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0,
                '==': c == 0}[op]
    if op == '<':
        return STATE.branch(*_norm(t, c, True))
    if op == '<=':
        return STATE.branch(*_norm(t, c, False))
    nt = {k: -v for k, v in t.items()}
    if op == '>':
        return STATE.branch(*_norm(nt, -c, True))
    if op == '>=':
        return STATE.branch(*_norm(nt, -c, False))
    # ==
    if not STATE.branch(*_norm(t, c, False)):
        return False
    return STATE.branch(*_norm(nt, -c, False))


# ------------------------------------------------------------- run state ---

class State(object):
    """what the currently executing path needs (one per process)"""

    def __init__(self):
        self.names = []
        self.domain = []      # (lo, hi) of small integer variables
        self.scale = []       # 1 for integer-valued variables, GRID otherwise
        self.reset([], [], None)
        self.max_branches = 20000

    def gridof(self, k):
        p = 1
        for i in k:
            p *= self.scale[i]
        return p

    def reset(self, model, prefix, base_bounds):
        self.model = model
        self.prefix = prefix
        self.branches = []      # (T, b, taken)
        self.bounds = dict(base_bounds) if base_bounds else {}
        self.pinned = []        # concretised atoms (not flipped)
        self.nbr = 0
        self.deadline = None
        self.active = True

    def evalT(self, T):
        m = self.model
        s = 0
        for k, w in T:
            if len(k) == 1:
                s += w * m[k[0]]
            else:
                p = w
                for i in k:
                    p *= m[i]
                s += p
        return s

    def note(self, T, b, truth):
        lo, hi = self.bounds.get(T, (None, None))
        if truth:
            if hi is None or b < hi:
                hi = b
        else:
            if lo is None or b + 1 > lo:
                lo = b + 1
        self.bounds[T] = (lo, hi)

    def branch(self, T, b, pol):
        """decide  (T<=b) == pol"""
        bd = self.bounds.get(T)
        if bd is not None:
            lo, hi = bd
            if hi is not None and hi <= b:
                return pol
            if lo is not None and lo > b:
                return not pol
        i = len(self.branches)
        if i >= self.max_branches:
            raise PathAbort("too many branches")
        if self.deadline is not None and (i & 63) == 0 and \
                time.time() > self.deadline:
            raise PathAbort("time")
        if i < len(self.prefix):
            pT, pb, truth = self.prefix[i]
            if pT != T or pb != b:
                raise PathAbort("nondeterministic replay")
        else:
            truth = self.evalT(T) <= b
        self.branches.append((T, b, truth))
        self.note(T, b, truth)
        return truth == pol

    def concretise(self, s):
        raise Unsupported("float() of a symbolic value")


STATE = State()


# ---------------------------------------------------------------- formulas ---
# Property conditions: python bools or z3 BoolRef

def _zvar(i):
    return STATE.zvars[i]


def _zT(T):
    e = STATE.zcache.get(T)
    if e is None:
        terms = []
        for k, w in T:
            p = None
            for i in k:
                p = _zvar(i) if p is None else p * _zvar(i)
            terms.append(p if w == 1 else w * p)
        e = terms[0] if len(terms) == 1 else z3.Sum(terms)
        STATE.zcache[T] = e
    return e


def atom_z3(T, b, truth=True):
    key = (T, b, truth)
    f = STATE.zcache.get(key)
    if f is None:
        e = _zT(T)
        f = (e <= b) if truth else (e >= b + 1)
        STATE.zcache[key] = f
    return f


TOL = 1e-6


def LE(a, b):
    """a <= b as a formula (no branching); tolerance on concrete floats"""
    return _rel(a, b, False)


def LT(a, b):
    return _rel(a, b, True)


def _rel(a, b, strict):
    if type(a) is not Sym and type(b) is not Sym:
        if strict:
            return bool(a < b - TOL)
        return bool(a <= b + TOL)
    if type(a) is Sym:
        d = a - b
    else:
        d = -(b - a)
    if type(d) is not Sym:
        return bool(d < 0) if strict else bool(d <= 0)
    T, bb, pol = _norm(d.t, d.c, strict)
    return atom_z3(T, bb, pol)


def EQ(a, b):
    if type(a) is not Sym and type(b) is not Sym:
        return bool(abs(a - b) <= TOL)
    return AND(LE(a, b), LE(b, a))


def AND(*fs):
    out = []
    for f in fs:
        if isinstance(f, (list, tuple)):
            f = AND(*f)
        if f is True:
            continue
        if f is False:
            return False
        out.append(f)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def OR(*fs):
    out = []
    for f in fs:
        if isinstance(f, (list, tuple)):
            f = OR(*f)
        if f is False:
            continue
        if f is True:
            return True
        out.append(f)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def NOT(f):
    if f is True:
        return False
    if f is False:
        return True
    return z3.Not(f)


def IMPLIES(a, b):
    return OR(NOT(a), b)


# ---------------------------------------------------------------- explorer ---

class Ctx(object):
    """handed to harness.build(): creates the inputs, symbolic or concrete"""
    symbolic = True

    def __init__(self):
        self.assumptions = []

    def var(self, name, lo=0, hi=None, integer=False):
        i = len(STATE.names)
        STATE.names.append(name)
        STATE.scale.append(1 if integer else GRID)
        STATE.domain.append((lo, hi) if integer and lo is not None and
                            hi is not None and hi - lo <= 512 else None)
        s = Sym({(i,): 1}, 0)
        if lo is not None:
            self.assume(LE(lo, s))
        if hi is not None:
            self.assume(LE(s, hi))
        return s

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise ValueError("assumption is false")
        self.assumptions.append(f)


class ConcreteCtx(object):
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.bad = []

    def var(self, name, lo=0, hi=None, integer=False):
        v = self.values[name]
        return int(v) if integer else float(v)

    def assume(self, f):
        if f is not True:
            self.bad.append(f)


class Explorer(object):
    """explores one harness configuration in this process"""

    def __init__(self, harness):
        self.h = harness
        S = STATE
        S.names = []
        S.scale = []
        S.domain = []
        S.zcache = {}
        S.zvars = _LazyVars()
        self.ctx = Ctx()
        S.reset([], [], None)
        self.inputs = harness.build(self.ctx)
        self.solver = z3.SolverFor("QF_LRA") if not harness.nonlinear \
            else z3.SolverFor("QF_NRA")
        self.solver.set("timeout", 20000)
        for f in self.ctx.assumptions:
            self.solver.add(f)
        self.stack = []          # pushed atoms
        self.nq = 0
        self.tsolve = 0.0
        self.unknown = 0
        self.int_solver = None

    # -- solving
    def _check(self, *assumps):
        self.nq += 1
        t = time.time()
        r = self.solver.check(*assumps)
        self.tsolve += time.time() - t
        if r == z3.unknown:
            self.unknown += 1
        return r

    def _model(self, extra):
        """integer model (list of k) from the last sat check, or None"""
        m = self.solver.model()
        n = len(STATE.names)
        vals = []
        den = 1
        for i in range(n):
            v = m.eval(STATE.zvars[i], model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(10)
            fr = Fraction(v.numerator_as_long(), v.denominator_as_long())
            vals.append(fr)
            den = den * fr.denominator // math.gcd(den, fr.denominator)
        if den == 1:
            return [int(v) for v in vals]
        vals = [int(v * den) for v in vals]
        # the scaled point must satisfy everything
        if self._sat_at(vals, extra):
            return vals
        return self._int_model(extra)

    def _sat_at(self, vals, extra):
        subs = [(STATE.zvars[i], z3.RealVal(vals[i])) for i in range(len(vals))]
        for f in list(self.solver.assertions()) + list(extra):
            g = z3.simplify(z3.substitute(f, *subs))
            if not z3.is_true(g):
                return False
        return True

    def _int_model(self, extra):
        s = z3.Solver()
        s.set("timeout", 20000)
        ivs = [z3.Int("i%d" % i) for i in range(len(STATE.names))]
        subs = [(STATE.zvars[i], z3.ToReal(ivs[i])) for i in range(len(ivs))]
        for f in list(self.solver.assertions()) + list(extra):
            s.add(z3.substitute(f, *subs))
        if self.h.nonlinear:
            # small domains: the solver splits the cases
            for v, d in zip(ivs, STATE.domain):
                if d is not None:
                    s.add(z3.Or(*[v == k for k in range(d[0], d[1] + 1)]))
        t = time.time()
        r = s.check()
        self.nq += 1
        self.tsolve += time.time() - t
        if r == z3.sat:
            m = s.model()
            return [m.eval(v, model_completion=True).as_long() for v in ivs]
        if r == z3.unknown:
            self.unknown += 1
            return 'unknown'
        return None

    def sync(self, branches):
        """make the solver stack hold exactly `branches`"""
        n = 0
        for a, b in zip(self.stack, branches):
            if a != b:
                break
            n += 1
        if len(self.stack) > n:
            self.solver.pop(len(self.stack) - n)
            del self.stack[n:]
        for a in branches[n:]:
            self._push(a)

    def _push(self, a):
        self.solver.push()
        self.solver.add(atom_z3(*a))
        self.stack.append(a)

    def root(self):
        r = self._check()
        if r != z3.sat:
            raise RuntimeError("assumptions of %s unsatisfiable (%s)" %
                               (self.h.name, r))
        m = self._model([])
        if m is None or m == 'unknown':
            raise RuntimeError("no initial model for " + self.h.name)
        return ((), m)

    # -- one path
    def explore(self, items, budget_paths, deadline, out):
        """depth-first; returns leftover items"""
        h = self.h
        S = STATE
        work = list(items)
        done = 0
        while work:
            if done >= budget_paths or time.time() > deadline:
                return work
            prefix, model = work.pop()
            done += 1
            S.reset(model, prefix, None)
            S.deadline = min(deadline + 5, time.time() + h.path_seconds)
            exc = None
            result = None
            try:
                signal.setitimer(signal.ITIMER_REAL, h.path_seconds + 10)
                try:
                    result = h.run(self.inputs)
                    signal.setitimer(signal.ITIMER_REAL, 0)
                except Unsupported as e:
                    out.unsupported += 1
                    out.note("unsupported: %s" % e)
                    exc = e
                except PathAbort as e:
                    if str(e) == "time" and time.time() > deadline:
                        work.append((prefix, model))
                        return work
                    out.aborted += 1
                    out.note("aborted path: %s" % e)
                    exc = e
                except (Exception, KeyboardInterrupt) as e:
                    exc = e
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                S.active = False
            branches = S.branches
            S.deadline = None
            out.paths += 1
            out.branches += max(0, len(branches) - len(prefix))
            if len(branches) > out.maxdepth:
                out.maxdepth = len(branches)
            # flip the new branches; deepest item ends last in `work`
            self.sync(prefix)
            for i in range(len(prefix), len(branches)):
                a = branches[i]
                neg = (a[0], a[1], not a[2])
                f = atom_z3(*neg)
                r = self._check(f)
                if r == z3.sat:
                    m = self._model([f])
                    if m == 'unknown' or (m is None and h.nonlinear and
                                          None in S.domain):
                        out.note("integer model unknown")
                        out.incomplete += 1
                    elif m is not None:
                        work.append((tuple(branches[:i]) + (neg,), m))
                elif r == z3.unknown:
                    out.incomplete += 1
                    out.note("solver unknown on a branch")
                self._push(a)
            if len(prefix) == len(branches) and len(self.stack) != len(branches):
                self.sync(branches)
            if isinstance(exc, (Unsupported,)):
                out.suspect(self.h, model, "unsupported", S)
                continue
            if isinstance(exc, PathAbort):
                out.suspect(self.h, model, "aborted", S)
                continue
            # -- the property
            S.active = True
            nb = len(S.branches)
            try:
                conds = list(h.props(self.inputs, result, exc))
            except Unsupported as e:
                out.unsupported += 1
                out.note("unsupported in property: %s" % e)
                continue
            except Exception as e:
                # the oracle could not make sense of the result
                conds = [("malformed result: %r" % (e,), False)]
            S.active = False
            if len(S.branches) != nb:
                raise RuntimeError("property of %s branched" % h.name)
            fs = []
            bad = None
            for label, f in conds:
                out.obligations += 1
                if not isinstance(f, (bool, z3.ExprRef)):
                    f = bool(f)
                if f is True:
                    out.trivial += 1
                    continue
                if f is False:
                    bad = (label, model)
                    break
                fs.append((label, f))
            if bad is None and fs:
                neg = z3.Or(*[z3.Not(f) for _, f in fs]) if len(fs) > 1 else \
                    z3.Not(fs[0][1])
                r = self._check(neg)
                if r == z3.unknown:
                    out.incomplete += 1
                    out.note("solver unknown on a property")
                elif r == z3.sat:
                    m = self._model([neg])
                    if m == 'unknown':
                        out.incomplete += 1
                    elif m is not None:
                        lab = [l for l, f in fs
                               if not self._holds_at(f, m)] or ["?"]
                        bad = (lab[0], m)
            if bad is not None:
                out.violation(h, bad[0], bad[1], S)
                if out.stop:
                    return []
            else:
                out.sample(h, model, result, exc, S)
        return work

    def _holds_at(self, f, vals):
        subs = [(STATE.zvars[i], z3.RealVal(vals[i])) for i in range(len(vals))]
        return z3.is_true(z3.simplify(z3.substitute(f, *subs)))


class _LazyVars(dict):
    def __missing__(self, i):
        v = z3.Real("k%d" % i)
        self[i] = v
        return v


def assignment(model):
    """name -> exact value for a list of ks"""
    out = {}
    for i, n in enumerate(STATE.names):
        v = Fraction(model[i], STATE.scale[i])
        out[n] = int(v) if v.denominator == 1 else float(v)
    return out
