"""P01-P04: problem and solution files, distance functions."""
import math
import operator
import shutil
import tempfile
from fractions import Fraction
from symex.base import *
from harness.h_multi import NpShim
from harness.h_core import idx, distinct_tour, ProxyMatrix

IO = "verypy.cvrp_io"


class IntTok(int, metaclass=type("M", (type,), {
        "__instancecheck__": lambda c, x: isinstance(x, int)})):
    """int() that understands tokens and keeps integer proxies"""
    def __new__(cls, x=0, *a):
        if isinstance(x, str) and core.TOKENS is not None:
            v = core.TOKENS.lookup(x)
            if v is not None:
                if not v.is_int_valued():
                    raise ValueError("invalid literal for int(): %r" % x)
                return v
        if type(x) is Sym:
            return x if x.is_int_valued() else x.__trunc__()
        return int(x, *a)


class FloatTok(FloatShim):
    def __new__(cls, x=0.0):
        if isinstance(x, str) and core.TOKENS is not None:
            v = core.TOKENS.lookup(x)
            if v is not None:
                return v
        return FloatShim(x)


class TokMatrix(ProxyMatrix):
    """matrix of proxies; integer conversion keeps integer proxies"""
    def astype(self, t, **kw):
        if t in (int, IntTok, 'int', 'i'):
            a = self.copy()
            # one value with a fraction decides that reals stay reals
            frac = any(type(v) is float and v != int(v) for v in self.flat)
            for i in range(a.size):
                if frac and type(a.flat[i]) is Sym and \
                        not a.flat[i].is_int_valued():
                    continue
                a.flat[i] = IntTok(a.flat[i])
            a.kind_int = True
            return a
        return ProxyMatrix.astype(self, t, **kw)


class IoNp(NpShim):
    def zeros(self, shape, dtype=None):
        return NpShim.zeros(self, shape, dtype).view(TokMatrix)


class Root(object):
    """q * sqrt(n), n a non-negative value"""

    def __init__(self, n, q=1):
        self.n = n
        self.q = Fraction(q)

    def __truediv__(self, o):
        return Root(self.n, self.q / Fraction(o))

    def __mul__(self, o):
        return Root(self.n, self.q * Fraction(o))
    __rmul__ = __mul__

    def _sq(self, o):
        f = Fraction(o) / self.q
        return f, f * f

    def __le__(self, o):
        f, s = self._sq(o)
        return f >= 0 and bool(self.n <= s)

    def __lt__(self, o):
        f, s = self._sq(o)
        return f > 0 and bool(self.n < s)

    def __gt__(self, o):
        return not self <= o

    def __ge__(self, o):
        return not self < o

    def __eq__(self, o):
        f, s = self._sq(o)
        return f >= 0 and bool(self.n == s)

    def __ceil__(self):
        k = 0
        while not self <= k:
            k += 1
            if k > 200:
                raise core.Unsupported("large root")
        return k

    def __floor__(self):
        k = 0
        while self >= k + 1:
            k += 1
            if k > 200:
                raise core.Unsupported("large root")
        return k
    __int__ = __trunc__ = __floor__

    def verif_value(self):
        v = self.n
        if type(v) is Sym:
            v = core.value_of(v)
        return float(self.q) * math.sqrt(v)

    def rint(self):
        f = self.__floor__()
        h = f + Fraction(1, 2)
        if self == h:
            return f if f % 2 == 0 else f + 1
        return f if self < h else f + 1

    def __round__(self, nd=None):
        return self.rint()


def _sqrt(x):
    return Root(x) if type(x) is Sym else math.sqrt(x)


def _dist(u, v, metric):
    if callable(metric):
        return metric(u, v)
    ds = [abs(a - b) for a, b in zip(u, v)]
    if metric == 'cityblock':
        return ds[0] + ds[1]
    if metric == 'chebyshev':
        return ds[0] if ds[0] >= ds[1] else ds[1]
    if metric == 'euclidean':
        return _sqrt(ds[0] * ds[0] + ds[1] * ds[1])
    raise core.Unsupported("distance " + str(metric))


class _P(object):
    def __init__(self, pts, metric):
        n = len(pts)
        self.M = np.zeros((n, n), dtype=object).view(TokMatrix)
        for i in range(n):
            if metric == 'euclidean':
                self.M[i, i] = Root(0)
            for j in range(i + 1, n):
                self.M[i, j] = self.M[j, i] = _dist(pts[i], pts[j], metric)


def _cdist(a, b, metric='euclidean'):
    M = np.zeros((len(a), len(b)), dtype=object).view(TokMatrix)
    for i in range(len(a)):
        for j in range(len(b)):
            M[i, j] = _dist(a[i], b[j], metric)
    return M


class IoHarness(Harness):
    functions = (IO + ".read_TSPLIB_CVRP",)

    def io(self, inp):
        (m,) = modules_ready(IO)
        core.TOKENS = None
        if not os.environ.get("VERIF_CLEAN"):
            if inp["sym"]:
                core.TOKENS = core.Tokens()
                if not isinstance(m.np, IoNp):
                    m.np = IoNp(np)
                m.__dict__.update(int=IntTok, float=FloatTok, pdist=_P,
                                  cdist=_cdist, sqrt=_sqrt,
                                  squareform=lambda p: p.M)
            else:
                import scipy.spatial.distance as sd
                m.np = np
                m.__dict__.update(int=int, float=float, pdist=sd.pdist,
                                  cdist=sd.cdist, squareform=sd.squareform,
                                  sqrt=math.sqrt)
        return m

    def run(self, inp):
        m = self.io(inp)
        d = tempfile.mkdtemp(prefix="verif-io-")
        try:
            return self.go(m, inp, d)
        finally:
            core.TOKENS = None
            shutil.rmtree(d)

    @staticmethod
    def txt(v):
        if type(v) is Sym:
            return core.TOKENS.text(v)
        return repr(v) if isinstance(v, float) and v != int(v) else \
            (repr(v) if isinstance(v, float) else str(v))


def tri(n, form):
    """order in which the format lists the entries"""
    R = range(n)
    return {
        "FULL_MATRIX": [(i, j) for i in R for j in R],
        "UPPER_ROW": [(i, j) for i in R for j in R if j > i],
        "LOWER_ROW": [(i, j) for i in R for j in R if j < i],
        "UPPER_DIAG_ROW": [(i, j) for i in R for j in R if j >= i],
        "LOWER_DIAG_ROW": [(i, j) for i in R for j in R if j <= i],
        "LOWER_COL": [(i, j) for j in R for i in R if i > j],
    }[form]


def wrap(tokens, how, n):
    """break the numbers to lines"""
    if how == "one":
        return " ".join(tokens) + "\n"
    if how == "each":
        return "".join("  %s\n" % t for t in tokens)
    k = {"three": 3}.get(how, 4)
    return "".join("\t".join(tokens[i:i + k]) + " \n"
                   for i in range(0, len(tokens), k))


class Parse(IoHarness):
    """a written problem file is read back as the instance it describes"""

    def bounds(self):
        return "%d nodes, %s, layout %s, depot %d, %s numbers, every value " \
            "of the distances/coordinates, demands, capacity, limits" % (
                self.n, self.form, self.lay, self.depot,
                "integer" if self.ints else "real")

    def build(self, ctx):
        n = self.n
        inp = dict(sym=ctx.symbolic)
        hi = 3 if not self.ints else None
        if self.form.endswith("2D"):
            inp["pts"] = [(ctx.var("px%d" % i, -4, 4, integer=self.ints),
                           ctx.var("py%d" % i, -4, 4, integer=self.ints))
                          for i in range(n)]
        else:
            D = [[0] * n for _ in range(n)]
            for i in range(n):
                for j in range(i + 1, n):
                    D[i][j] = D[j][i] = ctx.var(
                        "D%d_%d" % (i, j), 0, hi,
                        integer=self.ints or i + j > 1)
            inp["D"] = D
        dep = self.depot - 1
        if self.demand:
            inp["d"] = [0 if i == dep else ctx.var(
                "d%d" % i, 0, None, integer=self.ints) for i in range(n)]
            inp["C"] = ctx.var("C", 1, None, integer=True)
        for k in self.extra:
            inp[k] = ctx.var(k, 1, None, integer=self.ints or k == "K")
        return inp

    def go(self, m, inp, tmp):
        n, t = self.n, self.txt
        sep = ": " if self.lay != "three" else " : "
        out = ["NAME%stest-k5" % sep, "COMMENT%ssomething (Min: 3, x)" % sep,
               "TYPE%s%s" % (sep, "CVRP" if self.demand else "TSP"),
               "DIMENSION%s%d" % (sep, n)]
        coords = self.form.endswith("2D")
        if coords:
            out.append("EDGE_WEIGHT_TYPE%s%s" % (sep, self.form))
        else:
            out.append("EDGE_WEIGHT_TYPE%sEXPLICIT" % sep)
            out.append("EDGE_WEIGHT_FORMAT%s%s" % (sep, self.form))
        if self.demand:
            out.append("CAPACITY%s%s" % (sep, t(inp["C"])))
        if "L" in self.extra:
            out.append("DISTANCE%s%s" % (sep, t(inp["L"])))
        if "K" in self.extra:
            out.append("VEHICLES%s%s" % (sep, t(inp["K"])))
        if "st" in self.extra and not self.stsec:
            out.append("SERVICE_TIME%s%s" % (sep, t(inp["st"])))
        txt = "\n".join(out) + "\n"
        if not coords:
            txt += "EDGE_WEIGHT_SECTION\n" + wrap(
                [t(inp["D"][i][j]) for i, j in tri(n, self.form)], self.lay, n)
        else:
            txt += "NODE_COORD_SECTION\n" + "".join(
                " %d %s %s\n" % (i + 1, t(x), t(y))
                for i, (x, y) in enumerate(inp["pts"]))
        if self.lay == "each":
            txt += "\n"
        if self.demand:
            txt += "DEMAND_SECTION\n" + "".join(
                "%d %s\n" % (i + 1, t(v)) for i, v in enumerate(inp["d"]))
        if "st" in self.extra and self.stsec:
            txt += "SVC_TIME_SECTION\n" + "".join(
                "%d %s\n" % (i + 1, t(inp["st"]) if i else "0")
                for i in range(n))
        if self.demand:
            txt += "DEPOT_SECTION\n %d\n -1\n" % self.depot
        txt += "EOF\n"
        fn = os.path.join(tmp, "t.vrp")
        with open(fn, "w") as f:
            f.write(txt)
        P = m.read_TSPLIB_CVRP(fn)
        return P, m.read_TSBLIB_additional_constraints(fn)

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        P, (K, L, st) = res
        n = self.n
        N, pts, dd, d, D, C, ewt = P
        yield "number of customers is %r" % (N,), N == n - 1
        dep = self.depot - 1
        perm = [dep] + [i for i in range(n) if i != dep]
        yield "shape of the matrix", tuple(D.shape) == (n, n)
        if self.form.endswith("2D"):
            yield "edge weight type", ewt == self.form
            for a in range(n):
                for k in (0, 1):
                    yield "coordinate %d of node %d" % (k, a), \
                        EQ(pts[a][k], inp["pts"][perm[a]][k])
            for a in range(n):
                for b in range(n):
                    (x, y), (u, v) = inp["pts"][perm[a]], inp["pts"][perm[b]]
                    yield "distance %d-%d" % (a, b), \
                        distance_is(D[a, b], x - u, y - v, self.form)
        else:
            yield "edge weight type", ewt == "EXPLICIT"
            for a in range(n):
                for b in range(n):
                    yield "distance %d-%d is not that of the file" % (a, b), \
                        EQ(D[a, b], inp["D"][perm[a]][perm[b]])
        if self.demand:
            yield "number of demands", len(d) == n
            for a in range(n):
                yield "demand of node %d" % a, EQ(d[a], inp["d"][perm[a]])
            yield "capacity", EQ(C, inp["C"])
        else:
            yield "demands or capacity out of nothing", d is None and C is None
        for k, v in (("K", K), ("L", L), ("st", st)):
            if k in self.extra:
                yield "constraint %s is missing" % k, v is not None
                if v is not None:
                    yield "constraint %s" % k, EQ(v, inp[k])
            else:
                yield "constraint %s out of nothing: %r" % (k, v), v is None


def distance_is(r, dx, dy, form):
    if form == "MAN_2D":
        c = [dx + dy, dx - dy, dy - dx, -dx - dy]
        return AND(OR(*[EQ(r, v) for v in c]), *[LE(v, r) for v in c])
    if form == "MAX_2D":
        c = [dx, -dx, dy, -dy]
        return AND(OR(*[EQ(r, v) for v in c]), *[LE(v, r) for v in c])
    s = dx * dx + dy * dy
    if form == "EXACT_2D":
        if type(r) is Root:
            return AND(r.q == 1, EQ(r.n, s))
        return EQ(r * r, s)
    if type(r) is Root:
        # not rounded: right only where the exact distance is an integer
        return AND(r.q == 1, EQ(r.n, s), OR(*[EQ(s, k * k)
                                              for k in range(160)]))
    if type(r) is not Sym and r != int(r):
        return False
    if form == "FLOOR_2D":
        return AND(LE(0, r), LE(r * r, s), LT(s, (r + 1) * (r + 1)))
    if form == "CEIL_2D":
        return AND(LE(0, r), LE(s, r * r), OR(r == 0, LT((r - 1) * (r - 1), s)))
    if form == "ATT":
        return AND(LE(0, r), LE(s, 10 * r * r),
                   OR(r == 0, LT(10 * (r - 1) * (r - 1), s)))
    if form == "EUC_2D":
        return AND(LE(0, r), LE(4 * s, (2 * r + 1) * (2 * r + 1)),
                   OR(r == 0, LE((2 * r - 1) * (2 * r - 1), 4 * s)))
    raise AssertionError(form)


FORMS = ("FULL_MATRIX", "UPPER_ROW", "LOWER_ROW", "UPPER_DIAG_ROW",
         "LOWER_DIAG_ROW", "LOWER_COL")


def P01(tier):
    T = tier == "thorough"
    hs = []

    def add(n, form, lay, depot, demand, ints, extra=(), stsec=False):
        hs.append(Parse("parse/%s/n%d/%s/depot%d%s/%s%s%s" % (
            form, n, lay, depot, "/d" if demand else "",
            "int" if ints else "real", "/" + "+".join(extra) if extra else "",
            "/sec" if stsec else ""),
            n=n, form=form, lay=lay, depot=depot, demand=demand, ints=ints,
            extra=extra, stsec=stsec, priority=n,
            functions=(IO + ".read_TSPLIB_CVRP",
                       IO + ".read_TSBLIB_additional_constraints",
                       IO + ".calculate_D")))
    for form in FORMS:
        for lay in ("one", "each", "three"):
            for n in (2, 3, 4, 5, 6) + ((7, 8, 9, 10) if T else ()):
                add(n, form, lay, 1, 1, 1, ("L", "K", "st"))
                if lay == "one":
                    add(n, form, lay, 1, 0, 1)
                for dep in range(2, n + 1):
                    if lay == "three" or T:
                        add(n, form, lay, dep, 1, 1)
        for n in (3,):
            add(n, form, "three", 1, 1, 0, ("L", "st"))
    for form in ("MAN_2D", "MAX_2D"):
        for ints in (0, 1):
            add(3, form, "one", 1, 1, ints, ("L",))
            add(3, form, "one", 2, 1, ints, ("K",))
            add(3, form, "each", 3, 0 if False else 1, ints)
    for ints in (0, 1):
        add(3, "FULL_MATRIX", "one", 1, 1, ints, ("st",), True)
        add(3, "UPPER_ROW", "one", 1, 1, ints, ("K", "L", "st"), True)
    return hs


# ---------------------------------------------------------------- P02 --------

class RoundTrip(IoHarness):
    def bounds(self):
        return "%d nodes, %s file%s%s, every symmetric matrix, integer " \
            "demands, capacity and limit" % (
                self.n, self.ext, ", selected nodes %s" % (self.sel,) if
                self.sel else "", ", precision %s" % self.prec if self.prec
                else "")

    def build(self, ctx):
        n = self.n
        D = np.zeros((n, n), dtype=object if ctx.symbolic else float)
        for i in range(n):
            for j in range(i + 1, n):
                D[i, j] = D[j, i] = ctx.var(
                    "D%d_%d" % (i, j), 0, 3 if not self.ints else None,
                    integer=self.ints)
        inp = dict(D=D, sym=ctx.symbolic, d=None, C=None, L=None)
        if self.demand:
            inp["d"] = [0] + [ctx.var("d%d" % i, 1, None, integer=True)
                              for i in range(1, n)]
            inp["C"] = ctx.var("C", 1, None, integer=True)
        if self.useL:
            inp["L"] = ctx.var("L", 1, None, integer=True)
        return inp

    def go(self, m, inp, tmp):
        fn = os.path.join(tmp, "x." + self.ext)
        kw = {}
        if inp["sym"]:
            m.__dict__["str"] = lambda x: core.TOKENS.text(x) \
                if type(x) is Sym else str(x)
        else:
            m.__dict__["str"] = str
        if self.sel:
            kw["selected_idxs"] = list(self.sel)
        if self.prec:
            kw["float_to_int_precision"] = self.prec
        m.write_TSPLIB_file(fn, inp["D"],
                            None if inp["d"] is None else list(inp["d"]),
                            inp["C"], inp["L"], **kw)
        return (m.read_TSPLIB_CVRP(fn),
                m.read_TSBLIB_additional_constraints(fn))

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        (N, pts, dd, d, D, C, ewt), (K, L, st) = res
        sel = self.sel or range(self.n)
        n = len(sel)
        yield "wrong number of nodes: %r" % (N,), \
            N == n - 1 and tuple(D.shape) == (n, n)
        if N != n - 1:
            return
        for a in range(n):
            for b in range(n):
                v = inp["D"][sel[a], sel[b]]
                if self.prec:
                    v = v * self.prec
                yield "distance %d-%d after writing and reading" % (a, b), \
                    EQ(D[a, b], v)
        if self.ext == "vrp":
            yield "number of demands %r" % (d,), d is not None and len(d) == n
            for a in range(1, n):
                yield "demand of %d after writing and reading" % a, EQ(
                    d[a], inp["d"][sel[a]] if inp["d"] is not None else 1)
            yield "capacity", EQ(C, inp["C"]) if inp["C"] is not None else \
                LE(n - 1, C)
            yield "limit", (L is not None and EQ(L, inp["L"])) \
                if self.useL else L is None
        else:
            yield "demands out of nothing", d is None and C is None


def P02(tier):
    T = tier == "thorough"
    hs = []
    for n in (2, 3, 4, 5) + ((6, 7) if T else ()):
        for ext in ("vrp", "tsp"):
            for ints in (0, 1):
                if n > 3 and not ints:
                    continue
                for demand, useL in ((0, 0), (1, 0), (1, 1)):
                    if demand and ext == "tsp":
                        continue
                    for sel in (None,) + (((0, 2), (0, 2, 1)) if n > 2 else
                                          ()) + (((0, 3, 1),) if n > 3 else ()):
                        for prec in (None, 100):
                            if prec and not ints:
                                continue
                            hs.append(RoundTrip(
                                "roundtrip/%s/n%d/%s%s%s%s%s" % (
                                    ext, n, "int" if ints else "real",
                                    "/d" if demand else "",
                                    "/L" if useL else "",
                                    "/sel" + "".join(map(str, sel)) if sel
                                    else "", "/prec" if prec else ""),
                                n=n, ext=ext, ints=ints, demand=demand,
                                useL=useL, sel=sel, prec=prec, priority=n,
                                functions=(IO + ".write_TSPLIB_file",
                                           IO + ".read_TSPLIB_CVRP")))
    return hs


# ---------------------------------------------------------------- P03 --------

class SolFile(IoHarness):
    def bounds(self):
        return "every tour of length %d without empty routes (node numbers " \
            "below %d), every %s cost%s, file name %s" % (
                self.m, self.n, "integer" if self.ints else "real",
                "" if self.ints else " from %s to %s" % (self.lo, self.hi),
                self.fn)

    def build(self, ctx):
        x = distinct_tour(ctx, self.m, self.n)
        for a, b in zip(x, x[1:]):
            ctx.assume(LT(0, a + b))
        return dict(sym=ctx.symbolic, x=x, cost=ctx.var(
            "cost", self.lo, None if self.ints else self.hi,
            integer=self.ints))

    def go(self, m, inp, tmp):
        core.BIG_NUMBERS = True
        if inp["sym"]:
            core.TOKENS.frac = 26
            m.__dict__["str"] = lambda x: core.TOKENS.text(x) \
                if type(x) is Sym else str(x)
        else:
            m.__dict__["str"] = str
        x = list(inp["x"])
        text = m.as_OPT_solution(inp["cost"], x)
        fn = os.path.join(tmp, self.fn)
        with open(fn, "w") as f:
            f.write(text)
        r = m.read_OPT_CVRP(fn)
        v = m.as_VRPH_solution([idx(a) for a in x])
        inp["s"] = [idx(a) for a in x]
        return r, v

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        s = inp["s"]
        (sol, f, k), vrph = res
        yield "solution read back %r" % (len(sol),), len(sol) == len(s)
        if len(sol) == len(s):
            for a, b in zip(sol, s):
                yield "solution read back differs from %s" % s, EQ(a, b)
        yield "no cost was read", f is not None
        if f is not None:
            yield "cost read back", AND(LE(f - inp["cost"], 0.006),
                                        LE(inp["cost"] - f, 0.006))
        yield "vehicle count of %s is %r" % (s, k), k == len(split(s))
        yield "VRPH form %s of %s" % (vrph, s), vrph[-1] == 0 and \
            len(vrph) == len([a for a in s if a]) + 2
        # decode: a negative number starts a route
        back = []
        for a in vrph[1:-1]:
            if a < 0:
                back.append(0)
            back.append(abs(a))
        yield "VRPH form %s of %s" % (vrph, s), back + [0] == s


def P03(tier):
    T = tier == "thorough"
    hs = []
    for m, n in ((3, 3), (4, 3), (5, 4), (6, 4), (7, 5)) + (
            ((8, 5), (9, 6)) if T else ()):
        for ints in (1, 0):
            for fn in ("s.opt",):
                hs.append(SolFile("solution/len%d/%s/%s" % (
                    m, "int" if ints else "real", fn), m=m, n=n, ints=ints,
                    fn=fn, lo=0, hi=3 if T else 1, priority=m, functions=(
                        IO + ".as_OPT_solution", IO + ".read_OPT_CVRP",
                        IO + ".as_VRPH_solution")))
    # numbers are written with two decimals: costs of every magnitude
    for lo in (9, 99, 999, 12345, 999999, 87654321, 0.26, 9.26, 12345.26,
               87654321.26):
        hs.append(SolFile("solution/len3/real/from%s" % lo, m=3, n=3, ints=0,
                          fn="s.opt", lo=lo, hi=lo + (
                              .03 if lo % 1 else 3 if T else 1.25),
                          priority=3, functions=(
                              IO + ".as_OPT_solution", IO + ".read_OPT_CVRP")))
    return hs


# ---------------------------------------------------------------- P04 --------

class Distance(IoHarness):
    nonlinear = True

    def bounds(self):
        return "distance type %s between (%s) and every integer point with " \
            "coordinates %d..%d%s" % (self.form, self.p, self.lo, self.hi,
                                      ", to separate points" if self.opts else
                                      "")

    def build(self, ctx):
        return dict(sym=ctx.symbolic, q=[
            ctx.var("x", self.lo, self.hi, integer=True),
            ctx.var("y", self.lo, self.hi, integer=True)])

    def go(self, m, inp, tmp):
        p = [self.p[0], self.p[1]]
        if self.opts:
            return m.calculate_D([p], [list(inp["q"])], self.form)
        return m.calculate_D([p, list(inp["q"])], None, self.form)

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        r = res[0, 0] if self.opts else res[0, 1]
        if not self.opts:
            yield "the distance to itself is not zero", \
                EQ(res[0, 0], 0) if type(res[0, 0]) is not Root else \
                res[0, 0].n == 0
        yield "distance is not that of " + self.form, distance_is(
            r, inp["q"][0] - self.p[0], inp["q"][1] - self.p[1], self.form)


def P04(tier):
    T = tier == "thorough"
    hs = []
    for form in ("EUC_2D", "CEIL_2D", "FLOOR_2D", "ATT", "EXACT_2D", "MAN_2D",
                 "MAX_2D"):
        for opts in (0, 1):
            for p, lo, hi in (((0, 0), 0, 30), ((3, -2), -12, 14)) + (
                    (((0, 0), 0, 100), ((-5, 7), -40, 40)) if T else ()):
                hs.append(Distance("distance/%s/%s/%d..%d%s" % (
                    form, "%d,%d" % p, lo, hi, "/other" if opts else ""),
                    form=form, p=p, lo=lo, hi=hi, opts=opts, priority=hi,
                    functions=(IO + ".calculate_D", IO + "._att")))
    return hs


PROPS = {"P01": P01, "P02": P02, "P03": P03, "P04": P04}
