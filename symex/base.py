"""Harness base class and helpers shared by all harnesses."""
import importlib
import inspect
import os
import sys

import numpy as np

from . import core
from .core import Sym, LE, LT, EQ, AND, OR, NOT


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)


class FloatShim(float, metaclass=_FloatMeta):
    """shadows builtin float in the modules under test: keeps proxies"""
    def __new__(cls, x=0.0):
        if type(x) is Sym or type(x) is core.Quot:
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.item())
        return float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)


def private(module, name):
    """an internal helper of the code base: may be absent after a refactoring"""
    if not hasattr(module, name):
        raise core.NotApplicable("%s has no %s" % (module.__name__, name))
    f = getattr(module, name)

    def call(*args, **kw):
        try:
            inspect.signature(f).bind(*args, **kw)
        except TypeError:
            raise core.NotApplicable("%s.%s takes other arguments"
                                     % (module.__name__, name))
        return f(*args, **kw)
    return call


def install_float_shim():
    if os.environ.get("VERIF_CLEAN"):
        return
    for name, m in list(sys.modules.items()):
        if name.startswith("verypy") and m is not None:
            m.__dict__['float'] = FloatShim


class Harness(object):
    """one bounded question about the real code"""
    name = "?"
    functions = ()        # real functions executed symbolically
    nonlinear = False
    path_seconds = 20.0
    replay_seconds = 20
    priority = 0

    def __init__(self, name, **kw):
        self.name = name
        self.kw = kw
        self.__dict__.update(kw)

    def build(self, ctx):
        raise NotImplementedError

    def run(self, inp):
        raise NotImplementedError

    def props(self, inp, result, exc):
        raise NotImplementedError

    def describe(self, inp):
        return {}

    def bounds(self):
        return ""


# ------------------------------------------------------------ CVRP inputs ---

def sym_matrix(ctx, n, metric=False, prefix="D"):
    """symmetric nxn matrix of arbitrary non-negative distances"""
    D = np.zeros((n, n), dtype=object if ctx.symbolic else float)
    for i in range(n):
        D[i, i] = 0.0
        for j in range(i + 1, n):
            D[i, j] = D[j, i] = ctx.var("%s%d_%d" % (prefix, i, j))
    if metric:
        for i in range(n):
            for j in range(i + 1, n):
                for k in range(n):
                    if k != i and k != j:
                        ctx.assume(LE(D[i, j], D[i, k] + D[k, j]))
    return D


def const_matrix(ctx, pts):
    n = len(pts)
    D = np.zeros((n, n), dtype=object if ctx.symbolic else float)
    for i in range(n):
        for j in range(n):
            dx = pts[i][0] - pts[j][0]
            dy = pts[i][1] - pts[j][1]
            D[i, j] = float(round((dx * dx + dy * dy) ** 0.5 * 8) / 8.0)
    return D


def _rnd(seed):
    x = seed * 2654435761 % 4294967296 or 1
    while True:
        x = (1103515245 * x + 12345) % 2147483648
        yield (x >> 8) / 8388608.0


def points(n, seed):
    r = _rnd(seed + 17)
    return [(round(next(r) * 16) / 1.0, round(next(r) * 16) / 1.0)
            for _ in range(n)]


def fixed_matrix(ctx, n, kind, seed):
    """concrete matrix: 'euc' (points), 'rnd' (no triangle inequality),
    'tie' (few distinct values)"""
    if kind == "euc":
        return const_matrix(ctx, points(n, seed))
    r = _rnd(seed + 5)
    D = np.zeros((n, n), dtype=object if ctx.symbolic else float)
    for i in range(n):
        D[i, i] = 0.0
        for j in range(i + 1, n):
            v = next(r)
            v = float(round(v * 80) / 8.0 + 1) if kind == "rnd" else \
                float(1 + int(v * 3))
            D[i, j] = D[j, i] = v
    return D


class _Plain(object):
    symbolic = False


def order(n, seed):
    """the node pairs in a pseudo-random order"""
    r = _rnd(seed + 31)
    e = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for k in range(len(e) - 1, 0, -1):
        j = int(next(r) * (k + 1))
        e[k], e[j] = e[j], e[k]
    return e


def dmatrix(ctx, n, mode, pts=None):
    """mode: 'sym', 'metric', 'euc:SEED', 'rnd:SEED', 'tie:SEED',
    'row:SEED:i,j' (concrete except the given symbolic entries),
    'ord:SEED' (every matrix whose entries are in one given order),
    'iso:KIND:SEED' (every matrix whose distances and savings are ordered as
    in a given one), 'lin:SEED', 'pln:SEED' (A + tB, A + tB + uC)"""
    ctx.dlin = mode.endswith("~d")      # demands a + s b, see cvrp_inputs
    ctx.dfix = mode.endswith("~f")      # one demand vector
    mode = mode[:-2] if ctx.dlin or ctx.dfix else mode
    if mode == "pts":
        return const_matrix(ctx, pts)
    if mode in ("sym", "metric"):
        return sym_matrix(ctx, n, mode == "metric")
    parts = mode.split(":")
    if parts[0] == "ord":
        D = sym_matrix(ctx, n)
        o = [D[i, j] for i, j in order(n, int(parts[1]))]
        for a, b in zip(o, o[1:]):
            ctx.assume(LT(a, b))
        return D
    if parts[0] == "iso":
        B = fixed_matrix(_Plain, n, parts[1], int(parts[2]))
        D = sym_matrix(ctx, n)
        e = order(n, 0)
        for form in (lambda M, i, j: M[i, j],
                     lambda M, i, j: M[0, i] + M[0, j] - M[i, j],
                     lambda M, i, j: M[0, i] + M[0, j] - 2 * M[i, j]):
            o = sorted((form(B, i, j), i, j) for i, j in e
                       if i or form(B, 1, 2) == B[1, 2])
            for (x, i, j), (y, k, m) in zip(o, o[1:]):
                f, g = form(D, i, j), form(D, k, m)
                ctx.assume(LT(f, g) if x < y else EQ(f, g))
        return D
    if parts[0] in ("lin", "pln"):
        D = fixed_matrix(ctx, n, "rnd", int(parts[1]))
        for k in range(1 if parts[0] == "lin" else 2):
            B = fixed_matrix(_Plain, n, "rnd", 100 + 10 * int(parts[1]) + k)
            t = ctx.var("t%d" % k)
            for i in range(n):
                for j in range(i + 1, n):
                    D[i, j] = D[j, i] = D[i, j] + int(B[i, j]) * t
        return D
    D = fixed_matrix(ctx, n, parts[0] if parts[0] not in ("row", "ent")
                     else "rnd", int(parts[1]))
    if parts[0] == "ent":
        for e in parts[2].split(","):
            i, j = map(int, e.split("-"))
            D[i, j] = D[j, i] = ctx.var("D%d_%d" % (i, j))
    if parts[0] == "row":
        for i in map(int, parts[2].split(",")):
            for j in range(n):
                if j != i:
                    D[i, j] = D[j, i] = ctx.var("D%d_%d" % (min(i, j),
                                                            max(i, j)))
    return D


def mode_text(mode):
    if mode.endswith("~d"):
        return mode_text(mode[:-2]) + ", demands a + s b (every s >= 0)"
    if mode.endswith("~f"):
        return mode_text(mode[:-2]) + ", one demand vector"
    p = mode.split(":")
    return {"pts": "Euclidean distances of the locations",
            "sym": "every symmetric non-negative distance matrix",
            "metric": "every symmetric matrix with the triangle inequality",
            "euc": "one Euclidean instance (seed %s)",
            "rnd": "one matrix without triangle inequality (seed %s)",
            "tie": "one matrix with many ties (seed %s)",
            "ord": "every symmetric matrix with its entries in one order "
            "(seed %s)",
            "iso": "every symmetric matrix with distances and savings "
            "ordered as in one matrix (%s, seed " + p[-1] + ")",
            "lin": "every matrix A + t B (seed %s, t >= 0)",
            "pln": "every matrix A + t B + u C (seed %s, t, u >= 0)",
            "ent": "one matrix (seed %s) with every value of the entries " +
            (p[2] if len(p) > 2 else ""),
            "row": "one matrix (seed %s) with every value of the rows " +
            (p[2] if len(p) > 2 else "")}[p[0]].replace(
                "%s", p[1] if len(p) > 1 else "")


class Construct(Harness):
    """a construction heuristic on a whole family of instances"""
    useC = useL = 0
    dmode = "sym"
    kwargs = {}
    unitd = False

    def bounds(self):
        return "%d customers, %s, %s, options %s" % (
            self.n - 1, mode_text(self.dmode),
            "every " + " and ".join(
                (["positive demands" + (" (equal)" if self.unitd else ""),
                  "capacity"] if self.useC else []) +
                (["route limit"] if self.useL else [])) +
            " for which each customer can be served alone"
            if self.useC or self.useL else "no constraints", self.kwargs)

    def build(self, ctx):
        D = dmatrix(ctx, self.n, self.dmode)
        d = None
        if self.unitd and self.useC:
            d = [0.0] + [1.0] * (self.n - 1)
        D, d, C, L = cvrp_inputs(ctx, self.n, self.useC, self.useL, D=D, d=d)
        self.extra_build(ctx, D, d, C, L)
        return dict(D=D, d=d, C=C, L=L, n=self.n)

    def extra_build(self, ctx, D, d, C, L):
        pass

    def call(self, f, inp, d):
        return f(inp["D"], d, inp["C"], inp["L"], **self.kwargs)

    def run(self, inp):
        (m,) = modules_ready(self.module)
        d = None if inp["d"] is None else list(inp["d"])
        return self.call(getattr(m, self.func), inp, d)

    def get_sol(self, res):
        return res

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        for c in solution_conds(self.get_sol(res), self.n, inp["D"], inp["d"],
                                inp["C"], inp["L"]):
            yield c
        for c in self.more(inp, self.get_sol(res)):
            yield c

    def more(self, inp, sol):
        return ()


def lin_demands(ctx, n):
    s = ctx.var("s")
    return [0.0] + [float(1 + (5 * i + 2) % 7) + ((3 * i) % 4) * s
                    for i in range(1, n)]


def cvrp_inputs(ctx, n, C=True, L=False, metric=False, D=None, d=None):
    """arbitrary instance with n-1 customers, each of them servable alone"""
    if D is None:
        D = sym_matrix(ctx, n, metric)
    Cv = Lv = None
    if C:
        Cv = ctx.var("C")
        ctx.assume(LT(0, Cv))
    if d is None and C and getattr(ctx, "dlin", False):
        d = lin_demands(ctx, n)
    if d is None and C and getattr(ctx, "dfix", False):
        d = [0.0] + [float(1 + (5 * i + 2) % 7) for i in range(1, n)]
    if d is None:
        dv = [0.0] + [ctx.var("d%d" % i) for i in range(1, n)] if C else None
    else:
        dv = list(d)
    if C:
        for i in range(1, n):
            ctx.assume(LE(dv[i], Cv))
            ctx.assume(LT(0, dv[i]))
    if L:
        Lv = ctx.var("L")
        ctx.assume(LT(0, Lv))
        for i in range(1, n):
            ctx.assume(LE(D[0, i] + D[i, 0], Lv))
    return D, dv, Cv, Lv


def pick(q, lo, hi):
    """the value of the symbolic integer q, one path per value"""
    while lo < hi:
        m = (lo + hi) // 2
        if q <= m:
            hi = m
        else:
            lo = m + 1
    return lo


def edges(routes):
    return set(tuple(sorted(e)) for r in routes for e in zip(r, r[1:])
               if e[0] != e[1])


def hot_matrix(n, old, new, w):
    """edges of the routes `old` are short, all other edges are long except
    those that `new` adds: these have the lengths w (arbitrary)"""
    D = np.zeros((n, n), dtype=object)
    for i in range(n):
        D[i, i] = 0.0
        for j in range(i + 1, n):
            D[i, j] = D[j, i] = 64.0 + (3 * i + 5 * j) % 8
    for i, j in edges(old):
        D[i, j] = D[j, i] = 8.0 + (i + 2 * j) % 4
    for k, (i, j) in enumerate(sorted(edges(new) - edges(old))):
        D[i, j] = D[j, i] = w[k]
    return D if any(isinstance(x, Sym) for x in w) else D.astype(float)


# ------------------------------------------------------------ CVRP oracles ---

def split(sol):
    """routes (customers only) of a giant tour, independent of the code base"""
    routes = []
    cur = None
    for n in sol:
        if n == 0:
            if cur:
                routes.append(cur)
            cur = []
        else:
            if cur is None:
                cur = []
            cur.append(n)
    if cur:
        routes.append(cur)
    return routes


def route_cost(r, D):
    """cost of a depot-to-depot route given by its customers"""
    c = 0
    p = 0
    for n in r:
        c = c + D[p, n]
        p = n
    return c + D[p, 0]


def path_cost(r, D):
    c = 0
    for i in range(1, len(r)):
        c = c + D[r[i - 1], r[i]]
    return c


def sol_cost(sol, D):
    return path_cost(sol, D)


def demand(r, d):
    t = 0
    for n in r:
        t = t + d[n]
    return t


def is_int_node(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, bool)


def solution_conds(sol, n, D, d, C, L, what="solution"):
    """sol is a complete, feasible giant tour"""
    if sol is None:
        yield what + " is None", False
        return
    try:
        sol = list(sol)
    except TypeError:
        yield what + " is not a sequence", False
        return
    if not all(is_int_node(x) for x in sol):
        yield what + " has non-integer nodes: %r" % (sol,), False
        return
    yield what + " does not start and end at the depot: %s" % sol, \
        bool(sol and sol[0] == 0 and sol[-1] == 0)
    custs = sorted(x for x in sol if x != 0)
    yield what + " does not serve every customer exactly once: %s" % sol, \
        custs == list(range(1, n))
    if custs != list(range(1, n)):
        return
    for r in split(sol):
        if C is not None:
            yield what + " violates the capacity on %s" % r, LE(demand(r, d), C)
        if L is not None:
            yield what + " violates the route limit on %s" % r, \
                LE(route_cost(r, D), L)


def modules_ready(*mods):
    out = [importlib.import_module(m) for m in mods]
    install_float_shim()
    return out
