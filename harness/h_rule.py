"""K01-K04: the construction heuristics follow the rules they are named after.

The rules are written down here a second time, as plain reference procedures.
They are executed on the same symbolic instance as the real code, and both
results must be the same routes for every value (up to the direction and order
of the routes).  Where the rule leaves a choice open (two equally good
candidates) nothing is claimed."""
import functools
import itertools
import math
from symex.base import *
from harness.h_sweep import layout

CH = "verypy.classic_heuristics."
CONS = ((0, 0), (1, 0), (0, 1), (1, 1))


class Tie(Exception):
    pass


def canon(routes):
    out = []
    for r in routes:
        r = tuple(r)
        if r:
            out.append(min(r, r[::-1]))
    return sorted(out)


def best_of(items, key):
    """the unique item with the largest key"""
    best = None
    tie = False
    for it in items:
        k = key(it)
        if best is None or k > best[0]:
            best, tie = (k, it), False
        elif k == best[0]:
            tie = True
    if tie:
        raise Tie()
    return None if best is None else best[1]


def metric(ctx, D, n):
    for i in range(n):
        for j in range(i + 1, n):
            for k in range(n):
                if k != i and k != j:
                    ctx.assume(LE(D[i, j], D[i, k] + D[k, j]))


class Rule(Construct):
    """real code against the reference procedure"""

    def extra_build(self, ctx, D, d, C, L):
        if self.useL and ctx.symbolic and self.dmode[:3] in (
                "sym", "iso", "ord", "ent"):
            metric(ctx, D, self.n)

    def bounds(self):
        return Construct.bounds(self) + (
            " (triangle inequality holds)" if self.useL else "")

    def ref(self, inp, d):
        raise NotImplementedError

    def run(self, inp):
        sol = Construct.run(self, inp)
        try:
            want = self.ref(inp, inp["d"])
        except Tie:
            want = None
        return sol, want

    def get_sol(self, res):
        return res[0]

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        for c in solution_conds(res[0], self.n, inp["D"], inp["d"], inp["C"],
                                inp["L"]):
            yield c
        if res[1] is not None and res[0] is not None:
            got, want = canon(split(res[0])), canon(res[1])
            yield "routes are %s, the rule gives %s" % (got, want), \
                got == want


# ------------------------------------------------------------- K01 savings ---

def cw(D, i, j):
    return D[i, 0] + D[0, j] - D[i, j]


VALUE = {
    "cw": cw,
    "pi": lambda D, i, j: D[i, 0] + D[0, j] - 2 * D[i, j],
}


def gf(g, f):
    def v(D, i, j):
        return D[i, 0] + D[0, j] - g * D[i, j] + \
            f * abs(D[i, 0] - D[0, j])
    return v


def lam(D, i, j):
    n = len(D)
    avg = sum(D[a, b] for a in range(n) for b in range(n)) / (n * n)
    return cw(D, i, j) * (avg + abs(D[0, i] - D[0, j]) - D[i, j])


def ranked(D, value):
    """pairs by decreasing saving, at equal savings the closer pair first"""
    n = len(D)
    todo = [(i, j) for i in range(1, n) for j in range(i + 1, n)]
    todo = [(value(D, i, j), D[i, j], i, j) for i, j in todo]
    out = []
    if len(todo) > 40:
        def order(a, b):
            if a is b:
                return 0
            if a[0] == b[0]:
                if a[1] == b[1]:
                    raise Tie()
                return -1 if a[1] < b[1] else 1
            return -1 if a[0] > b[0] else 1
        return [t[2:] for t in sorted(todo, key=functools.cmp_to_key(order))]
    while todo:
        b = todo[0]
        for t in todo[1:]:
            if t[0] > b[0]:
                b = t
            elif t[0] == b[0]:
                if t[1] < b[1]:
                    b = t
                elif t[1] == b[1]:
                    raise Tie()
        todo.remove(b)
        out.append(b[2:])
    return out


def ref_parallel(D, d, C, L, fewest, value, order=None):
    n = len(D)
    routes = [[i] for i in range(1, n)]
    for i, j in order or ranked(D, value):
        a = [r for r in routes if i in (r[0], r[-1])]
        b = [r for r in routes if j in (r[0], r[-1])]
        if not fewest and cw(D, i, j) < 0:
            break               # only merges that do not lose are made
        if not a or not b or a[0] is b[0]:
            continue
        a, b = a[0], b[0]
        m = (a if a[-1] == i else a[::-1]) + (b if b[0] == j else b[::-1])
        if C is not None and demand(m, d) > C:
            continue
        if L is not None and route_cost(m, D) > L:
            continue
        routes = [r for r in routes if r is not a and r is not b] + [m]
    return routes


def ref_sequential(D, d, C, L, fewest, farthest=False):
    n = len(D)
    left = set(range(1, n))
    routes = []
    while left:
        s = best_of(sorted(left), lambda i: D[0, i] if farthest else -D[0, i])
        left.remove(s)
        r = [s]
        while True:
            cand = []
            for j in sorted(left):
                for i in set((r[0], r[-1])):
                    m = [j] + r if r[0] == i else r + [j]
                    if not fewest and cw(D, i, j) < 0:
                        continue
                    if C is not None and demand(m, d) > C:
                        continue
                    if L is not None and route_cost(m, D) > L:
                        continue
                    cand.append((cw(D, i, j), m, j))
            if not cand:
                break
            _, r, j = best_of(cand, lambda t: t[0])
            left.remove(j)
        routes.append(r)
    return routes


class SavingsRule(Rule):
    def ref(self, inp, d):
        D, C, L = inp["D"], inp["C"], inp["L"]
        fewest = bool(self.kwargs.get("minimize_K"))
        if self.alg == "ss":
            return ref_sequential(D, d, C, L, fewest, self.kwargs.get(
                "initialize_routes_with") == "farthest")
        return ref_parallel(D, d, C, L, fewest, self.value)


class BestSetting(Rule):
    """several parameter settings are tried and the best result is kept"""

    def ref(self, inp, d):
        D, C, L = inp["D"], inp["C"], inp["L"]
        fewest = bool(self.kwargs.get("minimize_K"))
        return [ref_parallel(D, d, C, L, fewest, v) for v in self.values]

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        sol, alts = res
        for c in solution_conds(sol, self.n, inp["D"], inp["d"], inp["C"],
                                inp["L"]):
            yield c
        if alts is None or sol is None:
            return
        rs = split(sol)
        cost = sol_cost(sol, inp["D"])
        for a in alts:
            ac = sum(route_cost(r, inp["D"]) for r in a)
            if self.kwargs.get("minimize_K"):
                yield "%s has more routes than %s" % (sol, a), \
                    len(rs) <= len(a)
                if len(rs) == len(a):
                    yield "%s is longer than %s" % (sol, a), LE(cost, ac)
            else:
                yield "%s is longer than %s" % (sol, a), LE(cost, ac)
        if self.exact:
            yield "%s is none of the results %s" % (sol, alts), \
                canon(rs) in [canon(a) for a in alts]


class SuppressRule(BestSetting):
    """the best merge of each run is suppressed in all later ones"""

    def ref(self, inp, d):
        D, C, L = inp["D"], inp["C"], inp["L"]
        fewest = bool(self.kwargs.get("minimize_K"))
        n = self.n - 1
        out = []
        gone = set()
        for _ in range(max(1, min(n // 7 + 5, n * (n - 1) // 2))):
            def value(D, i, j):
                return 0 if (i, j) in gone else MAX0(cw(D, i, j))
            order = ranked(D, value)
            out.append(ref_parallel(D, d, C, L, fewest, None, order))
            if order:
                gone.add(order[0])
        return out


class SavingsList(Harness):
    """the savings functions themselves"""

    def bounds(self):
        return "%d customers, %s" % (self.n - 1, mode_text(self.dmode))

    def build(self, ctx):
        return dict(D=dmatrix(ctx, self.n, self.dmode))

    def run(self, inp):
        (m,) = modules_ready(CH + self.module)
        D = inp["D"]

        def listing(L):
            L = list(L)
            for s in L:
                if not (isinstance(s, (tuple, list)) and len(s) == 4 and all(
                        isinstance(x, (int, np.integer)) for x in s[2:])):
                    raise core.NotApplicable("savings are listed otherwise")
            return L
        if self.kind == "seq":
            f = private(m, self.func)
            return [(i, listing(f(set(range(1, self.n)), i, D)))
                    for i in range(1, self.n)]
        f = private(m, self.func)
        if self.kind == "suppressed":
            marked, cache = set(), []
            out = []
            for k in range(self.rounds):
                old = set(marked)
                out.append((old, listing(f(D, marked, cache))))
            return out, marked
        return listing(f(D, *self.args))

    def listed(self, L, D, value, up, what, skip=()):
        pairs = [(s[2], s[3]) for s in L]
        n = self.n
        yield "%s lists %s" % (what, pairs), sorted(
            tuple(sorted(p)) for p in pairs) == sorted(
            itertools.combinations(range(1, n), 2))
        for s in L:
            i, j = s[2], s[3]
            want = value(D, i, j)
            yield "%s: saving of %d-%d" % (what, i, j), EQ(s[0], want)
        for s, t in zip(L, L[1:]):
            yield "%s: %d-%d comes before %d-%d" % (
                what, s[2], s[3], t[2], t[3]), \
                LE(s[0], t[0]) if up else LE(t[0], s[0])
            if not up and value is not lam:      # products are rounded
                yield "%s: of equal savings %d-%d comes before %d-%d" % (
                    what, s[2], s[3], t[2], t[3]), \
                    OR(LT(t[0], s[0]), LE(D[s[2], s[3]], D[t[2], t[3]]))

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        D = inp["D"]
        if self.kind == "seq":
            for i, L in res:
                ps = sorted((s[2], s[3]) for s in L)
                yield "savings of %d list %s" % (i, ps), ps == [
                    (i, j) for j in range(1, self.n) if j != i]
                for s in L:
                    yield "saving of %d-%d" % (s[2], s[3]), \
                        EQ(s[0], cw(D, s[2], s[3]))
                for s, t in zip(L, L[1:]):
                    yield "%d-%d comes before %d-%d" % (
                        s[2], s[3], t[2], t[3]), LE(s[0], t[0])
        elif self.kind == "suppressed":
            runs, marked = res
            best = None
            for k, (old, L) in enumerate(runs):
                w = "round %d" % (k + 1)

                def value(D, i, j):
                    if (i, j) in old:
                        return 0
                    v = cw(D, i, j)
                    return MAX0(v)
                for c in self.listed(L, D, value, False, w):
                    yield c
                new = (runs[k + 1][0] if k + 1 < len(runs) else marked) - old
                yield "%s suppresses %s next" % (w, sorted(new)), \
                    new <= set([(L[0][2], L[0][3])])
        else:
            for c in self.listed(res, D, self.value, False, self.func):
                yield c


def MAX0(v):
    """max(0, v) of a proxy as a pair usable in EQ: see Harness.listed"""
    return v if v > 0 else 0


def K01(tier):
    T = tier == "thorough"
    hs = []
    K = ({}, {"minimize_K": True})

    def add(cls, name, mod, fn, n, dm, cons, kws=K, **kw):
        for k in kws:
            for C, L in cons:
                hs.append(cls("%s/n%d/%s%s%s%s" % (
                    name, n, dm, "/C" if C else "", "/L" if L else "",
                    "".join("/%s=%s" % kv for kv in sorted(k.items()))),
                    module=CH + mod, func=fn, n=n, dmode=dm, useC=C, useL=L,
                    kwargs=k, priority=n, functions=(CH + mod + "." + fn,),
                    **kw))

    def ps(n, dm, cons, kws=K):
        add(SavingsRule, "ps", "parallel_savings", "parallel_savings_init",
            n, dm, cons, kws, alg="ps", value=cw)

    def ss(n, dm, cons, far=(0, 1), kws=K):
        add(SavingsRule, "ss", "sequential_savings", "sequential_savings_init",
            n, dm, cons, [dict(k, **({"initialize_routes_with": "farthest"}
                                     if f else {})) for k in kws for f in far],
            alg="ss")

    def pi(n, dm, cons, kws=K):
        add(SavingsRule, "gpl", "gaskell_savings", "gaskell_savings_init", n,
            dm, cons, [dict(k, savings_method="pi") for k in kws], alg="gpl",
            value=VALUE["pi"])

    def ims(n, dm, cons, kws=K[:1]):
        add(SuppressRule, "ims", "suppression_savings",
            "suppression_savings_init", n, dm, cons, kws, exact=True)
    for n in (2, 3, 4):
        ps(n, "sym", CONS if n < 4 else CONS[:3])
        ss(n, "sym", CONS if n < 4 else CONS[1:2], (0, 1) if n < 4 else (0,))
        if n < 4:
            pi(n, "sym", CONS)
    for s in range(1, 4) if not T else range(1, 13):
        for o in ("iso:rnd", "iso:euc"):
            for n in (5, 6) + ((7,) if T else ()):
                dm = "%s:%d" % (o, s)
                ps(n, dm, CONS[1:3] if n > 5 else CONS[1:])
                ss(n, dm, CONS[1:3], (0, 1) if n < 6 else (0,))
                pi(n, dm, CONS[1:2])
        for kind in ("rnd", "euc"):
            dm = "%s:%d~d" % (kind, s + 30)
            big = 12 if T else 10
            cons = CONS[3:] if kind == "euc" else CONS[1:2]
            ps(big, dm, cons)
            ss(big, dm, cons)
            pi(big, dm, cons)
            add(BestSetting, "gps", "paessens_savings",
                "paessens_savings_init", 8, dm, CONS[1:2],
                [dict(k, strategy=[(1.0, 0.25), (2.0, 0.5), (0.75, 0.0)],
                      do_3opt=False) for k in K],
                values=[gf(*x) for x in ((1.0, 0.25), (2.0, 0.5),
                                         (0.75, 0.0))], exact=True)
        for kind in ("rnd", "euc", "tie"):
            dm = "%s:%d" % (kind, s + 20)
            ps(7, dm, CONS[3:])
            ss(6, dm, CONS[3:] if kind == "euc" else CONS[1:2])
            pi(6, dm, CONS[1:2])
            for x, v in (("lambda", [lam]), ("both", [lam, VALUE["pi"]])):
                if kind != "tie":
                    add(BestSetting, "gpl", "gaskell_savings",
                        "gaskell_savings_init", 5, dm, CONS[1:2],
                        [dict(k, savings_method=x) for k in K], values=v,
                        exact=True)
            for g in ([(1.0, 0.5)], [(1.5, 0.0), (0.5, 1.0)],
                      [(1.0, 0.25), (2.0, 0.5), (0.75, 0.0)]):
                add(BestSetting, "gps", "paessens_savings",
                    "paessens_savings_init", 5, dm, CONS[1:2],
                    [dict(k, strategy=g, do_3opt=False) for k in K],
                    values=[gf(*x) for x in g], exact=True)
            ims(5, dm, CONS[1:2])
            ims(4, "iso:%s:%d" % (kind, s), CONS[1:2])
    for n in (2, 3) + ((4,) if T else ()):
        ims(n, "sym", CONS[1:2])
    # many customers, one demand vector, every limit
    for s in range(1, 3) if not T else range(1, 9):
        for kind in ("euc", "rnd"):
            dm = "%s:%d~f" % (kind, s + 50)
            CL = CONS[1:3] if kind == "euc" else CONS[1:2]
            ps(20 + 8 * T, dm, CL)
            ss(20 + 8 * T, dm, CL)
            pi(20 + 8 * T, dm, CL)
            ims(14 + 6 * T, dm, CL, K)
            add(BestSetting, "gps", "paessens_savings",
                "paessens_savings_init", 12, dm, CL,
                [dict(k, strategy=[(1.0, 0.25), (2.0, 0.5), (0.75, 0.0)],
                      do_3opt=False) for k in K],
                values=[gf(*x) for x in ((1.0, 0.25), (2.0, 0.5),
                                         (0.75, 0.0))], exact=True)
            add(BestSetting, "gpl", "gaskell_savings",
                "gaskell_savings_init", 12, dm, CL,
                [dict(k, savings_method="both") for k in K],
                values=[lam, VALUE["pi"]], exact=True)

    def lst(name, mod, fn, n, dm, **kw):
        hs.append(SavingsList("list/%s/n%d/%s" % (name, n, dm), module=mod,
                              func=fn, n=n, dmode=dm, priority=n,
                              functions=(CH + mod + "." + fn,), **kw))
    plans = [(n, "sym") for n in (2, 3, 4)] + [
        (n, "iso:%s:%d" % (o, s)) for n in (5, 6) for o in ("rnd", "tie")
        for s in ((1, 2) if not T else range(1, 9))]
    for n, dm in plans:
        lst("cw", "parallel_savings", "clarke_wright_savings_function", n, dm,
            kind="all", args=(), value=cw)
        lst("seq", "sequential_savings", "clarke_wright_savings", n, dm,
            kind="seq")
        lst("pi", "gaskell_savings", "gaskell_pi_savings_function", n, dm,
            kind="all", args=(), value=VALUE["pi"])
        if n < 5:
            for g in ((1.0, 0.5), (1.5, 0.0), (0.5, 1.0)):
                lst("gf%s-%s" % g, "paessens_savings",
                    "paessens_savings_function", n, dm, kind="all", args=g,
                    value=gf(*g))
        if 2 < n < 6:
            lst("sup", "suppression_savings", "supression_savings_function", n,
                dm, kind="suppressed",
                rounds=min(4, (n - 1) * (n - 2) // 2))
    for s in range(1, 7):
        for n in (2, 3, 4, 5, 6):
            lst("lambda", "gaskell_savings", "gaskell_lambda_savings_function",
                n, "%s:%d" % (("rnd", "euc", "tie")[s % 3], s), kind="all",
                args=(), value=lam)
    return hs


# ---------------------------------------------------- K02 nearest neighbour ---

class NNRule(Rule):
    def ref(self, inp, d):
        D, C, L = inp["D"], inp["C"], inp["L"]
        end_only = self.kwargs.get("add_only_to_end")
        left = set(range(1, self.n))
        routes = []
        r = None
        while left:
            if r is None:
                last = best_of(sorted(left), lambda i: -D[0, i])
                r = [last]
                left.remove(last)
                continue
            j = best_of(sorted(left), lambda i: -D[last, i])
            m = r + [j]
            if not end_only and len(r) > 1:
                a, b = route_cost(m, D), route_cost([j] + r, D)
                if a == b:
                    raise Tie()
                if b < a:
                    m = [j] + r
            if C is not None and demand(m, d) > C or \
                    L is not None and route_cost(m, D) > L:
                routes.append(r)
                r = None
                continue
            r, last = m, j
            left.remove(j)
        return routes + [r]

    def call(self, f, inp, d):
        if self.registry:
            import verypy
            return verypy.get_algorithms(self.registry)[0][3](
                None, inp["D"], d, inp["C"], inp["L"], None, None, False,
                False)
        return Construct.call(self, f, inp, d)


class PnnBest(Construct):
    """the parallel variant tries several numbers of routes"""

    def run(self, inp):
        (m,) = modules_ready(self.module)
        d = None if inp["d"] is None else list(inp["d"])
        sol = m.get_pnn_algorithm()[2](None, inp["D"], d, inp["C"], inp["L"],
                                       None, None, False, False)
        f = m.nearest_neighbor_init
        one = f(inp["D"], d, inp["C"], inp["L"])
        alts = [one]
        for k in range(2, len(split(one)) + 1):
            alts.append(f(inp["D"], d, inp["C"], inp["L"],
                          emerging_route_count=k))
        return sol, alts

    def get_sol(self, res):
        return res[0]

    def props(self, inp, res, exc):
        for c in Construct.props(self, inp, res, exc):
            yield c
        if exc is None:
            for a in res[1]:
                yield "%s is longer than %s" % (res[0], a), LE(
                    sol_cost(res[0], inp["D"]), sol_cost(a, inp["D"]))


def K02(tier):
    T = tier == "thorough"
    hs = []
    NN = CH + "nearest_neighbor"

    def add(cls, name, n, dm, cons, kw={}, registry=None):
        for C, L in cons:
            hs.append(cls("%s/n%d/%s%s%s%s" % (
                name, n, dm, "/C" if C else "", "/L" if L else "",
                "".join("/%s=%s" % kv for kv in sorted(kw.items()))),
                module=NN, func="nearest_neighbor_init", n=n, dmode=dm,
                useC=C, useL=L, kwargs=kw, registry=registry, priority=n,
                functions=(NN + ".nearest_neighbor_init",)))
    END = {"add_only_to_end": True}
    for n in (2, 3, 4):
        cons = CONS if n < 4 else CONS[1:3]
        add(NNRule, "nn", n, "sym", cons)
        add(NNRule, "nn", n, "sym", cons, END)
        add(NNRule, "sn", n, "sym", cons, registry="sn")
        if n < 4:
            add(PnnBest, "pn", n, "sym", cons)
    for s in range(1, 9) if not T else range(1, 41):
        dm = "ord:%d" % s
        for n in (5, 6) if not T else (5, 6, 7):
            cons = CONS[1:3]
            add(NNRule, "nn", n, dm, cons)
            add(NNRule, "nn", n, dm, cons, END)
            if n < 6:
                add(NNRule, "sn", n, dm, cons, registry="sn")
                if s < 4 or T:
                    add(PnnBest, "pn", n, dm, cons[:1])
        if s < 4 or T:
            for kind in ("rnd", "euc", "tie"):
                add(NNRule, "nn", 7, "%s:%d" % (kind, s + 20), CONS[3:])
                for kw in ({}, END):
                    add(NNRule, "nn", 16 if T else 13, "%s:%d~d" % (
                        kind, s + 30), CONS[3:], kw)
                if s < 3 or T:
                    for kw in ({}, END):
                        add(NNRule, "nn", 24, "%s:%d~f" % (kind, s + 50),
                            CONS[1:3], kw)
                    add(PnnBest, "pn", 14, "%s:%d~f" % (kind, s + 50),
                        CONS[1:3])
                add(PnnBest, "pn", 8, "%s:%d~d" % (kind, s + 30), CONS[3:])
                add(PnnBest, "pn", 6, "%s:%d" % (kind, s + 20), CONS[3:])
    return hs


# ------------------------------------------------------------- K03 sweep -----

class SweepRule(Construct):
    """one sweep, or the best of all sweeps"""

    def bounds(self):
        return Construct.bounds(self) + ", customer locations '%s'" % self.pts

    def build(self, ctx):
        p = layout(self.pts, self.n)
        D = dmatrix(ctx, self.n, self.dmode, p)
        D, d, C, L = cvrp_inputs(ctx, self.n, self.useC, self.useL, D=D)
        return dict(D=D, d=d, C=C, L=L, n=self.n, pts=p)

    def angle_order(self):
        p = layout(self.pts, self.n)
        a = sorted((math.atan2(p[i][1] - p[0][1], p[i][0] - p[0][0]), i)
                   for i in range(1, self.n))
        assert all(abs(x[0] - y[0]) > 1e-6 for x, y in zip(a, a[1:])), \
            "angles are not distinct"
        return [i for _, i in a]

    def run(self, inp):
        (m,) = modules_ready(self.module)
        d = None if inp["d"] is None else list(inp["d"])
        args = (list(inp["pts"]), inp["D"], d, inp["C"], inp["L"])
        if not self.best:
            return m.sweep_init(*args, direction=self.direction,
                                seed_node=self.seed)
        mk = bool(self.best == "vehicles")
        if self.direction == "registry":
            import verypy
            best = verypy.get_algorithms("swp")[0][3](
                *(args + (None, "EXACT_2D", False, mk)))
        else:
            best = m.sweep_init(*args, minimize_K=mk)
        alts = [m.sweep_init(*args, direction=x, seed_node=i)
                for x in ("cw", "ccw") for i in range(1, self.n)]
        return best, alts

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        D, d, C, L = inp["D"], inp["d"], inp["C"], inp["L"]
        sol = res[0] if self.best else res
        ok = True
        for t, c in solution_conds(sol, self.n, D, d, C, L):
            ok = ok and c is not False
            yield t, c
        if not ok:
            return
        if self.best:
            for a in res[1]:
                if self.best == "vehicles":
                    yield "%s has more routes than %s" % (sol, a), \
                        len(split(sol)) <= len(split(a))
                    if len(split(sol)) != len(split(a)):
                        continue
                yield "%s is longer than the sweep %s" % (sol, a), \
                    LE(sol_cost(sol, D), sol_cost(a, D))
            return
        o = self.angle_order()
        if self.direction == "cw":
            o = o[::-1]
        if self.seed > 0:
            k = o.index(self.seed)
        elif self.seed == -1:               # smallest angle
            k = o.index(self.angle_order()[0])
        else:                               # closest to the depot
            p = inp["pts"]
            q = [(p[i][0] - p[0][0]) ** 2 + (p[i][1] - p[0][1]) ** 2
                 for i in range(1, self.n)]
            if q.count(min(q)) > 1:
                return
            k = o.index(1 + q.index(min(q)))
        o = o[k:] + o[:k]
        rs = split(sol)
        yield "%s is not the sweep order %s" % (sol, o), sum(rs, []) == o
        if sum(rs, []) != o:
            return
        for r, nxt in zip(rs, rs[1:]):
            m = r + nxt[:1]
            yield "route %s was closed although %d fits" % (r, nxt[0]), OR(
                False if C is None else LT(C, demand(m, d)),
                False if L is None else LT(L, route_cost(m, D)))


def K03(tier):
    T = tier == "thorough"
    hs = []
    SW = CH + "sweep"

    def add(name, n, dm, cons, pts, **kw):
        for C, L in cons:
            hs.append(SweepRule("%s/%s/n%d/%s%s%s" % (
                name, pts, n, dm, "/C" if C else "", "/L" if L else ""),
                module=SW, n=n, dmode=dm, useC=C, useL=L, pts=pts, priority=n,
                functions=(SW + ".sweep_init", SW + ".do_one_sweep",
                           SW + ".get_sweep_from_cartesian_coordinates"),
                **kw))
    for pts in ("circle", "side", "2", "5")[:3 if not T else 4]:
        for x in ("cw", "ccw"):
            for n in (3, 4, 5, 6) if not T else (3, 4, 5, 6, 7):
                for s in (-1, 0) + tuple(range(1, n)):
                    if n > 5 and s > 2 and not T:
                        continue
                    kw = dict(direction=x, seed=s, best="")
                    nm = "%s/from%d" % (x, s)
                    add(nm, n, "pts", CONS[1:] if n < 6 or s == 1 else
                        CONS[1:2], pts, **kw)
                    if n < 5:
                        add(nm, n, "sym", CONS[2:3] if n == 4 else CONS, pts,
                            **kw)
                    elif n == 5:
                        add(nm, n, "ord:%d" % (s + 2), CONS[2:3], pts, **kw)
        if pts.isdigit():
            for x in ("cw", "ccw"):
                for s in (-1, 0, 4, 8):
                    add("%s/from%d" % (x, s), 10 + T, "pts~d", CONS[3:], pts,
                        direction=x, seed=s, best="")
                    big = {"2": "12", "5": "27"}[pts]
                    add("%s/from%d" % (x, s), 20, "pts~f", CONS[1:3], big,
                        direction=x, seed=s, best="")
            add("best/cost/", 7, "pts~d", CONS[3:], pts, best="cost",
                direction="", seed=None)
            for b in ("cost", "vehicles"):
                add("best/%s/" % b, 14, "pts~f", CONS[1:3], "12", best=b,
                    direction="", seed=None)
        for b in ("cost", "vehicles"):
            for r in ("", "registry"):
                for n in (2, 3, 4, 5):
                    add("best/%s/%s" % (b, r), n, "pts", CONS[1:] if n < 5 else
                        CONS[1:2], pts, best=b, direction=r, seed=None)
                    if n < 4:
                        add("best/%s/%s" % (b, r), n, "sym", CONS[1:3], pts,
                            best=b, direction=r, seed=None)
    return hs


# ------------------------------------------------- K04 cheapest insertion ----

class InsertRule(Rule):
    def ref(self, inp, d):
        D, C, L = inp["D"], inp["C"], inp["L"]
        fewest = bool(self.kwargs.get("minimize_K"))
        far = self.kwargs.get("initialize_routes_with") != "closest"
        m = self.kwargs.get("emerging_route_count", 1)
        left = set(range(1, self.n))
        done = []

        def seed():
            s = best_of(sorted(left), lambda i: D[0, i] if far else -D[0, i])
            left.remove(s)
            return [s]

        def cands(r):
            out = []
            for u in sorted(left):
                for p in range(len(r) + 1):
                    i = r[p - 1] if p else 0
                    j = r[p] if p < len(r) else 0
                    q = r[:p] + [u] + r[p:]
                    strain = D[0, u] - (D[i, u] + D[u, j])
                    grow = D[i, u] + D[u, j] - D[i, j]
                    if not fewest and grow > 2 * D[0, u]:
                        continue
                    if C is not None and demand(q, d) > C:
                        continue
                    if L is not None and route_cost(q, D) > L:
                        continue
                    out.append((strain, q, u))
            return out
        if m > len(left):
            raise Tie()
        routes = [seed() for _ in range(m)]
        k = -1
        while left:
            k = (k + 1) % m
            c = cands(routes[k])
            if c:
                _, q, u = self.pick(c)
                routes[k] = q
                left.remove(u)
            if left and not cands(routes[k]):
                done.append(routes[k])
                routes[k] = seed()
        return routes + done

    def pick(self, cands):
        """the same route from both ends is no tie"""
        best = best_k = None
        tie = False
        for c in cands:
            if best is None or c[0] > best[0]:
                best, tie = c, False
            elif c[0] == best[0]:
                if canon([c[1]]) != canon([best[1]]):
                    tie = True
        if tie:
            raise Tie()
        return best


def K04(tier):
    T = tier == "thorough"
    hs = []
    CI = CH + "cheapest_insertion"

    def add(n, dm, cons, *kws):
        for kw in kws:
            for C, L in cons:
                hs.append(InsertRule("ci/n%d/%s%s%s%s" % (
                    n, dm, "/C" if C else "", "/L" if L else "",
                    "".join("/%s=%s" % kv for kv in sorted(kw.items()))),
                    module=CI, func="cheapest_insertion_init", n=n, dmode=dm,
                    useC=C, useL=L, kwargs=kw, priority=n,
                    functions=(CI + ".cheapest_insertion_init",)))
    A = [dict(minimize_K=k, initialize_routes_with=i, emerging_route_count=m)
         for k in (False, True) for i in ("farthest", "closest")
         for m in (1,)]
    for n in (2, 3):
        add(n, "sym", CONS, *A)
    add(4, "sym", CONS[1:2], *A[:1])
    for s in range(1, 4) if not T else range(1, 13):
        for o in ("iso:rnd", "iso:euc"):
            dm = "%s:%d" % (o, s)
            add(4, dm, CONS[1:3], *A)
            add(5, dm, CONS[1:2], *A[:2 if not T else 4])
        for o in ("rnd", "euc", "tie"):
            dm = "%s:%d" % (o, s + 20)
            add(6, dm, CONS[1:2] if o != "euc" else CONS[1:], *A)
            if s < 3 or T:
                add(16, "%s:%d~f" % (o, s + 50), CONS[1:3] if o == "euc"
                    else CONS[1:2], *A)
            add(10 if T else 9, dm + "~d", CONS[1:2] if o != "euc" else
                CONS[3:], *A)
    return hs


PROPS = {"K01": K01, "K02": K02, "K03": K03, "K04": K04}
