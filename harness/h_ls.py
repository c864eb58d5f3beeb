"""S01: moves on whole solutions, L01: local search driver."""
import importlib
import itertools
from symex.base import *
from harness.h_inter import two_opt_star, one_point, two_point, chain
from harness.h_intra import neighbours

SO = "verypy.local_search.solution_operators"
LSM = "verypy.local_search"
INTRA = "verypy.local_search.intra_route_operators"
INTER = "verypy.local_search.inter_route_operators"
CONS = ((0, 0), (1, 0), (0, 1), (1, 1))


def canon(routes):
    """routes as undirected customer sequences"""
    out = []
    for r in routes:
        r = [x for x in r if x]
        if r:
            out.append(min(tuple(r), tuple(r[::-1])))
    return tuple(sorted(out))


def exchange_neighbours(sol):
    """every solution that differs from sol by exchanging up to three edges
    of the giant tour (depot visits are interchangeable)"""
    n = len(sol)
    seen = set([canon(split(sol))])
    segs_of = {}
    for i, j, k in itertools.combinations(range(n - 1), 3):
        # the four pieces left when the edges i, j, k are removed
        H, A, B, T = sol[:i + 1], sol[i + 1:j + 1], sol[j + 1:k + 1], sol[k + 1:]
        ends = [H[-1], A[0], A[-1], B[0], B[-1], T[0]]
        # pair the six ends
        for p in pairings(range(6)):
            routes = link(H, A, B, T, p)
            if routes is None:
                continue
            c = canon(routes)
            if c not in seen:
                seen.add(c)
                yield [list(r) for r in c]


def pairings(xs):
    xs = list(xs)
    if not xs:
        yield []
        return
    a = xs[0]
    for i in range(1, len(xs)):
        rest = xs[1:i] + xs[i + 1:]
        for p in pairings(rest):
            yield [(a, xs[i])] + p


def link(H, A, B, T, pairs):
    """walk the pieces along the new edges; loops need a depot"""
    nxt = {}
    for a, b in pairs:
        nxt[a] = b
        nxt[b] = a
    # end -> (piece, other end)
    piece = {1: (A, 2), 2: (A[::-1], 1), 3: (B, 4), 4: (B[::-1], 3),
             5: (T, None), 0: (H[::-1], None)}
    out = list(H)
    used = set()
    e = nxt[0]
    while True:
        p, o = piece[e]
        out += p
        used.add(e)
        if o is None:
            break
        used.add(o)
        e = nxt[o]
        if e == 0:
            return None
    routes = split([0] + out if out[0] != 0 else out)
    for s in (1, 3):
        if s in used:
            continue
        # a loop through the remaining pieces
        loop = []
        e = s
        while True:
            p, o = piece[e]
            loop += p
            used.add(e)
            used.add(o)
            e = nxt[o]
            if e == s:
                break
            if e in (0, 5) or e in used:
                return None
        if 0 not in loop:
            return None
        z = loop.index(0)
        loop = loop[z:] + loop[:z] + [0]
        routes += split(loop)
    return routes


def feas(routes, D, d, C, L):
    fs = []
    for r in routes:
        if C is not None:
            fs.append(LE(demand(r, d), C))
        if L is not None:
            fs.append(LE(route_cost(r, D), L))
    return AND(*fs)


def cost_of(routes, D):
    return sum(route_cost(r, D) for r in routes)


FIXD = [0, 3, 5, 2, 4, 1, 6, 3, 2, 5, 4]


class SolBase(Harness):
    metric = False

    def bounds(self):
        return "solution %s, %s%s%s%s" % (
            self.sol, mode_text(self.dmode),
            ("", ", every demand and capacity",
             ", fixed demands and every capacity")[self.useC],
            ", every route limit" if self.useL else "",
            ", for which it is feasible" if self.useC or self.useL else "")

    def build(self, ctx):
        n = max(self.sol) + 1
        D = dmatrix(ctx, n, self.dmode)
        C = L = d = None
        if self.useC:
            C = ctx.var("C")
            ctx.assume(LT(0, C))
            d = lin_demands(ctx, n) if ctx.dlin else \
                [0.0] + [ctx.var("d%d" % i) if self.useC == 1 else
                         float(FIXD[i]) for i in range(1, n)]
        if self.useL:
            L = ctx.var("L")
            ctx.assume(LT(0, L))
        for r in split(self.sol):
            if C is not None:
                ctx.assume(LE(demand(r, d), C))
            if L is not None:
                ctx.assume(LE(route_cost(r, D), L))
        return dict(D=D, d=d, C=C, L=L, n=n)


class SolMove(SolBase):
    def run(self, inp):
        (m,) = modules_ready(SO)
        inp["s"] = list(self.sol)
        return m.do_3optstar_move(inp["s"], inp["D"],
                                  None if inp["d"] is None else list(inp["d"]),
                                  inp["C"], inp["L"], self.strategy)

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        D, d, C, L = inp["D"], inp["d"], inp["C"], inp["L"]
        new, delta = res
        yield "the given solution was modified", inp["s"] == self.sol
        old = sol_cost(self.sol, D)
        if new is None or delta is None:
            yield "solution and delta disagree on failure", \
                new is None and delta is None
            if self.complete:
                for r in exchange_neighbours(self.sol):
                    yield "feasible improving move to %s not found" % r, \
                        NOT(AND(feas(r, D, d, C, L), LT(cost_of(r, D), old)))
            return
        for c in solution_conds(new, inp["n"], D, d, C, L, "new solution"):
            yield c
        yield "delta of the move to %s is not its cost change" % new, \
            EQ(sol_cost(new, D) - old, delta)
        yield "move to %s is not improving" % new, LT(delta, 0)
        if self.complete and self.strategy == 2:
            nc = sol_cost(new, D)
            for r in exchange_neighbours(self.sol):
                yield "best accept returned %s, %s is better" % (new, r), \
                    NOT(AND(feas(r, D, d, C, L), LT(cost_of(r, D), nc)))


class SolHot(SolMove):
    """any one exchange is made attractive by any amount"""

    def bounds(self):
        return "solution %s, any one exchange with every length of one of " \
            "its new edges%s%s" % (
                self.sol, ", every capacity" if self.useC else "",
                ", every route limit" if self.useL else "")

    def build(self, ctx):
        n = max(self.sol) + 1
        self.nb = [[[0] + r + [0] for r in rs]
                   for rs in exchange_neighbours(self.sol)]
        C = L = d = None
        rs = split(self.sol)
        if self.useC:
            C = ctx.var("C")
            d = [float(x) for x in FIXD[:n]]
            for r in rs:
                ctx.assume(LE(demand(r, d), C))
        if self.useL:
            L = ctx.var("L", 12 * (max(map(len, rs)) + 1))
        return dict(d=d, C=C, L=L, n=n,
                    q=ctx.var("q", 0, len(self.nb) - 1, integer=True),
                    w=[2.0, ctx.var("w0"), 1.0, 3.0])

    def run(self, inp):
        to = self.nb[pick(inp["q"], 0, len(self.nb) - 1)]
        inp["D"] = hot_matrix(inp["n"], [self.sol], to, inp["w"])
        return SolMove.run(self, inp)


def S01(tier):
    T = tier == "thorough"
    hs = []

    def add(sol, dm, cons, strategy=1, complete=True):
        for C, L in cons:
            hs.append(SolMove("%s/%s%s%s/%s%s" % (
                "".join(map(str, sol)), dm, "/C" if C else "",
                "/L" if L else "", "first" if strategy == 1 else "best",
                "/valid" if not complete else ""),
                sol=list(sol), dmode=dm, useC=C, useL=L, strategy=strategy,
                complete=complete,
                priority=len(sol) * (1 + (dm[:3] in ("sym", "ent"))),
                functions=(SO + ".do_3optstar_move", SO + "._check_3opt_move",
                           SO + "._build_cumulative_lists")))
    small = [(0, 1, 2, 0), (0, 1, 0, 2, 0), (0, 2, 1, 3, 0), (0, 1, 2, 0, 3, 0),
             (0, 3, 0, 1, 2, 0)]
    for s in small:
        add(s, "sym", CONS)
        add(s, "sym", CONS[:1], 2)
    add((0, 1, 0, 2, 0, 3, 0), "sym", CONS if T else CONS[:2])
    add((0, 1, 0, 2, 0, 0), "sym", CONS)
    add((0, 2, 3, 1, 4, 0), "sym", CONS[:1])
    add((0, 2, 3, 0, 1, 4, 0), "sym", CONS if T else CONS[:1])
    for s in (1, 2) if not T else range(1, 6):
        for kind in ("euc", "rnd", "tie"):
            for sol in ((0, 2, 3, 0, 1, 4, 0), (0, 2, 0, 3, 1, 0, 5, 4, 0),
                        (0, 3, 5, 0, 1, 4, 2, 0, 0)):
                add(sol, "%s:%d" % (kind, s), CONS[3:])
                add(sol, "%s:%d" % (kind, s), CONS[3:], 2)
    for s in range(11, 14) if not T else range(11, 21):
        for sol in ((0, 2, 3, 1, 0, 5, 6, 4, 0), (0, 4, 0, 3, 1, 6, 2, 0, 5, 0),
                    (0, 6, 1, 4, 2, 0, 3, 5, 0)):
            for st in (1, 2):
                add(sol, "lin:%d" % s, CONS[:1], st)
                add(sol, "rnd:%d~d" % s, CONS[1:3] if st == 2 and not T else
                    CONS[1:], st)
                add(sol, "euc:%d~d" % s, CONS[3:] if st == 1 or T else
                    CONS[1:2], st)
            if st == 2 and T:
                add(sol, "tie:%d~d" % s, CONS[3:], st)
        for sol in ((0, 2, 7, 3, 1, 0, 5, 9, 6, 4, 8, 0),
                    (0, 4, 8, 0, 3, 1, 6, 2, 0, 9, 7, 5, 0)):
            for kind in ("rnd", "euc", "tie"):
                add(sol, "%s:%d~d" % (kind, s), CONS[3:], 1)
    for sol, cons in (((0, 2, 3, 1, 0, 5, 6, 4, 0), CONS),
                      ((0, 4, 0, 3, 1, 6, 2, 0, 5, 0), CONS),
                      ((0, 2, 7, 3, 1, 0, 5, 8, 6, 4, 0), CONS[:1 + T])):
        for C, L in cons:
            for st in (1, 2):
                if st == 2 and not T and (len(sol) > 10 or
                                          C + L and sol[2]):
                    continue
                hs.append(SolHot("%s/hot%s%s/%s" % (
                    "".join(map(str, sol)), "/C" if C else "",
                    "/L" if L else "", "first" if st == 1 else "best"),
                    sol=list(sol), useC=C, useL=L, strategy=st, complete=True,
                    priority=len(sol), functions=(
                        SO + ".do_3optstar_move", SO + "._check_3opt_move",
                        SO + "._build_cumulative_lists")))
    return hs


NB = {"do_2optstar_move": two_opt_star, "do_1point_move": one_point,
      "do_2point_move": two_point, "do_chain_move": chain}
ORDERED = ("do_1point_move", "do_chain_move")


class LS(SolBase):
    path_seconds = 40.0

    def bounds(self):
        return SolBase.bounds(self) + ", operators %s, operator strategy %s," \
            " iteration strategy %s%s" % (
                ",".join(self.ops), self.ostr, self.istr,
                ", at most %d rounds" % self.maxit if self.maxit else "")

    def run(self, inp):
        ls, intra, inter = modules_ready(LSM, INTRA, INTER)
        modules_ready("verypy.routedata", "verypy.util")
        ops = [getattr(intra if hasattr(intra, o) else inter, o)
               for o in self.ops]
        inp["s"] = list(self.sol)
        inp["dd"] = None if inp["d"] is None else list(inp["d"])
        kw = {"max_iterations": self.maxit} if self.maxit else {}
        return ls.do_local_search(
            ops, inp["s"], inp["D"], inp["dd"], inp["C"], inp["L"],
            operator_strategy=self.ostr, iteration_strategy=self.istr, **kw)

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        D, d, C, L = inp["D"], inp["d"], inp["C"], inp["L"]
        yield "the given solution was modified", inp["s"] == self.sol
        for c in solution_conds(res, inp["n"], D, d, C, L, "new solution"):
            yield c
        yield "local search made the solution longer (%s)" % (res,), \
            LE(sol_cost(res, D), sol_cost(self.sol, D))
        if self.maxit:
            return
        routes = [[0] + r + [0] for r in split(res)]
        for o in self.ops:
            if o in NB:
                f = NB[o]
                k = 3 if o == "do_chain_move" else 2
                for rs in itertools.permutations(routes, k):
                    old = sum(path_cost(r, D) for r in rs)
                    for c in f(*rs):
                        yield "%s still improves %s to %s" % (o, rs, c), NOT(
                            AND(feas([x[1:-1] for x in c], D, d, C, L),
                                LT(sum(path_cost(r, D) for r in c), old)))
            else:
                for r in routes:
                    for c in neighbours(o, r):
                        yield "%s still improves %s to %s" % (o, r, c), \
                            LE(path_cost(r, D), path_cost(c, D))


def L01(tier):
    T = tier == "thorough"
    hs = []

    def add(sol, dm, cons, ops, ostr, istr, maxit=None):
        ops = [("do_%s_move" % o) for o in ops]
        for C, L in cons:
            hs.append(LS("%s/%s%s%s/%s/op%d/it%d%s" % (
                "".join(map(str, sol)), dm, ("", "/C", "/Cfix")[C],
                "/L" if L else "", "+".join(o[3:-5] for o in ops), ostr, istr,
                "/max%d" % maxit if maxit else ""),
                sol=list(sol), dmode=dm, useC=C, useL=L, ops=ops, ostr=ostr,
                istr=istr, maxit=maxit,
                priority=len(sol) * (1 + (dm[:3] in ("sym", "ent"))),
                functions=(LSM + ".do_local_search",)
                + tuple((INTER if o in NB else INTRA) + "." + o for o in ops)))
    intra = ("2opt", "relocate", "exchange")
    inter = ("1point", "2point", "2optstar")
    mix = ("2opt", "1point", "2point")
    for istr in (1, 2, 3, 4):
        for ostr in (1, 2):
            add((0, 3, 1, 2, 0), "sym", CONS[:1], intra, ostr, istr)
            add((0, 1, 0, 2, 0), "sym", CONS, mix, ostr, istr)
            if T or (ostr == 2 and istr in (2, 3)):
                add((0, 1, 2, 0, 3, 0), "sym", CONS if T else CONS[:1],
                    ("1point", "relocate"), ostr, istr)
            add((0, 1, 0, 2, 0, 3, 0), "sym" if T else "ent:1:1-2",
                CONS[:2] if T else CONS[1:2], ("chain", "2point"), ostr, istr)
            for s in (1, 2) if not T else range(1, 6):
                for kind in ("euc", "rnd", "tie"):
                    dm = "%s:%d" % (kind, s)
                    for sol in ((0, 2, 3, 0, 1, 4, 0),
                                (0, 2, 0, 3, 1, 0, 4, 0))[:2 if s == 1 or T else 1]:
                        add(sol, dm, CONS[3:], mix, ostr, istr)
                        add(sol, dm, CONS[3:], inter, ostr, istr)
                        add(sol, dm, CONS[1:2], mix + ("chain", "3opt"), ostr,
                            istr)
                    for sol in ((0, 3, 5, 0, 1, 4, 2, 0, 7, 6, 0),
                                (0, 7, 0, 1, 3, 2, 0, 5, 6, 4, 0)):
                        if T or (kind == "rnd" and s == 1):
                            add(sol, dm, [(2, 1)], mix, ostr, istr)
                        if T or (kind == "tie" and s == 2):
                            add(sol, dm, [(2, 1)], inter, ostr, istr)
                        add(sol, dm, [(2, 0)], mix + ("chain", "3opt"), ostr,
                            istr)
                    if T:
                        sol = (0, 2, 0, 3, 1, 0, 5, 4, 6, 0)
                        add(sol, dm, CONS[3:], mix, ostr, istr)
                        add(sol, dm, CONS[3:], inter, ostr, istr)
                        add(sol, dm, CONS[1:2], mix + ("chain", "3opt"), ostr,
                            istr)
            for s in (10 + ostr,) if not T else range(11, 17):
                for sol in ((0, 3, 5, 8, 0, 1, 4, 2, 9, 0, 7, 6, 0),
                            (0, 2, 3, 7, 1, 0, 5, 6, 8, 4, 0)):
                    for kind in ("rnd", "euc"):
                        dm = "%s:%d~d" % (kind, s)
                        add(sol, dm, CONS[1:] if T else CONS[1:3] if
                            len(sol) > 12 else CONS[1:2], mix, ostr, istr)
                        add(sol, dm, CONS[3:], ("2optstar", "relocate"), ostr,
                            istr)
                        if len(sol) > 12:
                            add(sol, dm, CONS[1:2], ("chain", "exchange"), ostr,
                                istr)
            add((0, 3, 5, 0, 1, 4, 2, 0, 7, 6, 0), "rnd:3", [(2, 1)], mix,
                ostr, istr, 1)
            for s in (15,) if not T else range(15, 19):
                for kind in ("rnd", "euc", "tie"):
                    for ops in (mix, ("1point", "2optstar"),
                                ("2point", "chain"), ("1point",)):
                        for sol in ((0, 1, 6, 0, 2, 7, 0, 3, 8, 0, 4, 9, 0, 5,
                                     10, 0), (0, 4, 9, 2, 0, 3, 1, 0, 10, 0, 6,
                                              5, 7, 8, 0)):
                            add(sol, "%s:%d" % (kind, s), [(2, 0)], ops, ostr,
                                istr)
    return hs


PROPS = {"S01": S01, "L01": L01}
