"""I01 / I02 / T01: improvement of a single route, TSP solver."""
import importlib
from symex.base import *

INTRA = "verypy.local_search.intra_route_operators"
OPS = ("do_2opt_move", "do_3opt_move", "do_relocate_move", "do_exchange_move")
SCRAMBLE = {1: [1], 2: [2, 1], 3: [2, 3, 1], 4: [3, 1, 4, 2],
            5: [4, 1, 5, 3, 2], 6: [3, 6, 1, 5, 2, 4], 7: [3, 6, 1, 5, 7, 2, 4],
            8: [3, 6, 1, 8, 5, 7, 2, 4], 9: [3, 9, 6, 1, 8, 5, 7, 2, 4],
            10: [3, 9, 6, 1, 8, 5, 10, 7, 2, 4]}


def neighbours(op, route):
    """all tours the documented neighbourhood of `op` contains"""
    n = len(route)
    seen = set()

    def emit(r):
        t = tuple(r)
        if t not in seen and t != tuple(route):
            seen.add(t)
            return True
        return False

    if op in ("do_2opt_move", "do_3opt_move"):
        for i in range(0, n - 1):
            for j in range(i + 1, n - 1):
                r = route[:i + 1] + route[i + 1:j + 1][::-1] + route[j + 1:]
                if emit(r):
                    yield r
    if op == "do_3opt_move":
        for i in range(0, n - 1):
            for j in range(i + 1, n - 1):
                for k in range(j + 1, n - 1):
                    A, B = route[i + 1:j + 1], route[j + 1:k + 1]
                    for P, Q in ((A, B), (B, A)):
                        for p in (P, P[::-1]):
                            for q in (Q, Q[::-1]):
                                r = route[:i + 1] + p + q + route[k + 1:]
                                if emit(r):
                                    yield r
    if op == "do_relocate_move":
        for i in range(1, n - 1):
            rest = route[:i] + route[i + 1:]
            for j in range(1, n - 1):
                r = rest[:j] + [route[i]] + rest[j:]
                if emit(r):
                    yield r
    if op == "do_exchange_move":
        for i in range(1, n - 1):
            for j in range(i + 1, n - 1):
                r = list(route)
                r[i], r[j] = r[j], r[i]
                if emit(r):
                    yield r


class Intra(Harness):
    dmode = "sym"

    def build(self, ctx):
        m = self.m
        D = dmatrix(ctx, m + 1, self.dmode)
        inp = {"D": D, "route": [0] + SCRAMBLE[m] + [0], "bd": None}
        if self.bd:
            inp["bd"] = ctx.var("bd", lo=None)
        return inp

    def bounds(self):
        return "one route of %d customers, %s%s" % (
            self.m, mode_text(self.dmode),
            ", every required improvement level" if self.bd else "")

    def run(self, inp):
        (m,) = modules_ready(INTRA)
        inp["r"] = list(inp["route"])
        inp["Dc"] = inp["D"].copy()
        return getattr(m, self.op)(inp["r"], inp["Dc"], self.strategy,
                                   inp["bd"])

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        D, old = inp["D"], inp["route"]
        try:
            new, delta = res
        except Exception:
            yield "result is not a 2-tuple: %r" % (res,), False
            return
        level = inp["bd"] if self.bd else 0
        if self.which == "valid":
            yield "the given route was modified", inp["r"] == old
            if new is None or delta is None:
                yield "route and delta disagree on failure", \
                    new is None and delta is None
                return
            new = list(new)
            yield "not a tour over the same customers: %s" % new, \
                len(new) == len(old) and sorted(new) == sorted(old) and \
                new[0] == 0 and new[-1] == 0
            if sorted(new) != sorted(old):
                return
            yield "reported delta is not the change in cost of %s" % new, \
                EQ(path_cost(new, D) - path_cost(old, D), delta)
            yield "move to %s is not improving" % new, LT(delta, level)
            return
        # completeness
        oldc = path_cost(old, D)
        if new is None:
            for r in neighbours(self.op, old):
                yield "improving move to %s was not found" % r, \
                    LE(level, path_cost(r, D) - oldc)
        elif self.strategy == 2:
            newc = path_cost(list(new), D)
            for r in neighbours(self.op, old):
                yield "best accept returned %s, %s is better" % (new, r), \
                    LE(newc, path_cost(r, D))


class IntraHot(Intra):
    """any one neighbour of a long route is made attractive by any amount"""

    def bounds(self):
        return "one route of %d customers, any one neighbour with every " \
            "length of its new edges%s" % (
                self.m, " (all but one fixed)" if "3opt" in self.op else "")

    def build(self, ctx):
        m = self.m
        route = [0] + [(k * 5) % m + 1 if m % 5 else (k * 3) % m + 1
                       for k in range(m)] + [0]
        self.nb = list(neighbours(self.op, route))
        return {"route": route, "bd": None,
                "q": ctx.var("q", 0, len(self.nb) - 1, integer=True),
                "w": [ctx.var("w0"), 2.0, 1.0, 3.0] if "3opt" in self.op
                else [ctx.var("w%d" % k) for k in range(4)]}

    def run(self, inp):
        to = self.nb[pick(inp["q"], 0, len(self.nb) - 1)]
        inp["D"] = hot_matrix(self.m + 1, [inp["route"]], [to], inp["w"])
        return Intra.run(self, inp)


def _hs(which, tier):
    T = tier == "thorough"
    hs = []
    for op in OPS:
        for st in (1, 2):
            big = {("do_2opt_move", 1): 6, ("do_2opt_move", 2): 5,
                   ("do_3opt_move", 1): 5 if which == "valid" or T else 4,
                   ("do_3opt_move", 2): 4,
                   ("do_relocate_move", 1): 6,
                   ("do_relocate_move", 2): 5 if T else 4,
                   ("do_exchange_move", 1): 6,
                   ("do_exchange_move", 2): 5}[(op, st)]
            if T and st == 1 and op != "do_3opt_move":
                big = 7
            for bd in (0, 1):
                for m in range(1, big + 1 - (1 if bd and not T else 0)):
                    hs.append(Intra(
                        "%s/%s/%dcust%s" % (op[3:-5], "first" if st == 1 else
                                            "best", m, "/level" if bd else ""),
                        op=op, strategy=st, m=m, bd=bd, which=which,
                        functions=(INTRA + "." + op,)))
            for m in ((16, 25) if op != "do_3opt_move" else (9,)) + \
                    ((40, 12) if T else ()):
                if m > 12 and op == "do_3opt_move":
                    continue
                hs.append(IntraHot("%s/%s/%dcust/hot" % (
                    op[3:-5], "first" if st == 1 else "best", m), op=op,
                    strategy=st, m=m, bd=0, which=which, priority=m,
                    functions=(INTRA + "." + op,)))
            for m in (6, 8) + ((9, 10) if T else ()):
                if m > 8 and op == "do_3opt_move":
                    continue
                for seed in range(1, 9 if T else 4):
                    for kind in ("lin", "pln"):
                        if kind == "pln" and op == "do_3opt_move" and \
                                (m > 6 or not T):
                            continue
                        dm = "%s:%d" % (kind, seed)
                        hs.append(Intra(
                            "%s/%s/%dcust/%s/level" % (
                                op[3:-5], "first" if st == 1 else "best", m,
                                dm), op=op, strategy=st, m=m, bd=1,
                            which=which, dmode=dm, priority=m,
                            functions=(INTRA + "." + op,)))
    return hs


def I01(tier):
    return _hs("valid", tier)


def I02(tier):
    return _hs("complete", tier)


# ------------------------------------------------------------------- TSP ----

class Tsp(Harness):
    path_seconds = 30
    dmode = "sym"

    def build(self, ctx):
        D = dmatrix(ctx, self.n, self.dmode)
        return {"D": D, "sel": list(self.sel)}

    def bounds(self):
        return "tour over %s with %s" % (list(self.sel),
                                          mode_text(self.dmode))

    def run(self, inp):
        (m,) = modules_ready("verypy.tsp_solvers.tsp_solver_ropt")
        inp["s"] = list(inp["sel"])
        return m.solve_tsp_ropt(inp["D"], inp["s"], False, self.do2, self.do3)

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        D = inp["D"]
        tour, cost = res
        tour = list(tour)
        s = inp["sel"]
        start = s if s[-1] == s[0] and len(s) > 1 else s + [s[0]]
        yield "tour %s does not visit exactly the given nodes" % tour, \
            sorted(tour) == sorted(start) and tour[0] == s[0] and \
            tour[-1] == s[0]
        if sorted(tour) != sorted(start):
            return
        yield "reported cost is not the cost of %s" % tour, \
            EQ(cost, path_cost(tour, D))
        yield "the given selection was modified", inp["s"] == s
        yield "tour %s is worse than the given order" % tour, \
            LE(cost, path_cost(start, D))
        for flag, op in ((self.do2 and not self.do3, "do_2opt_move"),
                         (self.do3, "do_3opt_move")):
            if flag:
                for r in neighbours(op, tour):
                    yield "tour %s can be improved to %s" % (tour, r), \
                        LE(cost, path_cost(r, D))


def T01(tier):
    hs = []
    F = ("verypy.tsp_solvers.tsp_solver_ropt.solve_tsp_ropt",
         INTRA + ".do_2opt_move", INTRA + ".do_3opt_move")
    sels = [(0, 1), (0, 2, 1), (0, 3, 1, 2), (0, 3, 1, 2, 0),
            (2, 0, 3, 1), (0, 4, 2, 1, 3)]
    if tier == "thorough":
        sels += [(4, 1, 0, 3, 2), (0, 3, 1, 4, 2, 0)]
    for sel in sels:
        for d2, d3 in ((1, 1), (1, 0), (0, 1), (0, 0)):
            hs.append(Tsp("ropt/%s/2opt%d/3opt%d" % ("-".join(map(str, sel)),
                                                     d2, d3),
                          n=max(sel) + 1, sel=sel, do2=bool(d2), do3=bool(d3),
                          functions=F))
    for s in range(1, 7 if tier == "quick" else 17):
        for sel in ((0, 3, 6, 1, 5, 2, 4), (5, 3, 0, 1, 7, 2, 4, 6),
                    (0, 8, 3, 6, 1, 7, 5, 2, 4, 0), (2, 7, 4, 0, 6, 3)):
            for d2, d3 in ((1, 1), (1, 0)):
                for kind in ("lin", "pln"):
                    if kind == "pln" and len(sel) > 7 + (not d3):
                        continue
                    hs.append(Tsp("ropt/%s/2opt%d/3opt%d/%s:%d" % (
                        "-".join(map(str, sel)), d2, d3, kind, s),
                        n=max(sel) + 1, sel=sel, do2=bool(d2), do3=bool(d3),
                        dmode="%s:%d" % (kind, s), functions=F,
                        priority=len(sel)))
    return hs


PROPS = {"I01": I01, "I02": I02, "T01": T01}
