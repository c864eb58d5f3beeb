"""S02: the reference ("naive") moves on whole solutions and their driver."""
import contextlib
import io
import itertools
from symex.base import *
from harness.h_inter import two_opt_star, one_point, two_point
from harness.h_intra import neighbours
from harness.h_ls import SolBase, feas, cost_of, CONS

NA = "verypy.local_search.naive_implementations"


def whole(op, sol):
    """every list of routes one move of `op` away from the solution"""
    routes = [[0] + r + [0] for r in split(sol)]
    intra = {"2opt": "do_2opt_move", "2optstar": "do_2opt_move",
             "1point": "do_relocate_move", "2point": "do_exchange_move",
             "relocate": "do_relocate_move", "exchange": "do_exchange_move"}
    inter = {"2optstar": two_opt_star, "1point": one_point,
             "2point": two_point}.get(op)
    for i, r in enumerate(routes):
        for c in neighbours(intra[op], r):
            yield [x[1:-1] for x in routes[:i] + [c] + routes[i + 1:]]
    if inter is None:
        return
    # an empty route of the solution can receive customers
    if any(a == b == 0 for a, b in zip(sol, sol[1:])):
        routes.append([0, 0])
    for i, j in itertools.permutations(range(len(routes)), 2):
        rest = [r for k, r in enumerate(routes) if k not in (i, j)]
        for c in inter(routes[i], routes[j]):
            yield [x[1:-1] for x in rest + c]


class Quiet(SolBase):
    def call(self, f, *a, **kw):
        with contextlib.redirect_stdout(io.StringIO()):
            return f(*a, **kw)


class Naive(Quiet):
    def bounds(self):
        return SolBase.bounds(self) + ", operator %s, %s accept%s" % (
            self.op, ("first", "best")[self.strategy - 1],
            ", every required improvement level" if self.bd else "")

    def build(self, ctx):
        inp = SolBase.build(self, ctx)
        inp["bd"] = None
        if self.bd:
            inp["bd"] = ctx.var("bd", lo=None)
            ctx.assume(LT(inp["bd"], 0))
        return inp

    def run(self, inp):
        (m,) = modules_ready(NA)
        modules_ready("verypy.util")
        inp["s"] = list(self.sol)
        return self.call(getattr(m, "do_naive_%s_move" % self.op), inp["s"],
                         inp["D"], inp["d"], inp["C"], inp["L"],
                         strategy=self.strategy, best_delta=inp["bd"])

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        D, d, C, L = inp["D"], inp["d"], inp["C"], inp["L"]
        level = 0 if inp["bd"] is None else inp["bd"]
        new, delta = res
        yield "the given solution was modified", inp["s"] == self.sol
        old = sol_cost(self.sol, D)
        # the moves within routes are made on every route at once
        per_route = self.op in ("relocate", "exchange")
        if new is None or delta is None:
            yield "solution and delta disagree on failure", \
                new is None and delta is None
            for r in whole(self.op, self.sol):
                yield "feasible improving move to %s not found" % r, \
                    NOT(AND(feas(r, D, d, C, L),
                            LT(cost_of(r, D), old + level)))
            return
        for c in solution_conds(new, inp["n"], D, d, C, L, "new solution"):
            yield c
        nc = sol_cost(new, D)
        yield "delta of the move to %s is not its cost change" % new, \
            EQ(nc - old, delta)
        yield "move to %s is not improving" % new, LT(delta, level)
        if not per_route:
            rs = [[x for x in r] for r in split(new)]
            key = routes_key(rs)
            yield "%s is not a move of the operator" % new, any(
                routes_key(r) == key for r in whole(self.op, self.sol))
        if self.strategy == 2:
            for r in whole(self.op, self.sol):
                yield "best accept returned %s, %s is better" % (new, r), \
                    NOT(AND(feas(r, D, d, C, L), LT(cost_of(r, D), nc)))


def routes_key(routes):
    return tuple(sorted(min(tuple(r), tuple(r[::-1])) for r in routes if r))


class Driver(Quiet):
    path_seconds = 40.0

    def bounds(self):
        return SolBase.bounds(self) + ", operators %s, %s accept%s" % (
            ",".join(self.ops), ("first", "best")[self.strategy - 1],
            ", at most %d rounds" % self.maxit if self.maxit else "")

    def run(self, inp):
        (m,) = modules_ready(NA)
        modules_ready("verypy.util")
        inp["s"] = list(self.sol)
        inp["moves"] = moves = []

        def counted(k, f):
            def g(*a, **kw):
                r = f(*a, **kw)
                moves.append((k, r[1] is not None))
                return r
            g.__name__ = f.__name__
            return g
        ops = [counted(k, getattr(m, "do_naive_%s_move" % o))
               for k, o in enumerate(self.ops)]
        return self.call(m.do_naive_local_search, ops, inp["s"], inp["D"],
                         inp["d"], inp["C"], inp["L"], self.strategy,
                         **({"max_iterations": self.maxit} if self.maxit
                            else {}))

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        D, d, C, L = inp["D"], inp["d"], inp["C"], inp["L"]
        yield "the given solution was modified", inp["s"] == self.sol
        for c in solution_conds(res, inp["n"], D, d, C, L, "new solution"):
            yield c
        yield "local search made the solution longer (%s)" % (res,), \
            LE(sol_cost(res, D), sol_cost(self.sol, D))
        if self.maxit:
            rounds = sum(k == 0 for k, _ in inp["moves"])
            yield "%d rounds were made, %d are allowed" % (
                rounds, self.maxit), rounds <= self.maxit
            if any(ok for _, ok in inp["moves"][-len(self.ops):]):
                yield "search ended after %d rounds, %d were asked for" % (
                    rounds, self.maxit), rounds == self.maxit
                return
        now = sol_cost(res, D)
        for o in self.ops:
            for r in whole(o, res):
                yield "%s still improves %s to %s" % (o, res, r), \
                    NOT(AND(feas(r, D, d, C, L), LT(cost_of(r, D), now)))


OPS = ("2opt", "2optstar", "1point", "2point", "relocate", "exchange")


def S02(tier):
    T = tier == "thorough"
    hs = []

    def fn(*ops):
        out = [NA + ".do_naive_%s_move" % o for o in ops] + \
            [NA + "._naive_constraint_check"]
        if "relocate" in ops or "exchange" in ops:
            out.append(NA + "._apply_as_intra_route")
        return tuple(out)

    def add(sol, dm, cons, op, strategy, bd=False):
        for C, L in cons:
            hs.append(Naive("%s/%s/%s%s%s/%s%s" % (
                op, "".join(map(str, sol)), dm, ("", "/C", "/Cfix")[C],
                "/L" if L else "", ("first", "best")[strategy - 1],
                "/level" if bd else ""),
                sol=list(sol), dmode=dm, useC=C, useL=L, op=op, bd=bd,
                strategy=strategy, functions=fn(op),
                priority=len(sol) * (1 + (dm[:3] in ("sym", "ent")))))

    def drive(sol, dm, cons, ops, strategy, maxit=None):
        for C, L in cons:
            hs.append(Driver("search:%s/%s/%s%s%s/%s%s" % (
                "+".join(ops), "".join(map(str, sol)), dm,
                ("", "/C", "/Cfix")[C], "/L" if L else "",
                ("first", "best")[strategy - 1],
                "/max%d" % maxit if maxit else ""),
                sol=list(sol), dmode=dm, useC=C, useL=L, ops=ops,
                maxit=maxit, strategy=strategy,
                functions=fn(*ops) + (NA + ".do_naive_local_search",),
                priority=len(sol) * (1 + (dm[:3] in ("sym", "ent")))))

    for op in OPS:
        for st in (1, 2):
            for sol in ((0, 1, 2, 0), (0, 1, 0, 2, 0), (0, 2, 1, 3, 0),
                        (0, 1, 2, 0, 3, 0)):
                small = len(sol) < 6
                add(sol, "sym", CONS if small and (st == 1 or T) else
                        CONS[:1], op, st)
            add((0, 1, 2, 0, 3, 0), "sym", CONS[:1], op, st, True)
            for s in (1,) if not T else range(1, 5):
                for kind in ("euc", "rnd", "tie"):
                    for sol in ((0, 2, 3, 0, 1, 4, 0), (0, 3, 1, 0, 2, 0, 4, 0),
                                (0, 2, 0, 0, 3, 1, 4, 0)):
                        add(sol, "%s:%d" % (kind, s), CONS[3:], op, st)
                    add((0, 3, 5, 0, 1, 4, 2, 0), "%s:%d" % (kind, s),
                        [(2, 1)], op, st)
            for s in (11,) if not T else range(11, 15):
                for sol in ((0, 3, 5, 8, 0, 1, 4, 2, 0, 7, 6, 0),
                            (0, 2, 3, 7, 1, 0, 5, 6, 4, 0)):
                    add(sol, "lin:%d" % s, CONS[:1], op, st)
                    add(sol, "rnd:%d~d" % s, CONS[3:], op, st)
    for st in (1, 2):
        for ops in (("2opt",), ("1point", "2opt"), ("2optstar",),
                    ("2point", "relocate"), ("exchange", "1point")):
            drive((0, 1, 0, 2, 0), "sym", CONS if T else CONS[1:3], ops, st)
            drive((0, 3, 1, 2, 0), "sym", CONS[:1], ops, st) \
                if T or st == 2 else None
            for s in (1,) if not T else range(1, 4):
                for kind in ("rnd", "tie"):
                    drive((0, 2, 3, 0, 1, 4, 0), "%s:%d" % (kind, s),
                          CONS[3:] if T else CONS[1:2], ops, st)
            drive((0, 3, 5, 0, 1, 4, 2, 0), "rnd:2", [(2, 0)], ops, st)
            for mx in (1, 2):
                drive((0, 3, 5, 0, 1, 4, 2, 0), "rnd:3", [(2, 0)], ops, st, mx)
    return hs


PROPS = {"S02": S02}
