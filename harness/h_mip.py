"""F07, T03: the heuristics that need a MIP solver.

The commercial solver takes no symbolic data; a stand-in (symex/mip.py) solves
the 0/1 models of the real code exactly, whatever (symbolic) data they hold."""
import itertools
import random
from symex import mip
from symex.base import *
from harness.h_api import CH
from harness.h_sweep import layout
from harness.h_intr import BellMatrix, _Bell

MODS = {"mbsa": "matchingvrp", "gap": "gapvrp", "ptl": "petalvrp"}
CONS = ((1, 0), (0, 1), (1, 1))


class Mip(Construct):
    """one algorithm through the public registry"""
    fixed_d = None
    fixed_C = None
    fault = None
    path_seconds = 60.0

    def bounds(self):
        return "algorithm '%s', exact 0/1 solver%s, " % (
            self.algo, {None: "", "bell": ", interrupted before any one "
                        "distance look-up", "stop": ", any one solver run "
                        "interrupted", "time": ", any one solver run out of "
                        "time"}[self.fault]) + Construct.bounds(self) + \
            ", locations '%s'" % self.pts + (
                ", demands %s" % (self.fixed_d,) if self.fixed_d else "") + (
                ", every whole capacity" if self.algo == "gap" and self.useC
                else "")

    def build(self, ctx):
        p = layout(self.pts, self.n)
        D = dmatrix(ctx, self.n, self.dmode, p)
        d = None
        if self.useC and self.fixed_d:
            d = [0.0] + [float(x) for x in self.fixed_d[:self.n - 1]]
        D, d, C, L = cvrp_inputs(ctx, self.n, self.useC, self.useL, D=D, d=d)
        if all(isinstance(x, (int, float)) for x in D.flat):
            D = np.array(D.tolist(), dtype=float)
        k = c = None
        if self.algo == "gap" and self.useC:
            lo, hi = int(max(d)), int(sum(d)) + 1
            c = ctx.var("whole", integer=True)
            ctx.assume(LE(lo, c))
            ctx.assume(LE(c, hi))
            ctx.assume(EQ(C, c))
        if self.fault:
            k = ctx.var("moment", integer=True)
            ctx.assume(LE(1, k))
            if self.fault != "bell":
                ctx.assume(LE(k, 8))
        return dict(D=D, d=d, C=C, L=L, n=self.n, pts=p, k=k, c=c)

    def run(self, inp):
        mip.install()
        import verypy
        modules_ready(CH + MODS[self.algo])
        f = verypy.get_algorithms(self.algo)[0][3]
        install_float_shim()
        D = inp["D"].copy()
        bell = None
        if self.fault == "bell":
            D = D.view(BellMatrix)
            bell = D.bell = _Bell(inp["k"])
        elif self.fault:
            k = pick(inp["k"], 1, 8)
            st = mip.GRB.INTERRUPTED if self.fault == "stop" else \
                mip.GRB.TIME_LIMIT
            mip.FAULT = lambda i: st if i == k - 1 else None
        d = None if inp["d"] is None else list(inp["d"])
        C = inp["C"]
        if inp["c"] is not None:
            C = float(pick(inp["c"], int(max(d)), int(sum(d)) + 1))
        random.seed(3)
        try:
            r = f(list(inp["pts"]), D, d, C, inp["L"], None,
                  "EXACT_2D", bool(self.single), bool(self.mk))
            return "swallowed" if bell is not None and bell.rung or \
                self.fault == "stop" and mip.CALLS[0] >= k else "done", r
        except KeyboardInterrupt as e:
            return "interrupted", (e.args[0] if e.args else None)
        except mip.GurobiError:
            if self.fault != "time":
                raise
            return "time", None
        finally:
            mip.FAULT = None

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        yield "the interrupt was swallowed", res[0] != "swallowed"
        if res[1] is None:
            yield "no solution", res[0] != "done" or (
                self.algo == "gap" and bool(self.useL or self.fault))
            return
        for c in solution_conds(res[1], self.n, inp["D"], inp["d"], inp["C"],
                                inp["L"], "%s solution" % res[0]):
            yield c


def F07(tier):
    T = tier == "thorough"
    hs = []

    def add(algo, n, dm, cons, pts="circle", fixed_d=None, single=1, mk=0,
            fault=None):
        for C, L in cons:
            hs.append(Mip("%s%s/n%d/%s%s%s%s%s%s/%s" % (
                algo, "/" + fault if fault else "", n, dm, "/C" if C else "",
                "/L" if L else "", "/d" if fixed_d and C else "",
                "" if single else "/full", "/vehicles" if mk else "", pts),
                algo=algo, n=n, dmode=dm, useC=C, useL=L, single=single, mk=mk,
                pts=pts, fixed_d=fixed_d if C else None, fault=fault,
                priority=n, kwargs=dict(single=single, minimize_K=mk),
                functions=tuple(CH + MODS[algo] + "." + x for x in {
                    "mbsa": ("mbsa_init", "_mmp_solve", "_calculate_savings",
                             "_geedy_merge"),
                    "gap": ("gap_init", "_solve_gap", "_sweep_seed_points"),
                    "ptl": ("petal_init", "_solve_set_covering",
                            "_generate_overconstrained_petals",
                            "_generate_solution_relaxation_petals",
                            "_remove_multiserved")}[algo])))
    F = (2, 3, 1, 2, 4, 1, 3)
    for mk in (0, 1):
        for n in (2, 3):
            add("mbsa", n, "sym", ((0, 0),) + CONS, mk=mk)
        add("mbsa", 4, "pts", CONS, mk=mk)
        add("mbsa", 4, "rnd:1", CONS, mk=mk)
        add("mbsa", 4, "iso:rnd:1", CONS[:1], mk=mk)
        for s in (1, 2):
            add("mbsa", 6, "rnd:%d" % s, CONS[1:], mk=mk, fixed_d=F)
            add("mbsa", 6, "tie:%d" % s, CONS[1:], mk=mk, fixed_d=F)
            add("mbsa", 6, "pts", CONS[1:], pts=str(s), mk=mk, fixed_d=F)
        for single in (1, 0):
            for n in (2, 3):
                add("ptl", n, "sym", ((0, 0),) + CONS, fixed_d=F,
                    single=single, mk=mk)
            for pts in ("circle", "same", "line", "depot", "1"):
                for n in (4, 5):
                    for dm in ("pts", "rnd:1", "tie:1"):
                        add("ptl", n, dm, CONS, fixed_d=F,
                            single=single, mk=mk, pts=pts)
                for n in (2, 3, 4, 5):
                    add("gap", n, "pts", CONS if n < 5 or T else CONS[:1]
                        if single == 0 else CONS[:2], pts=pts, fixed_d=F,
                        single=single, mk=mk)
                add("gap", 4, "rnd:1", CONS, pts=pts, fixed_d=F,
                    single=single, mk=mk)
    for mk in (0, 1):
        for fault in ("bell", "stop", "time"):
            add("mbsa", 4, "pts", CONS, mk=mk, fixed_d=F, fault=fault)
            add("mbsa", 4, "rnd:1", CONS, mk=mk, fixed_d=F, fault=fault)
            add("ptl", 4, "pts", CONS if T or fault != "bell" else CONS[:2],
                mk=mk, fixed_d=F, single=0, fault=fault)
            add("ptl", 4, "pts", CONS[2:], mk=mk, fixed_d=F, fault=fault)
            add("gap", 4, "pts", CONS, mk=mk, fixed_d=F, fault=fault)
    return hs


# ------------------------------------------------------------- quality -------

def tour_lengths(D, nodes):
    """lengths of all round trips over the depot and the given customers"""
    c = [x for x in nodes if x != 0]
    for p in itertools.permutations(c):
        if p <= p[::-1]:
            yield route_cost(list(p), D)


class Quality(Mip):
    def bounds(self):
        return Mip.bounds(self) + ", against all joins of two routes / all " \
            "sweeps"

    def run(self, inp):
        res = Mip.run(self, inp)
        if self.algo == "ptl" and not self.single and not self.mk:
            m, sw = modules_ready(CH + MODS[self.algo], CH + "sweep")
            s = sw.get_sweep_from_cartesian_coordinates(list(inp["pts"]))
            d = None if inp["d"] is None else list(inp["d"])
            inp["sweeps"] = []
            for st in range(self.n - 1):
                rds = sw.do_one_sweep(self.n, inp["D"], d, inp["C"], inp["L"],
                                      m.solve_tsp, s, st, 1)
                inp["sweeps"].append([list(rd.route) for rd in rds])
        return res

    def props(self, inp, res, exc):
        bad = False
        for c in Mip.props(self, inp, res, exc):
            bad = bad or c[1] is False
            yield c
        if bad or exc is not None or res[1] is None:
            return
        D, d, C, L = inp["D"], inp["d"], inp["C"], inp["L"]
        sol = [int(x) for x in res[1]]
        cost = sol_cost(sol, D)
        routes = split(sol)
        if self.algo in ("gap", "mbsa"):
            for r in routes:
                if 3 <= len(r) <= 5:
                    for t in tour_lengths(D, r):
                        yield "route %s is not a shortest tour" % r, \
                            LE(route_cost(r, D), t)
        if self.algo == "mbsa" and not self.mk:
            alone = 0
            for i in range(1, self.n):
                alone = alone + D[0, i] + D[i, 0]
            yield "worse than serving every customer alone", LE(cost, alone)
            for a, b in itertools.combinations(routes, 2):
                fits = LE(demand(a + b, d), C) if C is not None else True
                both = route_cost(a, D) + route_cost(b, D)
                for t in tour_lengths(D, a + b):
                    ok = [fits, LT(t, both)] + (
                        [LE(t, L)] if L is not None else [])
                    yield "joining %s and %s is feasible and shorter" % (
                        a, b), NOT(AND(*ok))
        if "sweeps" in inp:
            for rs in inp["sweeps"]:
                tot = 0
                for r in rs:
                    tot = tot + route_cost([x for x in r if x], D)
                yield "a single sweep %s is shorter" % rs, LE(cost, tot)


def K05(tier):
    T = tier == "thorough"
    hs = []

    def add(algo, n, dm, cons, pts="circle", fixed_d=None, mk=0):
        single = int(algo != "ptl")
        for C, L in cons:
            hs.append(Quality("%s/n%d/%s%s%s%s%s/%s" % (
                algo, n, dm, "/C" if C else "", "/L" if L else "",
                "/d" if fixed_d and C else "", "/vehicles" if mk else "", pts),
                algo=algo, n=n, dmode=dm, useC=C, useL=L, single=single, mk=mk,
                pts=pts, fixed_d=fixed_d if C else None,
                priority=n, kwargs=dict(single=single, minimize_K=mk),
                functions=(CH + MODS[algo] + "." + {
                    "mbsa": "mbsa_init", "gap": "gap_init",
                    "ptl": "petal_init"}[algo],)))
    F = (2, 3, 1, 2, 4, 1, 3)
    for n in (2, 3):
        add("mbsa", n, "sym", ((0, 0),) + CONS)
        add("ptl", n, "sym", ((0, 0),) + CONS, fixed_d=F)
    for s in range(1, 4) if not T else range(1, 13):
        for dm in ("rnd:%d", "tie:%d", "euc:%d"):
            add("mbsa", 4, dm % s, CONS)
            add("mbsa", 5, dm % s, CONS, fixed_d=F)
            add("ptl", 4, dm % s, CONS, fixed_d=F, pts=str(s))
            add("ptl", 5, dm % s, CONS[:2], fixed_d=F, pts=str(s))
    for pts in ("circle", "line", "same", "side"):
        add("mbsa", 5, "pts", CONS, fixed_d=F, pts=pts)
        add("ptl", 5, "pts", CONS, fixed_d=F, pts=pts)
        add("gap", 4, "pts", CONS, fixed_d=F, pts=pts)
    return hs


# ---------------------------------------------------------- tour solver ------

class Tour(Harness):
    def bounds(self):
        return "every round trip over %s, %s%s, %s%s" % (
            self.nodes, mode_text(self.dmode), "", "closed list"
            if self.closed else "open list",
            {None: "", "stop": ", solver interrupted",
             "time": ", solver out of time"}[self.fault])

    def build(self, ctx):
        n = max(self.nodes) + 1
        return dict(D=dmatrix(ctx, n, self.dmode))

    def run(self, inp):
        mip.install()
        (m,) = modules_ready("verypy.tsp_solvers.tsp_solver_gurobi")
        s = list(self.nodes) + ([self.nodes[0]] if self.closed else [])
        inp["s"] = list(s)
        if self.fault:
            mip.FAULT = lambda i: (mip.GRB.INTERRUPTED if self.fault == "stop"
                                   else mip.GRB.TIME_LIMIT)
        try:
            r = m.solve_tsp_gurobi(inp["D"], s)
        except KeyboardInterrupt:
            return "stop"
        except mip.GurobiError:
            return "time"
        finally:
            mip.FAULT = None
        yield_s = list(s)
        return list(r[0]), r[1], yield_s

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        if self.fault:
            yield "solver status is not reported", res == self.fault
            return
        yield "no result", not isinstance(res, str)
        if isinstance(res, str):
            return
        D = inp["D"]
        sol, f, s = res
        yield "the given list was modified", s == inp["s"]
        ok = sol[0] == sol[-1] == self.nodes[0] and \
            sorted(sol[:-1]) == sorted(self.nodes)
        yield "%s is not a round trip from the first node" % sol, ok
        if not ok:
            return
        yield "wrong length", EQ(f, path_cost(sol, D))
        c = self.nodes[1:]
        for p in itertools.permutations(c):
            if p <= p[::-1]:
                t = [self.nodes[0]] + list(p) + [self.nodes[0]]
                yield "%s is shorter" % t, LE(f, path_cost(t, D))


def T03(tier):
    T = tier == "thorough"
    hs = []

    def add(nodes, dm, closed=0, fault=None):
        hs.append(Tour("tour/%s/%s%s%s" % (
            "-".join(map(str, nodes)), dm, "/closed" if closed else "",
            "/" + fault if fault else ""), nodes=tuple(nodes), dmode=dm,
            closed=closed, fault=fault, priority=len(nodes),
            functions=("verypy.tsp_solvers.tsp_solver_gurobi.solve_tsp_gurobi",
                       "verypy.tsp_solvers.tsp_solver_gurobi._subtour",
                       "verypy.tsp_solvers.tsp_solver_gurobi._subtourelim")))
    for c in (0, 1):
        add((0, 1), "sym", c)
        add((0, 2), "sym", c)
        add((0, 2, 1), "sym", c)
        add((0, 1, 2, 3), "sym", c)
        add((0, 3, 1, 2), "sym", c)
        add((2, 0, 3, 1), "sym", c)
        add((0, 4, 2, 1), "sym", c)
        for s in range(1, 5) if not T else range(1, 17):
            for k in ("rnd", "tie", "euc"):
                add((0, 2, 1, 4, 3), "%s:%d" % (k, s), c)
                add((0, 5, 2, 1, 4, 3), "%s:%d" % (k, s), c)
                add((3, 5, 2, 1, 0, 4, 6), "%s:%d" % (k, s), c)
            for k in ("lin", "pln"):
                add((0, 2, 1, 4, 3), "%s:%d" % (k, s), c)
                add((0, 5, 2, 1, 4, 3), "%s:%d" % (k, s), c)
    for f in ("stop", "time"):
        add((0, 1, 2, 3), "sym", 0, f)
        add((0, 1, 2, 3, 4), "rnd:1", 0, f)
    return hs


PROPS = {"F07": F07, "K05": K05, "T03": T03}
