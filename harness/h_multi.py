"""F05: two-phase, route-first and Lagrangian heuristics."""
import random
from symex.base import *

CH = "verypy.classic_heuristics."
CM = CH + "cmt_2phase"
RF = CH + "rfcs"
LR = CH + "lr3opt"
CONS = ((0, 0), (1, 0), (0, 1), (1, 1))


class NpShim(object):
    """numpy with arrays that can hold proxies"""

    def __init__(self, np):
        self.__dict__["_np"] = np

    def __getattr__(self, k):
        return getattr(self._np, k)

    def full(self, shape, v, dtype=None):
        return self._np.full(shape, v, dtype=object if dtype is None else dtype)

    def zeros(self, shape, dtype=None):
        if dtype is None or dtype is float:
            a = self._np.empty(shape, dtype=object)
            a.fill(0.0)
            return a
        return self._np.zeros(shape, dtype=dtype)


def shim_np(*mods):
    if not os.environ.get("VERIF_CLEAN"):
        for m in mods:
            if not isinstance(m.np, NpShim):
                m.np = NpShim(m.np)


class Multi(Construct):
    fixed_d = None
    maxinc = None

    def bounds(self):
        b = Construct.bounds(self)
        return b if not self.fixed_d else \
            b + ", demands %s" % (self.fixed_d,)

    def build(self, ctx):
        (m,) = modules_ready(self.module)
        if ctx.symbolic and self.module == RF:
            shim_np(m)
        D = dmatrix(ctx, self.n, self.dmode)
        d = None
        if self.useC and self.fixed_d:
            d = [0.0] + [float(x) for x in self.fixed_d[:self.n - 1]]
        D, d, C, L = cvrp_inputs(ctx, self.n, self.useC, self.useL, D=D, d=d)
        return dict(D=D, d=d, C=C, L=L, n=self.n)

    def call(self, f, inp, d):
        random.seed(7)
        return f(inp["D"], d, inp["C"], inp["L"], **self.kwargs)


def F05(tier):
    T = tier == "thorough"
    hs = []

    def add(name, n, dm, cons, **kw):
        for C, L in cons:
            hs.append(Multi("%s/n%d/%s%s%s%s%s" % (
                name, n, dm, "/C" if C else "", "/L" if L else "",
                "/d" if kw.get("fixed_d") else "",
                "".join("/%s=%s" % kv for kv in sorted(
                    kw.get("kwargs", {}).items()))),
                n=n, dmode=dm, useC=C, useL=L,
                priority=n * (1 + (dm[:3] in ("sym", "ent"))), **kw))
    P = dict(module=CM, func="cmt_2phase_init",
             functions=(CM + ".cmt_2phase_init", CM + "._phase_one",
                        CM + "._phase_two", CM + "._routestates2solution"))
    R = dict(module=RF, func="route_first_cluster_second_init",
             functions=(RF + ".route_first_cluster_second_init",
                        RF + "._partition_to_routes_with_cost_matrix"))
    Q = dict(module=LR, func="lr3opt_init",
             functions=(LR + ".lr3opt_init", LR + "._check_lr3opt_move",
                        LR + "._force_feasible", LR + "._check_CL_constraints"))
    for n in (2, 3, 4):
        for sel in ("farthest", "closest", "biggest", "first"):
            for kw in ({}, {"phase2_choose_most_associated_route": False},
                       {"phase2_repeated_association_with_n_routes": "K"},
                       {"phase2_repeated_association_with_n_routes": None,
                        "minimize_K": True},
                       {"number_of_randomized_retries": 2}):
                if n == 4 and (kw or sel != "farthest") and not T:
                    continue
                cons = CONS
                if sel == "biggest":
                    cons = [c for c in cons if c[0]]
                if n == 3 and kw and sel != "first":
                    cons = cons[-1:]
                add("cmt", n, "sym", cons, kwargs=dict(
                    kw, phase1_seed_selection_method=sel), **P)
        for kw in ({}, {"minimize_K": True}):
            add("rf", n, "sym", CONS if n < 4 or T else CONS[:3], kwargs=kw, **R)
        for kw in ({"initial_lambda1_C": 0.0625, "initial_lambda1_L": 0.125},
                   {"initial_lambda1_C": 4.0, "initial_lambda1_L": 4.0}):
            if n < 4:
                add("lr", n, "sym", CONS, kwargs=dict(
                    kw, max_concecutive_lamba_incs=3), **Q)
    for s in (1, 2) if not T else range(1, 7):
        for kind in ("euc", "rnd", "tie"):
            dm = "%s:%d" % (kind, s)
            for sel in ("farthest", "first"):
                add("cmt", 6 + T, dm, CONS[3:], kwargs={
                    "phase1_seed_selection_method": sel,
                    "phase2_repeated_association_with_n_routes": "K"}, **P)
                add("cmt", 6 + T, dm, CONS[3:], kwargs={
                    "phase1_seed_selection_method": sel,
                    "number_of_randomized_retries": 2}, **P)
            add("rf", 6 + T, dm, CONS[3:], kwargs={}, **R)
            add("rf", 7 + T, dm, CONS[1:3], kwargs={}, **R)
            if s == 1 or T:
                add("lr", 4 + T, dm, CONS[3:] if T else
                    CONS[2:3], kwargs={"initial_lambda1_C": 4.0,
                                       "initial_lambda1_L": 4.0}, **Q)
                add("lr", 5, dm, CONS[1:2], fixed_d=(1, 2, 1, 3), kwargs={
                    "initial_lambda1_C": 1.0}, **Q)
                if T:
                    add("lr", 5, dm, CONS[1:2], fixed_d=(1, 2, 1, 3),
                        kwargs={}, **Q)
            add("lr", 4, dm, CONS[2:3], kwargs={}, **Q)
    # distances stay symbolic, only their order is fixed
    for s in range(1, 4) if not T else range(1, 21):
        for o in ("iso:rnd", "iso:euc", "iso:tie"):
            dm = "%s:%d" % (o, s)
            for sel in ("farthest", "first"):
                for kw in ({}, {"phase2_repeated_association_with_n_routes":
                                "K"},
                           {"phase2_choose_most_associated_route": False}):
                    add("cmt", 5, dm, CONS[1:3], kwargs=dict(
                        kw, phase1_seed_selection_method=sel), **P)
            add("rf", 5, dm, CONS[1:3], kwargs={}, **R)
            add("rf", 5, dm, CONS[1:2], kwargs={"minimize_K": True}, **R)
    for s in (11, 12) if not T else range(11, 19):
        for kind in ("euc", "rnd", "tie"):
            dm = "%s:%d~d" % (kind, s)
            for sel in ("farthest", "closest", "biggest", "first"):
                add("cmt", 12 if T else 9, dm, CONS[3:], kwargs={
                    "phase1_seed_selection_method": sel,
                    "phase2_repeated_association_with_n_routes":
                    (None, 1, "K")[(s + len(sel)) % 3],
                    "phase2_choose_most_associated_route":
                    len(sel + kind) % 2 == 0,
                    "minimize_K": s % 2 == 0}, **P)
            add("rf", 9 if T else 8, dm, CONS[3:], kwargs={}, **R)
            add("rf", 9 if T else 8, dm, CONS[3:], kwargs={
                "minimize_K": True}, **R)
            add("lr", 6 if kind == "tie" or T else 5, dm[:-2], CONS[1:2],
                fixed_d=(1, 2, 1, 3, 2),
                kwargs={"initial_lambda1_C": 1.0}, **Q)
            for lam, mu in ((0.5, 0.5), (1.0, 2.0), (1.5, 0.25)):
                add("cmt", 8, dm, CONS[3:], kwargs={
                    "lambda_multiplier": lam, "mu_multiplier": mu,
                    "minimize_K": s % 2 == 0}, **P)
            dm = "%s:%d~f" % (kind, s + 10)
            for sel in ("farthest", "closest"):
                add("cmt", 18 + 4 * T, dm, CONS[1:3], kwargs={
                    "phase1_seed_selection_method": sel}, **P)
            add("rf", 14, dm, CONS[1:3], kwargs={}, **R)
    return hs


class Split(Harness):
    """the giant tour is split optimally"""

    def bounds(self):
        return "giant tour of %d customers, %s%s%s, given visiting order " \
            "inside the routes" % (
                self.n - 1, mode_text(self.dmode),
                ", every demand and capacity" if self.useC else "",
                ", every route limit" if self.useL else "")

    def build(self, ctx):
        (m,) = modules_ready(RF)
        if ctx.symbolic:
            shim_np(m)
        D = dmatrix(ctx, self.n, self.dmode)
        D, d, C, L = cvrp_inputs(ctx, self.n, self.useC, self.useL, D=D)
        return dict(D=D, d=d, C=C, L=L, n=self.n)

    def run(self, inp):
        (m,) = modules_ready(RF)

        def order(D, nodes):
            r = list(nodes)
            while r[-1] == 0 and len(r) > 1:
                r.pop()
            return r + [0], path_cost(r + [0], D)
        tour = [x for x in self.tour if x < self.n]
        d = None if inp["d"] is None else list(inp["d"])
        return m.route_first_cluster_second_init(
            inp["D"], d, inp["C"], inp["L"], minimize_K=self.mk,
            tsp_gen_algo=lambda D, nodes: (
                tour + tour[:1], path_cost(tour + tour[:1], D)),
            partition_tsp_opt_algo=order, route_tsp_opt_algo=order)

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        D, d, C, L = inp["D"], inp["d"], inp["C"], inp["L"]
        for c in solution_conds(res, self.n, D, d, C, L):
            yield c
        if sorted(x for x in res if x) != list(range(1, self.n)):
            return
        tour = [x for x in self.tour if x < self.n]
        m = len(tour)
        c0 = sol_cost(res, D)
        k0 = len(split(res))
        for cuts in range(1, 2 ** m):
            pos = [i for i in range(m) if cuts >> i & 1]
            routes = []
            for a, b in zip(pos, pos[1:] + [pos[0] + m]):
                routes.append([tour[x % m] for x in range(a, b)])
            feas = AND(*([LE(demand(r, d), C) for r in routes]
                         if C is not None else []))
            if L is not None:
                feas = AND(feas, *[LE(route_cost(r, D), L) for r in routes])
            cost = sum(route_cost(r, D) for r in routes)
            if self.mk:
                # fewer routes first
                if len(routes) < k0:
                    yield "split %s has fewer routes than %s" % (routes, res), \
                        NOT(feas)
            else:
                yield "split %s is shorter than %s" % (routes, res), \
                    NOT(AND(feas, LT(cost, c0)))


def G01(tier):
    T = tier == "thorough"
    hs = []

    def add(n, dm, cons, mk=False, tour=(2, 1, 3, 9, 5, 4, 8, 7, 6)):
        for C, L in cons:
            hs.append(Split("split/n%d/%s%s%s%s" % (
                n, dm, "/C" if C else "", "/L" if L else "",
                "/minK" if mk else ""), n=n, dmode=dm, useC=C, useL=L,
                mk=mk, tour=list(tour), priority=n,
                functions=(RF + ".route_first_cluster_second_init",
                           RF + "._partition_to_routes_with_cost_matrix")))
    for n in (3, 4):
        add(n, "sym", CONS[:2])
        add(n, "metric", CONS[2:])
        add(n, "metric", CONS[1:2], mk=True)
    for s in (1, 2, 3) if not T else range(1, 10):
        for kind in ("euc", "rnd", "tie"):
            for n in (5, 6, 7) if not T else (5, 6, 7, 8):
                add(n, "%s:%d" % (kind, s), CONS[:2] + (
                    CONS[2:] if kind == "euc" and n < 7 else ()))
            n = 9 if kind == "euc" or T else 8
            add(n if T else 8, "%s:%d~d" % (kind, s + 10), CONS[3:] if kind == "euc" else
                CONS[1:2])
            if kind == "euc":
                add(n, "%s:%d~d" % (kind, s + 10), CONS[1:2], mk=True)
        add(6, "%s:%d~d" % ("lin", s), CONS[1:2])
        add(5, "euc:%d" % s, CONS[1:2], mk=True)
    add(5, "sym", CONS[1:2])
    for s in (21, 22) if not T else range(21, 27):
        for kind in ("euc", "rnd", "tie"):
            add(10 + T, "%s:%d~f" % (kind, s), CONS[1:3]
                if kind == "euc" else CONS[1:2],
                tour=(2, 1, 3, 9, 5, 10, 4, 8, 7, 6))
        add(10, "euc:%d~f" % s, CONS[1:2], mk=True)
    return hs


PROPS = {"F05": F05, "G01": G01}
