"""F06 every algorithm through the public registry, N01 no side effects."""
import random
from symex.base import *
from harness.h_multi import shim_np
from harness.h_sweep import layout

CH = "verypy.classic_heuristics."
MODS = {"ps": "parallel_savings", "ps2o": "cawlip_savings",
        "gpl": "gaskell_savings", "ss": "sequential_savings",
        "gps": "paessens_savings", "ims": "suppression_savings",
        "si": "cheapest_insertion", "mj": "mole_jameson_insertion",
        "pi": "cheapest_insertion", "cmt": "cmt_2phase",
        "sn": "nearest_neighbor", "pn": "nearest_neighbor",
        "ty": "tyagi_nearest_neighbor", "swp": "sweep",
        "wh": "wren_holliday_sweep", "gm": "gillet_miller_sweep",
        "rfcs": "rfcs", "lr3o": "lr3opt"}
NO_K = ("sn", "pn", "ty", "lr3o")      # documented as not supported
POINTS = ("swp", "wh", "gm")
CONS = ((0, 0), (1, 0), (0, 1), (1, 1))


class Api(Construct):
    twice = False
    fixed_d = None
    path_seconds = 60.0

    def bounds(self):
        return "algorithm '%s'%s, " % (
            self.algo, ", called twice" if self.twice else "") + \
            Construct.bounds(self) + (
                ", locations '%s'" % self.pts if self.pts else "") + (
                ", demands %s" % (self.fixed_d,) if self.fixed_d else "")

    def build(self, ctx):
        p = layout(self.pts, self.n)
        D = dmatrix(ctx, self.n, self.dmode, p)
        d = None
        if self.useC and self.fixed_d:
            d = [0.0] + [float(x) for x in self.fixed_d[:self.n - 1]]
        D, d, C, L = cvrp_inputs(ctx, self.n, self.useC, self.useL, D=D, d=d)
        return dict(D=D, d=d, C=C, L=L, n=self.n, pts=p, sym=ctx.symbolic)

    def run(self, inp):
        import verypy
        (m,) = modules_ready(CH + MODS[self.algo])
        if inp["sym"] and self.algo == "rfcs":
            shim_np(m)
        algos = verypy.get_algorithms(self.algo)
        install_float_shim()
        inp["found"] = [(a[0], len(a)) for a in algos]
        f = algos[0][3]
        D = inp["D1"] = inp["D"].copy()
        d = inp["d1"] = None if inp["d"] is None else list(inp["d"])
        pts = inp["p1"] = list(inp["pts"])
        out = []
        for k in range(2 if self.twice else 1):
            random.seed(3)
            try:
                out.append(f(pts, D, d, inp["C"], inp["L"], None, "EXACT_2D",
                             bool(self.single), bool(self.mk)))
            except NotImplementedError:
                if not (self.mk and self.algo in NO_K):
                    raise
                out.append("refused")
        return out

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        yield "registry has %s" % (inp["found"],), \
            inp["found"] == [(self.algo, 4)]
        if self.twice:
            yield "the locations were modified", inp["p1"] == inp["pts"]
            for i in range(self.n):
                if inp["d"] is not None:
                    yield "demand of %d was modified" % i, \
                        EQ(inp["d"][i], inp["d1"][i])
                for j in range(self.n):
                    yield "the distance %d-%d was modified" % (i, j), \
                        EQ(inp["D"][i, j], inp["D1"][i, j])
            yield "solved again the result is %s, was %s" % (
                res[1], res[0]), list(res[0]) == list(res[1])
            return
        if self.mk and self.algo in NO_K:
            return
        for c in solution_conds(res[0], self.n, inp["D"], inp["d"], inp["C"],
                                inp["L"]):
            yield c


def _api(tier, twice):
    T = tier == "thorough"
    hs = []

    def add(algo, n, dm, cons, single, mk, pts="circle", fixed_d=None):
        for C, L in cons:
            hs.append(Api("%s/n%d/%s%s%s%s%s%s/%s" % (
                algo, n, dm, "/C" if C else "", "/L" if L else "",
                "/d" if fixed_d and C else "",
                "/single" if single else "", "/vehicles" if mk else "", pts),
                algo=algo, n=n, dmode=dm, useC=C, useL=L, single=single, mk=mk,
                pts=pts, twice=twice, fixed_d=fixed_d if C else None,
                kwargs=dict(single=single, minimize_K=mk),
                priority=n * (1 + (dm[:3] in ("sym", "ent"))),
                functions=("verypy.get_algorithms",
                           CH + MODS[algo] + ".get_*_algorithm.call_init")))
    F = (2, 3, 1, 2, 4)
    for algo in MODS:
        for single in (0, 1):
            for mk in (0, 1):
                lr = algo == "lr3o"
                # the multipliers of lr3o are products of D and d and the
                # mean direction of wh is weighted with d: keep d constant
                fd = dict(fixed_d=F) if lr or algo == "wh" and not single \
                    else {}
                add(algo, 2, "pts" if lr else "sym", CONS, single, mk, **fd)
                if mk and algo in NO_K:
                    continue
                if lr and single:       # has no effect
                    continue
                if algo not in ("lr3o", "gm", "wh", "rfcs") or T:
                    add(algo, 3, "pts" if lr else
                        "sym" if not twice or T else "ent:1:0-1",
                        CONS[1:] if T else CONS[1:3] if not twice else
                        CONS[3:], single, mk, **fd)
                else:
                    add(algo, 3, "pts", CONS[3:], single, mk, **fd)
                add(algo, 4, "pts",
                    CONS[1:3] if lr and not T else
                    CONS[1:] if T or not twice else CONS[3:],
                    single, mk, **fd)
                if lr and not T:
                    continue
                add(algo, 5, "pts", CONS[3:], single, mk, fixed_d=F)
                for k in (3, 4) if not T else range(3, 8):
                    if algo == "wh":
                        add(algo, 7, "pts", CONS[3:], single, mk, pts=str(k),
                            fixed_d=F + (2, 1, 3, 2))
                    else:
                        big = 6 if algo in ("mj", "gm", "ims", "swp", "ty") else 8
                        add(algo, big + T - (twice and not T), ("pts~d", "rnd:%d~d" % k)[k % 2],
                            CONS[3:], single, mk, pts=str(k))
                if T:
                    add(algo, 5, "pts", CONS[1:3], single, mk, **fd)
                    add(algo, 6, "pts", CONS[1:], single, mk, fixed_d=F)
                    add(algo, 5, "pts", CONS[1:], single, mk, pts="same",
                        fixed_d=F)
                    add(algo, 4, "rnd:1", CONS[1:], single, mk, **fd)
                elif not twice:
                    add(algo, 4, "rnd:1", CONS[3:], single, mk, fixed_d=F)
                    add(algo, 5, "pts", CONS[1:2], single, mk, pts="same",
                        fixed_d=F)
    return hs


def F06(tier):
    return _api(tier, False)


def N01(tier):
    return _api(tier, True)


PROPS = {"F06": F06, "N01": N01}
