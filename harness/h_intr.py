"""A01: an interrupt at any moment leaves a usable solution."""
import random
from symex.base import *
from harness.h_api import MODS, CH, NO_K
from harness.h_multi import shim_np
from harness.h_sweep import layout

CONS = ((0, 0), (1, 0), (0, 1), (1, 1))


class _Bell(object):
    """the user presses Ctrl-C just before the k-th distance look-up"""

    def __init__(self, k):
        self.k = k
        self.n = 0
        self.rung = False

    def tick(self):
        if self.rung:
            return
        self.n += 1
        if self.k == self.n:
            self.rung = True
            raise KeyboardInterrupt()


class BellMatrix(np.ndarray):
    bell = None

    def __array_finalize__(self, obj):
        self.bell = None

    def __getitem__(self, i):
        if self.bell is not None:
            self.bell.tick()
        r = np.ndarray.__getitem__(self, i)
        return r.view(np.ndarray) if isinstance(r, np.ndarray) else r


class Interrupt(Construct):
    fixed_d = None
    path_seconds = 60.0

    def bounds(self):
        return "algorithm '%s', interrupted before any one distance look-up, " \
            % self.algo + Construct.bounds(self) + \
            ", locations '%s'" % self.pts + (
                ", demands %s" % (self.fixed_d,) if self.fixed_d else "")

    def build(self, ctx):
        p = layout(self.pts, self.n)
        D = dmatrix(ctx, self.n, self.dmode, p)
        d = None
        if self.useC and self.fixed_d:
            d = [0.0] + [float(x) for x in self.fixed_d[:self.n - 1]]
        D, d, C, L = cvrp_inputs(ctx, self.n, self.useC, self.useL, D=D, d=d)
        k = ctx.var("moment", integer=True)
        ctx.assume(LE(1, k))
        return dict(D=D, d=d, C=C, L=L, n=self.n, pts=p, k=k,
                    sym=ctx.symbolic)

    def run(self, inp):
        import verypy
        (m,) = modules_ready(CH + MODS[self.algo])
        if inp["sym"] and self.algo == "rfcs":
            shim_np(m)
        f = verypy.get_algorithms(self.algo)[0][3]
        install_float_shim()
        D = inp["D"].copy().view(BellMatrix)
        bell = D.bell = _Bell(inp["k"])
        d = None if inp["d"] is None else list(inp["d"])
        random.seed(3)
        try:
            r = f(list(inp["pts"]), D, d, inp["C"], inp["L"], None, "EXACT_2D",
                  bool(self.single), bool(self.mk))
            return "swallowed" if bell.rung else "done", r
        except KeyboardInterrupt as e:
            return "interrupted", (e.args[0] if e.args else None)

    def props(self, inp, res, exc):
        if exc is not None:
            yield "the interrupt became %r" % (exc,), False
            return
        yield "the interrupt was swallowed", res[0] != "swallowed"
        if res[1] is None:
            yield "no solution after a normal run", res[0] != "done"
            return
        for c in solution_conds(res[1], self.n, inp["D"], inp["d"], inp["C"],
                                inp["L"], "%s solution" % res[0]):
            yield c


def A01(tier):
    T = tier == "thorough"
    hs = []

    def add(algo, n, dm, cons, single, mk, pts="circle", fixed_d=None):
        for C, L in cons:
            hs.append(Interrupt("%s/n%d/%s%s%s%s%s%s/%s" % (
                algo, n, dm, "/C" if C else "", "/L" if L else "",
                "/d" if fixed_d and C else "",
                "/single" if single else "", "/vehicles" if mk else "", pts),
                algo=algo, n=n, dmode=dm, useC=C, useL=L, single=single, mk=mk,
                pts=pts, fixed_d=fixed_d if C else None,
                kwargs=dict(single=single, minimize_K=mk), priority=n,
                functions=("verypy.get_algorithms",
                           CH + MODS[algo] + ".get_*_algorithm.call_init")))
    F = (2, 3, 1, 2, 4)
    slow = ("wh", "lr3o", "gm", "mj", "ims", "gps")
    for algo in MODS:
        for single in (0, 1):
            if single and algo not in ("gpl", "gps", "pn", "ims", "mj", "swp", "gm",
                                       "wh", "cmt"):
                continue        # has no effect
            heavy = algo in slow and not (single and algo != "gm")
            add(algo, 2, "pts", CONS, single, 0, fixed_d=F)
            if algo not in NO_K:
                add(algo, 2, "pts", CONS[3:], single, 1, fixed_d=F)
                if algo != "lr3o":
                    add(algo, 3, "pts", CONS[1:2], single, 1, fixed_d=F)
            if algo == "lr3o" and not T:
                continue
            add(algo, 3, "pts", CONS[1:3], single, 0, fixed_d=F)
            add(algo, 3, "rnd:2", CONS[1:3], single, 0, fixed_d=F)
            if not heavy or T:
                add(algo, 4, "pts", CONS[1:3], single, 0, fixed_d=F)
                if algo in slow and not T:
                    continue
                add(algo, 4, "rnd:1", CONS[1:3], single, 0, fixed_d=F)
                add(algo, 4, "euc:1", CONS[3:], single, 0, fixed_d=F)
            if algo not in slow + ("rfcs",) or T and not heavy:
                add(algo, 5, "pts", CONS[1:3], single, 0, fixed_d=F)
                add(algo, 5, "rnd:3", CONS[3:], single, 0, fixed_d=F)
                if algo not in ("si", "pi", "cmt") or T:
                    add(algo, 6, "rnd:3", CONS[1:3], single, 0, fixed_d=F)
    return hs


PROPS = {"A01": A01}
BUDGET = {"A01": (100.0, 780.0)}
