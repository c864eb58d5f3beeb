"""F04: sweep family."""
import random
from symex.base import *

CH = "verypy.classic_heuristics."
SW = CH + "sweep"
GM = CH + "gillet_miller_sweep"
WH = CH + "wren_holliday_sweep"
CONS = ((0, 0), (1, 0), (0, 1), (1, 1))

LAYOUTS = {
    "circle": [(0, 0), (4, 1), (1, 5), (-3, 3), (-5, -2), (1, -4), (3, -3)],
    "line": [(0, 0), (1, 1), (2, 2), (3, 3), (-1, -1), (-2, -2), (4, 4)],
    "same": [(0, 0), (2, 1), (2, 1), (-1, 3), (-1, 3), (0, -2), (2, 1)],
    "depot": [(1, 1), (1, 1), (3, 2), (1, 4), (1, 1), (-2, 0), (0, -3)],
    "side": [(0, 0), (5, 1), (5, 2), (6, 0), (4, -1), (7, 3), (5, -3)],
}


def layout(name, n):
    if name in LAYOUTS:
        return LAYOUTS[name][:n]
    return points(n, int(name))


class Sweep(Construct):
    fixed_d = None

    def bounds(self):
        b = Construct.bounds(self) + ", customer locations '%s'" % self.pts
        return b if not self.fixed_d else b + ", demands %s" % (self.fixed_d,)

    def build(self, ctx):
        p = layout(self.pts, self.n)
        D = dmatrix(ctx, self.n, self.dmode, p)
        d = None
        if self.useC and self.fixed_d:
            d = [0.0] + [float(x) for x in self.fixed_d[:self.n - 1]]
        D, d, C, L = cvrp_inputs(ctx, self.n, self.useC, self.useL, D=D, d=d)
        return dict(D=D, d=d, C=C, L=L, n=self.n, pts=p)

    def run(self, inp):
        (m,) = modules_ready(self.module)
        random.seed(1)
        d = None if inp["d"] is None else list(inp["d"])
        return getattr(m, self.func)(list(inp["pts"]), inp["D"], d, inp["C"],
                                     inp["L"], **self.kwargs)


def F04(tier):
    T = tier == "thorough"
    hs = []

    def add(name, n, dm, cons, pts, **kw):
        for C, L in cons:
            hs.append(Sweep("%s/%s/n%d/%s%s%s%s%s" % (
                name, pts, n, dm, "/C" if C else "", "/L" if L else "",
                "/d" if kw.get("fixed_d") else "",
                "".join("/%s=%s" % kv for kv in sorted(
                    kw.get("kwargs", {}).items()))),
                n=n, dmode=dm, useC=C, useL=L, pts=pts,
                priority=n * (1 + (dm[:3] in ("sym", "ent"))), **kw))
    S = dict(module=SW, func="sweep_init",
             functions=(SW + ".sweep_init", SW + ".do_one_sweep",
                        SW + "._ensure_L_feasible"))
    G = dict(module=GM, func="gillet_miller_init",
             functions=(GM + ".gillet_miller_init",
                        GM + "._improvement_callback",
                        GM + "._shortest_path_through_nodes"))
    W = dict(module=WH, func="wren_holliday_init",
             functions=tuple(WH + "." + f for f in (
                 "wren_holliday_init", "inspect_heuristic", "single_heuristic",
                 "pair_heuristic", "delete_heuristic",
                 "disentangle_heuristic")))
    for n in (2, 3, 4):
        for pts in ("circle", "same", "depot")[:3 if n < 4 or T else 1]:
            for sd in (-2, 0, 2)[:3 if n < 4 or T else 1]:
                if sd == 2 and n == 2:
                    continue
                add("swp", n, "sym", CONS, pts, kwargs={"seed_node": sd}, **S)
            for sd in (-2,):
                add("gm", n, "sym", CONS if n < 4 else CONS[1:2], pts,
                    kwargs={"seed_node": sd}, **G)
            add("gm", n, "sym", CONS if n < 4 else CONS[3:], pts,
                kwargs={"seed_node": 1, "direction": "ccw"}, **G)
            add("wh", n, "sym", CONS[:3] if n < 4 else CONS[1:2], pts,
                kwargs={"seed_node": 0, "direction": "cw"}, **W)
            if n < 4 or T:
                add("wh", n, "sym", CONS[3:], pts, fixed_d=(1, 2, 1, 3, 2, 2),
                    kwargs={}, **W)
    for s in (1, 2) if not T else range(1, 9):
        for pts in ("circle", "line", "side", "depot", "same", str(s)):
            for dm in ("pts", "rnd:%d" % s, "tie:%d" % s):
                if (dm == "pts" and s > 1 and not pts.isdigit()) or (
                        s > 1 and pts in ("line", "side") and not T):
                    continue
                add("swp", 5 + T, dm, CONS[3:], pts, kwargs={}, **S)
                add("swp", 6 + T, dm, CONS[3:], pts, kwargs={
                    "seed_node": 1, "direction": "cw"}, **S)
                add("gm", 5 + T, dm, CONS[3:], pts, kwargs={}, **G)
                add("gm", 6 + T, dm, CONS[3:], pts, kwargs={
                    "seed_node": 1, "direction": "ccw"}, **G)
                add("wh", 5, dm, CONS[3:], pts, fixed_d=(1, 2, 1, 3, 2, 2),
                    kwargs={"full_convergence": s % 2 == 0,
                            "minimize_K": s % 2 == 0}, **W)
                add("wh", 5 + T, dm, CONS[1:2], pts,
                    kwargs={"seed_node": s % 4, "direction": "ccw"}, **W)
    # distances stay symbolic, only their order is fixed
    for s in range(1, 4) if not T else range(1, 21):
        for o in ("iso:rnd", "iso:euc", "iso:tie"):
            dm = "%s:%d" % (o, s)
            for pts in ("circle", "same", str(s)):
                add("swp", 5, dm, CONS[1:3], pts, kwargs={}, **S)
                add("swp", 5, dm, CONS[3:], pts, kwargs={
                    "seed_node": 1, "direction": "cw"}, **S)
                if T or pts == "circle" and dm[4:] not in ("euc:1", "euc:2"):
                    add("gm", 5, dm, CONS[1:3], pts, kwargs={}, **G)
                add("wh", 4, dm, CONS[1:3], pts, kwargs={
                    "seed_node": s % 3, "direction": "ccw"}, **W)
    for s in (11, 12) if not T else range(11, 19):
        for kind in ("pts", "rnd:%d" % s, "tie:%d" % s):
            dm = kind + "~d"
            n = 11 if T else 9
            add("swp", n - 2, dm, CONS[3:], str(s), kwargs={}, **S)
            add("swp", n + 2, dm, CONS[3:], str(s), kwargs={
                "seed_node": s % 8, "direction": ("cw", "ccw")[s % 2]}, **S)
            add("gm", n, dm, CONS[3:], str(s), kwargs={
                "seed_node": s % 8, "direction": ("cw", "ccw")[s % 2]}, **G)
            add("wh", n - 2, dm[:-2], CONS[3:], str(s),
                fixed_d=(1, 2, 1, 3, 2, 2, 1, 4, 1, 2),
                kwargs={"seed_node": 0, "direction": ("cw", "ccw")[s % 2],
                        "full_convergence": s % 2 == 0}, **W)
    for s in (21, 22) if not T else range(21, 27):
        for kind in ("pts", "rnd:%d" % s):
            dm = kind + "~f"
            for a, k in (("swp", S), ("gm", G), ("wh", W)):
                add(a, 16 if a != "wh" else 12, dm, CONS[1:3], str(s), kwargs={
                    "seed_node": s % 8, "direction": ("cw", "ccw")[s % 2]},
                    **k)
            add("swp", 12, dm, CONS[1:3], str(s), kwargs={}, **S)
            add("gm", 10, dm, CONS[1:3], str(s), kwargs={}, **G)
    return hs


PROPS = {"F04": F04}
