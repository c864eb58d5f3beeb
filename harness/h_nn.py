"""F03: nearest neighbour heuristics."""
from symex.base import *

CH = "verypy.classic_heuristics."
NN = CH + "nearest_neighbor"
TY = CH + "tyagi_nearest_neighbor"
CONS = ((0, 0), (1, 0), (0, 1), (1, 1))


class Pnn(Construct):
    def run(self, inp):
        (m,) = modules_ready(NN)
        d = None if inp["d"] is None else list(inp["d"])
        f = m.get_pnn_algorithm()[2]
        return f(None, inp["D"], d, inp["C"], inp["L"], None, None, False,
                 False)

    def more(self, inp, sol):
        D = inp["D"]
        (m,) = modules_ready(NN)
        return ()


class Tyagi(Construct):
    """min_penalty multiplies demands and distances: one of them is fixed"""
    fixed_d = None

    def bounds(self):
        b = Construct.bounds(self)
        return b if not self.fixed_d else \
            b + ", demands %s" % (self.fixed_d,)

    def build(self, ctx):
        D = dmatrix(ctx, self.n, self.dmode)
        d = None
        if self.useC and self.fixed_d:
            d = [0.0] + [float(x) for x in self.fixed_d[:self.n - 1]]
        D, d, C, L = cvrp_inputs(ctx, self.n, self.useC, self.useL, D=D, d=d)
        if self.useC and self.fixed_d:
            ctx.assume(LE(C, float(sum(self.fixed_d))))
        return dict(D=D, d=d, C=C, L=L, n=self.n)


def F03(tier):
    T = tier == "thorough"
    hs = []

    def add(cls, name, n, dm, cons, **kw):
        for C, L in cons:
            hs.append(cls("%s/n%d/%s%s%s%s" % (
                name, n, dm, "/C" if C else "", "/L" if L else "",
                "".join("/%s=%s" % kv for kv in sorted(
                    kw.get("kwargs", {}).items()))),
                n=n, dmode=dm, useC=C, useL=L,
                priority=n * (1 + (dm[:3] in ("sym", "ent"))), **kw))
    S = dict(module=NN, func="nearest_neighbor_init",
             functions=(NN + ".nearest_neighbor_init", NN + ".get_seed_node",
                        NN + "._PeekQueue"))
    P = dict(module=NN, func="-", functions=(NN + ".get_pnn_algorithm",))
    Y = dict(module=TY, func="tyagi_init",
             functions=(TY + ".tyagi_init", TY + ".route_end_interchange",
                        TY + "._push_if_popped_to_peek_queue"))
    for n in (2, 3, 4):
        for init in ("farthest", "closest", "nearest"):
            for end in (False, True):
                for er in (1, 2, 3):
                    if er > 1 and (end or n == 4 and not T):
                        continue
                    if n == 4 and (end or init == "nearest") and not T:
                        continue
                    if n == 4 and not T:
                        cons = CONS[3:] if end else CONS[1:3]
                    else:
                        cons = CONS
                    add(Construct, "nn", n, "sym", cons, kwargs={
                        "initialize_routes_with": init, "add_only_to_end": end,
                        "emerging_route_count": er}, **S)
        if n < 4:
            add(Pnn, "pnn", n, "sym", CONS, **P)
    for n in (2, 3, 4):
        add(Tyagi, "ty", n, "sym", ((0, 0), (0, 1)) if n < 4 or T else
            ((0, 1),), **Y)
        for fd in ((1, 1, 1), (1, 3, 2)):
            if n == 4 and not T:
                continue
            add(Tyagi, "ty/d%s" % "".join(map(str, fd)), n, "sym",
                ((1, 0), (1, 1)), fixed_d=fd, **Y)
    for s in (1, 2, 3) if not T else range(1, 8):
        for kind in ("euc", "rnd", "tie"):
            dm = "%s:%d" % (kind, s)
            for er in (1, 2, 3):
                add(Construct, "nn", 6, dm, CONS[3:], kwargs={
                    "emerging_route_count": er}, **S)
            add(Construct, "nn", 7, dm, CONS[3:], **S)
            add(Pnn, "pnn", 5, dm, CONS[3:], **P)
            for g in ("min_penalty", "balanced", "max_demand"):
                if g == "balanced" and not T:
                    continue
                add(Tyagi, "ty", 5 if g != "min_penalty" or T else 4, dm,
                    CONS[1:2] if g != "min_penalty" else CONS[1:], kwargs={"select_grouping": g} if
                    g != "min_penalty" else {}, **Y)
            if s < 3 and not T:
                add(Tyagi, "ty", 5, dm, CONS[1:2], **Y)
            add(Tyagi, "ty", 4 + T, dm, CONS[3:], kwargs={
                "only_large_and_close_customer_single_routes": True,
                "try_interchange_with_all_group_customers": False}, **Y)
    # all matrices with one order of their entries: values stay symbolic
    for s in range(1, 17) if not T else range(1, 41):
        for n in (5, 6, 7, 8)[:3 if not T and s > 3 else 4]:
            dm = "ord:%d" % s
            cons = CONS[2:] if n < 6 or T else CONS[2:3]
            for er in (1, 2, 3)[:2 + (n > 5)]:
                add(Construct, "nn", n, dm, cons, kwargs={
                    "emerging_route_count": er}, **S)
            for init, end in (("closest", False), ("nearest", False),
                              ("closest", True)):
                add(Construct, "nn", n, dm, cons[:1], kwargs={
                    "add_only_to_end": end,
                    "initialize_routes_with": init}, **S)
            if n < 7 or T:
                add(Pnn, "pnn", n, dm, cons[:1], **P)
            if n < 6 or T and n < 7:
                add(Tyagi, "ty", n, dm, CONS[2:3], **Y)
    for s in (11, 12) if not T else range(11, 19):
        for kind in ("euc", "rnd", "tie"):
            dm = "%s:%d~d" % (kind, s)
            n = 16 if T else 13
            for er in (1, 2, 3):
                add(Construct, "nn", n, dm, CONS[3:], kwargs={
                    "emerging_route_count": er}, **S)
            for end in (False, True):
                add(Construct, "nn", n, dm, CONS[3:], kwargs={
                    "add_only_to_end": end, "initialize_routes_with":
                    ("closest", "nearest", "farthest")[(s + end) % 3]}, **S)
            add(Pnn, "pnn", n - 3, dm, CONS[3:], **P)
            dm = "%s:%d" % (kind, s)
            for g in ("min_penalty", "balanced", "max_demand"):
                add(Tyagi, "ty", 9, dm, CONS[3:], fixed_d=
                    (2, 5, 1, 3, 2, 4, 3, 2), kwargs={"select_grouping": g}, **Y)
    for s in (21, 22) if not T else range(21, 27):
        for kind in ("euc", "rnd", "tie"):
            dm = "%s:%d~f" % (kind, s)
            for er in (1, 2, 4):
                add(Construct, "nn", 20, dm, CONS[1:3], kwargs={
                    "emerging_route_count": er,
                    "add_only_to_end": er == 2}, **S)
            add(Pnn, "pnn", 16, dm, CONS[1:3], **P)
            add(Tyagi, "ty", 12, dm, CONS[1:3], **Y)
    return hs


PROPS = {"F03": F03}
