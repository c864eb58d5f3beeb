"""W01: the refinement steps of Wren and Holliday on a given set of routes."""
from symex.base import *

WH = "verypy.classic_heuristics.wren_holliday_sweep"
RD = "verypy.routedata"
CONS = ((0, 0), (1, 0), (0, 1), (1, 1))
STEPS = {"inspect": "inspect_heuristic", "single": "single_heuristic",
         "pair": "pair_heuristic", "delete": "delete_heuristic",
         "complain": "complain_heuristic",
         "disentangle": "disentangle_heuristic"}


class Step(Harness):
    unrouted = ()

    def bounds(self):
        return "routes %s%s, %s%s%s" % (
            self.routes, ", unrouted %s" % (self.unrouted,)
            if self.unrouted else "", mode_text(self.dmode),
            ", every demand vector and capacity" if self.useC else "",
            ", every route limit" if self.useL else "") + \
            " for which the routes are feasible"

    def build(self, ctx):
        D = dmatrix(ctx, self.n, self.dmode)
        D, d, C, L = cvrp_inputs(ctx, self.n, self.useC, self.useL, D=D)
        for r in self.routes:
            if r and C is not None:
                ctx.assume(LE(demand(r, d), C))
            if r and L is not None:
                ctx.assume(LE(route_cost(r, D), L))
        return dict(D=D, d=d, C=C, L=L)

    def run(self, inp):
        m, rdm = modules_ready(WH, RD)
        f = private(m, STEPS[self.step])
        D, C, L = inp["D"], inp["C"], inp["L"]
        d = None if inp["d"] is None else list(inp["d"])
        rs = []
        for r in self.routes:
            rs.append(rdm.RouteData([0] + list(r) + [0], route_cost(r, D),
                                    demand(r, d) if d else 0, set(r)))
        left = set(self.unrouted)
        if self.step == "complain":
            res = f(rs, left, D, C, d, L)
        elif self.step == "disentangle":
            p = np.asarray(points(self.n, self.pts), dtype=float)
            rho, phi = m.cart2pol(p[:, 0] - p[0, 0], p[:, 1] - p[0, 1])
            sweep = m.get_sweep_from_polar_coordinates(rho, phi)
            res = f(rs, sweep, phi, D, C, d, L)
        else:
            res = f(rs, D, C, d, L)
        return bool(res), [(list(map(int, x.route)), x.cost, x.demand)
                           for x in rs], sorted(map(int, left))

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        D, d, C, L = inp["D"], inp["d"], inp["C"], inp["L"]
        found, rs, left = res
        got = sorted([x for r, _, _ in rs for x in r if x] + left)
        yield "customers %s are routed or known to be unrouted: %s, %s" % (
            got, [r for r, _, _ in rs], left), got == list(range(1, self.n))
        if got != list(range(1, self.n)):
            return
        new = old = 0
        for r, c, dem in rs:
            yield "route %s does not start and end at the depot" % r, \
                r[0] == 0 and r[-1] == 0 and 0 not in r[1:-1]
            if r == [0, 0]:
                continue
            q = r[1:-1]
            new = new + route_cost(q, D)
            yield "recorded length of %s" % r, EQ(c, route_cost(q, D))
            if C is not None:
                yield "recorded demand of %s" % r, EQ(dem, demand(q, d))
                yield "%s violates the capacity" % r, LE(demand(q, d), C)
            if L is not None:
                yield "%s violates the route limit" % r, \
                    LE(route_cost(q, D), L)
        for q in self.routes:
            old = old + route_cost(q, D)
        k0 = len([q for q in self.routes if q])
        k1 = len([r for r, _, _ in rs if r != [0, 0]])
        if self.step in ("inspect", "single", "pair"):
            yield "%s made the solution longer: %s" % (self.step, rs), \
                LE(new, old)
            if found:
                yield "%s claims an improvement that is none" % self.step, \
                    LT(new, old)
        if self.step == "disentangle":
            yield "disentangling made the solution longer: %s" % (rs,), \
                LE(new, old) if k1 >= k0 else True
        if self.step == "delete":
            yield "a deleted route does not reduce the number of routes", \
                k1 == k0 - 1 if found else k1 == k0
        if self.step == "complain":
            yield "complaining lost an assigned customer", \
                len(left) <= len(self.unrouted)


def W01(tier):
    T = tier == "thorough"
    hs = []

    def add(step, routes, dm, cons, unrouted=(), pts=1):
        n = 1 + sum(map(len, routes)) + len(unrouted)
        for C, L in cons:
            hs.append(Step("%s/%s%s/%s%s%s" % (
                step, "-".join("".join(map(str, r)) or "0" for r in routes),
                "+" + "".join(map(str, unrouted)) if unrouted else "", dm +
                ("/p%d" % pts if step == "disentangle" else ""),
                "/C" if C else "", "/L" if L else ""),
                step=step, routes=routes, dmode=dm, useC=C, useL=L, n=n,
                unrouted=unrouted, pts=pts, priority=n,
                functions=(WH + "." + STEPS[step],)))
    plans = [("sym", 0, (1, 2))] + [
        ("iso:%s:%d" % (o, s), s, (1, 2, 3))
        for s in (range(1, 5) if not T else range(1, 25))
        for o in ("rnd", "euc", "tie")]
    for dm, s, layouts in plans:
        add("inspect", [[1, 2, 3, 4]], dm, CONS[:1])
        add("inspect", [[1, 3, 2], []], dm, CONS[2:3])
        if s:
            add("single", [[1, 3], [2, 4]], dm, CONS[1:3])
            add("complain", [[1, 2], [3]], dm, CONS[1:3], (4,))
            add("complain", [[1, 4], [2]], dm, CONS[3:], (3,))
            add("pair", [[1, 2], [3], [4]], dm, CONS[1:3])
            add("pair", [[1, 2], [3, 4], []], dm, CONS[1:3])
            add("delete", [[1, 2], [3, 4], []], dm, CONS[1:3])
            add("delete", [[1], [2, 3], [4]], dm, CONS[1:])
        else:
            add("single", [[1, 3], [2]], dm, CONS[1:3])
            add("complain", [[1, 2]], dm, CONS[1:3], (3,))
            add("complain", [[1], [2]], dm, CONS[1:3], (3,))
            add("pair", [[1], [2], [3]], dm, CONS[1:])
            add("delete", [[1], [2, 3]], dm, CONS[1:])
            add("delete", [[1], [2], [3]], dm, CONS[1:])
        add("single", [[1, 2, 3], []], dm, CONS[2:3])
        add("complain", [[1], [2]], dm, CONS[1:], (3, 4))
        for pts in layouts:
            add("disentangle", [[1, 2], [3]], dm, CONS[1:], (), pts)
            add("disentangle", [[1], [2], [3]], dm, CONS[1:3], (), pts)
            if s:
                add("disentangle", [[1, 3], [2, 4]], dm, CONS[1:3], (), pts)
            if s and (T or s < 2):
                add("disentangle", [[4, 1, 3], [5, 2]], dm, CONS[1:3],
                    (), pts)
    # larger route pairs on fixed matrices, every route limit
    for s in range(1, 61) if not T else range(1, 401):
        for kind in ("euc", "rnd"):
            for rs in ([[4, 1, 6], [2, 3, 5]], [[1, 5, 7, 4], [3, 6, 2]]):
                add("disentangle", rs, "%s:%d" % (kind, s), CONS[2:3], (), s)
    for s in range(11, 15) if not T else range(11, 31):
        for kind in ("euc", "rnd"):
            dm = "%s:%d~d" % (kind, s)
            add("inspect", [[4, 1, 6, 3], [2, 7, 5]], dm, CONS[2:3])
            add("single", [[4, 1, 6], [2, 3, 5], [7, 8]], dm, CONS[1:])
            add("complain", [[4, 1, 6], [2, 3, 5]], dm, CONS[1:], (7, 8))
            add("pair", [[4, 1], [2, 6], [3, 5, 7]], dm, CONS[1:])
            add("delete", [[4, 1], [2, 6, 8], [3, 5, 7]], dm, CONS[1:])
            add("disentangle", [[4, 1, 6], [2, 3, 5], [7, 8]], dm, CONS[1:],
                (), s)
    return hs


PROPS = {"W01": W01}
