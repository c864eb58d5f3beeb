"""X01-X04: moves between routes."""
import importlib
from symex.base import *

INTER = "verypy.local_search.inter_route_operators"
# customer numbering of up to three routes, deliberately not in index order
POOL = [3, 1, 5, 2, 6, 4, 8, 7, 9, 12, 10, 11, 15, 13, 14,
        16, 19, 17, 20, 18, 22, 21, 25, 24, 23, 28, 26, 27]


def make_routes(sizes):
    ids = [p for p in POOL if p <= sum(sizes)]
    out = []
    for s in sizes:
        out.append([0] + ids[:s] + [0])
        ids = ids[s:]
    return out


def two_opt_star(r1, r2):
    for i in range(len(r1) - 1):
        for j in range(len(r2) - 1):
            yield [r1[:i + 1] + r2[j + 1:], r2[:j + 1] + r1[i + 1:]]
            yield [r1[:i + 1] + r2[:j + 1][::-1], r1[i + 1:][::-1] + r2[j + 1:]]


def one_point(r1, r2):
    for i in range(1, len(r1) - 1):
        for j in range(1, len(r2)):
            yield [r1[:i] + r1[i + 1:], r2[:j] + [r1[i]] + r2[j:]]


def two_point(r1, r2):
    for i in range(1, len(r1) - 1):
        for j in range(1, len(r2) - 1):
            yield [r1[:i] + [r2[j]] + r1[i + 1:], r2[:j] + [r1[i]] + r2[j + 1:]]


def chain(r1, r2, r3):
    for i in range(1, len(r1) - 1):
        for j in range(1, len(r2) - 1):
            for k in range(1, len(r3)):
                yield [r1[:i] + r1[i + 1:],
                       r2[:j] + [r1[i]] + r2[j + 1:],
                       r3[:k] + [r2[j]] + r3[k:]]


NEIGH = {"do_2optstar_move": two_opt_star, "do_1point_move": one_point,
         "do_2point_move": two_point, "do_chain_move": chain}


def rcost(r, D):
    return path_cost(r, D)


def feasible_f(routes, D, d, C, L):
    fs = []
    for r in routes:
        if C is not None:
            fs.append(LE(demand(r, d), C))
        if L is not None:
            fs.append(LE(path_cost(r, D), L))
    return AND(*fs)


class Inter(Harness):
    dmode = "sym"
    dlin = False

    def bounds(self):
        return "routes with %s customers, %s%s%s%s, every state in which " \
            "the given routes are feasible" \
            % (self.sizes, mode_text(self.dmode), (
                ", every demand vector a + s b and capacity" if self.dlin
                else ", every demand vector and capacity") if self.useC
               else "", ", every route limit" if self.useL else "",
               ", every required improvement level" if self.bd else "")

    def build(self, ctx):
        (RD,) = modules_ready("verypy.routedata")
        routes = make_routes(self.sizes)
        n = sum(self.sizes) + 1
        D = dmatrix(ctx, n, self.dmode)
        C = L = d = None
        if self.useC:
            C = ctx.var("C")
            ctx.assume(LT(0, C))
            if self.dlin or ctx.dlin:
                d = lin_demands(ctx, n)
            else:
                d = [0.0] + [ctx.var("d%d" % i) for i in range(1, n)]
        if self.useL:
            L = ctx.var("L")
            ctx.assume(LT(0, L))
        for r in routes:
            if C is not None:
                ctx.assume(LE(demand(r, d), C))
            if L is not None:
                ctx.assume(LE(path_cost(r, D), L))
        bd = ctx.var("bd", lo=None) if self.bd else None
        return dict(D=D, d=d, C=C, L=L, routes=routes, bd=bd)

    def rds(self, inp):
        (RD,) = modules_ready("verypy.routedata")
        return [RD.RouteData(list(r), path_cost(r, inp["D"]),
                             demand(r, inp["d"]) if inp["d"] else 0)
                for r in inp["routes"]]

    def run(self, inp):
        (m,) = modules_ready(INTER)
        rds = self.rds(inp)
        inp["rds"] = rds
        dd = None if inp["d"] is None else list(inp["d"])
        inp["dd"] = dd
        args = rds + [inp["D"], dd, inp["C"], inp["L"], self.strategy]
        kw = {}
        if self.bd:
            kw["best_delta"] = inp["bd"]
        return getattr(m, self.op)(*args, **kw)

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        D, d, C, L = inp["D"], inp["d"], inp["C"], inp["L"]
        old = inp["routes"]
        level = inp["bd"] if self.bd else 0
        try:
            res = list(res)
            assert len(res) == len(old) + 1
        except Exception:
            yield "unexpected result %r" % (res,), False
            return
        new, delta = res[:-1], res[-1]
        w = self.which
        failed = delta is None
        if failed:
            if w == "safe":
                yield "partial failure result", all(x is None for x in new)
        if not failed:
            nr = [list(x.route) for x in new]
        if w == "safe":
            yield "the given routes were modified", \
                [list(x.route) for x in inp["rds"]] == old
            if failed:
                return
            cust = sorted(x for r in nr for x in r if x != 0)
            yield "customers lost or duplicated: %s" % nr, \
                cust == list(range(1, len(D)))
            for r in nr:
                yield "malformed route %s" % r, \
                    len(r) >= 2 and r[0] == 0 and r[-1] == 0 and \
                    0 not in r[1:-1]
            if cust != list(range(1, len(D))):
                return
            for r in nr:
                if C is not None:
                    yield "capacity exceeded on %s" % r, LE(demand(r, d), C)
                if L is not None:
                    yield "route limit exceeded on %s" % r, \
                        LE(path_cost(r, D), L)
        elif w == "exact":
            if failed:
                return
            oc = sum(path_cost(r, D) for r in old)
            nc = sum(path_cost(r, D) for r in nr)
            yield "reported delta is not the cost change (-> %s)" % nr, \
                EQ(nc - oc, delta)
            yield "move to %s is not improving" % nr, LT(delta, level)
            for x, r in zip(new, nr):
                yield "reported cost of %s is wrong" % r, \
                    EQ(x.cost, path_cost(r, D))
                if C is not None:
                    yield "reported demand of %s is wrong (%r)" % (r, x.demand), \
                        False if x.demand is None else EQ(x.demand, demand(r, d))
        else:
            oc = sum(path_cost(r, D) for r in old)
            if failed:
                for c in NEIGH[self.op](*old):
                    yield "feasible improving move to %s not found" % c, \
                        NOT(AND(feasible_f(c, D, d, C, L),
                                LT(sum(path_cost(r, D) for r in c) - oc,
                                   level)))
            elif self.strategy == 2:
                nc = sum(path_cost(r, D) for r in nr)
                for c in NEIGH[self.op](*old):
                    yield "best accept returned %s, %s is better" % (nr, c), \
                        NOT(AND(feasible_f(c, D, d, C, L),
                                LT(sum(path_cost(r, D) for r in c), nc)))


class InterHot(Inter):
    """any one neighbour of long routes is made attractive by any amount"""

    def bounds(self):
        return "routes with %s customers, any one neighbour with every " \
            "length of its new edges%s%s" % (
                self.sizes, ", every capacity" if self.useC else "",
                ", every route limit" if self.useL else "")

    def build(self, ctx):
        routes = make_routes(self.sizes)
        n = sum(self.sizes) + 1
        self.nb = list(NEIGH[self.op](*routes))
        C = L = d = None
        if self.useC:
            C = ctx.var("C")
            d = [0.0] + [float(1 + (5 * i + 2) % 4) for i in range(1, n)]
            for r in routes:
                ctx.assume(LE(demand(r, d), C))
        if self.useL:
            L = ctx.var("L", 12 * (max(self.sizes) + 1))
        return dict(d=d, C=C, L=L, routes=routes, bd=None, n=n,
                    q=ctx.var("q", 0, len(self.nb) - 1, integer=True),
                    w=[ctx.var("w0")] + [2.0, 1.0, 3.0, 1.0, 2.0]
                    if self.useC or self.useL or len(routes) > 2 else
                    [ctx.var("w%d" % k) for k in range(6)])

    def run(self, inp):
        to = self.nb[pick(inp["q"], 0, len(self.nb) - 1)]
        inp["D"] = hot_matrix(inp["n"], inp["routes"], to, inp["w"])
        return Inter.run(self, inp)


def _inter(which, tier):
    T = tier == "thorough"
    hs = []
    for op in ("do_2optstar_move", "do_1point_move", "do_2point_move",
               "do_chain_move"):
        for st in (1, 2):
            for C, L in ((0, 0), (1, 0), (0, 1), (1, 1)):
                for s in ((16, 12), (10, 18)) if op != "do_chain_move" else \
                        ((8, 7, 6),):
                    if C + L:
                        s = tuple(x // 2 - (L and op != "do_2optstar_move")
                                  - 2 * C * L * (len(s) < 3) for x in s)
                    hs.append(InterHot("%s/%s/%s/hot%s%s" % (
                        op[3:-5], "first" if st == 1 else "best",
                        "x".join(map(str, s)), "/C" if C else "",
                        "/L" if L else ""), op=op, strategy=st, useC=C, useL=L,
                        sizes=s, bd=0, which=which,
                        functions=(INTER + "." + op,), priority=sum(s)))
    plans = []
    for op in ("do_2optstar_move", "do_1point_move", "do_2point_move"):
        for C, L in ((0, 0), (1, 0), (0, 1), (1, 1)):
            sizes = [(1, 1), (2, 1), (1, 2), (0, 2), (2, 0)]
            if not L or op != "do_2optstar_move" or T:
                sizes += [(2, 2)]
            if C + L < 1 or op == "do_1point_move" or (
                    C + L < 2 and op == "do_2point_move") or T:
                sizes += [(2, 3), (3, 2)]
            if T:
                sizes += [(3, 3)]
            for s in sizes:
                plans.append((op, 1, C, L, s, 0))
            for s in ((1, 1), (2, 1), (2, 2)) if not (op == "do_2optstar_move" and C and L and not T) else ((1, 1), (2, 1)):
                if op == "do_2optstar_move" and s == (2, 2) and not T:
                    continue
                plans.append((op, 2, C, L, s, 0))
            plans.append((op, 1, C, L, (2, 1), 1))
            plans.append((op, 2, C, L, (1, 1), 1))
    for C, L in ((0, 0), (1, 0), (0, 1), (1, 1)):
        for s in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (1, 1, 0),
                  (0, 1, 1)) + (((2, 2, 1), (2, 2, 2)) if T or C+L<2 else ()):
            plans.append(("do_chain_move", 1, C, L, s, 0))
        plans.append(("do_chain_move", 2, C, L, (1, 1, 1), 0))
        plans.append(("do_chain_move", 2, C, L, (2, 1, 1), 0))
        plans.append(("do_chain_move", 1, C, L, (1, 1, 1), 1))
    plans = [p + ("sym",) for p in plans]
    for seed in range(1, 7 if T else 3):
        for kind in ("euc", "rnd", "tie"):
            dm = "%s:%d" % (kind, seed)
            for st in (1, 2):
                for op in ("do_2optstar_move", "do_1point_move",
                           "do_2point_move"):
                    for s in ((2, 2), (3, 3), (3, 2)) + (((4, 3), (3, 4)) if T
                                                        else ()):
                        plans.append((op, st, 1, 1, s, 0, dm))
                for s in ((2, 2, 2),) + (((2, 3, 3),) if T else ()):
                    plans.append(("do_chain_move", st, 1, 1, s, 0, dm))
    ops = [(op, s) for op in ("do_2optstar_move", "do_1point_move",
                              "do_2point_move")
           for s in ((4, 4), (3, 5), (5, 3)) + (((6, 5), (5, 6)) if T else ())]
    ops += [("do_chain_move", s) for s in ((3, 3, 3), (2, 4, 3))]
    for seed in range(1, 9 if T else 4):
        for op, s in ops:
            for st in (1, 2):
                dm = "rnd:%d" % (20 + seed)
                if st == 1 or T or seed == 1 and sum(s) < 10 and s[0] != 5:
                    plans.append((op, st, 1, 1, s, 1, dm))
                if st == 2:
                    plans.append((op, st, 1, 0, s, 1, dm))
                    plans.append((op, st, 0, 1, s, 1, dm))
                if st == 1 or T or sum(s) < 8:
                    plans.append((op, st, 0, 1, s, 1, "lin:%d" % seed))
                    plans.append((op, st, 1, 0, s, 1, "lin:%d" % seed))
                if st == 1 and (T or seed == 2):
                    plans.append((op, st, 1, 1, s, 1, "lin:%d" % seed))
    for op, st, C, L, s, bd, dm in plans:
        hs.append(Inter("%s/%s/%s%s%s%s%s" % (
            op[3:-5], "first" if st == 1 else "best", "x".join(map(str, s)),
            "" if dm == "sym" else "/" + dm,
            "/C" if C else "", "/L" if L else "", "/level" if bd else ""),
            op=op, strategy=st, useC=C, useL=L, sizes=s, bd=bd, which=which,
            dmode=dm, functions=(INTER + "." + op,),
            dlin=dm != "sym" and (bd or max(s) > 2 and st == 2),
            priority=sum(s) + 2 * st))
    return hs


def X01(tier):
    return _inter("safe", tier)


def X02(tier):
    return _inter("exact", tier)


def X03(tier):
    return _inter("complete", tier)


# ------------------------------------------------- insertion / dissolution ---

class Insert(Inter):
    """do_insert_move of customers `new` into a route of `m` customers"""

    def bounds(self):
        return "%d customers inserted (given as %s) into a route of %d, %s," \
            " all demands/limits keeping the route feasible" % (
                self.k, self.form, self.m, mode_text(self.dmode))

    def build(self, ctx):
        self.sizes = (self.m, self.k)
        n = self.m + self.k + 1
        routes = make_routes(self.sizes)
        D = dmatrix(ctx, n, self.dmode)
        C = L = d = None
        if self.useC:
            C = ctx.var("C")
            ctx.assume(LT(0, C))
            d = lin_demands(ctx, n) if ctx.dlin else \
                [0.0] + [ctx.var("d%d" % i) for i in range(1, n)]
            ctx.assume(LE(demand(routes[0], d), C))
        if self.useL:
            L = ctx.var("L")
            ctx.assume(LT(0, L))
            ctx.assume(LE(path_cost(routes[0], D), L))
        bd = ctx.var("bd", lo=None) if self.bd else None
        return dict(D=D, d=d, C=C, L=L, routes=routes, bd=bd)

    def run(self, inp):
        (m,) = modules_ready(INTER)
        rds = self.rds(inp)
        inp["rds"] = rds
        custs = inp["routes"][1][1:-1]
        if self.form == "int":
            arg = custs[0]
        elif self.form == "list":
            arg = list(custs)
        else:
            arg = rds[1]
        inp["arg"] = arg
        kw = {"best_delta": inp["bd"]} if self.bd else {}
        return m.do_insert_move(arg, rds[0], inp["D"], inp["d"], inp["C"],
                                inp["L"], self.strategy, **kw)

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        D, d, C, L = inp["D"], inp["d"], inp["C"], inp["L"]
        base, ins = inp["routes"]
        ins = ins[1:-1]
        res = list(res)
        yield "result is not a triple", len(res) == 3
        yield "the receiving route was modified", \
            list(inp["rds"][0].route) == base
        e, rd, delta = res
        oc = path_cost(base, D)
        if delta is None:
            yield "partial failure", e is None and rd is None
            if len(ins) == 1:
                i = ins[0]
                for j in range(1, len(base)):
                    c = base[:j] + [i] + base[j:]
                    lev = True if not self.bd else \
                        LE(path_cost(c, D) - oc, inp["bd"])
                    if self.bd:
                        # a rejected first-fit position says nothing about
                        # the level of the other positions
                        continue
                    yield "customer %d fits at position %d but was refused" % (
                        i, j), NOT(feasible_f([c], D, d, C, L))
            elif L is None and not self.bd:
                yield "all customers fit but were refused", \
                    NOT(LE(demand(base, d) + demand(ins, d), C)) \
                    if C is not None else False
            return
        r = list(rd.route)
        yield "first result is not an empty route", e is not None and \
            e.is_empty()
        yield "wrong customers on %s" % r, sorted(r) == sorted(base + ins) \
            and r[0] == 0 and r[-1] == 0 and 0 not in r[1:-1]
        if sorted(r) != sorted(base + ins):
            return
        yield "order of the receiving route changed in %s" % r, \
            [x for x in r if x not in ins] == base
        yield "constraints violated on %s" % r, feasible_f([r], D, d, C, L)
        yield "delta is not the cost change (%s)" % r, \
            EQ(path_cost(r, D) - oc, delta)
        yield "route cost bookkeeping (%s)" % r, EQ(rd.cost, path_cost(r, D))
        if C is not None:
            yield "route demand bookkeeping (%s)" % r, \
                EQ(rd.demand, demand(r, d))
        if self.bd:
            yield "insertion worse than the required level", \
                LE(delta, inp["bd"])
        if self.strategy == 2 and len(ins) == 1:
            for j in range(1, len(base)):
                c = base[:j] + [ins[0]] + base[j:]
                yield "position %d is feasible and cheaper than %s" % (j, r), \
                    NOT(AND(feasible_f([c], D, d, C, L),
                            LT(path_cost(c, D), path_cost(r, D))))


class Redistribute(Inter):
    def bounds(self):
        return "a route of %d redistributed to routes of %s customers, level " \
            "%d, %s, all demands/limits keeping the routes feasible" % (
                self.sizes[0], self.sizes[1:], self.level,
                mode_text(self.dmode))

    def run(self, inp):
        (m,) = modules_ready(INTER)
        rds = self.rds(inp)
        inp["rds"] = rds
        kw = {"best_delta": inp["bd"]} if self.bd else {}
        other = rds[1] if len(rds) == 2 and self.single else rds[1:]
        return m.do_redistribute_move(
            rds[0], other, inp["D"], inp["d"], inp["C"], inp["L"],
            self.strategy, recombination_level=self.level, **kw)

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        D, d, C, L = inp["D"], inp["d"], inp["C"], inp["L"]
        old = inp["routes"]
        res = list(res)
        yield "wrong number of results: %d" % len(res), \
            len(res) == len(old) + 1
        yield "the given routes were modified", \
            [list(x.route) for x in inp["rds"]] == old
        if len(res) != len(old) + 1:
            return
        delta = res[-1]
        if delta is None:
            yield "partial failure", all(x is None for x in res)
            if self.sizes[0] == 1 and not self.bd:
                for r in old[1:]:
                    for j in range(1, len(r)):
                        c = r[:j] + [old[0][1]] + r[j:]
                        yield "redistribution to %s is feasible but refused" \
                            % c, NOT(feasible_f([c], D, d, C, L))
            return
        nr = [list(x.route) for x in res[:-1]]
        yield "first result is not empty", res[0].is_empty()
        cust = sorted(x for r in nr for x in r if x != 0)
        yield "customers lost or duplicated: %s" % nr, \
            cust == list(range(1, len(D)))
        if cust != list(range(1, len(D))):
            return
        yield "constraints violated in %s" % nr, feasible_f(nr, D, d, C, L)
        yield "delta is not the added cost (%s)" % nr, EQ(
            sum(path_cost(r, D) for r in nr[1:]) -
            sum(path_cost(r, D) for r in old[1:]), delta)
        for x, r in zip(res[1:-1], nr[1:]):
            yield "cost bookkeeping of %s" % r, EQ(x.cost, path_cost(r, D))
            if C is not None:
                yield "demand bookkeeping of %s" % r, \
                    EQ(x.demand, demand(r, d))
        if self.bd:
            yield "worse than the required level", LE(delta, inp["bd"])


def X04(tier):
    T = 1 + (tier == "thorough")
    hs = []
    for C, L in ((0, 0), (1, 0), (0, 1), (1, 1)):
        for st in (1, 2):
            for form in ("int", "list", "route"):
                for m in range(3 + T):
                    for k in range(1, 2 + T):
                        if form == "int" and k > 1:
                            continue
                        if k + m > 4 + T:
                            continue
                        for bd in (0, 1):
                            if bd and (m == 3 or form != "list"):
                                continue
                            hs.append(Insert(
                                "insert/%s/%d%s into %d%s%s%s" % (
                                    "first" if st == 1 else "best", k, form, m,
                                    "/C" if C else "", "/L" if L else "",
                                    "/level" if bd else ""),
                                strategy=st, form=form, m=m, k=k, useC=C,
                                useL=L, bd=bd, priority=m + k,
                                functions=(INTER + ".do_insert_move",)))
            for sizes, single in (((1, 1), 1), ((1, 2), 1), ((2, 1), 1),
                                  ((2, 1), 0), ((1, 1, 1), 0), ((2, 1, 1), 0),
                                  ((2, 2, 1), 0), ((2, 2, 2), 0),
                                  ((3, 1), 1), ((3, 2), 1), ((3, 1, 1), 0),
                                  ((1, 2, 2), 0)) + ((((3, 2, 1), 0), ((2, 1, 1, 1), 0),
                                   ((1, 1, 1, 1), 0)) if T > 1 else ()):
                for level in (0, 1, 2, 3):
                    if level and single:
                        continue
                    if level and sum(sizes) > 3 + T:
                        continue
                    if st == 2 and sum(sizes) > 3 + T:
                        continue
                    for bd in (0, 1):
                        if bd and sum(sizes) > 3:
                            continue
                        hs.append(Redistribute(
                            "redistribute/%s/%s%s/lv%d%s%s%s" % (
                                "first" if st == 1 else "best",
                                "x".join(map(str, sizes)),
                                "s" if single else "", level,
                                "/C" if C else "", "/L" if L else "",
                                "/level" if bd else ""),
                            strategy=st, sizes=sizes, single=single,
                            level=level, useC=C, useL=L, bd=bd,
                            priority=sum(sizes) + 2,
                            functions=(INTER + ".do_redistribute_move",
                                       INTER + ".do_insert_move")))
    for s in range(11, 13 if T == 1 else 17):
        for kind in ("rnd", "euc"):
            for st in (1, 2):
                for C, L in ((1, 0), (0, 1), (1, 1))[:2 if st == T else 3]:
                    dm = "%s:%d~d" % (kind, s)
                    cl = ("/C" if C else "") + ("/L" if L else "")
                    for form, m, k in (("int", 7, 1), ("list", 5, 3),
                                       ("route", 4, 3)):
                        if st == 2 and k > 1 and T == 1:
                            m, k = 4, 2
                        hs.append(Insert(
                            "insert/%s/%d%s into %d%s/%s/level" % (
                                "first" if st == 1 else "best", k, form, m, cl,
                                dm), strategy=st, form=form, m=m, k=k, useC=C,
                            useL=L, bd=1, dmode=dm, priority=m + k,
                            functions=(INTER + ".do_insert_move",)))
                    for sizes in ((3, 3, 3), (2, 4, 3), (3, 2, 2, 2)):
                        for level in (0, 1, 2, 3):
                            if (st == 2 or level == 3) and (
                                    T == 1 or sum(sizes) > 8):
                                continue
                            hs.append(Redistribute(
                                "redistribute/%s/%s/lv%d%s/%s/level" % (
                                    "first" if st == 1 else "best",
                                    "x".join(map(str, sizes)), level, cl, dm),
                                strategy=st, sizes=sizes, single=0, dmode=dm,
                                level=level, useC=C, useL=L, bd=1,
                                priority=sum(sizes) + 2,
                                functions=(INTER + ".do_redistribute_move",
                                           INTER + ".do_insert_move")))
    return hs


BUDGET = {x: (150.0, 780.0) for x in ("X01", "X02", "X03")}
PROPS = {"X01": X01, "X02": X02, "X03": X03, "X04": X04}
