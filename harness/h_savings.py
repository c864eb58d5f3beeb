"""F01: savings heuristics."""
from symex.base import *
from symex.core import OR, IMPLIES

CH = "verypy.classic_heuristics."


class Sav(Construct):
    def more(self, inp, sol):
        D, d, C, L = inp["D"], inp["d"], inp["C"], inp["L"]
        if self.star:
            yield "solution %s is longer than serving everyone alone" % sol, \
                LE(sol_cost(sol, D), star_cost(D, self.n))
        if self.maximal and not self.useL:
            # with capacities only, a merge is refused for its demand or
            # because it does not save anything
            rs = split(sol)
            for a in range(len(rs)):
                for b in range(a + 1, len(rs)):
                    fits = True if C is None else \
                        LE(demand(rs[a], d) + demand(rs[b], d), C)
                    for i in set((rs[a][0], rs[a][-1])):
                        for j in set((rs[b][0], rs[b][-1])):
                            save = True if self.kwargs.get("minimize_K") else \
                                LT(D[i, j], D[i, 0] + D[0, j])
                            yield "routes %s and %s can be merged at %d-%d" % (
                                rs[a], rs[b], i, j), NOT(AND(fits, save))


def star_cost(D, n):
    return sum(D[0, i] + D[i, 0] for i in range(1, n))


ALG = {
    "ps": ("parallel_savings", "parallel_savings_init"),
    "ss": ("sequential_savings", "sequential_savings_init"),
    "gpl": ("gaskell_savings", "gaskell_savings_init"),
    "gps": ("paessens_savings", "paessens_savings_init"),
    "ims": ("suppression_savings", "suppression_savings_init"),
    "ps2o": ("cawlip_savings", "cawlip_savings_init"),
}
CONS = ((0, 0), (1, 0), (0, 1), (1, 1))


def plan(tier):
    """(algorithm, n, dmode, useC, useL, kwargs)"""
    T = tier == "thorough"
    out = []

    def add(alg, n, dmode, cons=CONS, kws=({},)):
        for kw in kws:
            for C, L in cons:
                out.append((alg, n, dmode, C, L, kw))
    K = ({}, {"minimize_K": True})
    for n in (2, 3, 4):
        add("ps", n, "sym", kws=K)
        add("ims", n, "sym", kws=K[:1] if n == 4 else K)
    for n in (2, 3):
        for init in ("closest", "farthest"):
            add("ss", n, "sym", kws=[dict(k, initialize_routes_with=init)
                                     for k in K])
        add("ps2o", n, "sym", kws=K)
        add("gps", n, "sym", kws=K)
    add("ss", 4, "sym")
    add("ps2o", 4, "sym", cons=((1, 0), (1, 1)))
    for n in (2, 3):
        add("gpl", n, "sym", kws=({"savings_method": "pi"},))
    add("gpl", 4, "sym", kws=({"savings_method": "pi"},), cons=((1, 1),))
    for s in (1, 2) if not T else (1, 2, 3, 4, 5):
        for kind in ("euc", "rnd", "tie"):
            m = "%s:%d" % (kind, s)
            big = 7 if T else 6
            for alg in ("ps", "ims", "ps2o", "ss"):
                add(alg, 6 if alg != "ims" else 5, m, cons=((1, 1),), kws=K)
            add("ps", big, m, cons=((1, 0), (0, 1)))
            add("gpl", 5, m, cons=((1, 1),),
                kws=[dict(k, savings_method=x) for k in K
                     for x in ("pi", "lambda", "both")])
            add("gps", 5, m, cons=((1, 1),), kws=K)
    for s, e in ((1, "0-2,1-3"), (2, "2-3,0-4"), (3, "1-4,3-4")):
        add("ps", 5, "ent:%d:%s" % (s, e), cons=((1, 1),), kws=K)
        add("ss", 5, "ent:%d:%s" % (s, e), cons=((1, 1),), kws=K)
        add("ims", 5, "ent:%d:%s" % (s, e[:3]), cons=((1, 0),))
        add("ps2o", 5, "ent:%d:%s" % (s, e[:3]), cons=((1, 1),))
    # distances stay symbolic, only their order is fixed
    PI = ({"savings_method": "pi"},)
    for s in range(1, 4) if not T else range(1, 21):
        for o in ("iso:rnd", "iso:euc", "iso:tie"):
            dm = "%s:%d" % (o, s)
            for n in (5, 6, 7)[:2 if not T else 3]:
                for alg in ("ps", "ss", "gpl", "ps2o"):
                    add(alg, n, dm, cons=((1, 0), (0, 1)) if n == 6 else
                        ((1, 1),), kws=PI if alg == "gpl" else K)
            for alg in ("ims", "gps"):
                add(alg, 4 + (T or alg == "ims"), dm, cons=((1, 0), (0, 1)),
                    kws=K if alg == "gps" else K[:1])
    for s in range(1, 3) if not T else range(1, 9):
        for kind in ("euc", "rnd", "tie"):
            for alg in ("ps", "ss", "ps2o", "gpl", "gps", "ims"):
                add(alg, {"gps": 9, "ims": 7}.get(alg, 16 if T else 12), "%s:%d~d" % (
                    kind, s + 10), cons=((1, 1),),
                    kws=PI if alg == "gpl" else K)
        for alg in ("ps", "ss", "ps2o")[:3 if T else s]:
            add(alg, 6, "lin:%d~d" % s, cons=((1, 1),))
    for s in range(1, 3) if not T else range(1, 9):
        for kind in ("euc", "rnd", "tie"):
            for alg in ("ps", "ss", "ps2o", "gpl", "gps", "ims"):
                add(alg, {"gps": 12, "ims": 14}.get(alg, 20) + 4 * T,
                    "%s:%d~f" % (kind, s + 20), cons=((1, 0), (0, 1)),
                    kws=PI if alg == "gpl" else K)
    if T:
        add("ps", 5, "metric", cons=((1, 0), (1, 1)))
        add("ps", 5, "row:1:2", cons=((1, 1),), kws=K)
        add("ss", 5, "row:2:2", cons=((1, 1),), kws=K)
        add("ims", 5, "row:1:2", cons=((1, 0),))
    return out


def F01(tier):
    hs = []
    for alg, n, dm, C, L, kw in plan(tier):
        mod, fn = ALG[alg]
        hs.append(Sav("%s/n%d/%s%s%s%s" % (
            alg, n, dm, "/C" if C else "", "/L" if L else "",
            "".join("/%s=%s" % kv for kv in sorted(kw.items()))),
            module=CH + mod, func=fn, n=n, dmode=dm, useC=C, useL=L,
            kwargs=kw, priority=n * (1 + (dm[:3] in ("sym", "row", "met"))),
            nonlinear=False,
            star=alg in ("ps", "ims") and not kw.get("minimize_K")
            and (dm == "metric" or not L or True) ,
            maximal=alg == "ps",
            functions=(CH + mod + "." + fn,)))
    return hs


PROPS = {"F01": F01}
