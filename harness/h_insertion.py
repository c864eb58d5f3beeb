"""F02: insertion heuristics."""
import itertools
from symex.base import *

CH = "verypy.classic_heuristics."
CI = CH + "cheapest_insertion"
CONS = ((0, 0), (1, 0), (0, 1), (1, 1))


class _Ids(object):
    """the code breaks ties on object addresses: make them repeatable"""

    def __init__(self, sign):
        self.n = 0
        self.sign = sign
        self.keep = []

    def __call__(self, o):
        self.n += 1
        self.keep.append(o)
        return self.sign * self.n


class Ins(Construct):
    ids = 1

    def run(self, inp):
        m, _ = modules_ready(self.module, CI)
        import importlib
        ci = importlib.import_module(CI)
        ci.__dict__["id"] = _Ids(self.ids)
        try:
            d = None if inp["d"] is None else list(inp["d"])
            return self.call(getattr(m, self.func), inp, d)
        finally:
            del ci.__dict__["id"]

    def more(self, inp, sol):
        if self.star:
            yield "solution %s is longer than serving everyone alone" % sol, \
                LE(sol_cost(sol, inp["D"]), sum(
                    inp["D"][0, i] + inp["D"][i, 0]
                    for i in range(1, self.n)))


class Pi(Ins):
    def run(self, inp):
        (m,) = modules_ready(CI)
        m.__dict__["id"] = _Ids(self.ids)
        try:
            d = None if inp["d"] is None else list(inp["d"])
            f = m.get_pi_algorithm()[2]
            return f(None, inp["D"], d, inp["C"], inp["L"], None, None, False,
                     self.mk)
        finally:
            del m.__dict__["id"]


def F02(tier):
    T = tier == "thorough"
    hs = []

    def add(cls, name, n, dm, cons, **kw):
        for C, L in cons:
            hs.append(cls("%s/n%d/%s%s%s%s" % (
                name, n, dm, "/C" if C else "", "/L" if L else "",
                "".join("/%s=%s" % kv for kv in sorted(
                    kw.get("kwargs", {}).items()))),
                n=n, dmode=dm, useC=C, useL=L,
                priority=n * (1 + (dm[:3] in ("sym", "ent"))), **kw))
    SI = dict(module=CI, func="cheapest_insertion_init",
              functions=(CI + ".cheapest_insertion_init",))
    MJ = dict(module=CH + "mole_jameson_insertion",
              func="mole_jameson_insertion_init",
              functions=(CH + "mole_jameson_insertion."
                         "mole_jameson_insertion_init",))
    PI = dict(functions=(CI + ".get_pi_algorithm",), module=CI, func="-")
    for n in (2, 3):
        for mk in (False, True):
            for init in ("farthest", "closest", "strain"):
                add(Ins, "si", n, "sym", CONS, star=False, kwargs={
                    "minimize_K": mk, "initialize_routes_with": init}, **SI)
            add(Pi, "pi/mk%d" % mk, n, "sym", CONS, mk=mk, star=False, **PI)
        for strain in ("proximity_ranking", "min_strain", "clarke_wright",
                       "gaskell", "augumented_min_strain"):
            add(Ins, "mj", n, "sym", CONS if n < 3 or T else CONS[1:], star=False,
                kwargs={"strain_criterion": strain}, **MJ)
        add(Ins, "mj", n, "sym", CONS[3:], star=False,
            kwargs={"minimize_K": True}, **MJ)
    for er in (1, 2, 3):
        add(Ins, "si", 4, "sym", CONS[3:], star=False,
            kwargs={"emerging_route_count": er}, **SI)
    add(Ins, "si", 4, "sym", CONS[1:2], star=False, ids=-1, kwargs={
        "initialize_routes_with": "strain", "minimize_K": True}, **SI)
    for s in (1, 2) if not T else (1, 2, 3, 4):
        for kind in ("euc", "rnd", "tie"):
            dm = "%s:%d" % (kind, s)
            for mk in (False, True):
                add(Ins, "si", 6, dm, CONS[3:], star=False, kwargs={
                    "minimize_K": mk}, **SI)
                add(Ins, "si", 5, dm, CONS[3:], star=False, kwargs={
                    "minimize_K": mk, "emerging_route_count": 2}, **SI)
                add(Pi, "pi/mk%d" % mk, 5 + T, dm, CONS[3:], mk=mk, star=False,
                    **PI)
                add(Ins, "mj", 5, dm, CONS[3:], star=False, kwargs={
                    "minimize_K": mk, "strain_criterion": "clarke_wright"},
                    **MJ)
            add(Ins, "mj", 5, dm, CONS[3:], star=False, kwargs={
                "strain_criterion": "proximity_ranking"}, **MJ)
            add(Ins, "mj", 5, dm, CONS[1:2], star=False,
                kwargs={"strain_criterion": "all"}, **MJ)
    # distances stay symbolic, only their order is fixed
    for s in range(1, 4) if not T else range(1, 21):
        for o in ("iso:rnd", "iso:euc", "iso:tie"):
            dm = "%s:%d" % (o, s)
            for mk in (False, True):
                for er in (1, 2):
                    add(Ins, "si", 5, dm, CONS[1:3], star=False, kwargs={
                        "minimize_K": mk, "emerging_route_count": er}, **SI)
                    add(Ins, "si", 4, dm, CONS[3:], star=False, kwargs={
                        "minimize_K": mk, "emerging_route_count": er}, **SI)
                add(Pi, "pi/mk%d" % mk, 4 + T, dm, CONS[1:3], mk=mk,
                    star=False, **PI)
            for strain in ("proximity_ranking", "min_strain", "clarke_wright",
                           "gaskell", "augumented_min_strain"):
                if strain == "gaskell" and not T and o[4:] != "tie":
                    continue
                add(Ins, "mj", 4 + T, dm, CONS[1:3], star=False,
                    kwargs={"strain_criterion": strain}, **MJ)
    for s in (11, 12) if not T else range(11, 19):
        for kind in ("euc", "rnd", "tie"):
            dm = "%s:%d~d" % (kind, s)
            n = 12 if T else 8
            for mk in (False, True):
                for er in (1, 2, 3):
                    add(Ins, "si", n, dm, CONS[3:], star=False, kwargs={
                        "minimize_K": mk, "emerging_route_count": er}, **SI)
                add(Ins, "si", n, dm, CONS[3:], star=False, kwargs={
                    "minimize_K": mk, "initialize_routes_with":
                    ("closest", "strain")[s % 2]}, **SI)
                add(Pi, "pi/mk%d" % mk, n - 2, dm, CONS[3:], mk=mk,
                    star=False, **PI)
            for strain in ("proximity_ranking", "min_strain", "clarke_wright",
                           "gaskell", "augumented_min_strain"):
                add(Ins, "mj", 6 if strain[:2] in ("ga", "au") else 7, dm,
                    CONS[3:], star=False, kwargs={
                    "minimize_K": bool(s % 2),
                    "strain_criterion": strain}, **MJ)
    for s in (21, 22) if not T else range(21, 27):
        for kind in ("euc", "rnd", "tie"):
            dm = "%s:%d~f" % (kind, s)
            n = 20 if T else 15
            for mk in (False, True):
                for er in (1, 3):
                    add(Ins, "si", n, dm, CONS[1:3], star=False, kwargs={
                        "minimize_K": mk, "emerging_route_count": er}, **SI)
                add(Pi, "pi/mk%d" % mk, n, dm, CONS[1:3], mk=mk,
                    star=False, **PI)
            for strain in ("proximity_ranking", "min_strain", "clarke_wright"):
                add(Ins, "mj", 12, dm, CONS[1:3], star=False, kwargs={
                    "minimize_K": bool(s % 2), "strain_criterion": strain},
                    **MJ)
    return hs


PROPS = {"F02": F02}
