"""T04: the wrappers of external tour solvers.

The executables are not installed.  The wrappers run in full up to the process
they start; this is replaced by a stand-in that reads the files the wrapper
wrote, answers any round trip the solver (SMT) chooses, and writes it in the
format of the real program.  No process is started."""
import contextlib
import io as _io
import itertools
from fractions import Fraction
import shutil
import sys
import tempfile
from symex import mip
from symex.base import *
from harness.h_core import idx
from harness.h_io import IoHarness, IoNp, IntTok, FloatTok, TokMatrix, tri

TS = "verypy.tsp_solvers.tsp_solver_"
HEAD = ("NAME : temporary.%s.tour\nCOMMENT : Length = %s\nCOMMENT : Found by "
        "LKH [Keld Helsgaun] Fri Nov 20 10:00:00 2026\nTYPE : TOUR\n"
        "DIMENSION : %d\nTOUR_SECTION\n")


class Spoof(TokMatrix):
    """matrix of proxies that claims to hold numbers of a given type"""
    kind = np.dtype(float)

    @property
    def dtype(self):
        return type(self).kind


class Trunc(IntTok):
    """int(): the whole part of a scaled distance is a variable of its own"""
    table = {}

    def __new__(cls, x=0, *a):
        if type(x) is Sym and not x.is_int_valued():
            k = cls.table.get((tuple(sorted(x.t.items())), x.c))
            if k is not None:
                return k
        return IntTok(x, *a)


class SpoofInt(Spoof):
    kind = np.dtype(int)


def read_tsplib(text):
    """header and distances of an explicit TSPLIB problem"""
    head, _, rest = text.partition("EDGE_WEIGHT_SECTION")
    h = {}
    for l in head.splitlines():
        if ":" in l:
            k, _, v = l.partition(":")
            h[k.strip()] = v.strip()
    n = int(h["DIMENSION"])
    cells = tri(n, h["EDGE_WEIGHT_FORMAT"])
    toks = []
    for t in rest.split():
        if t == "EOF":
            break
        toks.append(t)
    M = {}
    if len(toks) != len(cells):
        raise ValueError("%d distances instead of %d" % (
            len(toks), len(cells)))
    for (i, j), t in zip(cells, toks):
        M[i, j] = M[j, i] = FloatTok(t)
    return h, n, M


class Process(object):
    """the external program"""

    def __init__(self, har, inp):
        self.har, self.inp = har, inp

    def __call__(self, command, *a, **kw):
        self.command = list(command)
        self.inp["calls"].append(self)
        return self

    def answer(self, problem):
        with open(problem) as f:
            text = f.read()
        self.head, n, self.M = read_tsplib(text)
        self.n = n
        if self.har.far:
            self.tour = self.har.far
        else:
            left = list(range(n))
            self.tour = tuple(left.pop(idx(q)) for q in self.inp["q"]) + \
                tuple(left)
        self.length = sum((self.M[a, b] for a, b in zip(
            self.tour, self.tour[1:] + self.tour[:1])), 0)

    def number(self, v):
        if type(v) is Sym:
            return core.TOKENS.text(v)
        return "%d" % v if v == int(v) else repr(v)

    def communicate(self, input=None, timeout=None):
        if self.har.kind == "lkh" or self.har.kind == "fast":
            with open(self.command[1]) as f:
                self.par = dict((k.strip(), v.strip()) for k, _, v in (
                    l.partition("=") for l in f))
            self.files = [self.command[1], self.par["PROBLEM_FILE"],
                          self.par["OUTPUT_TOUR_FILE"]]
            self.answer(self.par["PROBLEM_FILE"])
            with open(self.par["OUTPUT_TOUR_FILE"], "w") as f:
                f.write(HEAD % (self.head.get("NAME", "x"),
                                self.number(self.length), self.n))
                f.write("".join("%d\n" % (a + 1) for a in self.tour))
                f.write("-1\nEOF\n")
            return b"", None
        self.files = [self.command[self.command.index("-i") + 1]]
        self.answer(self.files[0])
        return ("Try 0, best %s\ntry 0, Best %s, found at iteration 1\n"
                "best solution so far is %s\n" % (
                    self.number(self.length), self.number(self.length),
                    " ".join(str(a) for a in self.tour))).encode("ascii"), None

    returncode = 0

    def wait(self, *a, **kw):
        return 0
    poll = wait


class External(IoHarness):
    far = None
    runs = None
    ants = 0
    functions = ()

    def bounds(self):
        return "every answer of the external program for the %d locations " \
            "%s, %s, %s distances" % (
                len(self.nodes), list(self.nodes), mode_text(self.dmode),
                "whole" if self.ints else "real")

    def build(self, ctx):
        n = max(self.nodes) + 1
        if self.dmode == "sym":
            D = np.zeros((n, n), dtype=object)
            for i in range(n):
                for j in range(i + 1, n):
                    D[i, j] = D[j, i] = ctx.var(
                        "D%d_%d" % (i, j), 0, None if self.ints else 3,
                        integer=bool(self.ints))
            if not self.ints:
                Trunc.table = {}
                for i in range(n):
                    for j in range(i + 1, n):
                        t = ctx.var("T%d_%d" % (i, j), 0, None, integer=True)
                        x = D[i, j] * 1000
                        ctx.assume(LE(t, x))
                        ctx.assume(LT(x, t + 1))
                        if ctx.symbolic:
                            Trunc.table[tuple(sorted(x.t.items())), x.c] = t
        else:
            D = np.array([[x for x in r] for r in dmatrix(
                ctx, n, self.dmode)], dtype=object)
            D = np.array([[int(x) for x in r] for r in D], dtype=object) \
                if self.ints else D * 0.125
        if ctx.symbolic:
            D = D.view(SpoofInt if self.ints else Spoof)
        else:
            D = D.astype(int if self.ints else float)
        k = len(self.nodes) if not self.far else 0
        return dict(D=D, sym=ctx.symbolic, q=[
            ctx.var("answer%d" % i, 0, k - 1 - i, integer=True)
            for i in range(k - 1)])

    def go(self, m, inp, tmp):
        cfg = importlib.import_module("verypy.config")
        cfg.LKH_EXE_PATH = cfg.ACOTSP_EXE_PATH = sys.executable
        if self.kind == "fast":
            mip.install()
        names = {"lkh": ["lkh"], "acotsp": ["acotsp"],
                 "fast": ["lkh", "gurobi", "ropt", "fast"]}[self.kind]
        mods = modules_ready(*[TS + k for k in names])
        s = list(self.nodes)
        inp["calls"] = []
        keep = tempfile.tempdir
        tempfile.tempdir = tmp
        for x in mods:
            if hasattr(x, "Popen"):
                x.Popen = Process(self, inp)
                if inp["sym"]:
                    x.__dict__.update(int=IntTok, float=FloatTok)
                else:
                    x.__dict__.update(int=int, float=float)
        if inp["sym"]:
            m.__dict__["int"] = Trunc
        m.__dict__["str"] = (lambda x: core.TOKENS.text(x) if type(x) is Sym
                             else str(x)) if inp["sym"] else str
        kw = {}
        if self.runs:
            kw["num_runs"] = self.runs
        if self.ants:
            kw["use_ants"] = True
        f = getattr(mods[-1], "solve_tsp_" + self.kind)
        try:
            with contextlib.redirect_stdout(_io.StringIO()):
                sol, l = f(inp["D"], s, **kw)
        finally:
            tempfile.tempdir = keep
        inp["left"] = sorted(os.listdir(tmp))
        inp["s"] = s
        return list(sol), l

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        sol, l = res
        D = inp["D"]
        n = len(self.nodes)
        yield "the given list was modified", inp["s"] == list(self.nodes)
        yield "files are left behind: %s" % inp["left"], not inp["left"]
        ok = len(sol) == n + 1 and sol[0] == sol[-1] and \
            sorted(sol[:-1]) == sorted(self.nodes)
        yield "%s is not a round trip over %s" % (sol, list(self.nodes)), ok
        if not ok:
            return
        true = path_cost(sol, D)
        acc = 1
        for p in inp["calls"]:
            yield "the problem has %d locations" % p.n, p.n == n
            if p.n != n:
                return
            for a in range(n):
                for b in range(a + 1, n):
                    v = D[self.nodes[a], self.nodes[b]]
                    what = "distance %d-%d given to the program" % (a, b)
                    if self.ints:
                        yield what, EQ(p.M[a, b], v)
                    else:
                        acc = 1000
                        v = v * acc
                        yield what, AND(LE(p.M[a, b], v + Fraction(1, 1000)),
                                        LE(v - p.M[a, b], 1))
            want = [self.nodes[a] for a in p.tour]
            e = {frozenset(x) for x in zip(want, want[1:] + want[:1])}
            yield "%s is not the program's answer %s" % (sol, want), \
                e == {frozenset(x) for x in zip(sol, sol[1:])}
            if self.runs:
                yield "number of runs", p.par.get("RUNS") == str(self.runs)
        if acc == 1:
            yield "length", EQ(l, true)
        else:
            slack = Fraction(n, acc) + Fraction(1, 10 ** 6)
            yield "length", AND(LE(l, true + slack), LE(true - slack, l))


def T04(tier):
    T = tier == "thorough"
    hs = []

    def add(kind, nodes, ints, dm="sym", **kw):
        hs.append(External("%s/%s/%s%s%s" % (
            kind, "-".join(map(str, nodes)) if len(nodes) < 10 else
            "%d nodes" % len(nodes), dm, "/int" if ints else "/real",
            "".join("/%s%s" % x for x in sorted(kw.items()) if x[0] != "far")),
            kind=kind, nodes=tuple(nodes), ints=ints, dmode=dm,
            priority=len(nodes), functions=(
                TS + "%s.solve_tsp_%s" % (kind, kind),
                "verypy.cvrp_io.write_TSPLIB_file"), **kw))
    for kind in ("lkh", "acotsp"):
        for ints in (1, 0):
            for nodes in ((0, 1), (0, 2), (0, 1, 2), (0, 3, 1), (1, 2),
                          (0, 1, 2, 3), (0, 3, 1, 2), (2, 0, 3, 1),
                          (0, 4, 2, 1), (1, 2, 3, 4)):
                add(kind, nodes, ints)
            for nodes in ((0, 1, 2, 3, 4), (0, 2, 5, 1, 3), (3, 1, 0, 2, 4)):
                add(kind, nodes, ints, "sym" if T or ints else "rnd:1")
                add(kind, nodes, ints, "euc:2")
            add(kind, (0, 5, 2, 4, 1, 3), ints, "rnd:2")
    add("lkh", (0, 2, 1, 3), 1, runs=3)
    add("lkh", (0, 2, 1, 3), 0, runs=1)
    add("acotsp", (0, 2, 1, 3), 1, ants=1)
    add("acotsp", (3, 2, 1, 0), 0, ants=1)
    for nodes in ((0, 1), (0, 2, 1), (0, 3, 1, 2), (0, 4, 2, 1, 3)):
        add("fast", nodes, 1, "sym" if len(nodes) < 5 else "rnd:4")
    for k in (20, 23):
        far = tuple((7 * i + 3) % k for i in range(k))
        add("fast", tuple(range(k)), 1, "euc:1", far=far)
        add("fast", tuple(range(k)), 0, "euc:2", far=far)
        add("lkh", (0,) + tuple(range(k, 1, -1)), 1, "euc:3", far=far)
        add("acotsp", (0,) + tuple(range(k, 1, -1)), 0, "euc:3", far=far)
    return hs


PROPS = {"T04": T04}
