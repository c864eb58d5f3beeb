"""M04: the command line of a single algorithm."""
import contextlib
import io as _io
import logging
from symex.base import *
from harness.h_cli import CliHarness, SC, behaviour, normal
from harness.h_core import idx
from harness.h_io import IntTok

OBJ = ("cost", "c", "C", "vehicles", "k", "K")
BEH = ([0, 1, 0, 2, 0], [0, 1, 2, 0])
OUT = (("sol", BEH[0]), ("sol", BEH[1]), ("none", None), ("int", BEH[0]),
       ("int", None))


BEST = tuple(("sol", b) for b in ([0, 1, 2, 3, 0], [0, 1, 2, 0, 3, 0],
                                  [0, 2, 0, 3, 1, 0], [0, 1, 0, 2, 0, 3, 0]))


class _Argv(object):
    def __init__(self, argv, time):
        self.argv = argv
        self.stderr = _io.StringIO()
        self.stdout = sys.stdout

    def __getattr__(self, k):
        return getattr(sys, k)


class _Rand(object):
    """random draws: angles and distances fixed, demands arbitrary"""

    def __init__(self, demands):
        self.d = list(demands)
        self.n = 0

    def random(self):
        self.n += 1
        return (self.n * 0.37) % 1.0

    def gauss(self, mu, sd):
        return self.d.pop(0) if mu != 1.0 else 1.0 + 0.125 * self.n


class OneAlgorithm(CliHarness):
    demand, useL, useS, ints, n = 1, 0, 0, 1, 3
    path_seconds = 40.0

    def bounds(self):
        return "every combination and order of the options -1, -t, -n 1..3, " \
            "-b %s, -v 0..1; %s; every outcome of every run out of %s" % (
                "/".join(OBJ), self.target, list(self.beh))

    def build(self, ctx):
        inp = dict(sym=ctx.symbolic)
        inp["p"] = [self.instance(ctx, "a"), self.instance(ctx, "b")][
            :2 if self.target == "folder" else 1]
        v = inp["v"] = {}
        for k, hi in self.opts:
            v[k] = ctx.var("opt_" + k, 0, hi, integer=True)
        v["turn"] = ctx.var("turn", 0, len(self.opts), integer=True)
        inp["b"] = [ctx.var("b%d" % i, 0, len(self.beh) - 1, integer=True)
                    for i in range(self.maxruns)]
        inp["draw"] = [ctx.var("draw%d" % i, None, None, integer=True)
                       for i in range(self.draws)] + [5] * (3 - self.draws)
        return inp

    def go(self, m, inp, tmp):
        (sc,) = modules_ready(SC)
        io = self.io(inp)
        self.ops(inp)
        v = inp["v"]
        parts = []
        want = inp["want"] = dict(single=False, n=1, mk=False, v=None, t=False)
        for k, _ in self.opts:
            x = idx(v[k])
            if not x:
                continue
            if k == "1":
                parts.append(["-1"])
                want["single"] = True
            elif k == "t":
                parts.append(["-t"])
                want["t"] = True
            elif k == "n":
                parts.append(["-n", str(x)])
                want["n"] = x
            elif k == "b":
                parts.append(["-b", OBJ[x - 1]])
                want["mk"] = x > 3
            elif k == "v":
                parts.append(["-v", str(x - 1)])
                want["v"] = x - 1
        t = idx(v["turn"]) % max(1, len(parts)) if parts else 0
        argv = ["x.py"] + sum(parts[t:] + parts[:t], [])
        if self.target == "random":
            argv.append("3")
        elif self.target == "folder":
            os.mkdir(os.path.join(tmp, "f"))
            self.write(inp["p"][0], os.path.join(tmp, "f", "p9.vrp"))
            self.write(inp["p"][1], os.path.join(tmp, "f", "p10.vrp"))
            argv.append(os.path.join(tmp, "f"))
        else:
            argv.append(os.path.join(tmp, "p.vrp"))
            self.write(inp["p"][0], argv[-1])
        inp["log"] = log = []
        inp["args"] = args = []

        def algo(points, D, d, C, L, st, ewt, single, minimize_K):
            k = idx(inp["b"][len(log)])
            log.append(self.beh[k])
            args.append((points, D, d, C, L, st, single, minimize_K))
            return behaviour(self.beh[k])
        buf = _io.StringIO()
        root = logging.getLogger()
        old = root.level, list(root.handlers)
        if self.target == "random":
            import math
            import scipy.spatial.distance as sd
            io.np = np          # the locations are plain numbers
            io.__dict__.update(int=int, pdist=sd.pdist, cdist=sd.cdist,
                               squareform=sd.squareform, sqrt=math.sqrt)
            io.random = _Rand(inp["draw"])
            sc.__dict__["int"] = IntTok
        keep = sc.sys
        sc.sys = _Argv(argv, None)
        inp["argv"] = argv[1:-1]
        try:
            with contextlib.redirect_stdout(buf), \
                    contextlib.redirect_stderr(_io.StringIO()):
                sc.cli("name", "description", algo)
        finally:
            sc.sys = keep
            root.setLevel(old[0])
            root.handlers[:] = old[1]
            inp["out"] = [eval(l.partition(":")[2]) for l in
                          buf.getvalue().splitlines()
                          if l.startswith("SOLUTION: ")]
            inp["solved"] = [l.split()[1] for l in
                             buf.getvalue().splitlines()
                             if l.startswith("Solve ")]

    def props(self, inp, res, exc):
        w, log, args = inp["want"], inp["log"], inp["args"]
        what = "options %s: " % " ".join(inp["argv"])
        stop = [i for i, b in enumerate(log) if b[0] == "int"]
        files = len(inp["p"]) if self.target != "random" else 1
        rnd = self.target == "random"
        for a in args:
            yield what + "the algorithm was told single=%r" % (a[6],), \
                bool(a[6]) == w["single"]
            yield what + "the algorithm was told minimize_K=%r" % (a[7],), \
                bool(a[7]) == w["mk"]
        total = files * w["n"]
        if stop:
            yield what + "solving went on after the interrupt", \
                len(log) == stop[0] + 1
        else:
            yield what + "raised %r" % (exc,), exc is None
            yield what + "%d runs instead of %d" % (len(log), total), \
                len(log) == total
        if len(log) > total:
            return
        if not rnd:
            names = ["p9.vrp", "p10.vrp"] if files > 1 else ["p.vrp"]
            yield what + "solved %s" % inp["solved"], \
                inp["solved"] == names[:1 + (len(log) - 1) // w["n"]]
        out = list(inp["out"])
        for i, a in enumerate(args):
            p = inp["p"][i // w["n"]] if not rnd else None
            if rnd:
                yield what + "%d nodes instead of 4" % len(a[1]), \
                    len(a[1]) == len(a[0]) == len(a[2]) == 4
                for x in range(len(a[1])):
                    for y in range(len(a[1])):
                        q = ((a[0][x][0] - a[0][y][0]) ** 2 +
                             (a[0][x][1] - a[0][y][1]) ** 2) ** 0.5
                        yield what + "distance %d-%d" % (x, y), \
                            abs(float(a[1][x][y]) - q) <= 0.51
                yield what + "depot demand", EQ(a[2][0], 0)
                for j, x in enumerate(a[2][1:]):
                    yield what + "demand of customer %d" % (j + 1), \
                        AND(LT(0, x), LE(x, a[3]))
            else:
                for x in range(self.n):
                    for y in range(self.n):
                        yield what + "distance %d-%d of file %d" % (
                            x, y, i // w["n"]), EQ(a[1][x, y], p["D"][x][y])
        if w["v"] is None and exc is None and not stop and not out:
            return          # how much is printed by default is not promised
        for f in range(files):
            mine = log[f * w["n"]:(f + 1) * w["n"]]
            sols = [s for k, s in mine if k in ("sol", "int") and s]
            if not sols:
                continue        # nothing to print
            if not out:
                yield what + "no solution printed for file %d" % f, False
                return
            best = out.pop(0)
            D = self.D(inp["p"][f]) if not rnd else args[0][1]
            yield what + "%s is not one of %s" % (best, sols), \
                normal(best) in [normal(s) for s in sols]
            bk, bc = len(split(best)), sol_cost(best, D)
            for s in sols:
                k, c = len(split(s)), sol_cost(s, D)
                if w["mk"]:
                    yield what + "%s is better than %s" % (s, best), \
                        k > bk or (k == bk and NOT(LT(c, bc)))
                else:
                    yield what + "%s is shorter than %s" % (s, best), \
                        NOT(LT(c, bc))


def M04(tier):
    T = tier == "thorough"
    hs = []

    def add(name, target, opts, beh, maxruns, draws=0, n=3):
        hs.append(OneAlgorithm("%s/%s" % (target, name), target=target,
                               opts=opts, beh=beh, maxruns=maxruns,
                               draws=draws, n=n,
                               functions=(SC + ".cli",
                                          SC + ".read_and_solve_a_problem",
                                          "verypy.cvrp_io.generate_CVRP"),
                               priority=maxruns))
    one = (("sol", BEH[1]),)
    add("options", "file", (("1", 1), ("t", 1), ("n", 2), ("b", 6), ("v", 2)),
        one, 3)
    add("options", "random", (("1", 1), ("n", 2), ("b", 6), ("v", 2)), one, 3)
    for t in ("file", "folder", "random"):
        k = 2 if t == "folder" else 1
        add("best", t, (("n", 2), ("b", 6), ("v", 1)), OUT[:2], 3 * k if T
            else 2 * k + (k == 1)) if t != "folder" else \
            add("best", t, (("b", 6),), OUT[:2], 2)
        add("interrupt", t, (("n", 2), ("v", 1)), OUT if t != "folder" else
            OUT[:1] + OUT[3:4], 3 * k)
    for t in ("file", "random"):
        add("vehicles", t, (("n", 2), ("b", 4)), BEST, 3, n=4)
    add("draws", "random", (("1", 1),), one, 1, 3)
    if T:
        add("best2", "folder", (("n", 2), ("b", 4)), OUT[:2], 4)
    return hs


PROPS = {"M04": M04}
