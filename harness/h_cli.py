"""M01 best-of-n driver, M02 command line report, M03 problem file discovery."""
import contextlib
import io as _io
from symex.base import *
from harness.h_core import idx, _CopyShim
from harness.h_io import IoHarness, IntTok, FloatTok
from harness.h_ls import canon

SC = "verypy.shared_cli"
VM = "verypy.VeRyPy"

SOL2 = ([0, 2, 1, 0], [0, 2, 0, 1, 0], [0, 1, 0, 0, 2, 0])
SOL3 = ([0, 1, 2, 3, 0], [0, 2, 0, 3, 1, 0], [0, 3, 2, 1, 0],
        [0, 1, 0, 2, 0, 3, 0])
BAD3 = ([0, 1, 2, 0], [0, 2, 3, 0, 2, 1, 0])


def behaviour(what):
    """run the scripted outcome of one algorithm call"""
    kind, sol = what
    if kind == "sol":
        return list(sol)
    if kind == "routes":
        return [[0] + r + [0] for r in split(sol)]
    if kind == "none":
        return None
    if kind == "fail":
        raise ValueError("scripted failure")
    if kind == "int":
        raise KeyboardInterrupt(list(sol)) if sol else KeyboardInterrupt()
    raise AssertionError(kind)


def normal(sol):
    return canon(split(sol))


class CliHarness(IoHarness):
    """a real problem file, scripted algorithms"""
    fixedC = None
    path_seconds = 40.0
    intL = False

    def instance(self, ctx, tag=""):
        n = self.n
        D = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1, n):
                D[i][j] = D[j][i] = ctx.var("D%s%d_%d" % (tag, i, j), 0,
                                            self.dmax, integer=self.ints)
        if not self.ints:
            D[n - 2][n - 1] = D[n - 1][n - 2] = 1.5
        p = dict(D=D, d=None, C=None, L=None, st=None)
        if self.demand:
            p["d"] = [0] + [ctx.var("d%s%d" % (tag, i), 0, None,
                                    integer=self.ints) for i in range(1, n)]
            p["C"] = self.fixedC or ctx.var("C" + tag, 1, None, integer=True)
        if self.useL:
            p["L"] = ctx.var("L" + tag, 1, None, integer=self.ints)
        if self.useS:
            p["st"] = ctx.var("st" + tag, 1, 5, integer=self.ints)
        return p

    dmax = None
    nocap = False

    def write(self, p, fn):
        n, t = self.n, self.txt
        s = "NAME: x\nTYPE: %s\nDIMENSION: %d\nEDGE_WEIGHT_TYPE: EXPLICIT\n" \
            "EDGE_WEIGHT_FORMAT: FULL_MATRIX\n" % (
                "CVRP" if fn.endswith("vrp") else "TSP", n)
        if p["C"] is not None:
            s += "CAPACITY: %s\n" % t(p["C"])
        if p["L"] is not None:
            s += "DISTANCE: %s\n" % t(p["L"])
        if p["st"] is not None:
            s += "SERVICE_TIME: %s\n" % t(p["st"])
        s += "EDGE_WEIGHT_SECTION\n" + "\n".join(
            " ".join(t(x) for x in r) for r in p["D"]) + "\n"
        s += "NODE_COORD_SECTION\n" + "".join(
            "%d %d %d\n" % (i + 1, 3 * i, i % 2) for i in range(n))
        if p["d"] is not None:
            s += "DEMAND_SECTION\n" + "".join(
                "%d %s\n" % (i + 1, t(x)) for i, x in enumerate(p["d"]))
            s += "DEPOT_SECTION\n1\n-1\n"
        with open(fn, "w") as f:
            f.write(s + "EOF\n")

    def ops(self, inp):
        import verypy.cvrp_ops as o
        if inp["sym"] and not isinstance(o.np, _CopyShim):
            o.np = _CopyShim(o.np)

    def D(self, p):
        return np.array(p["D"], dtype=object)

    def Dc(self, p):
        D = self.D(p)
        n = len(D)
        if p["st"] is not None:
            for i in range(n):
                for j in range(n):
                    if i != j:
                        D[i, j] = D[i, j] + (
                            p["st"] if i and j else p["st"] * 0.5)
        return D

    def parse(self, text):
        """number printed by the code under test"""
        text = text.strip()
        if core.TOKENS is not None:
            v = core.TOKENS.lookup(text)
            if v is not None:
                return v
        return float(text)


# ---------------------------------------------------------------- M01 --------

class BestOf(CliHarness):
    def bounds(self):
        return "%d runs, each with every outcome out of %s; %d customers, " \
            "every matrix%s%s, objective %s" % (
                self.rounds, self.beh, self.n - 1,
                ", demands and capacity" if self.demand else "",
                ", service time" if self.useS else "",
                "vehicles" if self.mk else "cost")

    def build(self, ctx):
        inp = dict(sym=ctx.symbolic, p=self.instance(ctx))
        inp["b"] = [ctx.var("b%d" % i, 0, len(self.beh) - 1, integer=True)
                    for i in range(self.rounds)]
        return inp

    def go(self, m, inp, tmp):
        (sc,) = modules_ready(SC)
        m = self.io(inp)
        self.ops(inp)
        fn = os.path.join(tmp, "p.vrp")
        self.write(inp["p"], fn)
        inp["log"] = log = []
        inp["args"] = args = []

        def algo(points, D, d, C, L, st, ewt, single, minimize_K):
            k = idx(inp["b"][len(log)])
            log.append(self.beh[k])
            args.append((D, d, C, L, st, single, minimize_K))
            return behaviour(self.beh[k])
        inp["out"] = None
        buf = _io.StringIO()
        with contextlib.redirect_stdout(buf), \
                contextlib.redirect_stderr(_io.StringIO()):
            try:
                r = sc.read_and_solve_a_problem(
                    fn, algo, bool(self.mk), best_of_n=self.rounds,
                    verbosity=self.verb)[:3]
            finally:
                inp["out"] = [l for l in buf.getvalue().splitlines()
                              if l.startswith("SOLUTION: ")]
        return r

    def props(self, inp, res, exc):
        p, log = inp["p"], inp["log"]
        D, Dc = self.D(p), self.Dc(p)
        stop = [i for i, b in enumerate(log) if b[0] == "int"]
        if stop:
            yield "solving went on after the interrupt", \
                len(log) == stop[0] + 1 and \
                isinstance(exc, KeyboardInterrupt)
        else:
            yield "%d runs instead of %d" % (len(log), self.rounds), \
                len(log) == self.rounds
        for a in inp["args"]:
            for i in range(self.n):
                for j in range(self.n):
                    yield "the algorithm got a wrong distance %d-%d" % (i, j), \
                        EQ(a[0][i, j], Dc[i, j])
            yield "the algorithm got a wrong objective", a[6] == bool(self.mk)
            for v, k in ((a[2], "C"), (a[3], "L")):
                yield "the algorithm got a wrong " + k, (
                    v is None if p[k] is None else
                    v is not None and EQ(v, p[k]))
        sols = [s for k, s in log if k in ("sol", "routes", "int") and s]
        if stop:
            if self.verb >= 0 and sols:
                yield "no solution printed after an interrupt", \
                    len(inp["out"]) == 1
                if len(inp["out"]) != 1:
                    return
                best = eval(inp["out"][0].partition(":")[2])
            else:
                return
        elif not sols:
            yield "without a solution: raised %r" % (exc,), exc is None
            if exc is None:
                yield "%r returned without a solution" % (res[0],), \
                    res[0] is None
            return
        else:
            if exc is not None:
                yield "raised %r" % (exc,), False
                return
            best, f, c = res
            yield "returned length", EQ(f, sol_cost(best, D))
            yield "returned cost", EQ(c, sol_cost(best, Dc))
            if self.verb >= 0:
                yield "printed solution", len(inp["out"]) == 1 and normal(
                    eval(inp["out"][0].partition(":")[2])) == normal(best)
        yield "%s is not one of the solutions found %s" % (best, sols), \
            normal(best) in [normal(s) for s in sols]
        bk = len(split(best))
        bc = sol_cost(best, Dc)
        for s in sols:
            k, c = len(split(s)), sol_cost(s, Dc)
            if self.mk:
                yield "%s has fewer vehicles or is shorter than %s" % (
                    s, best), k > bk or (k == bk and NOT(LT(c, bc)))
            else:
                yield "%s is shorter than %s" % (s, best), NOT(LT(c, bc))


def M01(tier):
    T = tier == "thorough"
    hs = []
    s2 = [("sol", s) for s in SOL2]
    s3 = [("sol", s) for s in SOL3]
    none, i0 = ("none", None), ("int", None)
    for mk in (0, 1):
        for demand, useL, useS in ((0, 0, 0), (1, 0, 0), (1, 1, 1), (0, 1, 1)):
            for ints in (1, 0):
                if not ints and useS and not T:
                    continue
                for rounds, n, beh, verb in (
                        (1, 3, s2 + [none, i0, ("int", SOL2[0])], -1),
                        (2, 3, s2 + [none, i0, ("int", SOL2[0])], 0),
                        (3, 4, s3 + [none, i0, ("int", [0, 2, 1, 0, 3, 0])],
                         -1),
                        (2, 4, s3 + [("routes", [0, 3, 1, 2, 0]),
                                     ("int", [0, 2, 1, 0, 3, 0])], 0)) + \
                        (((4, 4, s3, -1), (4, 3, s2 + [none, i0], 1))
                         if T else ()):
                    if not T and rounds > 2 and (not ints or useL):
                        continue
                    hs.append(BestOf("bestof%d/n%d/%s%s%s%s/%s/v%d" % (
                        rounds, n, "vehicles" if mk else "cost",
                        "/C" if demand else "", "/L" if useL else "",
                        "/st" if useS else "", "int" if ints else "real",
                        verb), rounds=rounds, n=n, beh=beh, mk=mk, verb=verb,
                        demand=demand, useL=useL, useS=useS, ints=ints,
                        priority=rounds * n, functions=(
                            SC + ".read_and_solve_a_problem",
                            SC + ".print_solution_statistics",
                            "verypy.util.is_better_sol",
                            "verypy.util.objf",
                            "verypy.cvrp_ops.normalize_solution",
                            "verypy.cvrp_ops.D2D_c")))
    return hs


# ---------------------------------------------------------------- M02 --------

class RoundNp(_CopyShim):
    """rounding of proxies"""

    def round(self, a, *k):
        b = a.copy()
        for i in range(b.size):
            v = b.flat[i]
            b.flat[i] = v.rint() if type(v) is Sym else float(round(v))
        return b
    rint = around = round


class Report(CliHarness):
    """the command line tool with scripted algorithms"""
    opts = ()

    def bounds(self):
        return "%d problem file(s), %d algorithm(s), each with every outcome " \
            "out of %s; %d customers, every matrix%s%s%s, options %s" % (
                self.files, self.algos, self.beh, self.n - 1,
                ", demands" if self.demand else "",
                ", route limit" if self.useL else "",
                ", service time" if self.useS else "", " ".join(self.opts))

    def build(self, ctx):
        inp = dict(sym=ctx.symbolic, p0=[
            self.instance(ctx, "fgh"[k]) for k in range(self.files)])
        inp["b"] = [[ctx.var("b%d%d" % (k, a), 0, len(self.beh) - 1,
                             integer=True) for a in range(self.algos)]
                    for k in range(self.files)]
        return inp

    def go(self, m, inp, tmp):
        import verypy
        (vm, sc) = modules_ready(VM, SC)
        m = self.io(inp)
        self.ops(inp)
        if inp["sym"]:
            if not isinstance(vm.np, RoundNp):
                vm.np = RoundNp(vm.np)
        elif isinstance(vm.np, RoundNp):
            vm.np = vm.np._np
        inp["p"] = [dict(p) for p in inp["p0"]]
        fns = []
        for k, p in enumerate(inp["p"]):
            fns.append(os.path.join(tmp, "p%d.%s" % (k, self.ext)))
            self.write(p, fns[-1])
        with open(os.path.join(tmp, "list.txt"), "w") as f:
            f.write("\n".join(fns) + "\n")
        inp["log"] = log = []
        inp["args"] = args = []

        def make(a):
            def algo(points, D, d, C, L, st, ewt, single, minimize_K):
                k, _ = where(a)
                b = self.beh[idx(inp["b"][k][a])]
                log.append((k, a, b))
                args.append((k, D, d, C, L, bool(single), bool(minimize_K)))
                return behaviour(b)
            return algo

        def where(a):
            k = sum(1 for x in log if x[1] == a)
            return k, a
        al = [("a%d" % a, "ALGO%d" % a, "desc", make(a))
              for a in range(self.algos)]
        get = lambda names='all': list(al)
        old = (verypy.get_algorithms, getattr(vm, "get_algorithms", None))
        verypy.get_algorithms = get
        if old[1] is not None:
            vm.get_algorithms = get
        buf, err = _io.StringIO(), _io.StringIO()
        try:
            with contextlib.redirect_stdout(buf), \
                    contextlib.redirect_stderr(err):
                vm.main(["-a", "x"] + list(self.opts) + [
                    os.path.join(tmp, "list.txt") if self.files > 1
                    else fns[0]])
        finally:
            verypy.get_algorithms = old[0]
            if old[1] is not None:
                vm.get_algorithms = old[1]
        out = buf.getvalue().splitlines()
        return self.digest(out)

    def digest(self, out):
        """what the report says"""
        rows = []
        table = None
        if "-m" in self.opts:
            for l in out[1:]:
                w = l.split(";")
                t = w[5].strip()
                rows.append(dict(algo=w[0], bn=w[1], feas=w[2],
                                 f=self.parse(w[3]), K=w[4],
                                 star=t.endswith("*")))
            return rows, out[:1]
        cur = None
        names = None
        for l in out:
            if l.startswith("Solving "):
                w = l.split()
                cur = dict(bn=w[1], algo=w[3])
                rows.append(cur)
            elif l.startswith("SOLUTION: "):
                cur["sol"] = eval(l.partition(":")[2])
            elif l.startswith("FEASIBLE:"):
                cur["feas"] = l.split()[1]
            elif l.startswith(("ALL SERVED:", "IS C FEASIBLE:",
                               "IS L FEASIBLE:")):
                v = l.split()[-1]
                cur.setdefault("flags", {})[l.split(":")[0]] = v
            elif l.startswith("SOLUTION K:"):
                cur["K"] = l.split()[-1]
            elif l.startswith("SOLUTION COST:"):
                cur["cost"] = self.parse(l.partition(":")[2])
            elif l.startswith("SOLUTION LENGTH:"):
                cur["length"] = self.parse(l.partition(":")[2])
            elif l.startswith("instance\t"):
                names = l.split("\t")
                table = []
            elif table is not None and l.strip():
                w = [x.strip() for x in l.split("\t")]
                w = w[:7] + [x for x in w[7:] if x]
                table.append(w[:1] + w[2:3] + [self.parse(x)
                                                for x in w[7:]])
            elif cur is not None and "\t" in l and l[0].isdigit():
                w = l.split("\t")
                cur.setdefault("rows", []).append(
                    (self.parse(w[1]), self.parse(w[2]),
                     w[3] if w[3] == "-" else self.parse(w[3]), eval(w[4])))
            elif cur is not None and l.startswith("Total\t"):
                w = l.split("\t")
                cur["total"] = (self.parse(w[1]), self.parse(w[2]))
        return rows, table, names

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        rows, log = res[0], inp["log"]
        want = [(k, a) for k in range(self.files) for a in range(self.algos)]
        stop = [i for i, x in enumerate(log) if x[2][0] == "int"]
        yield "calls %s" % (log,), [x[:2] for x in log] == (
            want[:stop[0] + 1] if stop else want)
        yield "number of reports", len(rows) == len(log)
        if len(rows) != len(log):
            return
        cost_opt, post = "-c" in self.opts, "--post-optimize" in self.opts
        mini = "-m" in self.opts
        solved = {}
        for a in inp["args"]:
            p = inp["p"][a[0]]
            if "-D" in self.opts:
                for i in range(self.n):
                    for j in range(self.n):
                        r, v = a[1][i, j], p["D"][i][j]
                        yield "distance %d-%d is not an integer" % (i, j), \
                            r.is_int_valued() if type(r) is Sym else r == int(r)
                        yield "distance %d-%d rounded wrong" % (i, j), \
                            AND(LE(r, v), LT(v, r + 1)) \
                            if "TRUNCATE" in self.opts else \
                            AND(LE(2 * r - 1, 2 * v), LE(2 * v, 2 * r + 1))
                p = inp["p"][a[0]] = dict(p, D=a[1].tolist())
            Dc = self.Dc(p)
            for i in range(self.n):
                for j in range(self.n):
                    yield "the algorithm got a wrong distance %d-%d" % (
                        i, j), EQ(a[1][i, j], Dc[i, j])
            yield "the algorithm got wrong options", a[5:] == (
                "-1" in self.opts, "K" in self.opts)
        for (k, a, (kind, s)), r in zip(log, rows):
            p = inp["p"][k]
            D, Dc = self.D(p), self.Dc(p)
            yield "report of a wrong run", r["algo"] == ("a%d" if mini else
                                                         "ALGO%d") % a \
                and r["bn"] == "p%d" % k
            got = s if kind in ("sol", "routes", "int") else None
            if not got:
                if mini:
                    yield "a solution out of nothing", \
                        r["feas"] == "False" and r["f"] == float("inf")
                else:
                    yield "a solution out of nothing", "sol" not in r
                solved.setdefault(k, {})[a] = float("inf")
                continue
            E = Dc if cost_opt else D
            sol = got
            if not mini:
                yield "no solution is printed for a solved run", "sol" in r
                if "sol" not in r:
                    continue
                sol = r["sol"]
                if not post:
                    yield "printed solution %s of %s" % (sol, got), \
                        normal(sol) == normal(got) and sol[0] == sol[-1] == 0
                else:
                    yield "post-optimized solution %s of %s" % (sol, got), \
                        sorted(x for x in sol if x) == \
                        sorted(x for x in got if x)
                    yield "post-optimization made the solution longer", \
                        LE(sol_cost(sol, D), sol_cost(got, D))
            cover = sorted(x for x in sol if x) == list(range(1, self.n))
            cap = AND(*[LE(demand(q, p["d"]), p["C"]) for q in split(sol)]) \
                if p["C"] is not None else True
            lim = AND(*[LE(route_cost(q, Dc), p["L"]) for q in split(sol)]) \
                if p["L"] is not None else True
            if not (mini and post):
                truth = AND(cover, cap, lim)
                if "flags" in r:
                    for n, t in (("ALL SERVED", cover), ("IS C FEASIBLE", cap),
                                 ("IS L FEASIBLE", lim)):
                        if n in r["flags"]:
                            yield "%s: %s of %s" % (n, r["flags"][n], sol), \
                                self.iff(r["flags"][n], t)
                    yield "verdicts are missing", \
                        ("IS C FEASIBLE" in r["flags"]) == (p["C"] is not None) \
                        and ("IS L FEASIBLE" in r["flags"]) == \
                        (p["L"] is not None)
                else:
                    yield "feasibility of %s reported as %s" % (
                        sol, r["feas"]), self.iff(r["feas"], truth)
                yield "vehicle count of %s" % (sol,), \
                    int(r["K"]) == len(split(sol))
            elif r["feas"] != "True":
                # improving single routes keeps a feasible solution feasible
                yield "infeasible after post-optimization", \
                    NOT(AND(cover, cap, lim))
            true_f = sol_cost(sol, E)
            if mini and post:
                yield "post-optimization made the solution longer", \
                    LE(r["f"], true_f)
            elif mini:
                yield "reported quality of %s" % (sol,), self.num(
                    r["f"], true_f)
            else:
                if "length" in r:
                    yield "reported length of %s" % sol, EQ(
                        r["length"], sol_cost(sol, D))
                if "cost" in r:
                    yield "reported cost of %s" % sol, EQ(
                        r["cost"], sol_cost(sol, Dc))
                yield "neither cost nor length", "length" in r or "cost" in r
                if "--routes" in self.opts:
                    yield "routes table", [q[3] for q in r["rows"]] == [
                        [0] + q + [0] for q in split(sol)]
                    for c, l, ld, q in r["rows"]:
                        yield "cost of route %s" % q, self.num(
                            c, path_cost(q, Dc))
                        yield "length of route %s" % q, self.num(
                            l, path_cost(q, D))
                        yield "load of route %s" % q, (
                            ld == "-" if p["C"] is None else
                            EQ(ld, demand(q, p["d"])))
                    yield "total of the table", AND(
                        self.num(r["total"][0], sol_cost(sol, Dc)),
                        self.num(r["total"][1], sol_cost(sol, D)))
            if mini:
                yield "interrupt mark", r["star"] == (kind == "int")
            solved.setdefault(k, {})[a] = r["f"] if mini else sol_cost(sol, E)
            if not mini:
                solved[k].setdefault("K", []).append(int(r["K"]))
        if mini:
            yield "header", res[1] == ["algo;problem;is_feasible;f;K;t"]
            return
        table, names = res[1:]
        if self.files + self.algos <= 2:
            return
        if table is None:
            yield "no table of collected results", len(solved) < 2 and \
                self.algos < 2
            return
        yield "instances of the table", [t[0] for t in table] == \
            ["p%d" % k for k in sorted(solved)]
        for t in table:
            q = solved[int(t[0][1:])]
            if q.get("K"):
                yield "best vehicle count in the table", \
                    t[1] == str(min(q["K"]))
            vs = [q[a] for a in range(self.algos) if a in q]
            yield "results of the table", len(vs) == len(t) - 2
            if len(vs) == len(t) - 2:
                for a, b in zip(t[2:], vs):
                    yield "result of the table", (
                        a == b if float("inf") in (a, b) else EQ(a, b))

    @staticmethod
    def iff(flag, f):
        if flag not in ("True", "False"):
            return False
        return f if flag == "True" else NOT(f)

    @staticmethod
    def num(a, b):
        """two decimals are printed"""
        if type(a) is not Sym and type(b) is not Sym:
            return abs(a - b) <= 0.00501
        return EQ(a, b)


def M02(tier):
    T = tier == "thorough"
    hs = []
    s2 = [("sol", s) for s in SOL2[:2]]
    s3 = [("sol", s) for s in SOL3]
    rest = [("none", None), ("fail", None), ("int", None), ("int", SOL2[0])]
    bad = [("sol", b) for b in BAD3]

    def add(files, algos, n, beh, tag, opts, cons, ints=1, fixedC=5,
            ext="vrp", dmax=None):
        for demand, useL, useS in cons:
            hs.append(Report("report/%df%da/n%d/%s/%s%s%s%s%s/%s" % (
                files, algos, n, tag, "".join(opts) or "default",
                "/C" if demand else "", "/L" if useL else "",
                "/st" if useS else "", "" if ints else "/real", ext),
                files=files, algos=algos, n=n, beh=beh, opts=opts,
                demand=demand, useL=useL, useS=useS, ints=ints, fixedC=fixedC,
                ext=ext, dmax=dmax, priority=n * (files + algos), functions=(
                    VM + ".main", SC + ".print_solution_statistics",
                    SC + ".print_problem_information",
                    "verypy.cvrp_ops.validate_solution_feasibility",
                    "verypy.cvrp_ops.recalculate_objective",
                    "verypy.cvrp_ops.normalize_solution")))
    ALL = ((0, 0, 0), (1, 0, 0), (1, 1, 0), (1, 1, 1), (0, 1, 1))
    for opts in ((), ("-m",), ("-m", "-c"), ("--routes",), ("-c",),
                 ("-m", "-b", "K", "-1")):
        add(1, 1, 3, s2 + rest, "any", opts, ALL)
        add(1, 1, 4, s3 + bad, "any", opts, ALL if T or opts in (
            (), ("-m",)) else ALL[3:])
        add(1, 2, 3, s2 + rest[:3], "two", opts, ALL[:2] if not T else ALL)
        add(2, 1, 3, s2 + rest[:3], "two", opts, ALL[:1] if not T else ALL[:3])
    for opts in (("--post-optimize", "2opt"), ("-m", "--post-optimize", "2opt"),
                 ("-m", "-c", "--post-optimize", "3opt")):
        add(1, 1, 4, [("sol", SOL3[0]), ("sol", [0, 2, 0, 3, 1, 0])], "ls",
            opts, ALL if T else ALL[1:4:2])
        add(1, 1, 5, [("sol", [0, 3, 1, 2, 4, 0])], "ls", opts,
            ALL[:2] if T else ALL[:1])
    for how in ("ROUND", "TRUNCATE"):
        add(1, 1, 3, s2, "round", ("-m", "-D", how), ALL[:2], ints=0, dmax=3)
        add(1, 1, 3, s2[:1], "round", ("-D", how), ALL[:1], ints=0, dmax=3)
        add(1, 1, 3, s2[:1], "round", ("-m", "-c", "-D", how), ALL[1:2])
    add(1, 1, 3, s2 + rest, "any", ("-m",), ALL[:1], ext="tsp")
    add(1, 1, 3, s2 + rest, "any", (), ALL[:1], ext="tsp")
    return hs


# ---------------------------------------------------------------- M03 --------

EXTS = ("vrp", "tsp", "pickle", "dat")
NUMS = (2, 10, 9, 100)
STEMS = ("p%d", "p %d", "p;%d", "#p%d", "p%d,v1.0", "p[%d]", "p*%d", "1\u00b2%d")
DIRS = ("d%d", "d %d", "d[%d]", "d;%d.txt", "d%d.vrp", "d?%d")


class Discovery(IoHarness):
    """which files are solved for given paths"""

    def bounds(self):
        return "every tree of %d folders and %d files of every kind and " \
            "place, names with spaces, punctuation and brackets, " \
            "given %s%s" % (self.dirs, self.nfiles, self.how,
                                   ", recursively" if self.rec else "")

    def build(self, ctx):
        inp = dict(sym=ctx.symbolic)
        inp["par"] = [None] + [ctx.var("parent%d" % i, 0, i - 1, integer=True)
                               for i in range(1, self.dirs)]
        inp["at"] = [ctx.var("dir%d" % i, 0, self.dirs - 1, integer=True)
                     for i in range(self.nfiles)]
        inp["ext"] = [ctx.var("ext%d" % i, 0, len(EXTS) - 1, integer=True)
                      for i in range(self.nfiles)]
        inp["stem"] = ctx.var("stem", 0, len(STEMS) - 1, integer=True)
        inp["dir"] = ctx.var("dirname", 0, len(DIRS) - 1, integer=True)
        return inp

    def go(self, m, inp, tmp):
        (sc,) = modules_ready(SC)
        dname = DIRS[idx(inp["dir"])]
        fname = STEMS[idx(inp["stem"])] + ".%s"
        path = [os.path.join(tmp, dname % 0)]
        par = [0]
        for i in range(1, self.dirs):
            par.append(idx(inp["par"][i]))
            path.append(os.path.join(path[par[i]], dname % i))
        for p in path:
            os.mkdir(p)
        files = []
        for i in range(self.nfiles):
            k = idx(inp["at"][i])
            e = EXTS[idx(inp["ext"][i])]
            files.append((k, NUMS[i], e))
            with open(os.path.join(path[k], fname % (NUMS[i], e)),
                      "w") as f:
                f.write("x")
        inp["tree"] = par, files
        name = {os.path.realpath(os.path.join(path[k], fname % (n, e))):
                (k, n, e) for k, n, e in files}
        if self.how == "folder":
            arg = [path[0]]
        elif self.how == "files":
            arg = sorted(name)
        elif self.how == "both":
            arg = [path[0]] + ([path[1]] if self.dirs > 1 else [])
        else:
            arg = [os.path.join(tmp, "l.txt")]
            with open(arg[0], "w") as f:
                f.write("\n".join(["", "  %s " % os.path.join(
                    tmp, "none.vrp")] + sorted(name)) + "\n")
        inp["given"] = [name.get(a) for a in sorted(name)]
        with contextlib.redirect_stderr(_io.StringIO()):
            r = sc.get_a_problem_file_list(arg, bool(self.rec))
        return [name.get(os.path.realpath(f), f) for f in r]

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        par, files = inp["tree"]
        prob = [f for f in files if f[2] != "dat"]
        if self.how == "files":
            want = [f for f in inp["given"] if f[2] != "dat"]
            yield "given %s, listed %s" % (want, res), res == want
            return
        if self.how == "list":
            yield "given %s, listed %s" % (inp["given"], res), \
                res == inp["given"]
            return
        roots = [0] if self.how == "folder" else [0, 1]

        def below(k, r):
            while k != r and k != 0:
                k = par[k]
            return k == r
        for f in prob:
            if self.rec:
                n = sum(below(f[0], r) for r in roots)
            else:
                n = sum(f[0] == r for r in roots)
            got = res.count(f)
            yield "%s is listed %d times (parents %s)" % (f, got, par), \
                got == n if self.how == "folder" or not self.rec else \
                (got >= 1) == (n >= 1)
        yield "listed something else: %s" % (res,), \
            all(f in prob for f in res)
        for k in range(self.dirs):
            for e in EXTS:
                q = [f[1] for f in res if f[0] == k and f[2] == e]
                yield "not in the natural order: %s" % q, \
                    len(roots) > 1 or q == sorted(q)


def M03(tier):
    T = tier == "thorough"
    hs = []
    for how in ("folder", "files", "list", "both"):
        for rec in (0, 1):
            if rec and how in ("files", "list"):
                continue
            for dirs, nf in ((1, 3), (2, 2), (3, 2), (4, 1)) + (
                    ((4, 2), (5, 1), (3, 3)) if T else ()):
                hs.append(Discovery("discovery/%s%s/%d+%d" % (
                    how, "/recursive" if rec else "", dirs, nf), how=how,
                    rec=rec, dirs=dirs, nfiles=nf, priority=dirs + nf,
                    functions=(SC + ".get_a_problem_file_list",
                               "verypy.util.natural_sort")))
    return hs


PROPS = {"M01": M01, "M02": M02, "M03": M03}
