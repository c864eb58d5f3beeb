"""Runs the harnesses of one property on all cores and writes the evidence."""
import argparse
import faulthandler
import importlib
import io
import json
from fractions import Fraction
import logging
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Out(object):
    """what one task reports back"""

    def __init__(self):
        self.paths = self.branches = self.maxdepth = 0
        self.obligations = self.trivial = 0
        self.unsupported = self.aborted = self.incomplete = 0
        self.nq = 0
        self.tsolve = 0.0
        self.notes = {}
        self.violations = []
        self.suspects = []
        self.samples = []
        self.stop = False
        self.exc_paths = 0

    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    def violation(self, h, label, model, S):
        from . import core
        self.violations.append((label, core.assignment(model)))
        if len(self.violations) >= 4:
            self.stop = True

    def suspect(self, h, model, kind, S):
        from . import core
        if len(self.suspects) < 3:
            self.suspects.append((kind, core.assignment(model)))

    def sample(self, h, model, result, exc, S):
        from . import core
        k = self.paths
        if len(self.samples) < 3 and (k & (k - 1)) == 0:
            self.samples.append((core.assignment(model), short(result, 3000),
                                 short(exc) if exc is not None else None))


def short(x, n=300):
    try:
        s = repr(plain(x))
    except Exception:
        s = "<unprintable>"
    return s if len(s) <= n else s[:n] + "..."


def plain(x):
    """result with proxies replaced by their concrete values in the model"""
    from . import core
    if type(x) is core.Sym:
        return round(float(core.value_of(x)), 6)
    if isinstance(x, core.Quot):
        return round(float(Fraction(core.value_of(x.n)) /
                           Fraction(core.value_of(x.d))), 6)
    if hasattr(x, 'verif_value'):
        return round(x.verif_value(), 6)
    if isinstance(x, (list, tuple)):
        return type(x)(plain(v) for v in x) if type(x) in (list, tuple) else \
            [plain(v) for v in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return sorted(plain(v) for v in x)
    if hasattr(x, 'route') and hasattr(x, 'cost'):
        return ('RouteData', plain(x.route), plain(x.cost), plain(x.demand))
    if hasattr(x, 'tolist'):
        return plain(x.tolist())
    if isinstance(x, BaseException):
        return "%s: %s" % (type(x).__name__, short(x.args))
    if isinstance(x, float):
        return round(x, 6)
    return x


# -------------------------------------------------------------- worker side --
_H = None
_EXPL = {}


def _load(prop, tier):
    global _H
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    m = importlib.import_module("harness.registry")
    _H = m.harnesses(prop, tier)
    return _H


def _task(args):
    hid, items, budget, deadline = args
    from . import core
    out = Out()
    t0 = time.time()
    try:
        h = _H[hid]
        ex = _EXPL.get(hid)
        if ex is None or core.STATE.__dict__.get('owner') != hid:
            # one explorer alive at a time per process (variable numbering)
            _EXPL.clear()
            ex = core.Explorer(h)
            core.STATE.owner = hid
            _EXPL[hid] = ex
        n0, s0 = ex.nq, ex.tsolve
        if items is None:
            items = [ex.root()]
        left = ex.explore(items, budget, deadline, out)
        out.nq = ex.nq - n0
        out.tsolve = ex.tsolve - s0
        out.samples = [s for s in out.samples]
        return hid, out.__dict__, left, None, time.time() - t0
    except BaseException as e:
        return hid, out.__dict__, [], "".join(
            traceback.format_exception(type(e), e, e.__traceback__))[-2000:], \
            time.time() - t0


def _alarm_abort(*a):
    from . import core
    raise core.PathAbort("wall time of a path")


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGALRM, _alarm_abort)
    logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    sys.stderr = devnull


# -------------------------------------------------------------- replay -------

def run_concrete(h, values):
    """run the harness on concrete numbers; returns (violated labels, text)"""
    from . import core
    ctx = core.ConcreteCtx(values)
    inp = h.build(ctx)
    exc = res = None
    try:
        res = h.run(inp)
    except (Exception, KeyboardInterrupt) as e:
        exc = e
    bad = []
    if isinstance(exc, core.NotApplicable):
        return [], "not applicable"
    try:
        for label, f in h.props(inp, res, exc):
            if f is not True and not bool(f):
                bad.append(label)
                break
    except Exception as e:
        bad.append("malformed result: %r" % (e,))
    if ctx.bad:
        return None, "assumptions do not hold"
    return bad, short(res, 2000) + ((" exc=" + "".join(
        traceback.format_exception(type(exc), exc, exc.__traceback__))[-1500:])
        if exc is not None else "")


def replay_file(path):
    """entry point of the clean replay process: unpatched code, real numbers"""
    with open(path) as f:
        rec = json.load(f)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    os.environ["VERIF_CLEAN"] = "1"
    reg = importlib.import_module("harness.registry")
    hs = [h for h in reg.harnesses(rec["property"], rec["tier"])
          if h.name == rec["harness"]]
    if not hs:
        print("unknown harness", rec["harness"])
        return 3
    h = hs[0]
    logging.disable(logging.CRITICAL)

    def _alarm(*a):
        raise TimeoutError("did not terminate within %ds" % h.replay_seconds)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(h.replay_seconds)
    try:
        bad, text = run_concrete(h, rec["values"])
    except TimeoutError as e:
        bad, text = [str(e)], str(e)
    signal.alarm(0)
    if bad is None:
        print("REPLAY not applicable:", text)
        return 3
    if bad:
        print("REPLAY violated:", bad[0])
        print("observed:", text)
        return 1
    print("REPLAY ok:", text)
    return 0


def clean_replay(prop, tier, h, values, kind):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    import hashlib
    blob = json.dumps([h.name, values], sort_keys=True)
    p = os.path.join(d, "%s-%s.json" % (
        prop, hashlib.sha1(blob.encode()).hexdigest()[:12]))
    with open(p, "w") as f:
        json.dump({"property": prop, "tier": tier, "harness": h.name,
                   "kind": kind, "values": values}, f, indent=1)
    try:
        r = subprocess.run([sys.executable, "-W", "ignore", "check.py",
                            "--replay", p], cwd=VERIF,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           timeout=h.replay_seconds + 60, text=True)
        return r.returncode, p, r.stdout
    except subprocess.TimeoutExpired:
        return 1, p, "REPLAY violated: does not terminate"


# -------------------------------------------------------------- main ---------

def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-j", type=int, default=0)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--all-violations", action="store_true")
    a = ap.parse_args(argv)
    sys.path.insert(0, VERIF)
    if a.replay:
        return replay_file(a.replay)
    t0 = time.time()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    logging.disable(logging.CRITICAL)
    real_err = sys.stderr
    sys.stderr = io.StringIO()
    try:
        hs = _load(prop, tier)
    finally:
        sys.stderr = real_err
    if a.only:
        keep = [i for i, h in enumerate(hs) if a.only in h.name]
    else:
        keep = list(range(len(hs)))
    from harness import registry
    budget = a.budget or registry.time_budget(prop, tier)
    deadline = t0 + budget
    nproc = a.j or int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count()
    tot = {i: Out() for i in keep}
    wall = {i: 0.0 for i in keep}
    errors = {}
    violations = []
    suspects = []
    pending = {i: 0 for i in keep}
    leftovers = {i: [] for i in keep}
    ctx = mp.get_context("fork")
    pool = ctx.Pool(nproc, _init_worker)
    inflight = 0
    results = []
    queue = []           # (priority, seq, hid, items)
    seq = 0
    import heapq
    import queue as q
    done_q = q.Queue()
    for i in keep:
        heapq.heappush(queue, (hs[i].priority, seq, i, None))
        seq += 1
    stop = False
    kf = known_findings(prop)
    last_print = t0

    def submit():
        nonlocal inflight
        while queue and inflight < nproc + 2 and not stop:
            if time.time() > deadline:
                break
            pr, _, hid, items = heapq.heappop(queue)
            nb = 40 if items is None else 400
            pool.apply_async(_task, ((hid, items, nb, min(
                deadline, time.time() + 10)),), callback=done_q.put)
            inflight += 1

    while True:
        submit()
        if inflight == 0:
            break
        try:
            hid, od, left, err, w = done_q.get(timeout=max(
                30.0, deadline + 60 - time.time()))
        except q.Empty:
            errors["pool"] = "a worker did not answer"
            break
        inflight -= 1
        o = tot[hid]
        wall[hid] += w
        for k in ("paths", "branches", "obligations", "trivial", "unsupported",
                  "aborted", "incomplete", "nq", "tsolve"):
            setattr(o, k, getattr(o, k) + od[k])
        o.maxdepth = max(o.maxdepth, od["maxdepth"])
        for k, v in od["notes"].items():
            o.notes[k] = o.notes.get(k, 0) + v
        if len(o.samples) < 4:
            o.samples.extend(od["samples"])
        if err:
            errors[hs[hid].name] = err
        for label, vals in od["violations"]:
            violations.append((hid, label, vals))
        for kind, vals in od["suspects"]:
            suspects.append((hid, kind, vals))
        if left:
            # split: one chunk per idle worker
            k = min(len(left), max(1, nproc - inflight + 1))
            k = max(1, k)
            for c in range(k):
                part = left[c::k]
                if part:
                    heapq.heappush(queue, (hs[hid].priority + 1, seq, hid, part))
                    seq += 1
        if a.v and time.time() - last_print > 5:
            last_print = time.time()
            print("  .. %.0fs paths=%d queue=%d" % (
                time.time() - t0, sum(t.paths for t in tot.values()),
                len(queue)), file=real_err)
        # a violation candidate: confirm at once so that the run can stop
        while violations and not stop:
            hid2, label, vals = violations.pop(0)
            handle = confirm(prop, tier, hs[hid2], label, vals, kf, tot[hid2],
                             results)
            if handle and not a.all_violations:
                stop = True
                break
    for pr, _, hid, items in queue:
        leftovers[hid].append(items)
    pool.terminate()
    pool.join()
    # paths the encoding could not follow: decide them on the real code
    if not stop:
        seen = {}
        for hid, kind, vals in suspects:
            if seen.get((hid, kind), 0) >= 2:
                continue
            seen[(hid, kind)] = seen.get((hid, kind), 0) + 1
            if time.time() > deadline + 120:
                break
            if confirm(prop, tier, hs[hid], kind, vals, kf, tot[hid], results,
                       quiet_ok=True):
                break
    bad = [r for r in results if r["status"] == "violation"]
    known = {}
    for r in results:
        if r["status"] == "known":
            known.setdefault(r["known"], r)
    # validation of the encoding: sampled paths re-run on concrete numbers
    validated, mismatches = validate(hs, keep, tot, t0 + budget + 60)
    write_evidence(prop, tier, seed, hs, keep, tot, wall, leftovers, errors,
                   results, known, bad, validated, mismatches, t0, budget, a)
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for r in bad:
        print("VIOLATION property=%s replay=%s" % (prop, r["replay"]))
        print("  harness: %s" % r["harness"])
        print("  what: %s" % r["label"])
        print("  values: %s" % json.dumps(r["values"]))
        print("  " + r["text"].replace("\n", "\n  ")[:1500])
    tp = sum(t.paths for t in tot.values())
    comp = [i for i in keep if complete(tot[i], leftovers[i], hs[i], errors)]
    print("%s %s: %d harnesses (%d exhaustive), %d paths, %d branches, %d "
          "queries (%.1fs solver), %d obligations, %d validated, %.1fs" % (
              prop, tier, len(keep), len(comp), tp,
              sum(t.branches for t in tot.values()),
              sum(t.nq for t in tot.values()),
              sum(t.tsolve for t in tot.values()),
              sum(t.obligations for t in tot.values()), validated,
              time.time() - t0))
    if a.v:
        for i in keep:
            t = tot[i]
            print("   %-50s paths=%d depth=%d obl=%d nq=%d wall=%.1f %s %s" % (
                hs[i].name, t.paths, t.maxdepth, t.obligations, t.nq, wall[i],
                "exhaustive" if i in comp else "PARTIAL", t.notes or ""))
        for k, v in errors.items():
            print("ERROR", k, v)
        for m in mismatches:
            print("MISMATCH", m)
        for r in results:
            if r["status"] == "unconfirmed":
                print("UNCONFIRMED", r["harness"], r["label"], r["values"], r["text"][:600])
    sys.stdout.flush()
    if bad:
        return 1
    if tp == 0:
        print("no path could be explored: %s" % errors)
        return 2
    return 0


def complete(o, left, h, errors):
    return not left and not o.unsupported and not o.aborted and \
        not o.incomplete and h.name not in errors and o.paths > 0


def confirm(prop, tier, h, label, vals, kf, o, results, quiet_ok=False):
    rc, path, text = clean_replay(prop, tier, h, vals, label)
    if rc == 1:
        what = [l for l in text.splitlines() if l.startswith("REPLAY violated")]
        what = what[0][len("REPLAY violated: "):] if what else label
        for k in kf:
            if k["status"] != "known":
                continue
            m = k["match"]
            if h.name.startswith(m.get("harness", "")) and \
                    m.get("what", "") in what:
                results.append({"status": "known", "known": k["what"],
                                "harness": h.name, "label": what,
                                "values": vals, "text": text, "replay": path})
                return False
        results.append({"status": "violation", "harness": h.name,
                        "label": what, "values": vals, "text": text,
                        "replay": os.path.relpath(path, VERIF)})
        return True
    try:
        os.unlink(path)
    except OSError:
        pass
    if not quiet_ok:
        o.incomplete += 1
        o.note("counterexample did not reproduce: " + label)
        results.append({"status": "unconfirmed", "harness": h.name,
                        "label": label, "values": vals, "text": text})
    return False


def validate(hs, keep, tot, deadline):
    """re-run sampled paths with plain floats, compare with the symbolic run"""
    n = 0
    mism = []
    r_err, r_out = sys.stderr, sys.stdout
    sys.stderr = io.StringIO()
    sys.stdout = io.StringIO()
    try:
        for i in keep:
            h = hs[i]
            for vals, res, exc in tot[i].samples[:3]:
                if time.time() > deadline:
                    return n, mism
                from . import core
                try:
                    ctx = core.ConcreteCtx(vals)
                    inp = h.build(ctx)
                    e2 = r2 = None

                    def _al(*a):
                        raise TimeoutError()
                    signal.signal(signal.SIGALRM, _al)
                    signal.alarm(10)
                    try:
                        r2 = h.run(inp)
                    except (Exception, KeyboardInterrupt) as e:
                        e2 = e
                    finally:
                        signal.alarm(0)
                    a = short(r2, 3000)
                    if _numeq(a, res) and (e2 is None) == (exc is None):
                        n += 1
                    else:
                        mism.append((h.name, vals, res, a, short(e2)))
                except Exception as e:
                    mism.append((h.name, vals, res, repr(e)))
    finally:
        sys.stderr, sys.stdout = r_err, r_out
    return n, mism[:10]


def _numeq(a, b):
    import re
    if a == b:
        return True
    num = r"-?\d+(?:\.\d+)?(?:e[-+]?\d+)?"
    a = a.replace("np.float64(", "(")
    b = b.replace("np.float64(", "(")
    if re.sub(r"[()]", "", re.sub(num, "#", a)) != \
            re.sub(r"[()]", "", re.sub(num, "#", b)):
        return False
    for x, y in zip(re.findall(num, a), re.findall(num, b)):
        if abs(float(x) - float(y)) > 1e-4:
            return False
    return True


def write_evidence(prop, tier, seed, hs, keep, tot, wall, leftovers, errors,
                   results, known, bad, validated, mismatches, t0, budget, a):
    ev = {"property": prop, "tier": tier, "seed": seed,
          "level": "model_checking"}
    samples = []
    for i in keep:
        for vals, res, exc in tot[i].samples[:1]:
            if len(samples) < 8:
                samples.append({"harness": hs[i].name, "inputs": vals,
                                "result": res, "exception": exc})
    comp = [i for i in keep if complete(tot[i], leftovers[i], hs[i], errors)]
    harn = []
    for i in keep:
        t = tot[i]
        harn.append({
            "name": hs[i].name, "bounds": hs[i].bounds(),
            "functions": list(hs[i].functions),
            "paths": t.paths, "branches_decided": t.branches,
            "max_branches_on_a_path": t.maxdepth,
            "obligations": t.obligations, "queries": t.nq,
            "solver_s": round(t.tsolve, 2), "cpu_s": round(wall[i], 2),
            "exhaustive_within_bounds": i in comp,
            "unexplored_work_items": sum(
                len(x) if x else 1 for x in leftovers[i]),
            "reached_assertion": t.obligations > 0,
            "notes": t.notes})
    funcs = sorted(set(f for i in keep for f in hs[i].functions))
    ev["coverage"] = {
        "states": sum(t.branches for t in tot.values()),
        "transitions": sum(t.paths for t in tot.values()),
        "traces_validated_against_impl": validated,
        "samples": samples,
        "explanation": "states = branch points of the symbolic path trees "
        "(the SMT solver decided whether the other side is feasible); "
        "transitions = complete feasible paths of the real code, each with the "
        "property discharged by the solver for all inputs on the path; traces "
        "validated = sampled paths re-run on plain floats with the same result",
        "functions_encoded": funcs,
        "solver_queries": sum(t.nq for t in tot.values()),
        "solver_s": round(sum(t.tsolve for t in tot.values()), 2),
        "obligations": sum(t.obligations for t in tot.values()),
        "harnesses": harn,
        "harnesses_exhaustive": len(comp),
        "harnesses_total": len(keep),
        "exhaustive": len(comp) == len(keep),
        "time_budget_s": budget,
        "validation_mismatches": [list(map(str, m)) for m in mismatches],
        "errors": errors,
        "unconfirmed_counterexamples": [r for r in results
                                        if r["status"] == "unconfirmed"][:5],
    }
    from harness import registry
    ev["assumptions"] = registry.assumptions(prop)
    ev["violations"] = len(bad)
    ev["known_findings"] = sorted(known)
    ev["wall_s"] = round(time.time() - t0, 2)
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
