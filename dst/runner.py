"""Batch driver: runs many simulated executions of one property, minimises and replays failures."""
import collections
import contextlib
import gc
import importlib
import json
import multiprocessing
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
FINDINGS = os.path.join(HERE, "known-findings.txt")
RUN_CPU_LIMIT = 40.0
WALL_CAP = {"quick": 420.0, "thorough": 780.0}

_real_time = time.monotonic


class Hang(BaseException):
    """One run used too much CPU time."""


class RunResult:
    __slots__ = ("violations", "digest", "shape", "faults", "probes", "sim_s", "steps", "events", "made", "nontrivial", "trace", "error")


def load_property(pid):
    return importlib.import_module("dst.props." + pid.lower())


def product_frame(tb):
    """Does an exception come out of the code under test (and not out of the harness)?"""
    last = None
    for fs in traceback.extract_tb(tb):
        fn = os.path.realpath(fs.filename)
        if os.path.basename(fn) == "sim.py" and fn.startswith(os.path.realpath(HERE) + os.sep):
            continue  # the simulated environment, called from either side
        if fn.startswith(os.path.realpath(HERE) + os.sep):
            last = "harness"
        elif os.sep + "pyzwave" + os.sep in fn and fn.startswith(os.path.realpath(REPO) + os.sep):
            last = "product"
    return last == "product"


def execute(prop, plan):
    """One simulated run; a pure function of plan and the code under test."""
    from . import sim as S

    res = RunResult()
    res.error = None
    simu = S.Sim(plan, max_steps=getattr(prop, "MAX_STEPS", 200000))
    simu.nontrivial = False

    def on_alarm(_sig, _frm):
        raise Hang()

    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, RUN_CPU_LIMIT)
    try:
        with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
            prop.run(simu, plan)
    except Hang:
        simu.fail("hang", "one simulated run did not end within %.0f s of CPU time" % RUN_CPU_LIMIT)
    except S.StepLimit as e:
        simu.fail("livelock", str(e))
    except S.HarnessError as e:
        res.error = "".join(traceback.format_exception(e))
    except Exception as e:  # pylint: disable=broad-except
        if product_frame(e.__traceback__):
            simu.fail("unexpected-exception", "".join(traceback.format_exception(e))[-1500:])
        elif isinstance(e, (OSError, MemoryError)):
            res.error = "".join(traceback.format_exception(e))
        else:
            # The code under test returned or did something no oracle has a notion of (never seen on the original tree)
            last = traceback.extract_tb(e.__traceback__)[-1]
            simu.fail("unjudgeable", "%s: %s in %s, line %d" % (type(e).__name__, e, os.path.basename(last.filename), last.lineno))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    res.violations = simu.violations
    res.digest = simu.digest.hexdigest()
    res.shape = simu.shape.hexdigest()
    res.faults = dict(simu.fault_count)
    res.probes = dict(simu.probe)
    res.sim_s = simu.now - S.START
    res.steps = simu.steps
    res.events = simu.events
    res.made = simu.chooser.made
    res.nontrivial = simu.nontrivial
    res.trace = simu.trace
    return res


def make_plan(prop, seed, index, tier):
    from .sim import Rng

    rng = Rng("plan", prop.ID, seed, index)
    plan = prop.gen(rng, index, tier)
    if index % 4 == 2 and isinstance(plan.get("cfg"), dict):
        # frames of others, as far as no property depends on it: not secure, more information, both
        plan["cfg"]["f1"] = Rng("f1", prop.ID, seed, index).choice([[0x40], [0x60], [0x50, 0x70], [0x40, 0x50, 0x60, 0x70]])
    plan = {"prop": prop.ID, "seed": Rng("run", prop.ID, seed, index).u64(), "choices": None, "index": index, **plan}
    return json.loads(json.dumps(plan))  # exactly what a replay file holds


# --- known findings -------------------------------------------------------------------------
def known_findings(pid):
    """(regex on 'kind: detail', text) of the findings recorded for a property."""
    out = []
    try:
        with open(FINDINGS) as fd:
            for line in fd:
                m = re.match(r"finding:\s+property=(\S+)\s+match=/(.*)/\s+(.*)$", line.strip())
                if m and m.group(1) == pid:
                    out.append((re.compile(m.group(2)), m.group(3)))
    except FileNotFoundError:
        pass
    return out


def split_known(pid, violations, known):
    fresh, hits = [], []
    for v in violations:
        text = "%s: %s" % (v["kind"], v["detail"])
        for rx, what in known:
            if rx.search(text):
                hits.append(what)
                break
        else:
            fresh.append(v)
    return fresh, hits


# --- minimisation ---------------------------------------------------------------------------
def minimise(prop, plan, kind, budget=40.0):
    deadline = _real_time() + budget
    tries = [0]

    def fails(p):
        if _real_time() > deadline:
            return False
        tries[0] += 1
        r = execute(prop, p)
        return r.error is None and any(v["kind"] == kind for v in r.violations)

    first = execute(prop, plan)
    cand = dict(plan, choices=dict(first.made))
    if not fails(cand):
        return plan, tries[0]
    best = cand

    def ddmin(items, build):
        n = 2
        while len(items) >= 1 and _real_time() < deadline:
            size = max(1, len(items) // n)
            removed = False
            i = 0
            while i < len(items):
                trial = items[:i] + items[i + size:]
                if fails(build(trial)):
                    items = trial
                    removed = True
                else:
                    i += size
            if size == 1 and not removed:
                break
            n = 2 if removed else min(len(items), n * 2) or 1
            if not removed and size == 1:
                break
        return items

    ops = ddmin(list(best.get("ops", [])), lambda o: dict(best, ops=o))
    best = dict(best, ops=ops)
    keys = ddmin(sorted(best["choices"]), lambda ks: dict(best, choices={k: best["choices"][k] for k in ks}))
    best = dict(best, choices={k: best["choices"][k] for k in keys})
    for key in getattr(prop, "SHRINK", ()):
        for val in (0, None, [], {}):
            if key in best["cfg"] and best["cfg"][key] != val:
                trial = dict(best, cfg=dict(best["cfg"], **{key: val}))
                try:
                    ok = fails(trial)
                except Exception:  # pylint: disable=broad-except
                    ok = False
                if ok:
                    best = trial
                    break
    return best, tries[0]


# --- workers --------------------------------------------------------------------------------
_state = {}


def quiet_process():
    import logging

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    sys.unraisablehook = lambda *_: None
    gc.disable()


def work(job):
    lo, hi = job
    prop, seed, tier = _state["prop"], _state["seed"], _state["tier"]
    out = []
    for i in range(lo, hi):
        plan = make_plan(prop, seed, i, tier)
        r = execute(prop, plan)
        out.append((i, r.violations, r.digest, r.shape, r.faults, r.probes, r.sim_s, r.steps, r.events, r.nontrivial, r.error))
        if i % 16 == 0:
            gc.collect()
    gc.collect()
    return out


def workers():
    n = int(os.environ.get("VERIF_JOBS", "0"))
    return n or min(8, os.cpu_count() or 1)


def batch(prop, seed, tier, runs, on_result, cap):
    """Run indices 0..runs-1, results in order. on_result returns True to stop."""
    chunk = max(1, min(getattr(prop, "CHUNK", 16), runs // (workers() * 4) or 1))
    _state.update(prop=prop, seed=seed, tier=tier)
    jobs = [(i, min(i + chunk, runs)) for i in range(0, runs, chunk)]
    t0 = _real_time()
    n = workers()
    if n == 1:
        for j in jobs:
            if any([on_result(r) for r in work(j)]) or _real_time() - t0 > cap:
                return
        return
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(n)
    try:
        for res in pool.imap(work, jobs):
            if any([on_result(r) for r in res]) or _real_time() - t0 > cap:
                return
    finally:
        pool.terminate()
        pool.join()


def preload():
    """Import the code under test once, before workers are forked."""
    import pyzwave.application
    import pyzwave.mailbox
    import pyzwave.persistantstorage
    import pyzwave.zipgateway

    where = os.path.realpath(pyzwave.application.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("imported %s, not the code in %s" % (where, REPO))


def describe(plan, limit=1500):
    text = json.dumps({k: plan[k] for k in ("seed", "cfg", "ops", "choices") if k in plan}, sort_keys=True)
    return text if len(text) <= limit else text[:limit] + "..."


def main(argv):
    """Everything the simulated disks hold lives in one scratch directory, removed at the end."""
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    with tempfile.TemporaryDirectory(prefix="dst-", dir=base) as scratch:
        os.environ["DST_SCRATCH"] = scratch
        return check(argv)


def check(argv):
    pid = argv[0]
    args = argv[1:]
    sys.path.insert(0, REPO)
    quiet_process()
    preload()
    prop = load_property(pid)
    if "--replay" in args:
        return replay(prop, args[args.index("--replay") + 1], "--trace" in args)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    runs = prop.RUNS[tier]
    if "--runs" in args:
        runs = int(args[args.index("--runs") + 1])
    t0 = _real_time()
    agg = {
        "n": 0, "faults": collections.Counter(), "fault_runs": collections.Counter(), "probes": collections.Counter(),
        "sim": 0.0, "steps": 0, "events": 0, "shapes": set(), "nontrivial": set(), "bad": None, "err": None, "digests": [], "known": collections.Counter(),
    }
    known = known_findings(pid)

    def on_result(r):
        i, violations, digest, shape, faults, probes, sim_s, steps, events, nontrivial, error = r
        if agg["bad"] is not None or agg["err"] is not None:
            return True
        agg["n"] += 1
        agg["faults"].update(faults)
        agg["fault_runs"].update(faults.keys())
        agg["probes"].update(probes)
        agg["sim"] += sim_s
        agg["steps"] += steps
        agg["events"] += events
        agg["shapes"].add(shape)
        if nontrivial:
            agg["nontrivial"].add(shape)
        agg["digests"].append(digest)
        if error:
            agg["err"] = (i, error)
            return True
        fresh, hits = split_known(pid, violations, known)
        agg["known"].update(hits)
        if fresh:
            agg["bad"] = (i, fresh)
            return True
        return False

    batch(prop, seed, tier, runs, on_result, WALL_CAP[tier])
    if "--digests" in args:
        for d in agg["digests"]:
            print(d)
    if agg["err"]:
        i, error = agg["err"]
        sys.stderr.write("HARNESS ERROR in %s run %d (seed %d)\n%s\n" % (pid, i, seed, error))
        return 2
    wall = _real_time() - t0
    rc = 0
    violations = 0
    replay_path = None
    if agg["bad"]:
        rc = 1
        violations = 1
        i, fresh = agg["bad"]
        replay_path = report(prop, seed, tier, i, fresh)
    for what, n in sorted(agg["known"].items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    samples = []
    for i in (0, 1, 2):
        if i < agg["n"]:
            plan = make_plan(prop, seed, i, tier)
            samples.append({"run": i, "plan": describe(plan), "digest": agg["digests"][i]})
    cov = {
        "evaluations": agg["n"],
        "distinct_nontrivial": len(agg["nontrivial"]),
        "rule": prop.RULE + " Distinct: by a digest over the ordered event log (event kind and endpoint, without times and payload).",
        "samples": samples,
        "distinct_interleavings": len(agg["shapes"]),
        "simulated_seconds": round(agg["sim"], 1),
        "scheduler_steps": agg["steps"],
        "logged_events": agg["events"],
        "runs_per_hour": int(agg["n"] / wall * 3600) if wall > 0 else 0,
        "seeds_per_hour": int(agg["n"] / wall * 3600) if wall > 0 else 0,
        "faults_injected": dict(sorted(agg["faults"].items())),
        "runs_with_fault": dict(sorted(agg["fault_runs"].items())),
        "probes": dict(sorted(agg["probes"].items())),
        "workers": workers(),
        "real_components": prop.REAL,
        "stub_components": prop.STUB,
        "planned_runs": runs,
    }
    if replay_path:
        cov["replay"] = replay_path
    os.makedirs(EVIDENCE, exist_ok=True)
    data = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": list(getattr(prop, "ASSUMPTIONS", [])) + [
            "seeded sampling of schedules and faults, not exhaustive: a clean batch is evidence, not proof",
            "one process, one event loop thread; the simulated peers follow the Z/IP framing in dst/zwire.py",
        ],
        "wall_s": round(_real_time() - t0, 2), "violations": violations,
    }
    tmp = os.path.join(EVIDENCE, ".%s.%d.tmp" % (pid, os.getpid()))
    with open(tmp, "w") as fd:
        json.dump(data, fd, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, pid + ".json"))
    print("%s %s seed=%d: %d runs, %d distinct non-trivial, %.0f simulated s, %.1f s wall -> %s" % (
        pid, tier, seed, agg["n"], len(agg["nontrivial"]), agg["sim"], _real_time() - t0, "VIOLATION" if rc else "ok"))
    return rc


def report(prop, seed, tier, index, fresh):
    """Minimise a failure, write and verify its replay file, print the VIOLATION line."""
    pid = prop.ID
    plan = make_plan(prop, seed, index, tier)
    kind = fresh[0]["kind"]
    small, tries = minimise(prop, plan, kind)
    folder = os.path.join(EVIDENCE, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, "%s-%d-%d.json" % (pid, seed, index))
    exact = False
    for p in (small, plan):
        r = execute(prop, p)
        vs = [v for v in r.violations if v["kind"] == kind]
        if not vs:
            continue
        p = dict(p, violation=vs[0], digest=r.digest, verif_seed=seed, tier=tier)
        with open(path, "w") as fd:
            json.dump(p, fd, indent=1)
        env = dict(os.environ, VERIF_EVIDENCE=EVIDENCE)
        got = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), pid, "--replay", path], env=env, capture_output=True, text=True)
        if got.returncode == 1 and "exact" in got.stdout:
            exact = True
            break
    print("violated: %s: %s" % (kind, fresh[0]["detail"]))
    print("found in run %d of seed %d; minimised in %d executions to %d ops and %d explicit choices; replay %s" % (
        index, seed, tries, len(small.get("ops", [])), len(small.get("choices") or {}), "reproduces exactly" if exact else "NOT EXACT"))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return path


def replay(prop, path, trace):
    with open(path) as fd:
        plan = json.load(fd)
    want, digest = plan.get("violation"), plan.get("digest")
    if trace:
        plan["trace"] = True
    r = execute(prop, plan)
    if trace:
        for line in r.trace:
            print(line)
    if r.error:
        sys.stderr.write(r.error)
        return 2
    for v in r.violations:
        print("violated at %.4f s: %s: %s" % (v["t"], v["kind"], v["detail"]))
    if not r.violations:
        print("replay: the property held")
        return 0
    same = want and any(v["kind"] == want["kind"] for v in r.violations) and r.digest == digest
    print("replay: %s" % ("exact reproduction" if same else "violated, with a different history than recorded"))
    print("VIOLATION property=%s replay=%s" % (prop.ID, path))
    return 1
