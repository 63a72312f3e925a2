"""Seeded search over simulated runs, shrinking, replay files, evidence."""
import copy
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import time

from .kernel import Deadlock, NoProgress, TRACE_PREFIX

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable

# property -> world module
WORLDS = {
    "C01": "vectors", "C02": "procs", "C03": "vectors", "C04": "procs", "C05": "vectors", "C06": "threads",
    "C07": "rules", "C08": "rules", "C09": "persist", "C10": "rules", "C11": "differ", "C12": "rules",
    "C13": "trees",
}
# property -> (quick runs, thorough runs)
BUDGET = {
    "C01": (9600, 240000), "C02": (6400, 160000), "C03": (9600, 240000), "C04": (4800, 120000),
    "C05": (9600, 240000), "C06": (8000, 160000), "C07": (9600, 240000), "C08": (4000, 80000),
    "C09": (2400, 60000), "C10": (4000, 80000), "C11": (2400, 48000), "C12": (6400, 120000),
    "C13": (6400, 120000),
}
WALL = {"quick": 150.0, "thorough": 1500.0}
HANG_S = 60


def world_of(prop):
    return importlib.import_module("sim.worlds." + WORLDS[prop])


def rng_for(seed, prop, i):
    return random.Random(f"{seed}:{prop}:{i}")


class Violation(Exception):
    """Raised inside a run. sig names what kind of thing went wrong, stable under shrinking."""

    def __init__(self, sig, detail):
        super().__init__(f"{sig}: {detail}")
        self.sig, self.detail = sig, detail


class Stats:
    def __init__(self):
        self.d = {"runs": 0, "ops": 0, "checks": 0, "sim_s": 0.0, "steps": 0, "switches": 0, "events": {},
                  "faults_fired": {}, "faults_armed": {}, "op_kinds": {}, "crashes": 0, "cfg": {}}
        self.digests = set()
        self.shapes = set()

    def bump(self, table, key, n=1):
        t = self.d[table]
        t[key] = t.get(key, 0) + n

    def kernel(self, k):
        self.d["steps"] += k.steps
        self.d["switches"] += k.switches
        self.d["sim_s"] += k.t_spent
        for n, t in (("events", k.events), ("faults_fired", k.faults_fired), ("faults_armed", k.faults_armed)):
            for kk, v in t.items():
                self.bump(n, kk, v)


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v


WORLD_CODE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "worlds", "")
UNUSABLE = (TypeError, AttributeError, LookupError, ValueError, ArithmeticError)


# -- one run --------------------------------------------------------------------------------------------------------
def run_trace(trace, stats=None):
    """Returns None or a violation dict. Harness errors propagate."""
    w = world_of(trace["prop"])
    stats = stats or Stats()
    try:
        digest = w.run(trace, stats)
        v = None
    except Violation as e:
        v = {"sig": e.sig, "detail": e.detail}
        digest = None
    except (NoProgress, Deadlock) as e:
        v = {"sig": "no-progress", "detail": str(e)}
        digest = None
    except Exception as e:
        # an exception of the code under test in a place where the world does not expect one
        tb, inside, last = e.__traceback__, None, None
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(TRACE_PREFIX):
                inside = tb
            if tb.tb_frame.f_code.co_filename.startswith(WORLD_CODE):
                last = tb
            tb = tb.tb_next
        if inside is not None:
            v = {"sig": f"unexpected:{type(e).__name__}",
                 "detail": f"{type(e).__name__}: {e} escaped from {inside.tb_frame.f_code.co_name}"}
        elif last is not None and isinstance(e, UNUSABLE):
            # the code under test returned without an error something of a kind its caller can not use
            v = {"sig": f"unusable:{type(e).__name__}:{last.tb_frame.f_code.co_name}",
                 "detail": f"what the code returned could not be used in {last.tb_frame.f_code.co_name} "
                           f"(line {last.tb_lineno}): {type(e).__name__}: {e}"}
        else:
            raise
        digest = None
    stats.d["runs"] += 1
    if digest:
        stats.digests.add(digest)
    return v


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def worker_main(argv):
    prop, tier, seed, w, n, runs, wall = argv[0], argv[1], int(argv[2]), int(argv[3]), int(argv[4]), int(argv[5]), \
        float(argv[6])
    from . import host
    host.setup()
    world = world_of(prop)
    stats = Stats()
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    out = sys.stdout
    i = w
    nviol = 0
    samples = []
    while i < runs and time.time() - t0 < wall:
        trace = world.gen(rng_for(seed, prop, i), prop, tier)
        trace["prop"], trace["seed"], trace["index"] = prop, seed, i
        if len(samples) < 2:
            samples.append(world.describe(trace))
        signal.setitimer(signal.ITIMER_REAL, HANG_S)
        try:
            v = run_trace(trace, stats)
        except Hang:
            v = {"sig": "hang", "detail": f"no result within {HANG_S} s of wall time", "hang": True}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if v is not None:
            out.write(json.dumps({"t": "viol", "trace": trace, "v": v}) + "\n")
            out.flush()
            nviol += 1
            if v.get("hang"):
                break
            if nviol >= 5:
                break
        i += n
    d = stats.d
    d["wall"] = time.time() - t0
    out.write(json.dumps({"t": "done", "w": w, "stats": d, "next": i, "digests": sorted(stats.digests),
                          "shapes": sorted(stats.shapes), "samples": samples}) + "\n")
    out.flush()
    os._exit(0)


# -- shrinking ------------------------------------------------------------------------------------------------------
def _try(trace, sig):
    signal.setitimer(signal.ITIMER_REAL, 20)
    try:
        v = run_trace(trace)
    except Hang:
        return None
    except Exception:
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return v if v is not None and v["sig"] == sig else None


def shrink(trace, v, limit=45.0):
    signal.signal(signal.SIGALRM, _alarm)
    w = world_of(trace["prop"])
    t0 = time.time()
    sig = v["sig"]
    best, bv = trace, v
    tried = 0

    def attempt(cand):
        nonlocal best, bv, tried
        tried += 1
        r = _try(copy.deepcopy(cand), sig)
        if r is not None:
            best, bv = cand, r
            return True
        return False

    progress = True
    while progress and time.time() - t0 < limit:
        progress = False
        for key in ("ops", "sched"):
            size = max(1, len(best.get(key, ())) // 2)
            while size >= 1 and time.time() - t0 < limit:
                i = 0
                while i < len(best.get(key, ())) and time.time() - t0 < limit:
                    cand = copy.deepcopy(best)
                    del cand[key][i:i + size]
                    if attempt(cand):
                        progress = True
                    else:
                        i += size
                size //= 2
        for cand in w.simplify(best):
            if time.time() - t0 > limit:
                break
            if attempt(cand):
                progress = True
                break
    return best, bv, tried


def digests_main(argv):
    """digests PROP SEED N STRIDE: the digest (or violation) of runs 0..N-1, executed in the order of STRIDE."""
    prop, seed, n, stride = argv[0], int(argv[1]), int(argv[2]), int(argv[3])
    from . import host
    host.setup()
    world = world_of(prop)
    signal.signal(signal.SIGALRM, _alarm)
    out = {}
    for i in [j for r in range(stride) for j in range(r, n, stride)]:
        trace = world.gen(rng_for(seed, prop, i), prop, "quick")
        trace["prop"], trace["seed"], trace["index"] = prop, seed, i
        st = Stats()
        signal.setitimer(signal.ITIMER_REAL, HANG_S)
        try:
            v = run_trace(trace, st)
        except Hang:
            v = {"sig": "hang"}
        signal.setitimer(signal.ITIMER_REAL, 0)
        out[i] = [v["sig"] if v else None, sorted(st.digests), st.d["steps"], st.d["checks"]]
    sys.stdout.write("\n@@" + json.dumps(out) + "\n")
    sys.stdout.flush()
    os._exit(0)


def selftest(props, n, seed, strict):
    """Determinism: the same seeds in fresh interpreters, in another order and under other hash seeds."""
    from concurrent.futures import ThreadPoolExecutor
    jobs = [(p, hs, stride) for p in props for hs, stride in ((0, 1), (0, 3), (77, 1))]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: _sub("digests", {}, j[1], 1200, (j[0], str(seed), str(n), str(j[2]))), jobs))
    bad = 0
    for p in props:
        rs = [r for j, r in zip(jobs, res) if j[0] == p]
        # C11 compares executions under different hash seeds itself, its digest is taken from one of them
        diff = [i for i in rs[0] if any(r[i] != rs[0][i] for r in rs[1:])]
        bad += len(diff)
        print(f"{p}: {len(rs[0])} seeds, each executed {len(rs)} times in fresh interpreters: "
              f"{'identical' if not diff else 'DIFFERENT for ' + str(diff[:8])}", flush=True)
    return 1 if bad and strict else 0


def shrink_main(argv):
    from . import host
    host.setup()
    rec = json.loads(sys.stdin.read())
    best, bv, tried = shrink(rec["trace"], rec["v"])
    sys.stdout.write("\n@@" + json.dumps({"trace": best, "v": bv, "tried": tried}) + "\n")
    sys.stdout.flush()
    os._exit(0)


def replay_main(argv):
    from . import host
    host.setup()
    rec = json.loads(sys.stdin.read())
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, float(argv[0]) if argv else 120)
    st = Stats()
    try:
        v = run_trace(rec["trace"], st)
    except Hang:
        v = {"sig": "hang", "detail": "no result", "hang": True}
    signal.setitimer(signal.ITIMER_REAL, 0)
    sys.stdout.write("\n@@" + json.dumps({"v": v, "digests": sorted(st.digests), "steps": st.d["steps"]}) + "\n")
    sys.stdout.flush()
    os._exit(0)


def exec_main(argv):
    """The same traces executed by another interpreter: one JSON trace per line in, one line of outputs out."""
    from . import host
    host.setup()
    world = importlib.import_module("sim.worlds." + argv[0])
    for line in sys.stdin:
        trace = json.loads(line)
        try:
            r = {"out": world.serve(trace)}
        except Exception as e:
            import traceback
            r = {"harness": f"{e}\n{traceback.format_exc()[-1500:]}"}
        sys.stdout.write("\n@@" + json.dumps(r) + "\n")
        sys.stdout.flush()
    os._exit(0)


def _sub(mode, rec, hashseed, timeout, args=()):
    env = child_env(hashseed)
    p = subprocess.run([PY, "-m", "sim.engine", mode, *args], input=json.dumps(rec), capture_output=True, text=True,
                       cwd=HERE, env=env, timeout=timeout)
    for line in reversed(p.stdout.splitlines()):
        if line.startswith("@@"):
            return json.loads(line[2:])
    raise RuntimeError(f"{mode} failed: {p.stderr[-2000:]}")


def child_env(hashseed):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(hashseed)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    for n in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        env[n] = "1"
    env["PYTHONPATH"] = HERE
    return env


# -- known findings -------------------------------------------------------------------------------------------------
def known_findings(prop):
    path = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and line.startswith("{"):
                r = json.loads(line)
                if r.get("status") == "known" and r["property"] == prop:
                    out.append(r)
    return out


# -- the check ------------------------------------------------------------------------------------------------------
def check(prop, tier, seed, workers=None, runs=None, wall=None, quiet=False):
    t0 = time.time()
    workers = workers or min(8, os.cpu_count() or 1)
    runs = runs or BUDGET[prop][0 if tier == "quick" else 1]
    wall = wall or WALL[tier]
    procs = []
    for w in range(workers):
        hs = w  # the hash seed is a controlled source of nondeterminism: worker w always uses seed w
        procs.append((hs, subprocess.Popen(
            [PY, "-m", "sim.engine", "worker", prop, tier, str(seed), str(w), str(workers), str(runs), str(wall)],
            cwd=HERE, env=child_env(hs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    import threading
    results, viols, errors = [], [], []
    lock = threading.Lock()

    def reader(hs, p):
        done = False
        for line in p.stdout:
            try:
                r = json.loads(line)
            except ValueError:
                continue
            with lock:
                if r["t"] == "viol":
                    r["hashseed"] = hs
                    viols.append(r)
                elif r["t"] == "done":
                    results.append(r)
                    done = True
        err = p.stderr.read()
        p.wait()
        if not done:
            errors.append(f"worker exit {p.returncode}: {err[-1500:]}")

    ths = [threading.Thread(target=reader, args=x, daemon=True) for x in procs]
    for t in ths:
        t.start()
    deadline = t0 + wall + HANG_S + 90
    stop_at = None
    known = known_findings(prop)
    while any(t.is_alive() for t in ths):
        time.sleep(0.05)
        now = time.time()
        with lock:
            fresh = [v for v in viols if not match_known(known, v)]
        if fresh and stop_at is None:
            stop_at = now + 4.0
        if (stop_at and now > stop_at) or now > deadline:
            for _, p in procs:
                if p.poll() is None:
                    p.kill()
            break
    for t in ths:
        t.join(5)
    tot, digests, shapes, samples = {}, set(), set(), []
    for r in results:
        merge(tot, r["stats"])
        digests.update(r["digests"])
        shapes.update(r["shapes"])
        samples += r["samples"]
    wall_s = time.time() - t0
    fresh = [v for v in viols if not match_known(known, v)]
    found_known = {}
    for v in viols:
        k = match_known(known, v)
        if k:
            found_known[k["id"]] = k
    code = 0
    reports = []
    if fresh:
        fresh.sort(key=lambda v: (v["trace"]["index"]))
        by_sig = {}
        for v in fresh:
            by_sig.setdefault(v["v"]["sig"], v)
        from concurrent.futures import ThreadPoolExecutor
        todo = list(by_sig.items())[:3]
        with ThreadPoolExecutor(3) as ex:
            paths = list(ex.map(lambda x: report(prop, x[1]), todo))
        for (sig, v), path in zip(todo, paths):
            if path:
                reports.append((sig, path, v))
                print(f"VIOLATION property={prop} replay={path}", flush=True)
        if reports:
            code = 1
        else:
            code = 2
    if code == 0 and (errors or not results):
        for e in errors:
            sys.stderr.write(f"harness error: {e}\n")
        code = 2
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    write_evidence(prop, tier, seed, tot, digests, shapes, samples, wall_s, len(reports), reports, workers, runs)
    if not quiet:
        print(f"{prop} {tier}: {tot.get('runs', 0)} runs, {tot.get('checks', 0)} comparisons, "
              f"{sum(tot.get('faults_fired', {}).values())} faults, {len(digests)} distinct executions, "
              f"{wall_s:.1f} s, exit {code}")
    return code


def match_known(known, v):
    for k in known:
        if k["sig"] == v["v"]["sig"] and (k.get("match") or "") in v["v"]["detail"]:
            return k
    return None


def report(prop, v):
    """Shrink, confirm in a fresh process, write the replay file."""
    hs = v["hashseed"]
    rec = {"trace": v["trace"], "v": v["v"]}
    if v["v"].get("hang"):
        try:
            r = _sub("replay", rec, hs, 260, ("150",))
        except subprocess.TimeoutExpired:
            r = {"v": v["v"]}
        if not (r["v"] and r["v"]["sig"] == "hang"):
            sys.stderr.write("a run timed out once but not again; not reported\n")
            return None
        small, sv, tried = rec["trace"], v["v"], 0
    else:
        try:
            r = _sub("shrink", rec, hs, 150)
            small, sv, tried = r["trace"], r["v"], r["tried"]
        except Exception as e:
            sys.stderr.write(f"shrinking failed: {e}\n")
            small, sv, tried = rec["trace"], v["v"], 0
        ok = 0
        for _ in range(2):
            r = _sub("replay", {"trace": small}, hs, 150)
            ok += bool(r["v"] and r["v"]["sig"] == sv["sig"])
        if ok < 2:
            small, sv = rec["trace"], v["v"]
            r = _sub("replay", {"trace": small}, hs, 150)
            if not (r["v"] and r["v"]["sig"] == sv["sig"]):
                sys.stderr.write(f"not reproducible in a fresh process: {v['v']}\n")
                return None
    d = os.path.join(HERE, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "seed": v["trace"]["seed"], "index": v["trace"]["index"], "hashseed": hs,
            "violation": sv, "shrink_attempts": tried, "original_size": _size(v["trace"]), "size": _size(small),
            "trace": small}
    h = hashlib.sha1(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{h}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    sys.stderr.write(f"{prop}: {sv['sig']}: {sv['detail'][:600]}\n")
    return path


def _size(t):
    return {"ops": len(t.get("ops", ())), "preemptions": len(t.get("sched", ())),
            "faults": sum(1 for o in t.get("ops", ()) if o.get("fault"))}


def replay_file(path):
    rec = json.load(open(path))
    r = _sub("replay", {"trace": rec["trace"]}, rec["hashseed"], 300)
    v = r["v"]
    if v and v["sig"] == rec["violation"]["sig"]:
        print(f"reproduced: {v['sig']}: {v['detail']}")
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    print(f"not reproduced: got {v}, file says {rec['violation']['sig']}")
    return 0


def write_evidence(prop, tier, seed, tot, digests, shapes, samples, wall_s, nviol, reports, workers, runs):
    w = world_of(prop)
    n = tot.get("runs", 0)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(digests),
            "rule": w.NONTRIVIAL,
            "samples": samples[:6],
            "runs_per_hour": round(n / wall_s * 3600) if wall_s else 0,
            "seeds_per_hour": round(n / wall_s * 3600) if wall_s else 0,
            "planned_runs": runs,
            "workers": workers,
            "comparisons_with_model": tot.get("checks", 0),
            "operations": tot.get("ops", 0),
            "operations_by_kind": tot.get("op_kinds", {}),
            "configurations": tot.get("cfg", {}),
            "simulated_seconds": round(tot.get("sim_s", 0.0), 3),
            "scheduling_steps": tot.get("steps", 0),
            "context_switches": tot.get("switches", 0),
            "fs_events": tot.get("events", {}),
            "faults_injected": tot.get("faults_fired", {}),
            "faults_armed": tot.get("faults_armed", {}),
            "crashes": tot.get("crashes", 0),
            "distinct_executions": len(digests),
            "distinct_executions_measure": "hash over the ordered sequence of (actor, event kind, file, size) and "
                                           "context switches, plus configuration and operations",
            "distinct_shapes": len(shapes),
            "distinct_shapes_measure": w.SHAPE,
            "components": {"real": w.REAL, "stub": w.STUB},
        },
        "wall_s": round(wall_s, 2),
        "violations": nviol,
        "assumptions": w.ASSUMPTIONS,
    }
    if reports:
        ev["coverage"]["violation_signatures"] = [s for s, _, _ in reports]
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    # run as a module copy named sim.engine so that Violation is one class
    from sim import engine as E
    {"worker": E.worker_main, "shrink": E.shrink_main, "replay": E.replay_main, "digests": E.digests_main,
     "exec": E.exec_main}[sys.argv[1]](sys.argv[2:])
