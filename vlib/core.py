"""Driver of the runtime-verification checks.

A check module (checks/cXX.py) defines

    ID, TITLE, RULE     strings
    WORKLOADS           list of (name, function(ctx, rng), n_quick, n_thorough)
    ASSUMPTIONS         list of strings

Each workload function builds one case from `rng`, runs the real code of /repo on
it and lets the monitors judge what they observed, through `ctx`.  The cases are
spread over forked workers; every random choice derives from
(VERIF_SEED, workload, index), so a case is replayed from those three alone.
"""
import faulthandler
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import tempfile
import threading
import time
import traceback
import warnings

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
CPU_LIMIT = {"quick": 100.0, "thorough": 300.0}  # CPU seconds of one case
MAX_WALL = {"quick": 800.0, "thorough": 3 * 3600.0}
N_WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class Violation(Exception):
    """The observed execution breaks the property."""

    def __init__(self, msg, mech=None, **detail):
        super().__init__(msg)
        self.msg = msg
        self.mech = mech
        self.detail = detail


class Budget(BaseException):
    """The code under test exceeded a budget of logical steps or CPU time."""


class Skip(Exception):
    """The generated case is outside of the domain of the property."""


def _short(v, lim=1200):
    if isinstance(v, np.ndarray):
        v = v.tolist() if v.size <= 60 else {
            "shape": list(v.shape), "dtype": str(v.dtype), "head": v.ravel()[:12].tolist()}
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        v = v.item()
    if isinstance(v, dict):
        return {str(k): _short(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)) and len(v) <= 60:
        return [_short(x) for x in v]
    if isinstance(v, (int, float, bool, type(None))):
        return v
    s = v if isinstance(v, str) else repr(v)
    return s[:lim]


class Ctx:
    """What one case reports to the driver."""

    def __init__(self, tier):
        self.tier = tier
        self.counters = {}
        self.keys = set()
        self.samples = []
        self.known_hits = {}
        self.soft = []
        self.case = None

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def key(self, *parts):
        """Mark the current case as non-trivial; `parts` identify what is distinct about it."""
        h = hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest()
        self.keys.add(h)

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append({k: _short(v) for k, v in kw.items()})

    def fail(self, msg, mech=None, **detail):
        raise Violation(msg, mech, **detail)

    def check(self, cond, msg, mech=None, **detail):
        self.count("oracle evaluations")
        if not cond:
            raise Violation(msg, mech, **detail)

    def known(self, mech, msg):
        """A mechanism that KNOWN_FINDINGS.json may list was observed failing."""
        self.known_hits[mech] = msg


def digest(*arrs):
    h = hashlib.blake2b(digest_size=8)
    for a in arrs:
        if a is None:
            continue
        if isinstance(a, np.ndarray):
            h.update(np.ascontiguousarray(a).tobytes())
        else:
            h.update(repr(a).encode())
    return h.hexdigest()


def rng_for(seed, workload, idx):
    h = hashlib.blake2b(("%d|%s|%d" % (seed, workload, idx)).encode(), digest_size=16)
    return np.random.RandomState(np.frombuffer(h.digest(), dtype=np.uint32))


def _on_cpu_limit(signum, frame):
    raise Budget("CPU limit")


def run_case(mod, wl, idx, seed, tier, ctx):
    """Returns None or a dict describing the violation."""
    name, fn = wl[0], wl[1]
    rng = rng_for(seed, name, idx)
    ctx.case = (name, idx)
    np.random.seed(rng.randint(2 ** 31))
    vio = None
    old = np.geterr()
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT[tier])
    t0 = time.process_time()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            np.seterr(all="ignore")
            fn(ctx, rng)
    except Skip:
        ctx.count("cases skipped (outside the domain)")
    except Violation as e:
        vio = {"message": e.msg, "mech": e.mech or "oracle", "detail": _short(e.detail)}
        if os.environ.get("VERIF_TRACE"):
            traceback.print_exc()
    except Budget as e:
        vio = {
            "message": "did not terminate: %s (%.0f s of CPU; such cases normally take well under a second)"
            % (e, time.process_time() - t0),
            "mech": "non-termination",
            "detail": {"stack": traceback.format_exc()[-1500:]},
        }
    except SystemExit:
        vio = {"message": "the interpreter was asked to exit", "mech": "exception",
               "detail": {"stack": traceback.format_exc()[-2500:]}}
    except AssertionError:
        vio = {"message": "unexpected AssertionError", "mech": "exception",
               "detail": {"stack": traceback.format_exc()[-2500:]}}
    except Exception as e:  # the inputs are valid: no exception is acceptable
        st = traceback.format_exc()[-2500:]
        vio = {"message": "unexpected %s%s: %s" % (
            type(e).__name__, "" if "/copt/" in st else " while interpreting what the code returned", str(e)[:300]),
               "mech": "exception", "detail": {"stack": st}}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        np.seterr(**old)
    if vio is not None:
        vio.update(workload=name, index=idx, seed=seed, tier=tier)
    return vio


def in_harness(vio):
    """An exception raised outside of /repo that tells about the machine, not about the results
    the code handed to the monitors, is an error of the check."""
    st = (vio.get("detail") or {}).get("stack", "")
    if vio["mech"] != "exception" or "/copt/" in st:
        return False
    return vio["message"].startswith(("unexpected MemoryError", "unexpected OSError", "unexpected ImportError",
                                      "unexpected ModuleNotFoundError", "unexpected NameError while"))


# ends of a worker that tell about the code it ran (SIGKILL would be the machine's: out of memory)
CRASHES = ("SIGSEGV", "SIGBUS", "SIGFPE", "SIGILL", "SIGABRT", "SIGTRAP", "SIGSYS")


def crash_of(exitcode, task):
    """Name of the signal that ended a worker while it ran the real code on valid inputs, or None."""
    if exitcode is None or exitcode >= 0 or task < 0:
        return None
    name = signal.Signals(-exitcode).name
    return name if name in CRASHES else None


def cpu_of(pid):
    """CPU seconds used by a process so far."""
    try:
        with open("/proc/%d/stat" % pid) as f:
            t = f.read().rsplit(")", 1)[1].split()
        return (int(t[11]) + int(t[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return 0.0


def watch(procs, current, began, tier, stop, done):
    """Ends the workers stuck in compiled code, which no signal handler of Python can interrupt."""
    stuck = {}
    while not done.wait(2.0):
        for me, (p, _) in enumerate(procs):
            k = current[me]
            if me in stuck or k < 0 or p.exitcode is not None:
                continue
            used = cpu_of(p.pid) - began[me]
            if used > 1.5 * CPU_LIMIT[tier] + 20 and current[me] == k:
                stuck[me] = (k, used)
                stop.value = 1
                p.kill()
    return stuck


def worker(mod, tasks, counter, seed, tier, conn, stop, current, began, me, stack_file):
    sink = open(os.devnull, "w")
    faulthandler.enable(stack_file, all_threads=False)
    sys.stdout = sink
    ctx = Ctx(tier)
    vios = []
    times = {}
    n_eval = 0
    signal.signal(signal.SIGPROF, _on_cpu_limit)
    if hasattr(mod, "worker_init"):
        mod.worker_init()
    while not stop.value:
        with counter.get_lock():
            k = counter.value
            counter.value += 1
        if k >= len(tasks):
            break
        wl, idx = tasks[k]
        began[me] = time.process_time()
        current[me] = k
        t0 = time.time()
        v = run_case(mod, wl, idx, seed, tier, ctx)
        current[me] = -1
        n_eval += 1
        times[wl[0]] = times.get(wl[0], 0) + time.time() - t0
        if v is not None:
            vios.append(v)
            if len(vios) >= 5 or v["mech"] == "non-termination":
                stop.value = 1
    conn.send(dict(counters=ctx.counters, keys=ctx.keys, samples=ctx.samples,
                   known=ctx.known_hits, vios=vios, n_eval=n_eval, times=times))
    conn.close()


def load_known():
    p = os.path.join(HERE, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main(argv):
    pid = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only = None
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 1
        elif argv[i] == "--replay":
            replay = argv[i + 1]
            i += 1
        elif argv[i] == "--only":
            only = argv[i + 1]
            i += 1
        i += 1
    if tier not in CPU_LIMIT:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()

    from vlib import sanit

    sanit.install()
    try:
        mod = importlib.import_module("checks." + pid.lower())
    except Exception as e:
        st = traceback.format_exc()
        print(st)
        if "/copt/" in st:
            # the package under test cannot even be imported
            os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
            p = os.path.join(EVID, "replay", pid + "-import.json")
            with open(p, "w") as f:
                json.dump({"property": pid, "message": "copt cannot be imported", "detail": st}, f)
            print("VIOLATION property=%s replay=%s" % (pid, p))
            return 1
        return 2
    if replay is not None:
        with open(replay) as f:
            r = json.load(f)
        signal.signal(signal.SIGPROF, _on_cpu_limit)
        if hasattr(mod, "worker_init"):
            mod.worker_init()
        wl = [w for w in mod.WORKLOADS if w[0] == r["workload"]][0]
        v = run_case(mod, wl, r["index"], r["seed"], r["tier"], Ctx(r["tier"]))
        print(json.dumps(v, indent=1) if v else "the case passes")
        return 1 if v else 0

    tasks = []
    for wl in mod.WORKLOADS:
        if only and wl[0] != only:
            continue
        n = wl[2] if tier == "quick" else wl[3]
        n = max(1, int(round(n * scale))) if n else 0
        tasks += [(wl, k) for k in range(n)]
    order = np.random.RandomState(12345).permutation(len(tasks))
    tasks = [tasks[k] for k in order]
    # the heavy workloads first: (name, fn, q, t, {"heavy": True})
    tasks.sort(key=lambda t: 0 if len(t[0]) > 4 and t[0][4].get("heavy") else 1)

    counter = mp.Value("l", 0)
    stop = mp.Value("i", 0)
    procs = []
    ctxmp = mp.get_context("fork")
    sys.stdout.flush()
    n_workers = min(N_WORKERS, max(1, len(tasks)))
    current = mp.Array("l", [-1] * n_workers, lock=False)
    began = mp.Array("d", [0.0] * n_workers, lock=False)
    stacks = [tempfile.TemporaryFile() for _ in range(n_workers)]
    for me in range(n_workers):
        r, w = ctxmp.Pipe(duplex=False)
        p = ctxmp.Process(target=worker, args=(mod, tasks, counter, seed, tier, w, stop, current, began,
                                                me, stacks[me]))
        p.start()
        w.close()
        procs.append((p, r))
    results, problems, crashes = [], [], []
    done, stuck = threading.Event(), {}
    watcher = threading.Thread(target=lambda: stuck.update(watch(procs, current, began, tier, stop, done)), daemon=True)
    watcher.start()
    for me, (p, r) in enumerate(procs):
        left = MAX_WALL[tier] - (time.time() - t0)
        try:
            if r.poll(max(left, 1.0)):
                results.append(r.recv())
            else:
                problems.append("a worker did not answer within the wall-clock limit")
                p.kill()
        except EOFError:
            p.join(5)
            if crash_of(p.exitcode, current[me]):
                wl, idx = tasks[current[me]]
                stacks[me].seek(0)
                crashes.append({"message": "the process crashed with %s" % crash_of(p.exitcode, current[me]),
                                "mech": "crash", "workload": wl[0], "index": idx, "seed": seed, "tier": tier,
                                "detail": {"stack": stacks[me].read().decode(errors="replace")[-2500:]}})
            else:
                problems.append("a worker died")
        p.join(5)
    done.set()
    watcher.join()
    for me, (k, used) in stuck.items():
        wl, idx = tasks[k]
        crashes.append({"message": "did not terminate: in compiled code after %.0f s of CPU" % used,
                        "mech": "non-termination", "workload": wl[0], "index": idx, "seed": seed, "tier": tier,
                        "detail": {}})

    counters, keys, samples, known, vios, times, n_eval = {}, set(), [], {}, list(crashes), {}, 0
    for res in results:
        for k, v in res["counters"].items():
            counters[k] = counters.get(k, 0) + v
        keys |= res["keys"]
        samples += res["samples"]
        known.update(res["known"])
        vios += res["vios"]
        n_eval += res["n_eval"]
        for k, v in res["times"].items():
            times[k] = times.get(k, 0) + v

    harness = [v for v in vios if in_harness(v)]
    vios = [v for v in vios if not in_harness(v)]
    listed = {f["mech"]: f for f in load_known() if f["property"] == pid}
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    out_lines, n_vio = [], 0
    for mech, f in listed.items():
        if mech in known:
            out_lines.append("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    for mech, msg in known.items():
        if mech not in listed:
            vios.append({"message": msg, "mech": mech, "workload": "?", "index": -1,
                         "seed": seed, "tier": tier, "detail": {}})
    seen = set()
    for v in sorted(vios, key=lambda v: (v["workload"], v["index"])):
        n_vio += 1
        mk = (v["workload"], v["mech"], v["message"][:40])
        if mk in seen or len(seen) >= 8:
            continue
        seen.add(mk)
        p = os.path.join(EVID, "replay", "%s-%s-%d.json" % (
            pid, "".join(c if c.isalnum() else "_" for c in v["workload"]), v["index"]))
        v["property"] = pid
        v["replay_cmd"] = "/verif/run.py %s --replay %s" % (pid, p)
        with open(p, "w") as f:
            json.dump(v, f, indent=1, default=str)
        out_lines.append("  [%s #%s] %s" % (v["workload"], v["index"], v["message"]))
        out_lines.append("VIOLATION property=%s replay=%s" % (pid, p))

    if hasattr(mod, "finish") and not only and not vios:
        problems += list(mod.finish(counters, tier))
    for name in getattr(mod, "REQUIRED", []):
        if not counters.get(name) and not only and not vios and scale >= 1:
            problems.append("the monitor never observed: %s" % name)
    wall = time.time() - t0
    rule = mod.RULE
    cov = {
        "evaluations": n_eval,
        "distinct_nontrivial": len(keys),
        "rule": rule,
        "samples": samples[:6] or ["none"],
        "observed": dict(sorted(counters.items())),
        "cpu_seconds_per_workload": {k: round(v, 2) for k, v in sorted(times.items())},
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": n_vio,
    }
    if not only:
        tmp = os.path.join(EVID, pid + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(EVID, pid + ".json"))
    for l in out_lines:
        print(l)
    print("%s %s: %d executions, %d distinct non-trivial, %d oracle evaluations, %.1f s" % (
        pid, tier, n_eval, len(keys), counters.get("oracle evaluations", 0), wall))
    if os.environ.get("VERIF_TRACE") or only:
        print(json.dumps(cov["observed"], indent=1), json.dumps(cov["cpu_seconds_per_workload"]))
    if n_vio:
        return 1
    for h in list({h["workload"]: h for h in harness}.values())[:3]:
        print("HARNESS ERROR", h["workload"], h["index"], h["message"])
        print(h["detail"].get("stack", ""))
    if harness:
        return 2
    if problems:
        print("INCONCLUSIVE: " + "; ".join(sorted(set(problems))))
        return 2
    return 0
