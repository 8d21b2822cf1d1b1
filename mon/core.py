"""Check runner: spreads cases over worker processes, counts what the monitors observed, and turns
that into a verdict, an evidence file and replay files."""
import hashlib
import importlib
import json
import os
import queue
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


class Skip(Exception):
    """the case cannot decide anything (counted, never a verdict)"""


class Ctx:
    def __init__(self, spec, mode):
        self.spec = spec
        self.mode = mode
        self.events = {}
        self.violations = []
        self.findings = []
        self.sigs = []
        self.notes = []

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def sig(self, *parts):
        """one distinct non-trivial observation"""
        self.sigs.append(hashlib.sha1(repr(parts).encode()).hexdigest()[:16])

    def viol(self, monitor, msg):
        self.violations.append("%s: %s" % (monitor, msg))

    def check(self, ok, monitor, msg):
        self.ev(monitor)
        if not ok:
            self.viol(monitor, msg() if callable(msg) else msg)
        return ok

    def finding(self, key, msg):
        self.findings.append([key, msg])

    def real(self, monitor, fn, *a, **k):
        """run the code under test; an exception it should not raise is a violation"""
        try:
            return fn(*a, **k)
        except Skip:
            raise
        except Exception as e:  # noqa
            self.viol(monitor, "unexpected %s: %s" % (type(e).__name__, str(e)[:300]))
            raise Skip("raised")


def priv(obj, name):
    """an attribute the documentation does not promise: its absence is not a verdict"""
    try:
        return getattr(obj, name)
    except AttributeError:
        raise Skip("no attribute " + name)


MODE_ENV = {
    "jit": {},
    "bc": {"NUMBA_BOUNDSCHECK": "1"},
    "interp": {"NUMBA_DISABLE_JIT": "1"},
}


class Worker:
    def __init__(self, prop, mode, scratch):
        env = dict(os.environ)
        for k in list(env):
            if k.startswith("NUMBA_") or k.startswith("PYTHON"):
                env.pop(k)
        env.update(
            PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
            PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"),
            OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="4",
            HOME=scratch, LANG="C.UTF-8",
        )
        env.update(MODE_ENV[mode])
        self.mode = mode
        self.scratch = scratch
        self.p = subprocess.Popen([PY, "-m", "mon.worker", prop, mode], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=open(os.path.join(scratch, "stderr.log"), "ab"), env=env, cwd=scratch, text=True)

    def run(self, spec, timeout):
        res = {}

        def go():
            try:
                self.p.stdin.write(json.dumps(spec) + "\n")
                self.p.stdin.flush()
                line = self.p.stdout.readline()
                res["out"] = json.loads(line) if line else None
            except Exception as e:  # worker died
                res["err"] = repr(e)

        used = self.cpu()
        t = threading.Thread(target=go, daemon=True)
        t.start()
        t.join(timeout)
        if t.is_alive():
            cpu = self.cpu() - used
            where = self.where(used)
            self.kill()
            return {"timeout": True, "where": where, "cpu": cpu}
        if res.get("out") is None:
            try:
                rc = self.p.wait(10)
            except Exception:
                rc = self.kill()
            if rc == -signal.SIGKILL:  # (out of memory: nothing in the process does that to itself)
                return {"timeout": True}
            return {"died": True}
        return res["out"]

    def cpu(self):
        try:
            f = open("/proc/%d/stat" % self.p.pid).read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except Exception:
            return 0.0

    def where(self, used):
        """the function of the library a stuck case is in (None: in an oracle or an external solver, or starved)"""
        if self.cpu() - used < 30:
            return None
        try:
            self.p.send_signal(signal.SIGUSR1)
            time.sleep(1)
            text = open(os.path.join(self.scratch, "stack.%d" % self.p.pid)).read()
        except Exception:
            return None
        if "in <module>" in text.split("mon/worker.py")[0] or "_milp" in text or "/ripser/" in text or "numba/core" in text:
            return None
        repo = os.path.join(os.environ.get("MON_REPO", "/repo"), "dreimac") + os.sep
        for l in text.splitlines():
            if repo in l:
                return l.strip()[:160]
        return None

    def kill(self):
        try:
            self.p.kill()
            self.p.wait(10)
        except Exception:
            pass
        return self.p.returncode

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.kill()


def known_findings(prop):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" ")
                out[key.replace("key=", "")] = what
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import tempfile
    import shutil
    scratch = tempfile.mkdtemp(prefix="mon-%s-" % prop)
    os.makedirs(os.path.join(scratch, "mpl"))
    try:
        return _main(prop, tier, seed, argv, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(prop, tier, seed, argv, scratch):
    t0 = time.time()
    mod = importlib.import_module("mon.props." + prop.lower())
    import numpy as np

    case_timeout = getattr(mod, "CASE_TIMEOUT", 60)
    wall = {"quick": getattr(mod, "QUICK_WALL", 240), "thorough": getattr(mod, "THOROUGH_WALL", 690)}[tier]
    if "--replay" in argv:
        r = json.load(open(argv[argv.index("--replay") + 1]))
        cases = [(r["mode"], r["spec"])]
    else:
        rng = np.random.default_rng([seed, int(prop[1:]), 7 if tier == "quick" else 11])
        cases = list(mod.cases(rng, tier))
        if "--max" in argv:
            cases = cases[: int(argv[argv.index("--max") + 1])]
    cost = getattr(mod, "COST", {"jit": 1.0, "bc": 1.2, "interp": 0.15})
    queues, load = {}, {}
    for mode, spec in cases:
        queues.setdefault(mode, queue.Queue()).put(spec)
        load[mode] = load.get(mode, 0) + cost[mode]
    nproc = min(8, os.cpu_count() or 8)
    # at least one worker per mode, the rest by load
    alloc = {m: 1 for m in queues}
    while sum(alloc.values()) < nproc:
        m = max(queues, key=lambda m: load[m] / alloc[m])
        if alloc[m] >= queues[m].qsize():
            break
        alloc[m] += 1
    results = []
    lock = threading.Lock()
    stop = threading.Event()
    nviol = [0]

    def serve(mode):
        w = None
        while not stop.is_set():
            if time.time() - t0 > wall:
                break
            try:
                spec = queues[mode].get_nowait()
            except queue.Empty:
                # help the other modes
                left = [m for m in queues if not queues[m].empty()]
                if not left:
                    break
                m2 = max(left, key=lambda m: queues[m].qsize() * cost[m])
                if queues[m2].qsize() * cost[m2] < 6:
                    break
                if w:
                    w.close()
                    w = None
                mode = m2
                continue
            if w is None:
                w = Worker(prop, mode, scratch)
            out = w.run(spec, case_timeout)
            if out.get("timeout") or out.get("died"):
                w = None
            with lock:
                results.append((mode, spec, out))
                if out.get("violations") or out.get("where"):
                    nviol[0] += 3 if out.get("where") else 1
                    if nviol[0] >= 8:
                        stop.set()
        if w:
            w.close()

    ths = [threading.Thread(target=serve, args=(m,)) for m in alloc for _ in range(alloc[m])]
    for t in ths:
        t.start()
    for t in ths:
        t.join()

    known = known_findings(prop)
    events, sigs, skips, samples, notes = {}, set(), {}, [], []
    viols, found, unconfirmed, timeouts, died = [], {}, [], 0, 0
    modes = {}
    stuck = []
    for mode, spec, out in results:
        modes[mode] = modes.get(mode, 0) + 1
        if out.get("timeout"):
            timeouts += 1
            d = spec.get("data") if isinstance(spec.get("data"), dict) else {}
            # (with tens of thousands of points, slow is not stuck)
            if out.get("where") and d.get("n", 0) < 5000:
                stuck.append((mode, spec))
            notes.append("timeout: %s" % json.dumps(spec)[:200])
            continue
        if out.get("died"):
            died += 1
            viols.append((mode, spec, ["process: the interpreter running the case was killed or crashed"]))
            continue
        for k, v in out["events"].items():
            events[k] = events.get(k, 0) + v
        sigs.update(out["sigs"])
        if out.get("skip"):
            skips[out["skip"]] = skips.get(out["skip"], 0) + 1
        vs = list(out["violations"])
        for key, msg in out["findings"]:
            if key in known:
                found.setdefault(key, [0, msg])[0] += 1
            else:
                vs.append("%s: %s" % (key, msg))
        if vs:
            viols.append((mode, spec, vs))
        elif out["sigs"] and len(samples) < 4:
            samples.append({"mode": mode, "spec": spec, "events": out["events"]})
    # what is observed only when the kernels are interpreted has to show up compiled as well
    confirmed = []
    deadline = time.time() + {"quick": 240, "thorough": 90}[tier]
    wj = None
    for mode, spec, vs in viols:
        if vs[0].startswith("process:") or (mode == "interp" and not getattr(mod, "INTERP_IS_FINAL", False)):
            m2 = "jit" if mode == "interp" else mode
            left = deadline - time.time()
            if left < 5:
                unconfirmed.append([spec, vs[0]])
                continue
            wj = Worker(prop, m2, scratch)
            out = wj.run(spec, min(case_timeout * 3, left))
            wj.close()
            if vs[0].startswith("process:") and not out.get("died"):
                unconfirmed.append([spec, vs[0]])
                continue
            if mode == "interp":
                vs2 = out.get("violations") or []
                vs2 = vs2 + [m for k, m in out.get("findings", []) if k not in known]
                if not vs2:
                    unconfirmed.append([spec, vs[0]])
                    continue
                mode, vs = m2, vs2
        confirmed.append((mode, spec, vs))
        if len(confirmed) >= 8:
            break
    # a request that does not return: again, alone and compiled, before it is believed
    if not confirmed:
        for mode, spec in stuck[:3]:
            left = deadline - time.time()
            if left < 60:
                break
            m2 = "jit" if mode == "interp" else mode
            wj = Worker(prop, m2, scratch)
            limit = min(max(100, case_timeout), left)
            out = wj.run(spec, limit)
            wj.close()
            if out.get("timeout") and out.get("where") and out["cpu"] > 0.7 * limit:
                confirmed.append((m2, spec, ["returns: still running after %d s, in %s" % (limit, out["where"])]))
                break
            unconfirmed.append([spec, "slow when loaded"])
    lines = []
    for key, (n, msg) in sorted(found.items()):
        print("KNOWN-FINDING: property=%s %s (%s; %d cases)" % (prop, known[key], msg[:160], n))
    for mode, spec, vs in confirmed:
        d = os.path.join(VERIF, "replays", prop)
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps([mode, spec], sort_keys=True).encode()).hexdigest()[:12]
        path = os.path.join(d, h + ".json")
        json.dump({"property": prop, "mode": mode, "spec": spec, "violations": vs}, open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        print(lines[-1])
        for v in vs[:4]:
            print("   " + v[:400])
    minimum = getattr(mod, "MIN_DISTINCT", {"quick": 20, "thorough": 60})[tier]
    need = getattr(mod, "NEED", [])
    inconclusive = None
    if "--replay" not in argv and "--max" not in argv and not confirmed:
        if len(sigs) < minimum:
            inconclusive = "only %d distinct non-trivial observations (need %d)" % (len(sigs), minimum)
        missing = [e for e in need if not events.get(e)]
        if missing:
            inconclusive = "monitors never reached: %s" % ", ".join(missing)
    if inconclusive and len(results) < len(cases) and len(sigs) >= max(3, minimum // 10):
        # a slow machine: what was explored decides, and the evidence says how much that was
        notes.insert(0, "stopped after %d s: %s" % (wall, inconclusive))
        print("note: stopped after %d s with %d of %d cases" % (wall, len(results), len(cases)))
        inconclusive = None
    if not samples:
        samples = [{"mode": m, "spec": s, "violations": v[:2]} for m, s, v in confirmed[:2]] or [{"spec": c[1]} for c in cases[:1]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(results), "distinct_nontrivial": len(sigs), "rule": mod.RULE, "samples": samples,
            "monitor_events": events, "executions_by_build": modes, "skipped": skips, "timeouts_inconclusive": timeouts,
            "interpreter_crashes": died, "unconfirmed_when_compiled": len(unconfirmed), "known_findings_seen": {k: v[0] for k, v in found.items()},
            "cases_planned": len(cases), "notes": notes[:5],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(confirmed),
    }
    if "--replay" not in argv:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d executions %s, %d distinct, events %s, skipped %s, timeouts %d, unconfirmed %d, %.1fs" % (
        prop, tier, len(results), modes, len(sigs), json.dumps(events), skips, timeouts, len(unconfirmed), time.time() - t0))
    for s, v in unconfirmed[:3]:
        print("   unconfirmed:", json.dumps(s)[:200], v[:200])
    if confirmed:
        return 1
    if inconclusive:
        print("INCONCLUSIVE: " + inconclusive)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
