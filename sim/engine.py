"""Driver: seeded search over simulated runs, minimisation, replay, evidence.

    python -m sim.engine check  <ID>
    python -m sim.engine replay <file>
    python -m sim.engine digest <ID> <n>        # determinism self check: one digest per run
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
WALL_GUARD = float(os.environ.get("SIM_WALL_GUARD", "90"))
PKG = "/repo/pxmcmc"


class HarnessError(Exception):
    pass


def load(pid):
    m = importlib.import_module(f"sim.props.{pid.lower()}")
    return m


def scenario(mod, i, seed=None, tier=None):
    r = random.Random(f"{SEED if seed is None else seed}:{mod.ID}:{i}")
    return mod.gen(r, i, tier or TIER)


def viol(cls, detail):
    return {"class": cls, "detail": detail}


def _norm_tb(e):
    """Is the exception raised by (or below) package code?  And where."""
    tb = traceback.extract_tb(e.__traceback__)
    inside = [f for f in tb if f.filename.startswith(PKG)]
    last = inside[-1] if inside else None
    return last


class Unexpected(Exception):
    """Wraps an exception that escaped from the package although nothing was injected."""


def run_one(mod, sc):
    """Run a scenario; always returns a result dict."""
    from sim import rng

    try:
        res = mod.run(sc)
    except rng.BudgetExceeded:
        res = {"viol": viol("no-progress", "the run used far more draws/operator calls than the "
                                           "requested iterations can need")}
    except Exception as e:
        from sim import fork

        at = _norm_tb(e)
        if isinstance(e, fork.Escaped):
            res = {"viol": viol("unexpected-exception", str(e))}
        elif at is not None:
            res = {"viol": viol("unexpected-exception",
                                f"{type(e).__name__}: {str(e)[:200]} in {os.path.basename(at.filename)}")}
        else:
            res = {"harness": traceback.format_exc()[-3000:]}
    res.setdefault("viol", None)
    res.setdefault("steps", 0)
    res.setdefault("faults", {})
    res.setdefault("probes", {})
    res.setdefault("nontrivial", True)
    if "digest" not in res:
        res["digest"] = digest(res.get("obs"))
    res.pop("obs", None)
    return res


def digest(o):
    h = hashlib.sha256()

    def go(x):
        import numpy as np

        if isinstance(x, np.ndarray):
            h.update(str(x.dtype).encode() + str(x.shape).encode())
            h.update(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, dict):
            for k in sorted(x, key=str):
                h.update(str(k).encode())
                go(x[k])
        elif isinstance(x, (list, tuple)):
            h.update(b"[")
            for y in x:
                go(y)
            h.update(b"]")
        else:
            h.update(repr(x).encode())

    go(o)
    return h.hexdigest()[:24]


# -- worker pool ---------------------------------------------------------------

def _worker(mod, conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        sys.stdout = open(os.devnull, "w")
    except OSError:
        pass
    if hasattr(mod, "worker_init"):
        mod.worker_init()
    while True:
        try:
            sc = conn.recv()
        except EOFError:
            os._exit(0)
        if sc is None:
            if hasattr(mod, "worker_exit"):
                mod.worker_exit()
            os._exit(0)
        if os.environ.get("SIM_DEBUG_HANG"):
            import faulthandler

            faulthandler.dump_traceback_later(15, file=sys.__stderr__)
        conn.send(run_one(mod, sc))


class Pool:
    def __init__(self, mod, n):
        self.mod, self.n = mod, n
        self.ctx = mp.get_context("fork")
        self.slots = [self._spawn() for _ in range(n)]

    def _spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(self.mod, b), daemon=True)
        p.start()
        b.close()
        return {"p": p, "c": a, "job": None, "t": 0.0, "done": []}

    def imap(self, jobs, stop):
        """jobs: iterator of (key, scenario).  Yields (key, scenario, result)."""
        jobs = iter(jobs)
        exhausted = False
        while True:
            for s in self.slots:
                if s["job"] is None and not exhausted and not stop():
                    try:
                        s["job"] = next(jobs)
                    except StopIteration:
                        exhausted = True
                        break
                    s["t"] = time.monotonic()
                    s["c"].send(s["job"][1])
            busy = [s for s in self.slots if s["job"] is not None]
            if not busy:
                return
            ready = mpc.wait([s["c"] for s in busy], timeout=1.0)
            for s in busy:
                job = s["job"]
                if s["c"] in ready:
                    try:
                        res = s["c"].recv()
                        s["job"] = None
                    except (EOFError, OSError):
                        s["p"].join()
                        code = s["p"].exitcode
                        self._replace(s)
                        res = dead_result(code)
                    res["before"] = list(s["done"]) if res.get("viol") else []
                    s["done"].append(job[1])
                    yield job[0], job[1], res
                elif time.monotonic() - s["t"] > WALL_GUARD:
                    os.kill(s["p"].pid, signal.SIGKILL)
                    s["p"].join()
                    self._replace(s)
                    yield job[0], job[1], dead_result("hang")

    def _replace(self, s):
        s.update(self._spawn())

    def one(self, sc):
        for _, _, res in self.imap([(0, sc)], lambda: False):
            return res

    def close(self):
        for s in self.slots:
            try:
                s["c"].send(None)
            except OSError:
                pass
        for s in self.slots:
            s["p"].join(5)
            if s["p"].is_alive():
                s["p"].kill()


def dead_result(code):
    d = "no progress: the run never came back" if code == "hang" else \
        f"the process died (exit code {code})"
    cls = "hang" if code == "hang" else "process-death"
    return {"viol": viol(cls, d), "steps": 0, "faults": {}, "probes": {}, "nontrivial": True,
            "digest": cls, "fatal": True}


# -- minimisation --------------------------------------------------------------

def minimise(mod, pool, sc, res, budget_s):
    if hasattr(mod, "concretize"):
        c = mod.concretize(sc, res)
        if c is not None:
            r = pool.one(c)
            if r["viol"] and r["viol"]["class"] == res["viol"]["class"]:
                sc, res = c, r
    if not hasattr(mod, "shrink") or res.get("fatal"):
        return sc, res, 0
    t0, tried, improved = time.monotonic(), 0, True
    while improved and time.monotonic() - t0 < budget_s:
        improved = False
        for cand in mod.shrink(sc):
            if time.monotonic() - t0 > budget_s:
                break
            tried += 1
            r = pool.one(cand)
            if r.get("harness"):
                continue
            if r["viol"] and r["viol"]["class"] == res["viol"]["class"]:
                sc, res, improved = cand, r, True
                break
    return sc, res, tried


def known_findings():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def matches_known(mod, v):
    for k in known_findings():
        if k.get("status") == "open" and k["property"] == mod.ID and k["class"] == v["class"] \
                and k.get("match", "") in v["detail"]:
            return k
    return None


def _same_again(mod, before, sc, res):
    pool = Pool(mod, 1)
    try:
        for b in before:
            pool.one(b)
        r = pool.one(sc)
    finally:
        pool.close()
    return not r.get("harness") and bool(r["viol"]) and r["viol"]["class"] == res["viol"]["class"]


def confirm(mod, sc, res):
    """A violation counts only if it happens again in a new process: from its scenario alone ([]), or after the runs
    that the process had made before it (the shortest tail of them that will do).  None: it does not repeat."""
    before = res.pop("before", [])
    if _same_again(mod, [], sc, res) and (res.get("fatal") or _same_again(mod, [], sc, res)):
        return []
    if res.get("fatal"):
        return None
    t0, k = time.monotonic(), 1
    while before and time.monotonic() - t0 < 200:
        tail = before[-k:]
        if _same_again(mod, tail, sc, res) and _same_again(mod, tail, sc, res):
            return tail
        if k >= len(before):
            break
        k *= 2
    return None


def check(pid):
    mod = load(pid)
    t0 = time.monotonic()
    total = mod.RUNS[TIER]
    if os.environ.get("SIM_RUNS"):
        total = int(os.environ["SIM_RUNS"])
    nw = int(os.environ.get("SIM_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    tmax = {"quick": 600, "thorough": 6 * 3600}[TIER]
    pool = Pool(mod, nw)
    st = {"evals": 0, "steps": 0, "faults": {}, "probes": {}, "digests": set(), "inter": set(),
          "nontrivial": set(), "samples": [], "known": {}}
    found, harness, suspects = [], [], []

    def jobs():
        for i in range(total):
            yield i, scenario(mod, i)

    def search(pool, todo, stop):
        for i, sc, res in pool.imap(todo, stop):
            if res.get("harness"):
                harness.append((i, sc, res))
                continue
            st["evals"] += 1
            st["steps"] += res["steps"]
            for k, n in res["faults"].items():
                st["faults"][k] = st["faults"].get(k, 0) + n
            for k, n in res["probes"].items():
                st["probes"][k] = st["probes"].get(k, 0) + n
            st["digests"].add(res["digest"])
            if res.get("inter"):
                st["inter"].add(res["inter"])
            if res["nontrivial"]:
                st["nontrivial"].add(res.get("inter") or res["digest"])
            if res["viol"]:
                k = matches_known(mod, res["viol"])
                if k:
                    st["known"][k["what"]] = st["known"].get(k["what"], 0) + 1
                else:
                    found.append((i, sc, res))
            elif i < 3 or (res["faults"] and len(st["samples"]) < 5):
                st["samples"].append({"run": i, "scenario": sc, "steps": res["steps"],
                                      "faults": res["faults"], "note": res.get("note")})

    stop = lambda: bool(found) or bool(harness) or time.monotonic() - t0 > tmax
    todo, confirmed = jobs(), None
    while True:
        search(pool, todo, stop)
        if not found:
            break
        found.sort(key=lambda f: f[0])
        for i, sc, res in found:
            before = confirm(mod, sc, res)
            if before is not None:
                confirmed = i, sc, res, before
                break
            suspects.append((i, sc, {"harness": f"run {i} did not repeat: {res['viol']}"}))
        if confirmed or harness or len(suspects) > 25:
            break
        del found[:]
    search_s = time.monotonic() - t0
    ran_out = st["evals"] < total and not confirmed and not harness and not suspects

    code = 0
    viol_line = None
    if confirmed:
        i, sc, res, before = confirmed
        if before:
            sc2, res2, tried = sc, res, 0
        else:
            sc2, res2, tried = minimise(mod, pool, sc, res, 40 if TIER == "quick" else 180)
        pool.close()
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{mod.ID}-seed{SEED}-run{i}.json")
        for sc2, res2 in ((sc2, res2), (sc, res)):
            rep = {"property": mod.ID, "seed": SEED, "run": i, "tier": TIER, "before": before, "scenario": sc2,
                   "violation": res2["viol"], "minimiser_tried": tried, "original": sc,
                   "trace": res2.get("trace")}
            with open(path, "w") as f:
                json.dump(rep, f, indent=1)
            q = subprocess.run([os.path.join(VERIF, "replay.sh"), path], capture_output=True, text=True)
            okrep = q.returncode == 1 and "REPRODUCED" in q.stdout
            if okrep:
                break
        print(f"run {i} of seed {SEED}: {res2['viol']['class']}: {res2['viol']['detail']}")
        if before:
            print(f"needs the {len(before)} runs before it in the same process")
        print(f"minimised in {tried} attempts; replay in a fresh process: "
              f"{'reproduced' if okrep else 'NOT reproduced'}")
        viol_line = f"VIOLATION property={mod.ID} replay={path}"
        code = 1
    else:
        harness += suspects
    if not confirmed:
        pool.close()
    for i, sc, res in harness[:3]:
        print(f"HARNESS ERROR in run {i}: {res['harness']}", file=sys.stderr)
        print(json.dumps(sc)[:2000], file=sys.stderr)
    if harness and code == 0:
        code = 2
    if ran_out and code == 0:
        print("time limit hit before all runs were made", file=sys.stderr)
        code = 2
    wall = time.monotonic() - t0
    ev = {
        "property": mod.ID, "tier": TIER, "seed": SEED, "level": mod.LEVEL,
        "coverage": {
            "evaluations": st["evals"],
            "distinct_nontrivial": len(st["nontrivial"]),
            "rule": mod.RULE,
            "samples": st["samples"][:5],
            "simulated_runs_per_hour": round(st["evals"] / max(search_s, 1e-9) * 3600),
            "simulated_steps": st["steps"],
            "simulated_steps_unit": getattr(mod, "STEP_UNIT", "sampler iterations"),
            "simulated_time": "the package reads no clock and has no timers; simulated time is "
                              "counted in the steps above",
            "faults_fired": dict(sorted(st["faults"].items())),
            "probes_hit": dict(sorted(st["probes"].items())),
            "distinct_outcomes": len(st["digests"]),
            "distinct_interleavings_or_fault_traces": len(st["inter"]),
            "interleaving_measure": getattr(mod, "INTER", "not applicable: single task"),
            "workers": nw,
            "ran_real_code": mod.REAL,
            "stubs": mod.STUB,
            "known_findings_seen": st["known"],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": 1 if code == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{mod.ID}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{mod.ID}.json"))
    for w in st["known"]:
        print(f"KNOWN-FINDING: property={mod.ID} {w}")
    print(f"{mod.ID}: {st['evals']} runs ({len(st['nontrivial'])} distinct non-trivial), "
          f"{st['steps']} steps, faults {ev['coverage']['faults_fired']}, "
          f"probes {ev['coverage']['probes_hit']}, {wall:.1f} s")
    if viol_line:
        print(viol_line)
    sys.stdout.flush()
    return code


def replay(path):
    rep = json.load(open(path))
    mod = load(rep["property"])
    pool = Pool(mod, 1)
    for b in rep.get("before", []):
        pool.one(b)
    res = pool.one(rep["scenario"])
    pool.close()
    if res.get("harness"):
        print(res["harness"])
        return 2
    print(json.dumps({"violation": res["viol"], "recorded": rep["violation"], "faults": res["faults"]},
                     indent=1))
    if res["viol"]:
        same = res["viol"] == rep["violation"]
        print("REPRODUCED" if same else "REPRODUCED (detail differs)"
              if res["viol"]["class"] == rep["violation"]["class"] else "DIFFERENT VIOLATION")
        print(f"VIOLATION property={rep['property']} replay={path}")
        return 1
    print("no violation")
    return 0


def digests(pid, n):
    mod = load(pid)
    nw = int(os.environ.get("SIM_WORKERS", "0")) or 4
    pool = Pool(mod, nw)
    out = {}
    for i, sc, res in pool.imap(((i, scenario(mod, i)) for i in range(n)), lambda: False):
        out[i] = (res["digest"], res.get("inter"), str(res["viol"]), res["steps"],
                  json.dumps(res["faults"], sort_keys=True), (res.get("harness") or "")[-300:])
    pool.close()
    for i in sorted(out):
        print(i, *out[i])


def main():
    cmd = sys.argv[1]
    if cmd == "check":
        code = check(sys.argv[2])
    elif cmd == "replay":
        code = replay(sys.argv[2])
    elif cmd == "digest":
        digests(sys.argv[2], int(sys.argv[3]))
        code = 0
    else:
        raise SystemExit("usage")
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
