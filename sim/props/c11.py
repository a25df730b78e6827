"""C11: a save that returns has written exactly the sampler's state, whatever was saved before or meanwhile."""
import copy
import os

import numpy as np

from sim.chain import *
from sim.engine import digest, viol
from sim import boot, saves, sched
from sim.props.c09 import shrink_switches
from pxmcmc.saving import save_mcmc

ID = "C11"
LEVEL = "exploration"
RUNS = {"quick": 1200, "thorough": 25000}
RULE = ("1 to 3 samplers (finished, cut short by an exception, never run, spoilt by NaN) are saved 1 to 6 times in a random "
        "order to 1 to 4 targets on a simulated disk that makes short writes and interrupts system calls; some targets start "
        "with other content; saves are sequential or by concurrent threads under a seeded line-level scheduler; between saves "
        "samplers run on; non-trivial: at least one save; distinct by (history, disk faults, switches)")
REAL = ["pxmcmc.saving", "pxmcmc.mcmc (the samplers saved)", "h5py and HDF5"]
STUB = ["disk system calls (simdisk.so: short writes, EINTR)", "thread scheduler", "numpy random draws"]
INTER = "distinct (save history, disk fault trace, context switches)"
STEP_UNIT = "disk operations"
ASSUMPTIONS = ["reads back through h5py in the same process", "one writer per target at a time"]

PRE = ["none", "none", "garbage", "empty", "hdf5", "part", "tmp"]


def gen(r, i, tier):
    ns = r.choice([1, 1, 2, 3])
    sc = {"samplers": [saves.gen_sampler(r) for _ in range(ns)], "sseed": r.randrange(2**31),
          "mode": r.choice(["seq", "seq", "seq", "threads"]), "rate": r.choice([0.1, 0.4]), "switches": None}
    targets = []
    for _ in range(r.choice([1, 2, 4])):
        t = saves.gen_target(r)
        if t not in targets:
            targets.append(t)
    for t in targets:
        t["pre"] = r.choice(PRE)
    steps = []
    for k in range(r.choice([1, 2, 3, 6])):
        plan = []
        for _ in range(r.choice([0, 0, 1, 3])):
            if r.random() < 0.7:
                plan.append([r.randrange(0, 8), saves.SHORT, r.randrange(1 << 20)])
            else:
                plan.append([r.randrange(0, 8), saves.EINTR, 0])
        steps.append({"s": r.randrange(ns), "t": k % len(targets) if sc["mode"] == "threads" else r.randrange(len(targets)),
                      "extras": saves.gen_extras(r), "plan": plan, "more": r.random() < 0.25,
                      "style": r.choice(["abs", "abs", "slash", "rel", "default"])})
    if sc["mode"] == "threads":
        steps = steps[:len(targets)]
    sc["targets"], sc["steps"] = targets, steps
    return sc


def prepare(root, t):
    path = saves.target_path(root, t)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    k = t["pre"]
    if k == "garbage":
        open(path, "wb").write(b"\x89HDF\r\n\x1a\nnot really" * 500)
    elif k == "empty":
        open(path, "wb").close()
    elif k == "hdf5":
        import h5py

        with h5py.File(path, "w") as f:
            f["chain"] = np.ones((400, 30))
            f["old_dataset"] = np.arange(10)
            f.create_group("g")["x"] = 1
            f.attrs["old_attr"] = 5
    elif k == "part":
        open(path + ".part", "wb").write(b"leftover of a crashed save" * 1000)
    elif k == "tmp":
        open(path + ".tmp", "wb").write(b"leftover" * 1000)
        open(os.path.join(os.path.dirname(path), "." + os.path.basename(path) + ".tmp"), "wb").close()


def call_save(root, t, st, m, params):
    out = os.path.join(root, t["dir"])
    kw = saves.build_extras(st["extras"])
    if st["style"] == "slash":
        out += "/"
    if st["style"] == "rel":
        out = os.path.relpath(out)
    if st["style"] == "default" and t["name"] == "outputs":
        save_mcmc(m, params, out, **kw)
    else:
        save_mcmc(m, params, out, filename=t["name"], **kw)


def run(sc):
    D = saves.disk()
    D.wipe()
    old = os.getcwd()
    os.chdir(os.environ["SIM_SCRATCH"])
    try:
        return _run(sc, D)
    finally:
        D.off()
        os.chdir(old)
        D.wipe()


def _run(sc, D):
    S = [saves.build_sampler(s) for s in sc["samplers"]]
    for t in sc["targets"]:
        prepare(D.root, t)
    model = {}
    nops, faults, log = 0, {"short-write": 0, "EINTR": 0, "context-switch": 0, "interrupted-sampler": 0}, []
    faults["interrupted-sampler"] = sum("cut" in s for s in sc["samplers"])
    res = {"faults": faults, "probes": {"saves": len(sc["steps"])}}
    res["inter"] = digest([sc["steps"], sc["targets"], sc["sseed"]])

    def account():
        f = D.fired()
        faults["short-write"] += f[saves.SHORT]
        faults["EINTR"] += f[saves.EINTR]

    if sc["mode"] == "threads":
        res["probes"]["concurrent"] = 1
        snaps = []
        for st in sc["steps"]:
            m, params = S[st["s"]]
            snaps.append(saves.snapshot(m, params, saves.build_extras(st["extras"])))
        C = sched.Scheduler(sc["sseed"], sc["switches"], sc["rate"], boot.PKG, False, 500_000)

        def job(st):
            return lambda: call_save(D.root, sc["targets"][st["t"]], st, *S[st["s"]])

        tasks = [C.spawn(job(st)) for st in sc["steps"]]
        mem = [saves.mem_digest(*x) for x in S]
        D.on([p for st in sc["steps"] for p in st["plan"] ])
        C.run()
        account()
        nops += D.ops()
        D.off()
        faults["context-switch"] = len(C.taken)
        res["switches"] = C.taken
        if C.deadlock:
            res["viol"] = viol("deadlock", "concurrent saves blocked each other for ever")
            return res
        for t, st, snap in zip(tasks, sc["steps"], snaps):
            if t.error is not None:
                raise t.error
            model[st["t"]] = snap
        if mem != [saves.mem_digest(*x) for x in S]:
            res["viol"] = viol("memory", "saving changed the sampler or its parameters")
            return res
    else:
        for k, st in enumerate(sc["steps"]):
            m, params = S[st["s"]]
            if st["more"]:
                s = sc["samplers"][st["s"]]
                with rng.using(rng.Stream(s["seed"] + 1, None, 10**9)):
                    try:
                        m.run()
                    except (KeyboardInterrupt, MemoryError, RuntimeError) as e:
                        if "injected" not in str(e):
                            raise
            snap = saves.snapshot(m, params, saves.build_extras(st["extras"]))
            mem = saves.mem_digest(m, params)
            before = D.tree()
            D.on(st["plan"])
            call_save(D.root, sc["targets"][st["t"]], st, m, params)
            account()
            nops += D.ops()
            log.append(D.ops())
            D.off()
            model[st["t"]] = snap
            if saves.mem_digest(m, params) != mem:
                res["viol"] = viol("memory", f"save {k} changed the sampler or its parameters")
                return res
            v = check_files(sc, D, model, before, st["t"])
            if v:
                res["viol"] = viol(v[0], f"after save {k}: {v[1]}")
                return res
    v = check_files(sc, D, model, None, None)
    if v:
        res["viol"] = viol(*v)
        return res
    res["steps"] = nops
    res["obs"] = [log, nops]
    return res


def check_files(sc, D, model, before, wrote):
    for t, snap in model.items():
        d = saves.diff(saves.target_path(D.root, sc["targets"][t]), snap)
        if d:
            return "content", f"target {t}: {d}"
    if before is not None:
        after = D.tree()
        targets = {os.path.relpath(saves.target_path(D.root, t), D.root): k for k, t in enumerate(sc["targets"])}
        for f, k in targets.items():
            if k != wrote and before.get(f) != after.get(f):
                return "other-file", f"a save to target {wrote} changed target {k}"
    return None


def concretize(sc, res):
    if sc["mode"] == "threads" and sc["switches"] is None and res.get("switches") is not None:
        return dict(copy.deepcopy(sc), switches=res["switches"])
    return None


def shrink(sc):
    for k in range(len(sc["steps"])):
        if len(sc["steps"]) > 1:
            c = copy.deepcopy(sc)
            del c["steps"][k]
            yield c
    for k, st in enumerate(sc["steps"]):
        for key, v in (("plan", []), ("extras", []), ("more", False), ("style", "abs")):
            if st[key] != v:
                c = copy.deepcopy(sc)
                c["steps"][k][key] = v
                yield c
    for k, t in enumerate(sc["targets"]):
        if t["pre"] != "none":
            c = copy.deepcopy(sc)
            c["targets"][k]["pre"] = "none"
            yield c
    yield from shrink_samplers(sc)
    if sc["mode"] == "threads":
        c = copy.deepcopy(sc)
        c["mode"] = "seq"
        yield c
        yield from shrink_switches(sc)


def shrink_samplers(sc):
    for k, s in enumerate(sc["samplers"]):
        for key in ("cut", "spoil"):
            if key in s:
                c = copy.deepcopy(sc)
                del c["samplers"][k][key]
                c["samplers"][k]["p"]["nsamples"] = min(s["p"]["nsamples"], 3)
                yield c
        if s["w"]["kind"] != "identity" and s["algo"] != "MYULA":
            c = copy.deepcopy(sc)
            c["samplers"][k]["algo"] = "MYULA"
            yield c
        if s["p"]["nsamples"] > 1:
            c = copy.deepcopy(sc)
            c["samplers"][k]["p"]["nsamples"] = 1
            yield c
        for tr in list(s["p"]["track"]):
            c = copy.deepcopy(sc)
            c["samplers"][k]["p"]["track"].remove(tr)
            yield c
