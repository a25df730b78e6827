"""C13: a process killed during a save leaves each file as one complete save: the last one or the new one."""
import copy
import os

from sim.chain import *
from sim.engine import digest, viol
from sim import saves
from sim.props.c11 import prepare, shrink_samplers
from sim.props.c12 import child_save

ID = "C13"
LEVEL = "fault_enumeration"
RUNS = {"quick": 300, "thorough": 6000}
RULE = ("a short history of saves; then one more save is killed before, in the middle of (torn write) and after each of its "
        "disk operations in turn (up to 40 kill points, evenly spread if there are more), each time from the same disk state; "
        "after every kill the disk is inspected by a new process, and now and then the save is repeated or a second crash "
        "follows; non-trivial: at least one kill happened inside a save; distinct by (history, kill points)")
REAL = ["pxmcmc.saving", "h5py and HDF5", "the samplers saved", "process death (_exit inside the system call)"]
STUB = ["disk system calls (simdisk.so)", "numpy random draws"]
INTER = "distinct (save history, kill point) sets"
STEP_UNIT = "disk operations"
ASSUMPTIONS = ["the process dies, the operating system does not: what a system call completed is on disk "
               "(no fsync is made, so power loss is not claimed)"]
MOVES = ("rename", "link", "unlink")
KINDS = {"before": saves.CRASH_BEFORE, "torn": saves.CRASH_TORN, "after": saves.CRASH_AFTER}


def gen(r, i, tier):
    ns = r.choice([1, 2])
    sc = {"samplers": [saves.gen_sampler(r) for _ in range(ns)], "points": None, "pick": r.randrange(2**31)}
    targets = []
    for _ in range(r.choice([1, 1, 2])):
        t = saves.gen_target(r)
        if t not in targets:
            targets.append(t)
    for t in targets:
        t["pre"] = r.choice(["none", "none", "hdf5", "part"])
    hist = [{"s": r.randrange(ns), "t": r.randrange(len(targets)), "extras": saves.gen_extras(r)}
            for _ in range(r.choice([0, 1, 1, 2]))]
    sc["targets"], sc["hist"] = targets, hist
    sc["last"] = {"s": r.randrange(ns), "t": r.randrange(len(targets)), "extras": saves.gen_extras(r)}
    if r.random() < 0.4:  # the same run made again with other draws: a file of the same layout and size
        twin = dict(copy.deepcopy(sc["samplers"][sc["last"]["s"]]), seed=r.randrange(2**31))
        sc["samplers"].append(twin)
        hist.append({"s": ns, "t": sc["last"]["t"], "extras": copy.deepcopy(sc["last"]["extras"])})
    sc["resave"] = r.random() < 0.5
    sc["pairs"] = r.choice([0, 0, 6, 12])
    sc["keep"] = r.random() < 0.3           # crashes pile up instead of starting from the same disk each time
    return sc


def run(sc):
    D = saves.disk()
    D.wipe()
    try:
        return _run(sc, D)
    finally:
        D.off()
        D.wipe()


def _run(sc, D):
    import shutil

    S = [saves.build_sampler(s) for s in sc["samplers"]]
    for t in sc["targets"]:
        prepare(D.root, t)
    faults, probes = {}, {"kills": 0, "left-old": 0, "left-new": 0, "resaved": 0, "no-kill": 0}
    trace, nops = [], 0
    res = {"faults": faults, "probes": probes}

    def out(cls, d):
        res["viol"] = viol(cls, d)
        res["trace"] = trace
        return res

    def ok(r, what):
        if r[0] == "harness":
            raise RuntimeError(r[1])
        if r[0] != "ok":
            return out("process-death", f"{what}: {r}")
        if r[1].get("err") if isinstance(r[1], dict) else r[1][0] == "raised":
            return out("unexpected-exception", f"{what} raised {r[1]['err'] if isinstance(r[1], dict) else r[1][1]}")
        return None

    model = {}
    for st in sc["hist"]:
        m, params = S[st["s"]]
        ex = saves.build_extras(st["extras"])
        r = child_save(D, sc["targets"][st["t"]], m, params, ex, [], None, None)
        if ok(r, "a save on a healthy disk"):
            return res
        model[st["t"]] = saves.snapshot(m, params, ex)
    st = sc["last"]
    m, params = S[st["s"]]
    ex = saves.build_extras(st["extras"])
    snap = saves.snapshot(m, params, ex)
    t = sc["targets"][st["t"]]
    path = saves.target_path(D.root, t)
    rel = os.path.relpath(path, D.root)
    # the shared starting disk
    base = D.root + ".base"
    shutil.rmtree(base, ignore_errors=True)
    shutil.copytree(D.root, base)
    r = child_save(D, t, m, params, ex, [], None, None)     # how many operations the save takes on this disk
    shutil.rmtree(D.root)
    shutil.copytree(base, D.root)
    if ok(r, "a save on a healthy disk"):
        return res
    n = r[1]["ops"]
    if sc["points"] is None:
        import random

        g = random.Random(sc["pick"])
        pts = [[at, k, g.randrange(1 << 20)] for at in range(n) for k in KINDS]
        if len(pts) > 40:
            pts = sorted(g.sample(pts, 40))
        moves = [i for i, x in enumerate(r[1]["log"]) if x[0] in MOVES] or [n - 1]
        for _ in range(sc.get("pairs", 0)):  # the operation that moves the file fails, the process dies in what it does instead
            e = g.choice(moves) if g.random() < 0.8 else g.randrange(n)
            pts.append([e + 1 + g.randrange(4), g.choice(sorted(KINDS)), g.randrange(1 << 20),
                        [e, g.choice(["EACCES", "EXDEV", "EPERM", "EBUSY", "EIO", "ENOSPC"])]])
        if sc["keep"]:
            g.shuffle(pts)
    else:
        pts = sc["points"]
    done = []
    try:
        for at, kind, arg, *err in pts:
            plan = [[e, saves.ERR, saves.ERRNOS[no]] for e, no in err]
            if not sc["keep"]:
                shutil.rmtree(D.root)
                shutil.copytree(base, D.root)
            before = D.tree()
            r = child_save(D, t, m, params, ex, plan + [[at, KINDS[kind], arg]], None, None)
            if r[0] == "harness":
                raise RuntimeError(r[1])
            done.append([at, kind, arg] + err)
            if r[0] == "ok":
                probes["no-kill"] += 1
                nops += r[1]["ops"]
                if r[1]["err"] and not r[1]["fired"][saves.ERR]:
                    return out("unexpected-exception", f"the save raised {r[1]['err']} on a healthy disk")
                d = None if r[1]["err"] else saves.diff(path, snap)
                if d:
                    return out("lost", f"the save returned but {d}")
                if not r[1]["err"]:
                    model[st["t"]] = snap
            elif r == ("exit", saves.CRASHED):
                probes["kills"] += 1
                nops += at + 1
                if err:
                    faults["error-then-kill"] = faults.get("error-then-kill", 0) + 1
                faults["kill-" + kind] = faults.get("kill-" + kind, 0) + 1
            else:
                return out("process-death", f"the process died by itself: {r}")
            after = D.tree()
            for j, o in enumerate(sc["targets"]):
                orel = os.path.relpath(saves.target_path(D.root, o), D.root)
                if j != st["t"] and before.get(orel) != after.get(orel):
                    return out("other-file", f"a killed save to target {st['t']} changed target {j}")
            if before.get(rel) == after.get(rel):
                probes["left-old"] += 1
            else:
                d = saves.diff(path, snap)
                if d:
                    res["points"] = [[at, kind, arg] + err]
                    return out("torn", f"killed {kind} disk operation {at} of {n}: the target is neither the previous file nor a "
                                       f"complete new one: {d}")
                probes["left-new"] += 1
            trace.append([at, kind, after.get(rel) == before.get(rel)])
            if sc["resave"]:
                r = child_save(D, t, m, params, ex, [], None, None)
                if ok(r, f"saving again after a kill ({kind} operation {at})"):
                    return res
                d = saves.diff(path, snap)
                if d:
                    return out("lost", f"saving again after a kill ({kind} operation {at}): {d}")
                probes["resaved"] += 1
    finally:
        shutil.rmtree(base, ignore_errors=True)
    res["steps"] = nops
    res["nontrivial"] = probes["kills"] > 0
    res["inter"] = digest([sc["targets"], sc["hist"], sc["last"], done])
    res["obs"] = trace
    return res


def concretize(sc, res):
    return dict(copy.deepcopy(sc), points=res["points"]) if sc["points"] is None and res.get("points") else None


def shrink(sc):
    for k in range(len(sc["hist"])):
        c = copy.deepcopy(sc)
        del c["hist"][k]
        yield c
    if sc["points"] and len(sc["points"]) > 1:
        for k in range(len(sc["points"])):
            c = copy.deepcopy(sc)
            del c["points"][k]
            yield c
    for key, v in (("resave", False), ("keep", False)):
        if sc[key] != v:
            yield dict(copy.deepcopy(sc), **{key: v})
    if sc["last"]["extras"]:
        c = copy.deepcopy(sc)
        c["last"]["extras"] = []
        yield c
    for k, t in enumerate(sc["targets"]):
        if t["pre"] != "none":
            c = copy.deepcopy(sc)
            c["targets"][k]["pre"] = "none"
            yield c
    yield from shrink_samplers(sc)
