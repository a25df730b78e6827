"""C12: a save on a failing disk reports the failure and never damages what is already there."""
import copy
import os
import shutil

from sim.chain import *
from sim.engine import digest, viol
from sim import boot, saves, sched
from sim.props.c11 import prepare, shrink_samplers
from pxmcmc.saving import save_mcmc

ID = "C12"
LEVEL = "fault_enumeration"
RUNS = {"quick": 700, "thorough": 14000}
RULE = ("a history of 2 to 6 saves on a simulated disk; in some an I/O operation fails once (EIO, ENOSPC, EDQUOT, EROFS, "
        "EACCES, EMFILE), fails several times, keeps failing until healed, the disk fills up after n bytes, a write is short and then fails, an "
        "extra cannot be stored, or an exception lands on a line of the saving code; each save in a forked process; then the "
        "disk heals and the save is retried; non-trivial: at least one fault fired; distinct by (history, fired fault trace)")
REAL = ["pxmcmc.saving", "h5py and HDF5", "the samplers saved"]
STUB = ["disk system calls (simdisk.so)", "numpy random draws"]
INTER = "distinct (save history, fired disk fault trace)"
STEP_UNIT = "disk operations"
ASSUMPTIONS = ["errors reach the process as failed system calls; silent corruption by the device is not modelled",
               "reads back through h5py"]

FAULTS = ["err", "err", "err", "sticky", "space", "short_err", "extra", "line", "burst", "flaky", "second", "second"]
MOVES = ("rename", "link", "unlink")


def gen(r, i, tier):
    ns = r.choice([1, 2])
    sc = {"samplers": [saves.gen_sampler(r) for _ in range(ns)]}
    targets = []
    for _ in range(r.choice([1, 2, 3])):
        t = saves.gen_target(r)
        if t not in targets:
            targets.append(t)
    for t in targets:
        t["pre"] = r.choice(["none", "none", "hdf5", "garbage", "part"])
    if r.random() < 0.3:  # the same run made again with other draws: a file of the same layout and size
        sc["samplers"] = [sc["samplers"][0], dict(copy.deepcopy(sc["samplers"][0]), seed=r.randrange(2**31))]
        ns = 2
    steps = []
    for k in range(r.choice([2, 3, 6])):
        st = {"s": r.randrange(ns), "t": r.randrange(len(targets)), "extras": saves.gen_extras(r), "fault": None}
        if steps and r.random() < 0.3:
            st["t"], st["extras"] = steps[-1]["t"], copy.deepcopy(steps[-1]["extras"])
        if r.random() < 0.7:
            f = r.choice(FAULTS)
            e = r.choice(["EIO", "ENOSPC", "EDQUOT", "EROFS", "EACCES", "EMFILE"])
            if f == "second" and r.random() < 0.7:
                e = r.choice(["EACCES", "EXDEV", "EPERM", "EBUSY"])
            st["fault"] = {"kind": f, "pos": r.randrange(10**6), "errno": e, "frac": r.random(), "arg": r.randrange(1 << 20),
                           "exc": r.choice(["keyboard", "memory", "runtime", "os"]),
                           "bad": r.choice(["none", "huge", "dict"])}
            st["retry"] = r.random() < 0.7
        steps.append(st)
    sc["targets"], sc["steps"] = targets, steps
    return sc


def child_save(D, t, m, params, extras, plan, space, line):
    def go():
        mem = saves.mem_digest(m, params)
        D.on(plan, space)
        out = os.path.join(D.root, t["dir"])
        f = lambda: save_mcmc(m, params, out, filename=t["name"], **extras)
        err, fired = None, False
        try:
            if line is not None:
                _, e, _, fired = sched.interrupt_run(f, boot.PKG, line[0], EXC[line[1]]("injected by the simulator"))
                if e is not None:
                    raise e
            else:
                f()
        except BaseException as e:
            err = f"{type(e).__name__}"
        fl, log, ops = D.fired(), D.log(), D.ops()
        import gc

        gc.collect()                # whatever a failed save left open is closed now, still on the faulty disk
        D.off()
        return {"err": err, "fired": fl, "log": log, "ops": ops, "mem": saves.mem_digest(m, params) == mem, "line": fired}

    return saves.in_child(go)


def run(sc):
    D = saves.disk()
    D.wipe()
    try:
        return _run(sc, D)
    finally:
        D.off()
        D.wipe()


def calibrate(D, t, m, params, extras):
    """How many operations, bytes and source lines an undisturbed save of this state takes on this disk (left as it is)."""
    def go():
        D.on()
        _, e, lines, _ = sched.interrupt_run(lambda: save_mcmc(m, params, os.path.join(D.root, t["dir"]), filename=t["name"],
                                                               **extras), boot.PKG, -1, None)
        n = D.ops()
        b = sum(x[2] for x in D.log() if x[0] in ("write", "pwrite") and x[2] > 0)
        moves = [i for i, x in enumerate(D.log()) if x[0] in MOVES]
        D.off()
        if e is not None:
            return ("raised", f"{type(e).__name__}: {str(e)[:100]}")
        return (n, b, lines, moves)

    base = D.root + ".base"
    shutil.rmtree(base, ignore_errors=True)
    shutil.copytree(D.root, base)
    try:
        return saves.in_child(go)
    finally:
        shutil.rmtree(D.root)
        os.rename(base, D.root)


def _run(sc, D):
    S = [saves.build_sampler(s) for s in sc["samplers"]]
    model = {}                      # target -> snapshot known to be in the file, or None: untouched preset
    for t in sc["targets"]:
        prepare(D.root, t)
    faults, probes, trace, nops = {}, {"failed-saves": 0, "retried": 0, "raised-but-new": 0, "saves": 0}, [], 0
    res = {"faults": faults, "probes": probes, "nontrivial": False}

    def count(k, n=1):
        if n:
            faults[k] = faults.get(k, 0) + n

    def out(cls, d):
        res["viol"] = viol(cls, d)
        res["trace"] = trace
        return res

    for k, st in enumerate(sc["steps"]):
        m, params = S[st["s"]]
        t = sc["targets"][st["t"]]
        extras = saves.build_extras(st["extras"])
        f = st["fault"]
        cal = calibrate(D, t, m, params, extras)
        if cal[0] != "ok":
            return out("process-death" if cal[0] in ("exit", "signal") else cal[0], f"save {k} without faults: {cal}")
        if cal[1][0] == "raised":
            return out("unexpected-exception", f"save {k} without faults raised {cal[1][1]}")
        n, nbytes, lines, moves = cal[1]
        plan, space, line = [], None, None
        for attempt in range(2):
            if f is not None and attempt == 0:
                at, no = f.get("at", f["pos"] % max(n, 1)), saves.ERRNOS[f["errno"]]
                if f["kind"] == "err":
                    plan = [[at, saves.ERR, no]]
                elif f["kind"] == "burst":       # a few operations in a row, then the disk is well again
                    plan = [[at + j, saves.ERR, no] for j in range(2 + f["arg"] % 5)]
                elif f["kind"] == "flaky":       # every other operation
                    plan = [[at + j * (1 + f["arg"] % 3), saves.ERR, no] for j in range(2 + f["arg"] % 7)]
                elif f["kind"] == "second":      # an operation (mostly the one that moves the file) fails, then what is done instead
                    if moves and f["frac"] < 0.7:
                        at = moves[f["pos"] % len(moves)]
                    plan = [[at, saves.ERR, no], [at + 1 + f["arg"] % 5, (saves.ERR, saves.STICKY)[f["arg"] // 5 % 2],
                                                  saves.ERRNOS[("EIO", "ENOSPC")[f["arg"] // 10 % 2]]]]
                elif f["kind"] == "sticky":
                    plan = [[at, saves.STICKY, no]]
                elif f["kind"] == "short_err":
                    plan = [[at, saves.SHORT, f["arg"]], [at + 1, saves.STICKY, no]]
                elif f["kind"] == "space":
                    space = int(nbytes * f["frac"] * 1.2)
                elif f["kind"] == "line":
                    line = [f["pos"] % max(lines, 1), f["exc"]]
                elif f["kind"] == "extra":
                    extras = dict(extras, bad_one=saves.build_extras([["x", f["bad"], 3]])["x"])
            snap = saves.snapshot(m, params, extras) if "bad_one" not in extras else None
            path = saves.target_path(D.root, t)
            before = D.tree()
            probes["saves"] += 1
            r = child_save(D, t, m, params, extras, plan, space, line)
            if r[0] == "harness":
                raise RuntimeError(r[1])
            if r[0] != "ok":
                what = {"exit": "the process exited", "signal": "the process was killed by signal", "hang": "the save hung"}[r[0]]
                return out("process-death" if r[0] != "hang" else "hang", f"save {k}: {what} {r[1:]}")
            r = r[1]
            nops += r["ops"]
            trace.append([k, attempt, r["err"], r["log"]])
            count("io-error", r["fired"][saves.ERR])
            count("persistent-io-error", r["fired"][saves.STICKY])
            count("short-write", r["fired"][saves.SHORT])
            count("disk-full", r["fired"][10])
            count("exception-on-line", int(r["line"]))
            hit = any(r["fired"][1:]) or r["line"]
            if "bad_one" in extras:
                count("unstorable-extra")
                hit = True
            res["nontrivial"] = res["nontrivial"] or hit
            if not r["mem"]:
                return out("memory", f"save {k} changed the sampler or its parameters in memory")
            after = D.tree()
            rel = os.path.relpath(path, D.root)
            for j, o in enumerate(sc["targets"]):
                orel = os.path.relpath(saves.target_path(D.root, o), D.root)
                if j != st["t"] and before.get(orel) != after.get(orel):
                    return out("other-file", f"save {k} to target {st['t']} changed target {j}")
            if r["err"] is None:
                if snap is None:
                    # nothing says an oversized or exotic extra must be refused, but a save that returns holds it in some form
                    d = saves.lacks(path, "bad_one", extras["bad_one"] if f["bad"] == "huge" else None)
                    if d:
                        return out("false-success", f"save {k} returned although {d}")
                    probes["extra-accepted"] = probes.get("extra-accepted", 0) + 1
                    model.pop(st["t"], None)
                    break
                d = saves.diff(path, snap)
                if d:
                    return out("false-success", f"save {k} returned although {d}")
                model[st["t"]] = snap
                break
            # the save raised
            probes["failed-saves"] += 1
            if not hit:
                return out("unexpected-exception", f"save {k} (attempt {attempt}) raised {r['err']} on a healthy disk")
            if before.get(rel) != after.get(rel):
                d = "the save holds an extra that cannot be stored" if snap is None else saves.diff(path, snap)
                if d:
                    return out("damaged", f"save {k} raised {r['err']} and left the target neither as it was nor complete: {d}")
                probes["raised-but-new"] += 1
                model[st["t"]] = snap
            if not st.get("retry"):
                break
            plan, space, line = [], None, None
            extras = saves.build_extras(st["extras"])
            probes["retried"] += 1
        for j, snap in model.items():
            d = saves.diff(saves.target_path(D.root, sc["targets"][j]), snap)
            if d:
                return out("damaged", f"after save {k}, target {j}: {d}")
    res["steps"] = nops
    res["inter"] = digest([sc["targets"], [[s["s"], s["t"]] for s in sc["steps"]], trace])
    res["obs"] = trace
    return res


def shrink(sc):
    for k in range(len(sc["steps"])):
        if len(sc["steps"]) > 1:
            c = copy.deepcopy(sc)
            del c["steps"][k]
            yield c
    for k, st in enumerate(sc["steps"]):
        for key, v in (("fault", None), ("extras", [])):
            if st[key] != v:
                c = copy.deepcopy(sc)
                c["steps"][k][key] = v
                yield c
    for k, t in enumerate(sc["targets"]):
        if t["pre"] != "none":
            c = copy.deepcopy(sc)
            c["targets"][k]["pre"] = "none"
            yield c
    yield from shrink_samplers(sc)
