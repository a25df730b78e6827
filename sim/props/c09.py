"""C09: chains run concurrently on shared objects behave as if each ran alone."""
import copy

import numpy as np

from sim.chain import *
from sim.engine import digest, viol
from sim import boot, rng, sched, worlds
from sim.props.c06 import prefix_ok

ID = "C09"
LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 25000}
RULE = ("2 to 4 samplers (mixed algorithms) in threads share the operator, the prior, the parameter object and the start "
        "array; a seeded scheduler decides at every source line (sometimes every bytecode) of the package and every "
        "operator call who runs next; in a third of the runs one chain is killed by an exception at a random line; "
        "non-trivial: at least two chains interleaved; distinct by the sequence of context switches")
REAL = ["pxmcmc.mcmc", "pxmcmc.forward", "pxmcmc.prior", "pxmcmc.transforms", "pxmcmc.measurements", "pxmcmc.utils"]
STUB = ["thread scheduler (real threads, one running at a time, seeded switching)", "locks of the package (scheduler aware)",
        "numpy random draws (one seeded stream per chain)"]
INTER = "distinct context-switch sequences"
STEP_UNIT = "scheduling points"
ASSUMPTIONS = ["switches happen between source lines or bytecodes of the package, not inside C extensions",
               "each chain receives its own draws"]


def gen(r, i, tier):
    w = worlds.gen_world(r, kinds=["dense", "identity", "path", "cdense", "cpath", "swt", "pathwt", "wl", "cswt", "cpathwt"])
    p = worlds.gen_params(r, w, 1)
    p["s"] = r.choice([1, 2])
    gen_schedule(r, p, r.choice([2, 3, 5, 8]))
    p["track"] = list(TRACKS) if r.random() < 0.6 else ["chain"] + [t for t in TRACKS[:3] if r.random() < 0.5]
    p["tune"] = r.random() < 0.6
    p["verbosity"] = r.choice([0, 0, 1])
    tasks = [{"algo": r.choice(["MYULA", "PxMALA", "SKROCK"]), "seed": r.randrange(2**31)}
             for _ in range(r.choice([2, 2, 3, 4]))]
    sc = {"w": w, "p": p, "tasks": tasks, "start": gen_start(r), "sseed": r.randrange(2**31),
          "rate": r.choice([0.01, 0.05, 0.2, 0.5]), "switches": None, "opcodes": r.random() < 0.15,
          "build_inside": r.random() < 0.3, "share_op": r.random() < 0.85}
    if r.random() < 0.33:
        sc["kill"] = [r.randrange(len(tasks)), r.randrange(400), r.choice(["keyboard", "memory", "runtime"])]
    return sc


def run(sc):
    p = sc["p"]
    solo = []
    lines = []
    for t in sc["tasks"]:
        W = worlds.build(sc["w"])
        X0 = start_point(W, sc)
        R = run_chain(W, p, t["algo"], t["seed"], X0)
        solo.append(rows(R.m))
    W = worlds.build(sc["w"])
    Spy(W, yields=True)
    X0 = start_point(W, sc)
    keep = None if X0 is None else X0.copy()
    params = worlds.make_params(p, W, PxMCMCParams)
    pbefore = copy.deepcopy(vars(params))
    inputs = [np.array(v) for v in (W.data, W.sig, W.T)]
    others = [W]

    def sampler(t):
        Wt = W
        if not sc["share_op"]:
            Wt = worlds.build(sc["w"])
            others.append(Wt)
        kw = {"tune_delta": p["tune"]} if t["algo"] == "PxMALA" else {}
        return ALGOS[t["algo"]](Wt.op, Wt.prior, params, **kw)

    ms = [None] * len(sc["tasks"])
    init = [{}] * len(ms)
    if not sc["build_inside"]:
        ms = [sampler(t) for t in sc["tasks"]]
        init = [rows(m) for m in ms]
    S = sched.Scheduler(sc["sseed"], sc["switches"], sc["rate"], boot.PKG, sc["opcodes"], 3_000_000)

    def body(k, t):
        def f():
            if ms[k] is None:
                ms[k] = sampler(t)
            st = rng.Stream(t["seed"], None, budget(p, t["algo"]))
            with rng.using(st):
                ms[k].run() if X0 is None else ms[k].run(X0)
        return f

    ts = [S.spawn(body(k, t)) for k, t in enumerate(sc["tasks"])]
    kill = sc.get("kill")
    boom = None
    if kill:
        boom = EXC[kill[2]]("injected by the simulator")
        ts[kill[0]].interrupts[kill[1]] = boom
    S.run()
    res = {"steps": S.step, "faults": {"context-switch": len(S.taken), "killed-chain": S.interrupted},
           "probes": {"tasks": len(ts), "opcode-level": int(sc["opcodes"])},
           "inter": digest(S.taken if sc["switches"] is None else sc["switches"]),
           "switches": S.taken, "nontrivial": len(S.taken) > 1,
           "obs": [[rows(m) if m is not None else None for m in ms], S.step]}
    if S.deadlock:
        res["viol"] = viol("deadlock", "the concurrent chains blocked each other for ever")
        return res
    if S.step > S.max_steps:
        res["viol"] = viol("no-progress", "the concurrent chains did not finish")
        return res
    for k, (t, task) in enumerate(zip(sc["tasks"], ts)):
        if kill and k == kill[0] and S.interrupted:
            if task.error is None:
                res["viol"] = viol("swallowed", "the killed chain returned as if nothing had happened")
                return res
            if ms[k] is not None and hasattr(ms[k], "chain"):
                bad = prefix_ok(rows(ms[k]), solo[k], 0, init=init[k] or rows(sampler(t)))
                if bad:
                    res["viol"] = viol("killed-chain", f"the killed chain's records are not a prefix of its own: {bad}")
                    return res
            continue
        if task.error is not None:
            if isinstance(task.error, rng.BudgetExceeded):
                res["viol"] = viol("no-progress", f"chain {k} ({t['algo']}) never finished")
            else:
                res["viol"] = viol("error", f"chain {k} ({t['algo']}) failed only when run concurrently: "
                                            f"{type(task.error).__name__}: {task.error}")
            return res
        d = same(rows(ms[k]), solo[k])
        if d:
            res["viol"] = viol("interference", f"chain {k} ({t['algo']}) differs from its solo run when run next to "
                                               f"{[x['algo'] for x in sc['tasks']]}: {d}")
            return res
    if keep is not None and not np.array_equal(X0, keep):
        res["viol"] = viol("start-mutated", "the shared start point was modified")
    elif not all(np.array_equal(a, b) for a, b in zip(inputs, (W.data, W.sig, W.T))):
        res["viol"] = viol("inputs-mutated", "the shared data, data errors or thresholds were modified")
    elif vars(params) != pbefore:
        res["viol"] = viol("params-mutated", "the shared parameter object was modified")
    return res


def concretize(sc, res):
    if sc["switches"] is None and res.get("switches") is not None:
        return dict(copy.deepcopy(sc), switches=res["switches"])
    return None


def shrink_switches(sc):
    sw = sc.get("switches")
    if sw:
        n = len(sw)
        k = max(n // 2, 1)
        while True:
            for a in range(0, n, k):
                yield dict(copy.deepcopy(sc), switches=sw[:a] + sw[a + k:])
            if k == 1 or n > 200 and k <= n // 64:
                break
            k //= 2


def shrink(sc):
    if len(sc["tasks"]) > 2:
        for k in range(len(sc["tasks"])):
            if not sc.get("kill"):
                c = copy.deepcopy(sc)
                del c["tasks"][k]
                yield c
    if sc.get("kill"):
        c = copy.deepcopy(sc)
        del c["kill"]
        yield c
    yield from shrink_switches(sc)
    yield from shrink_common(sc)
