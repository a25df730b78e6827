"""C04: which iterations are recorded, and that recording choices never alter the chain."""
import numpy as np

from sim.chain import *
from sim.engine import viol
from sim import worlds
from sim.props.c01 import gen_overrides

ID = "C04"
LEVEL = "exploration"
RUNS = {"quick": 2400, "thorough": 60000}
RULE = ("seeded problem, sampler and recording configuration (burn-in, thinning, number of samples, tracked subset, "
        "verbosity); the same draws also drive a run that records every iteration, and each recorded row is compared "
        "with the row of the iteration it must come from; non-trivial: burn-in, thinning or a tracked subset in force; "
        "distinct by outcome digest")
REAL = ["pxmcmc.mcmc MYULA, PxMALA, SKROCK", "operators and priors underneath"]
STUB = ["numpy random draws (seeded, logged)", "console output (discarded)"]
ASSUMPTIONS = ["the two runs of a pair see the same draws"]


def gen(r, i, tier):
    algo = r.choice(["MYULA", "PxMALA", "SKROCK"])
    w = worlds.gen_world(r)
    p = worlds.gen_params(r, w, 1)
    p["s"] = r.choice([1, 2, 3])
    p["nsamples"] = r.choice([0, 1, 1, 2, 3, 5, 9, 20])
    p["ngap"] = r.choice([0, 1, 2, 3, 4, 7, 10])
    p["nburn"] = r.choice([0, 1, 2, 3, 5, 10, 25])
    if i % 40 == 11:
        w = worlds.gen_world(r, kinds=["dense", "path", "cdense"])
        p["nburn"], p["ngap"], p["nsamples"] = r.choice([
            (1000, 1, 3), (0, 100, 12), (150, 10, 60), (3, 1, 1100), (1300, 1, 3), (2600, 7, 2), (0, 130, 9), (5, 600, 4), (1, 1100, 3)])
    p["track"] = [t for t in TRACKS if r.random() < 0.55]
    if r.random() < 0.3:
        p["track"] = list(TRACKS)
    r.shuffle(p["track"])
    p["verbosity"] = r.choice([0, 0, 1, 2, 3, 10])
    p["tune"] = r.random() < 0.6
    if r.random() < 0.15:  # the experiments pass nburn=10e6 and verbosity=1e3
        p["nburn"], p["verbosity"] = float(p["nburn"]), float(p["verbosity"])
    return {"w": w, "p": p, "algo": algo, "seed": r.randrange(2**31), "start": gen_start(r),
            "overrides": gen_overrides(r, ["N", "U", "L"], 50)}


def run(sc):
    p, algo = sc["p"], sc["algo"]
    E = iterations(p)
    W = worlds.build(sc["w"])
    X0 = start_point(W, sc)
    keep = None if X0 is None else X0.copy()
    R = run_chain(W, p, algo, sc["seed"], X0, sc["overrides"])
    got = rows(R.m)
    res = {"steps": 2 * E, "faults": {"rare-draw": R.stream.overridden}, "obs": got,
           "probes": {algo: 1, "burn": int(p["nburn"] > 0), "thin": int(p["ngap"] > 1)},
           "nontrivial": p["nburn"] > 0 or p["ngap"] > 1 or len(p["track"]) < 5}
    if X0 is not None and not np.array_equal(X0, keep):
        res["viol"] = viol("start-mutated", "the caller's start point was modified by the run")
        return res
    want_keys = {ATTR[t] for t in p["track"]}
    have = set(got) - {"acceptance_trace", "deltas_trace"}
    if have != want_keys:
        res["viol"] = viol("tracked-set", f"tracked {sorted(p['track'])} but recorded {sorted(have)}")
        return res
    for k in have:
        if got[k].shape[0] != p["nsamples"]:
            res["viol"] = viol("row-count", f"{k} has {got[k].shape[0]} rows for {p['nsamples']} samples")
            return res
    if E == 0:
        return res
    W2 = worlds.build(sc["w"])
    p2 = dict(p, nburn=0, ngap=1, nsamples=int(E), track=list(TRACKS), verbosity=0)
    R2 = run_chain(W2, p2, algo, sc["seed"], None if keep is None else keep.copy(), sc["overrides"])
    full = rows(R2.m)
    idx = int(p["nburn"]) + np.arange(p["nsamples"]) * max(p["ngap"], 1)
    for k in sorted(have):
        e = full[k][idx]
        d = same({k: got[k]}, {k: e})
        if d:
            res["viol"] = viol("wrong-row", f"{algo} nburn={p['nburn']} ngap={p['ngap']} track={sorted(p['track'])}: "
                                            f"recorded rows are not iterations nburn+k*gap of the chain ({d})")
            return res
    for k in ("acceptance_trace", "deltas_trace"):
        if (k in got) != (k in full):
            res["viol"] = viol("traces", f"{k} present in one run only")
            return res
        if k in got:
            d = same({k: got[k]}, {k: full[k]})
            if d:
                res["viol"] = viol("traces", f"recording choices changed {d}")
                return res
    if R.stream.counts != R2.stream.counts:
        res["viol"] = viol("iterations", f"recording choices changed the number of iterations (draws "
                                         f"{R.stream.counts} against {R2.stream.counts} for {E} iterations)")
    return res


def shrink(sc):
    yield from shrink_common(sc)
