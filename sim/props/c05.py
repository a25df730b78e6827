"""C05: in every recorded row, sample, predictions, misfit, prior and log posterior belong together."""
import numpy as np

from sim.chain import *
from sim.engine import viol
from sim import worlds
from sim.props.c01 import gen_overrides

ID = "C05"
LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 80000}
RULE = ("seeded problem, sampler and recording configuration with forced acceptance and rejection streaks and rare "
        "draws; every recorded row is recomputed from its sample with the dense reference; non-trivial: at least two "
        "quantities in at least one row compared; distinct by outcome digest")
REAL = ["pxmcmc.mcmc MYULA, PxMALA, SKROCK", "pxmcmc.forward", "pxmcmc.measurements", "pxmcmc.transforms",
        "pxmcmc.prior"]
STUB = ["numpy random draws (seeded, logged, rare values injected)", "console output (discarded)"]
ASSUMPTIONS = ["noise model for complex data: the package's own convention"]


def gen(r, i, tier):
    algo = r.choice(["MYULA", "PxMALA", "PxMALA", "SKROCK"])
    w = worlds.gen_world(r, small=r.random() < 0.85)
    p = worlds.gen_params(r, w, 1)
    p["s"] = r.choice([1, 2, 3])
    if algo == "PxMALA":
        p["rel"] = r.choice([0.02, 0.2, 0.9, 2.0, 4.0])
    gen_schedule(r, p, r.choice([1, 2, 5, 12, 30]))
    if i % 40 == 11:
        w = worlds.gen_world(r, kinds=["dense", "path", "cdense", "identity"])
        gen_schedule(r, p, 1200)
    if i % 40 == 31:
        worlds.gen_box(r, w, p)
    p["track"] = ["chain"] + [t for t in TRACKS if t != "chain" and r.random() < 0.8]
    p["verbosity"] = r.choice([0, 0, 1, 5])
    p["tune"] = r.random() < 0.6
    return {"w": w, "p": p, "algo": algo, "seed": r.randrange(2**31), "start": gen_start(r),
            "overrides": gen_overrides(r, ["N", "U", "L"], 50)}


def agree(a, b, tol):
    return a == b if not np.isfinite(b) else abs(a - b) <= tol


def check_rows(W, p, got, upto=None):
    ref = W.ref
    n = got["chain"].shape[0] if upto is None else upto
    for j in range(n):
        X = got["chain"][j]
        if not np.all(np.isfinite(X)) or np.abs(X).max() > 1e8:
            break
        pr = ref.fwd(X)
        m = np.abs(X).max() + 1e-3
        ps = np.abs(ref.A).sum(1).max() * m + np.abs(ref.data).max()
        if "preds" in got:
            if got["preds"].shape[1:] != pr.shape:
                return viol("predictions", f"row {j}: predictions of shape {got['preds'].shape[1:]}, data has {pr.shape}")
            if not np.allclose(got["preds"][j], pr, rtol=0, atol=1e-9 * ps + 1e-10):
                return viol("predictions", f"row {j}: recorded predictions are not those of the recorded sample "
                                           f"(off by {np.abs(got['preds'][j]-pr).max():.3g})")
        L2, prior = ref.misfit(pr), ref.prior(X)
        l2s = ps**2 * np.abs(ref.cinv).sum() + 1
        if "L2s" in got and not agree(got["L2s"][j], L2, 1e-9 * l2s):
            return viol("misfit", f"row {j}: recorded misfit {got['L2s'][j]!r}, sample gives {L2!r}")
        box = getattr(W.prior, "b", None)
        if box is not None and np.abs(np.abs(X) - box).min() < 1e-9:
            continue  # on the edge of the prior's support
        pt = 1e-9 * (1 + (prior if np.isfinite(prior) else 0.0) + m)
        if "priors" in got and not agree(got["priors"][j], prior, pt):
            return viol("prior", f"row {j}: recorded prior {got['priors'][j]!r}, sample gives {prior!r}")
        lp = -p["mu"] * prior - L2 / 2
        if "logPi" in got and not agree(got["logPi"][j], lp, 1e-9 * l2s + abs(p["mu"]) * pt):
            return viol("log-posterior", f"row {j}: recorded log posterior {got['logPi'][j]!r}, sample gives {lp!r}")
    return None


def run(sc):
    p, algo = sc["p"], sc["algo"]
    W = worlds.build(sc["w"])
    X0 = start_point(W, sc)
    R = run_chain(W, p, algo, sc["seed"], X0, sc["overrides"])
    got = rows(R.m)
    return {"steps": iterations(p), "faults": {"rare-draw": R.stream.overridden}, "obs": got,
            "probes": {algo: 1, "complex": int(W.complex)}, "nontrivial": len(p["track"]) > 1,
            "viol": check_rows(W, p, got)}


def shrink(sc):
    yield from shrink_common(sc)
