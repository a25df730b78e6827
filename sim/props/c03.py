"""C03: every SK-ROCK transition is the published s-stage recursion with one fresh noise vector."""
import numpy as np

from sim.chain import *
from sim.chain import shrink_common as shrink
from sim.engine import viol
from sim import worlds
from sim.props.c01 import gen_overrides

ID = "C03"
LEVEL = "exploration"
RUNS = {"quick": 2400, "thorough": 60000}
RULE = ("seeded problem, 1 to 9 stages, step sizes up to and beyond the plain Langevin limit, rare draws forced in; "
        "every recorded transition is compared with an iterative closed-form reference driven by the logged noise; "
        "non-trivial: at least one transition compared; distinct by outcome digest")
REAL = ["pxmcmc.mcmc SKROCK", "pxmcmc.utils chebyshev", "pxmcmc.forward", "pxmcmc.measurements", "pxmcmc.transforms",
        "pxmcmc.prior", "pys2let/pyssht/scipy underneath"]
STUB = ["numpy random draws (seeded, logged, rare values injectable)", "user-written dense operators in some worlds"]
ASSUMPTIONS = ["noise is drawn through numpy.random or scipy.stats", "damping parameter 0.05 as in the package"]


def gen(r, i, tier):
    w = worlds.gen_world(r, small=r.random() < 0.85)
    steps = r.choice([1, 2, 3, 5, 8, 15])
    p = worlds.gen_params(r, w, steps)
    p["s"] = r.choice([1, 1, 2, 2, 3, 3, 4, 5])
    if r.random() < 0.06:
        p["s"] = r.choice([6, 7, 8])
        w = worlds.gen_world(r, kinds=["dense", "identity", "path", "cdense"])
    if i % 40 == 3:  # the stage numbers the experiments use
        p["s"] = r.choice([9, 10, 10, 10, 11, 12] if tier == "thorough" else [9, 10, 10])
        w = worlds.gen_world(r, kinds=["dense", "identity", "path", "cdense"])
        steps = r.choice([1, 1, 2])
    elif i % 150 == 5:  # many stages; the package's recursion takes 2.4^s gradients, so on a light operator
        p["s"] = r.choice([11, 12, 13, 14, 15] if tier == "thorough" else [11, 11, 12, 12, 13])
        w = dict(worlds.gen_world(r, kinds=["dense", "cdense"]), light=True, prior="L1")
        steps = 1
    elif p["s"] > 4:
        steps = min(steps, 3)
    if p["s"] > 10:
        pass
    elif i % 50 == 7:
        w = worlds.gen_world(r, kinds=["dense", "identity", "path", "cdense"])
        steps, p["s"] = (600 if tier == "quick" else 4000), r.choice([1, 2, 3])
    elif r.random() < 0.15:
        p["rel"], steps = r.choice([1.5, 4.0]), min(steps, 3)
    gen_schedule(r, p, steps)
    p["verbosity"] = r.choice([0, 0, 0, 1, 7])
    p["track"] = ["chain"] + [t for t in TRACKS if t != "chain" and r.random() < 0.5]
    return {"w": w, "p": p, "seed": r.randrange(2**31), "start": gen_start(r),
            "overrides": gen_overrides(r, ["N", "N", "L"], 60)}


def T(n, x):
    return np.cosh(n * np.arccosh(x))


def dT(n, x):
    t = np.arccosh(x)
    return n * np.sinh(n * t) / np.sinh(t)


def step(W, p, delta, X, Z):
    """(next state, magnitude of the largest intermediate)"""
    s, ref = p["s"], W.ref
    w0 = 1 + 0.05 / s**2
    w1 = T(s, w0) / dT(s, w0)
    q = np.sqrt(2 * delta) * Z

    def glp(x):
        return -(x - ref.prox(x)) / p["lmda"] - ref.grad(x)

    K0 = X
    K1 = X + (w1 / w0) * delta * glp(X + (s * w1 / 2) * q) + (s * w1 / w0) * q
    big = max(np.abs(K0).max(), np.abs(K1).max(), np.abs(q).max(), 1e-3)
    for j in range(2, s + 1):
        c = T(j - 1, w0) / T(j, w0)
        mu, nu = 2 * w1 * c, 2 * w0 * c
        K0, K1 = K1, mu * delta * glp(K1) + nu * K1 + (1 - nu) * K0
        big = max(big, np.abs(K1).max())
    return K1, big


def run(sc):
    W = worlds.build(sc["w"])
    p = sc["p"]
    X0 = start_point(W, sc)
    keep = None if X0 is None else X0.copy()
    R = run_chain(W, p, "SKROCK", sc["seed"], X0, sc["overrides"])
    chain = np.array(R.m.chain)
    n, iters, delta = W.nparams, iterations(p), R.delta0
    res = {"steps": iters, "faults": {"rare-draw": R.stream.overridden}, "obs": chain,
           "probes": {"unrecorded-steps": iters - p["nsamples"], f"stages-{p['s']}": iters}}
    if X0 is not None and not np.array_equal(X0, keep):
        res["viol"] = viol("start-mutated", "the caller's start point was modified by the run")
        return res
    prev0 = keep if keep is not None else initial_from_draws(R, W)
    Z = R.stream.values("N")
    cands = [c for c in (noise_rows(Z, n, W.complex, iters, o) for o in ((0, 1, 2) if W.complex else (0,)))
             if c is not None]
    if not cands:
        res["viol"] = viol("noise-count", f"{Z.size} normal draws for {iters} steps of dimension {n}: not one fresh "
                                          f"noise vector per step")
        return res
    worst, compared = None, 0
    for c in cands:
        for sign in (1, -1):
            prev, bad = prev0, None
            slack = 0.0
            cmpd = 0
            for i in range(iters):
                k = recorded(p, i)
                if prev is None:
                    prev = chain[k] if k is not None else None
                    continue
                if not np.all(np.isfinite(prev)) or np.abs(prev).max() > 1e7:
                    break
                nxt, big = step(W, p, delta, prev, sign * c[i])
                loc = 1e-10 * (big * (1 + W.plip * delta / p["lmda"])
                               + delta * W.lip * (big + np.abs(W.ref.data).max())) * (1 + p["s"] ** 2) + 1e-10
                slack = loc + 2 * slack
                if k is None:
                    prev = nxt
                    slack = min(slack, 1e-6 * big)
                    continue
                cmpd += 1
                if not np.abs(nxt - chain[k]).max() <= slack:
                    bad = (i, float(np.abs(nxt - chain[k]).max()))
                    break
                prev, slack = chain[k], 0.0
            if bad is None:
                compared = cmpd
                res["nontrivial"] = compared > 0
                return res
            worst = worst or bad
    res["viol"] = viol("step", f"iteration {worst[0]}: recorded state differs by {worst[1]:.3g} from the {p['s']}-stage "
                               f"recursion applied to the previous state")
    return res
