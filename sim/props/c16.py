"""C16: PxMALA's step size follows the documented adaptation, and only then."""
import numpy as np

from sim.chain import *
from sim.engine import viol
from sim import worlds
from sim.props.c01 import gen_overrides
from sim.props import c02

ID = "C16"
LEVEL = "exploration"
RUNS = {"quick": 2400, "thorough": 60000}
RULE = ("seeded problem with forced acceptance / rejection streaks (uniforms forced to 0 or to just below 1) so that "
        "both limits of the step size are hit; non-trivial: tuning on and at least two updates, or tuning off; "
        "distinct by outcome digest")
REAL = ["pxmcmc.mcmc PxMALA", "operators and priors underneath"]
STUB = ["numpy random draws (seeded, logged, streaks of accepting / rejecting uniforms injected)"]
ASSUMPTIONS = ["the accepted noise is drawn through numpy.random"]


def gen(r, i, tier):
    w = worlds.gen_world(r, kinds=["dense", "identity", "path", "cdense", "cidentity", "swt", "cswt"])
    steps = r.choice([1, 2, 5, 12, 30, 60])
    if i % 60 == 3:
        steps = 1500
    if i % 400 == 57:
        w = worlds.gen_world(r, kinds=["dense", "identity"])
        steps = 11000 if tier == "quick" else r.choice([11000, 30000])
    p = worlds.gen_params(r, w, steps)
    p["rel"] = r.choice([1e-6, 0.02, 0.2, 0.9, 3.0])
    p["tune"] = r.random() < 0.8
    k = r.random()
    if k < 0.15:
        p["delta"] = p["lmda"] * r.choice([0.5, 0.45, 0.6, 2.0])  # at or above the upper limit
    elif k < 0.3:
        p["delta"] = p["lmda"] * r.choice([1e-8, 1.2e-8, 1e-9])  # at or below the lower limit
    gen_schedule(r, p, steps)
    p["verbosity"] = r.choice([0, 0, 3])
    p["track"] = ["chain"] + [t for t in TRACKS if t != "chain" and r.random() < 0.3]
    ov = []
    mode = r.choice(["none", "accept", "reject", "alternate", "streaks"])
    for j in range(min(steps, 80)):
        if mode == "accept" or (mode == "alternate" and j % 2) or (mode == "streaks" and (j // 7) % 2):
            ov.append(["U", j, 0.0])
        elif mode in ("reject", "alternate", "streaks"):
            ov.append(["U", j, 1 - 2**-53])
    return {"w": w, "p": p, "seed": r.randrange(2**31), "start": {"seed": r.randrange(99), "kind": "plain"},
            "overrides": ov, "reruns": r.choice([0, 0, 1])}


def run(sc):
    W = worlds.build(sc["w"])
    p = sc["p"]
    X0 = start_point(W, sc)
    Spy(W, log_states=True)
    R = run_chain(W, p, "PxMALA", sc["seed"], X0.copy(), sc["overrides"])
    res = {"steps": iterations(p), "faults": {"forced-decision": R.stream.overridden}, "obs": rows(R.m), "probes": {}}
    res["viol"] = judge(W, p, R, X0, R.delta0, res)
    for k in range(sc["reruns"]):
        if res["viol"]:
            return res
        d0 = float(R.m.delta)  # a second run carries on from the adapted step size
        R = run_chain(W, p, "PxMALA", sc["seed"] + 1 + k, X0.copy(), [], sampler=R.m)
        res["steps"] *= 2
        res["viol"] = judge(W, p, R, X0, d0, res)
    return res


def judge(W, p, R, X0, d0, res):
    iters = iterations(p)
    m = R.m
    acc = np.array(list(m.acceptance_trace), dtype=float)
    tr = np.array(list(m.deltas_trace), dtype=float)
    if acc.size != iters or not np.all((acc == 0) | (acc == 1)):
        return viol("acceptance-count", f"{acc.size} decisions recorded for {iters} iterations")
    lo, hi = p["lmda"] * 1e-8, p["lmda"] / 2
    if not p["tune"]:
        if m.delta != d0:
            return viol("untuned-step", f"step size changed from {d0} to {m.delta} although tuning is off")
        if np.any(tr != d0):
            return viol("untuned-trace", "step size trace is not constant although tuning is off")
    else:
        if tr.size != iters + 1:
            return viol("trace-length", f"{tr.size} step sizes recorded for {iters} iterations (expected one more)")
        if not np.isclose(tr[0], d0, rtol=1e-12):
            return viol("trace-start", f"first step size {tr[0]} is not the starting one {d0}")
        for i in range(iters):
            e = tr[i] * (1 + (acc[i] - 0.5) / (i + 1) ** 0.75)
            e = min(max(e, lo), hi)
            if not np.isclose(tr[i + 1], e, rtol=1e-11):
                return viol("update", f"after iteration {i} (accepted={int(acc[i])}) the step size went from {tr[i]!r} "
                                      f"to {tr[i+1]!r}, expected {e!r}")
            res["probes"]["upper-limit"] = res["probes"].get("upper-limit", 0) + int(e == hi)
            res["probes"]["lower-limit"] = res["probes"].get("lower-limit", 0) + int(e == lo)
        if not np.isclose(float(m.delta), tr[-1], rtol=1e-12):
            return viol("final", "the sampler's step size is not the last one of its trace")
    # the step size recorded is the one the proposal was really made with
    Z = R.stream.values("N")
    ds = tr[:iters] if p["tune"] else np.full(iters, d0)
    F = [v if W.complex else np.real(v) for k, v in R.log if k == "F"]
    cands = [c for c in (noise_rows(Z, W.nparams, W.complex, iters, o) for o in ((0, 1, 2) if W.complex else (0,)))
             if c is not None]
    if cands and len(F) == iters + 1:
        prev = X0
        for i in range(iters):
            d = ds[i]
            if not np.all(np.isfinite(prev)) or np.abs(prev).max() > 1e7:
                res["probes"]["blow-up"] = 1
                break
            mean = prev - d * ((prev - W.ref.prox(prev)) / p["lmda"] + W.ref.grad(prev))
            m_ = max(np.abs(prev).max(), np.abs(mean).max(), 1e-3)
            tol = 1e-10 * (m_ * (1 + W.plip * d / p["lmda"]) + d * W.lip * (m_ + np.abs(W.ref.data).max())) + 1e-11
            if min(np.abs(mean + s * np.sqrt(2 * d) * c[i] - F[i + 1]).max() for c in cands for s in (1, -1)) > tol:
                return viol("step-used", f"iteration {i}: the proposal was not made with the recorded step size {d!r}")
            prev = F[i + 1] if acc[i] else prev
    return None


def shrink(sc):
    yield from shrink_common(sc)
