"""C01: every MYULA transition is the documented Langevin step with fresh noise."""
import numpy as np

from sim.chain import *
from sim.chain import shrink_common as shrink
from sim.engine import viol
from sim import worlds

ID = "C01"
LEVEL = "exploration"
RUNS = {"quick": 3200, "thorough": 60000}
RULE = ("seeded problem (15 operator/prior families, analysis and synthesis, real and complex, scalar / vector / "
        "matrix errors), step sizes from tiny to beyond stability, rare draws forced in; non-trivial: at least one "
        "transition whose noise was recovered and compared with the logged draws; distinct by outcome digest")
REAL = ["pxmcmc.mcmc MYULA", "pxmcmc.forward", "pxmcmc.measurements", "pxmcmc.transforms", "pxmcmc.prior",
        "pxmcmc.utils", "pys2let/pyssht/scipy underneath"]
STUB = ["numpy random draws (seeded, logged, rare values injectable)", "user-written dense operators in some worlds"]
ASSUMPTIONS = ["noise is drawn through numpy.random or scipy.stats"]


def gen_overrides(r, kinds, span):
    out = []
    for _ in range(r.choice([0, 0, 1, 3])):
        k = r.choice(kinds)
        v = {"N": [0.0, 8.5, -8.5, 1e-300], "U": [0.0, 1 - 2**-53, 1e-12, 0.5],
             "L": [0.0, 30.0, -30.0]}[k]
        out.append([k, r.randrange(span), r.choice(v)])
    return out


def gen(r, i, tier):
    w = worlds.gen_world(r, small=r.random() < 0.85)
    steps = r.choice([1, 2, 3, 5, 8, 15, 30])
    if i % 50 == 7:
        w = worlds.gen_world(r, kinds=["dense", "identity", "path", "cdense"])
        steps = 2500 if tier == "quick" else 12000
    p = worlds.gen_params(r, w, steps)
    if r.random() < 0.1:
        p["rel"] = r.choice([2.0, 10.0, 1e-4])  # beyond stability / almost frozen
        steps = min(steps, 3)
    if i % 60 == 17:
        w = worlds.gen_world(r, kinds=["dense", "identity", "path", "cdense"])
        steps, p["rel"] = r.choice([60, 200]), r.choice([1e3, 1e6])     # overflows: still no reason to stop
    gen_schedule(r, p, steps)
    p["verbosity"] = r.choice([0, 0, 0, 1, 7])
    extra = [t for t in TRACKS if t != "chain" and r.random() < 0.5]
    p["track"] = ["chain"] + extra
    return {"w": w, "p": p, "seed": r.randrange(2**31), "start": gen_start(r),
            "overrides": gen_overrides(r, ["N", "N", "L"], 60)}


def infer(W, p, delta, prev, nxt):
    """(noise that explains prev -> nxt under the documented step, rounding tolerance)"""
    ref = W.ref
    g = ref.grad(prev)
    px = ref.prox(prev)
    mean = prev - delta * ((prev - px) / p["lmda"] + g)
    w = (nxt - mean) / np.sqrt(2 * delta)
    m = max(np.abs(prev).max(), np.abs(nxt).max(), 1e-3)
    sc = m * (1 + W.plip * delta / p["lmda"]) + delta * (np.abs(g).max() + W.lip * (m + np.abs(ref.data).max()))
    return w, 1e-10 * sc / np.sqrt(2 * delta) + 1e-9


def run(sc):
    W = worlds.build(sc["w"])
    p = sc["p"]
    X0 = start_point(W, sc)
    keep = None if X0 is None else X0.copy()
    Spy(W, log_states=True)
    R = run_chain(W, p, "MYULA", sc["seed"], X0, sc["overrides"])
    chain = np.array(R.m.chain)
    delta = R.delta0
    n, iters = W.nparams, iterations(p)
    res = {"steps": iters, "faults": {"rare-draw": R.stream.overridden}, "obs": chain,
           "probes": {"unrecorded-steps": iters - p["nsamples"]}}
    if X0 is not None and not np.array_equal(X0, keep):
        res["viol"] = viol("start-mutated", "the caller's start point was modified by the run")
        return res
    if keep is None:
        d = start_drawn(R, W)
        if d:
            res["viol"] = viol("start", d)
            return res
    prev0 = keep if keep is not None else initial_from_draws(R, W)
    Z = R.stream.values("N")
    cand = [c for c in (noise_rows(Z, n, W.complex, iters, o) for o in ((0, 1, 2) if W.complex else (0,)))
            if c is not None]
    F = [v for k, v in R.log if k == "F"]
    F = F if len(F) == iters + 1 else None
    states = []
    for i in range(iters):
        k = recorded(p, i)
        states.append(chain[k] if k is not None else F[i + 1] if F else None)
    compared = 0
    ws = []
    for i in range(iters):
        prev = prev0 if i == 0 else states[i - 1]
        if prev is None or states[i] is None:
            continue
        if not (np.all(np.isfinite(prev)) and np.abs(prev).max() < 1e7):
            res["probes"]["blow-up"] = 1
            break
        w, tol = infer(W, p, delta, prev, states[i])
        if not np.all(np.isfinite(w)):
            # an infinite step can only come from an infinite state
            res["viol"] = viol("step", f"iteration {i}: state became non-finite from a finite one")
            return res
        compared += 1
        ws.append((i, w, tol))
    bad = None
    for i, w, tol in ws:
        cand2 = [c for c in cand if np.abs(c[i] - w).max() <= tol or np.abs(c[i] + w).max() <= tol]
        if not cand2:
            bad = i
            break
        cand = cand2
    if bad is not None or not cand:
        v = by_value(ws, Z, W.complex)
        if v:
            i = v[0]
            res["viol"] = viol("step", f"iteration {i}: the recorded transition is not the Langevin step from the "
                                       f"previous state with a fresh standard normal draw ({v[1]})")
            return res
    res["nontrivial"] = compared > 0
    res["probes"]["complex"] = int(W.complex)
    res["probes"]["long"] = int(iters > 1000)
    return res


def start_drawn(R, W):
    """Without a start point the first state evaluated consists of separate Laplace draws."""
    k = next((k for k, e in enumerate(R.log) if e[0] == "F"), None)
    if k is None:
        return None
    if any(t in "OS" for t, _ in R.log[:k]):
        return None
    X = R.log[k][1]
    comps = np.concatenate([X.real, X.imag]) if W.complex else np.real(X)
    before = [np.ravel(v) for t, v in R.log[:k] if t in "LNUEG" and np.size(v)]
    if sum(v.size for v in before) < comps.size:
        return f"the start has {comps.size} components from {sum(v.size for v in before)} draws"
    pool = [np.ravel(v) for t, v in R.log[:k] if t == "L"]
    if not pool:        # drawn some other way
        return None
    pool = list(np.abs(np.concatenate(pool)))
    for c in np.abs(comps):
        j = int(np.argmin([abs(v - c) for v in pool])) if pool else None
        if j is None or abs(pool[j] - c) > 1e-12 * (1 + c):
            return f"component {c:.6g} of the start is not a Laplace draw, or is one used twice"
        pool.pop(j)
    return None


def by_value(ws, Z, cplx):
    """Fallback when draws do not line up in order: each noise component must be a distinct draw."""
    pool = np.sort(np.abs(Z))
    used = np.zeros(pool.size, bool)
    for i, w, tol in ws:
        comps = np.concatenate([w.real, w.imag]) if cplx else np.real(w)
        for c in np.abs(comps):
            j = np.searchsorted(pool, c - tol)
            while j < pool.size and used[j] and pool[j] <= c + tol:
                j += 1
            if j >= pool.size or pool[j] > c + tol or used[j]:
                return i, f"implied noise {c:.6g} was not drawn, or was used twice"
            used[j] = True
    return None
