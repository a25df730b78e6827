"""C02: PxMALA accepts and rejects exactly as Metropolis-Hastings for the posterior it reports."""
import copy

import numpy as np

from sim.chain import *
from sim.engine import viol
from sim import worlds
from sim.props.c01 import gen_overrides

ID = "C02"
LEVEL = "exploration"
RUNS = {"quick": 2400, "thorough": 50000}
RULE = ("seeded problem and draws; a first run gives the acceptance ratios of the reference, a second run of the same "
        "seed replaces every uniform by one just on the same side of its ratio, so each decision is made at the "
        "threshold; non-trivial: at least one accepted and one rejected proposal were judged; distinct by outcome digest")
REAL = ["pxmcmc.mcmc PxMALA", "pxmcmc.forward", "pxmcmc.measurements", "pxmcmc.transforms", "pxmcmc.prior",
        "pys2let/pyssht/scipy underneath"]
STUB = ["numpy random draws (seeded, logged, uniforms steered to the acceptance threshold)",
        "user-written dense operators in some worlds"]
ASSUMPTIONS = ["noise and uniforms are drawn through numpy.random or scipy.stats"]


def gen(r, i, tier):
    w = worlds.gen_world(r, small=r.random() < 0.9)
    steps = r.choice([1, 2, 4, 8, 15, 30])
    if i % 60 == 7:
        w = worlds.gen_world(r, kinds=["dense", "identity", "path", "cdense"])
        steps = 1500 if tier == "quick" else 6000
    p = worlds.gen_params(r, w, steps)
    p["rel"] = r.choice([0.02, 0.2, 0.5, 0.9, 2.0, 4.0])
    gen_schedule(r, p, steps)
    p["tune"] = r.random() < 0.5
    p["verbosity"] = r.choice([0, 0, 0, 1, 7])
    p["track"] = ["chain"] + [t for t in TRACKS if t != "chain" and r.random() < 0.5]
    if i % 25 == 11:  # a prior that rules states out; the start may be one of them
        w = worlds.gen_world(r, kinds=["dense", "identity", "path", "cdense", "cidentity"])
        worlds.gen_box(r, w, p)
    if i % 40 == 13:  # a long streak of rejections, then of acceptances
        w = worlds.gen_world(r, kinds=["dense", "identity", "path", "cdense"])
        steps = 320 if tier == "quick" else 2600
        p["nburn"], p["ngap"], p["nsamples"] = 0, 1, steps
        cut = r.choice([120, 260] if tier == "quick" else [120, 1100, 2200])
        return {"w": w, "p": p, "seed": r.randrange(2**31), "start": gen_start(r) or {"seed": 5, "kind": "plain"},
                "overrides": [["U", j, 1 - 2**-53 if j < cut else 1e-300] for j in range(steps)], "steer": False}
    return {"w": w, "p": p, "seed": r.randrange(2**31), "start": gen_start(r) or {"seed": 5, "kind": "plain"},
            "overrides": gen_overrides(r, ["N", "U"], 40), "steer": r.random() < 0.8}


def deltas(R, p, iters):
    d = list(getattr(R.m, "deltas_trace", [R.delta0]))
    if p["tune"]:
        return d[:iters] if len(d) >= iters else None
    return [R.delta0] * iters


def logq(W, p, delta, a, b):
    """log density (up to a constant) of proposing b from a"""
    m = a - delta * ((a - W.ref.prox(a)) / p["lmda"] + W.ref.grad(a))
    return -float(np.sum(np.abs(b - m) ** 2)) / (4 * delta)


def judge(W, p, R, X0, strict=True):
    """-> (violation or None, per-iteration [logalpha, tol, accepted])"""
    iters = iterations(p)
    n = W.nparams
    chain = np.array(R.m.chain)
    acc = list(R.m.acceptance_trace)
    if len(acc) != iters:
        return viol("acceptance-count", f"{len(acc)} decisions recorded for {iters} iterations"), []
    ds = deltas(R, p, iters)
    if ds is None:
        return viol("step-trace", "step sizes used were not recorded"), []
    Z = R.stream.values("N")
    cands = [c for c in (noise_rows(Z, n, W.complex, iters, o) for o in ((0, 1, 2) if W.complex else (0,)))
             if c is not None]
    F = [v if W.complex else np.real(v) for k, v in R.log if k == "F"]
    if not cands and len(F) != iters + 1:
        return None, []  # the draws cannot be attributed: statistics below decide nothing either
    U = R.stream.values("U")
    U = U if U.size == iters else None
    seg = None if U is not None else segments(R, iters)
    out = []
    prev = X0
    zsum = zvar = 0.0
    for i in range(iters):
        d = ds[i]
        k = recorded(p, i)
        row = chain[k] if k is not None else None
        g = W.ref.grad(prev)
        mean = prev - d * ((prev - W.ref.prox(prev)) / p["lmda"] + g)
        m = max(np.abs(prev).max(), np.abs(mean).max(), 1e-3)
        sc = m * (1 + W.plip * d / p["lmda"]) + d * W.lip * (m + np.abs(W.ref.data).max())
        tol = 1e-10 * sc + 1e-10
        props = [mean + np.sqrt(2 * d) * s * c[i] for c in cands for s in (1, -1)] or [F[i + 1]]
        if row is None:
            if len(F) == iters + 1:
                prop0 = F[i + 1]
            elif len(cands) == 1:
                prop0 = props[0]
            else:
                return None, out
            row = prop0 if acc[i] else prev
        moved = np.abs(row - prev).max() > (0 if i == 0 or recorded(p, i - 1) is not None else tol)
        if acc[i]:
            hit = [q for q in props if np.abs(q - row).max() <= tol]
            if not hit:
                return viol("accepted-state", f"iteration {i}: accepted, but the recorded state is not the proposal "
                                              f"made from the previous state"), out
            prop = hit[0]
            cands = [c for c in cands if min(np.abs(mean + np.sqrt(2 * d) * s * c[i] - row).max()
                                             for s in (1, -1)) <= tol] or cands
        else:
            if moved:
                return viol("rejected-state", f"iteration {i}: rejected, but the recorded state moved"), out
            # without more information the first hypothesis about the noise order stands
            prop = props[0]
        la = (W.ref.logpi(prop, p["mu"]) + logq(W, p, d, prop, prev)
              - W.ref.logpi(prev, p["mu"]) - logq(W, p, d, prev, prop))
        mag = (abs(W.ref.logpi(prop, p["mu"])) + abs(W.ref.logpi(prev, p["mu"]))
               + abs(logq(W, p, d, prop, prev)) + n
               + sc * np.sqrt(abs(logq(W, p, d, prop, prev)) / max(d, 1e-300)))
        latol = 1e-9 * mag + 1e-9
        box = getattr(W.prior, "b", None)
        edge = box is not None and min(np.abs(np.abs(prop) - box).min(), np.abs(np.abs(prev) - box).min()) <= 1e3 * tol
        known = len(cands) == 1 or acc[i] or not W.complex
        if box is not None and not np.isfinite(la) and known and not edge:
            if la == np.inf and not acc[i]:
                return viol("wrong-reject", f"iteration {i}: a possible state was rejected from an impossible one"), out
            if la != np.inf and acc[i]:
                return viol("wrong-accept", f"iteration {i}: accepted a state ruled out by the prior"), out
            out.append((i, la, 0.0, bool(acc[i])))
        elif np.isfinite(la) and not edge and (len(cands) == 1 or acc[i] or not W.complex):
            out.append((i, la, latol, bool(acc[i])))
            u = U[i] if U is not None else (seg[i] if seg else None)
            if u is not None:
                lu = np.log(u) if u > 0 else -np.inf
                if lu < la - latol and not acc[i]:
                    return viol("wrong-reject", f"iteration {i}: log u = {lu:.9g} < log ratio = {la:.9g} "
                                                f"but the proposal was rejected"), out
                if lu >= la + latol and acc[i]:
                    return viol("wrong-accept", f"iteration {i}: log u = {lu:.9g} >= log ratio = {la:.9g} "
                                                f"but the proposal was accepted"), out
            else:
                a = min(1.0, np.exp(min(la, 0)))
                if a < 1e-12 and acc[i]:
                    return viol("wrong-accept", f"iteration {i}: accepted at log ratio {la:.6g}"), out
                if la > latol and not acc[i]:
                    return viol("wrong-reject", f"iteration {i}: rejected at log ratio {la:.6g} > 0"), out
                zsum += acc[i] - a
                zvar += a * (1 - a)
        prev = row
    if zvar > 25 and abs(zsum) > 7 * np.sqrt(zvar):
        return viol("acceptance-rate", "acceptance frequency differs from the acceptance ratios"), out
    return None, out


def segments(R, iters):
    """Uniforms by the iteration in which they were drawn (None where there was none)."""
    tot = sum(v.size for k, v in R.log if k == "N")
    if tot == 0 or tot % iters:
        return None
    k, c, out = tot // iters, 0, [None] * iters
    for kind, v in R.log:
        if kind == "N":
            c += v.size
        elif kind == "U":
            j = (c - 1) // k
            if v.size != 1 or c == 0 or out[j] is not None:
                return None
            out[j] = float(v[0])
    return out


def run(sc):
    W = worlds.build(sc["w"])
    p = sc["p"]
    X0 = start_point(W, sc)
    Spy(W, log_states=True)
    R = run_chain(W, p, "PxMALA", sc["seed"], X0.copy(), sc["overrides"])
    v, tr = judge(W, p, R, X0)
    res = {"viol": v, "steps": iterations(p), "obs": rows(R.m), "faults": {"rare-draw": R.stream.overridden},
           "probes": {"accepted": sum(t[3] for t in tr), "rejected": sum(not t[3] for t in tr)}}
    res["nontrivial"] = res["probes"]["accepted"] > 0 and res["probes"]["rejected"] > 0
    if v or not sc["steer"] or R.stream.counts["U"] != iterations(p):
        return res
    # same seed again, every uniform moved next to its threshold on the side it was on
    ov = [o for o in sc["overrides"] if o[0] != "U"]
    for i, la, latol, a in tr:
        if not np.isfinite(la):
            continue
        eps = max(3 * latol, 1e-7)
        if a:
            u = np.exp(la - eps) if la - eps < 0 else 1 - 2.0**-53
        else:
            u = np.exp(la + eps)
            if not 0 < u < 1:
                continue
        if u > 1e-300:
            ov.append(["U", i, float(u)])
    W2 = worlds.build(sc["w"])
    Spy(W2, log_states=True)
    R2 = run_chain(W2, p, "PxMALA", sc["seed"], X0.copy(), ov)
    v2, tr2 = judge(W2, p, R2, X0)
    res["faults"]["threshold-draw"] = R2.stream.overridden
    res["steps"] *= 2
    res["viol"] = v2
    return res


def shrink(sc):
    yield from shrink_common(sc)
    if sc["steer"]:
        c = copy.deepcopy(sc)
        c["steer"] = False
        yield c
