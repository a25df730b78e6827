"""C07: PxMALA rides out failed numerical evaluations as rejected proposals."""
import numpy as np

from sim.chain import *
from sim.engine import viol
from sim import worlds
from sim.props import c02

ID = "C07"
LEVEL = "fault_enumeration"
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("seeded problem; after initialisation random operator and prior evaluations come back as NaN or inf (whole or one "
        "entry), singly, in bursts, or several sites in the same iteration; non-trivial: at least one fault fired; "
        "distinct by (fault sites and iterations, decisions)")
REAL = ["pxmcmc.mcmc PxMALA", "operators and priors underneath"]
STUB = ["failing numerical evaluations (NaN / inf results)", "numpy random draws (seeded; accepting uniforms forced at faults)"]
INTER = "distinct (fault trace, acceptance sequence) pairs"
ASSUMPTIONS = ["the evaluation of the start point itself succeeds"]


def gen(r, i, tier):
    w = worlds.gen_world(r, kinds=["dense", "identity", "path", "cdense", "cpath", "swt", "pathwt", "wl", "cswt", "cpathwt"])
    total = r.choice([2, 5, 10, 25, 25, 130] if r.random() < 0.1 else [2, 5, 10, 25])
    p = worlds.gen_params(r, w, 1)
    p["rel"] = r.choice([0.02, 0.2, 0.9])
    gen_schedule(r, p, total)
    p["track"] = list(TRACKS)
    p["verbosity"] = r.choice([0, 0, 1, 5])
    p["tune"] = r.random() < 0.6
    E = iterations(p)
    plan = []
    for _ in range(r.choice([1, 1, 2, 4])):
        site = r.choice(["forward", "gradg", "prox", "prior"])
        acts = ["nan", "inf"] + ([] if site == "prior" else ["nan1", "inf1", "ninf", "ninf1"])
        n = 1 + r.randrange(E)
        for b in range(r.choice([1, 1, 2, 5]) if r.random() < 0.93 else r.choice([12, 30, 110])):
            plan.append([site, n + b, r.choice(acts), r.randrange(100)])
    ov = [["U", q[1] - 1, 1e-300] for q in plan if r.random() < 0.7]
    return {"w": w, "p": p, "seed": r.randrange(2**31), "start": {"seed": r.randrange(2**31), "kind": "plain"},
            "plan": plan, "overrides": ov}


def run(sc):
    W = worlds.build(sc["w"])
    p = sc["p"]
    E = iterations(p)
    X0 = start_point(W, sc)
    spy = Spy(W, log_states=True)
    spy.plan = {}
    hit = []
    plan = {(q[0], q[1]): (q[2], q[3]) for q in sc["plan"] if q[1] >= 1}
    spy.plan = plan
    names = {"forward": (W.op, "forward"), "gradg": (W.op, "calc_gradg"), "prox": (W.prior, "proxf"),
             "prior": (W.prior, "prior")}
    for site, (obj, name) in names.items():
        def wrap(orig, site=site):
            def call(*a, **k):
                n = spy.counts[site]
                out = orig(*a, **k)
                if (site, n) in plan:
                    hit.append((site, spy.counts["forward"] - 2))
                return out
            return call
        setattr(obj, name, wrap(getattr(obj, name)))
    R = run_chain(W, p, "PxMALA", sc["seed"], X0.copy(), sc["overrides"])
    got = rows(R.m)
    res = {"steps": E, "faults": {}, "nontrivial": bool(spy.fired), "obs": got,
           "probes": {"accepted": int(got["acceptance_trace"].sum()), "rare-draw": R.stream.overridden}}
    for f in spy.fired:
        res["faults"][f] = res["faults"].get(f, 0) + 1
    res["inter"] = str((sorted(hit), got["acceptance_trace"].tolist(), sc["seed"]))
    acc = list(R.m.acceptance_trace)
    if len(acc) != E:
        res["viol"] = viol("iterations", f"{len(acc)} iterations made for {E} requested under transient failures")
        return res
    for k in ("chain", "preds", "logPi", "L2s", "priors", "deltas_trace"):
        if k in got and not np.all(np.isfinite(got[k])):
            res["viol"] = viol("non-finite", f"{k} recorded non-finite values after transient failures at {hit[:4]}")
            return res
    simple = all(spy.counts[s] == E + 1 for s in ("forward", "gradg", "prox", "prior"))
    if simple:
        for site, it in hit:
            if acc[it]:
                res["viol"] = viol("accepted", f"iteration {it}: the proposal's {site} evaluation failed, yet it was accepted")
                return res
        res["viol"] = judge_rest(W, p, R, X0, {it for _, it in hit}, sc)
    if not res.get("viol"):
        # a failed proposal counts as a rejection for the step size too
        tr = np.array(list(R.m.deltas_trace), dtype=float)
        if p["tune"] and tr.size == E + 1:
            e = tr[:-1] * (1 + (np.array(acc, dtype=float) - 0.5) / np.arange(1, E + 1) ** 0.75)
            bad = np.flatnonzero(~np.isclose(tr[1:], np.clip(e, p["lmda"] * 1e-8, p["lmda"] / 2), rtol=1e-11))
            if bad.size:
                res["viol"] = viol("step-size", f"after iteration {bad[0]} (failures at {hit[:4]}) the step size went from "
                                                f"{tr[bad[0]]!r} to {tr[bad[0] + 1]!r}")
                return res
        if p["tune"]:
            d = float(R.delta0)
            for i, a in enumerate(acc):
                d = min(max(d * (1 + (a - 0.5) / (i + 1) ** 0.75), p["lmda"] * 1e-8), p["lmda"] / 2)
            if not np.isclose(float(R.m.delta), d, rtol=1e-9):
                res["viol"] = viol("step-size", f"after failures at {hit[:4]} the step size ended at {R.m.delta!r}, not {d!r}")
                return res
        elif not p["tune"] and R.m.delta != R.delta0:
            res["viol"] = viol("step-size", "the step size changed although tuning is off")
            return res
        # every recorded row still belongs together
        from sim.props.c05 import check_rows
        res["viol"] = check_rows(W, p, got)
    return res


def judge_rest(W, p, R, X0, bad, sc):
    """All other iterations behave as Metropolis-Hastings; the failed ones leave the state alone."""
    E = iterations(p)
    F = [v if W.complex else np.real(v) for k, v in R.log if k == "F"]
    U = R.stream.values("U")
    if len(F) != E + 1 or U.size != E:
        return None
    acc = list(R.m.acceptance_trace)
    ds = c02.deltas(R, p, E)
    if ds is None:
        return None
    prev = X0
    for i in range(E):
        prop = F[i + 1]
        k = recorded(p, i)
        if k is not None:
            want = prop if acc[i] else prev
            if not np.allclose(R.m.chain[k], want, rtol=1e-9, atol=1e-11):
                return viol("state", f"iteration {i}: recorded state is not the {'proposal' if acc[i] else 'previous state'}")
        if i not in bad:
            la = (W.ref.logpi(prop, p["mu"]) + c02.logq(W, p, ds[i], prop, prev)
                  - W.ref.logpi(prev, p["mu"]) - c02.logq(W, p, ds[i], prev, prop))
            mag = abs(W.ref.logpi(prop, p["mu"])) + abs(W.ref.logpi(prev, p["mu"])) + W.nparams + \
                abs(c02.logq(W, p, ds[i], prop, prev))
            m = max(np.abs(prev).max(), np.abs(prop).max(), 1e-3)
            mag += (m * (1 + W.plip) + W.lip * m) * np.sqrt(mag / ds[i])
            lu = np.log(U[i]) if U[i] > 0 else -np.inf
            if abs(lu - la) > 1e-9 * mag + 1e-9 and bool(acc[i]) != bool(lu < la):
                return viol("contaminated", f"iteration {i} after failures at {sorted(bad)}: log u = {lu:.6g}, log ratio "
                                            f"= {la:.6g}, accepted = {bool(acc[i])}")
        if acc[i]:
            prev = prop
    return None


def shrink(sc):
    yield from shrink_common(sc)
