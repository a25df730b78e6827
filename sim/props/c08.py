"""C08: the numpy seed alone decides a run: not history, clock, process or read-only activity."""
import copy
import json
import os
import pickle
import random
import subprocess
import sys
import warnings

import numpy as np

from sim.chain import *
from sim.engine import digest, viol
from sim import clock, rng, worlds
from sim.fork import forked
import matplotlib.pyplot as plt
import pyssht
from pxmcmc import plotting, uncertainty, utils
from pxmcmc.saving import save_mcmc

ID = "C08"
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 30000}
RULE = ("a seeded sampler run is repeated after a random history (other runs, draws from the global stream, failed runs), "
        "with read-only activity between seeding and running (building objects, saving, summarising, plotting, harmonic "
        "transforms), at another (often round) time on a steady, frozen or jumping clock, each in a process of its own forked "
        "from an unused one, or in a fresh interpreter with another hash seed; "
        "non-trivial: some such disturbance took place; distinct by (disturbances, outcome)")
REAL = ["pxmcmc.mcmc", "pxmcmc.saving", "pxmcmc.uncertainty", "pxmcmc.plotting", "pxmcmc.utils", "operators and priors",
        "numpy's global random stream"]
STUB = ["clocks (time.*, datetime)", "process identity (fork, fresh interpreter, hash seed)"]
INTER = "distinct disturbance sequences"
ASSUMPTIONS = ["single-threaded linear algebra"]

ACTS = ["build", "save", "ci", "plot", "utils", "params", "pyrandom", "gc"]
PRE = ["run", "many", "draws", "failed", "interrupted", "seed_other", "set_state"]


def gen_spec(r, light=False):
    w = worlds.gen_world(r, kinds=["dense", "identity", "path", "cdense", "swt", "pathwt", "wl", "cswt", "cpathwt"])
    algo = r.choice(["MYULA", "PxMALA", "SKROCK"])
    p = worlds.gen_params(r, w, 1)
    p["s"] = r.choice([1, 2, 3])
    gen_schedule(r, p, r.choice([1, 3, 8, 20]))
    p["track"] = list(TRACKS)
    p["tune"] = r.random() < 0.6
    p["verbosity"] = r.choice([0, 0, 2])
    return {"w": w, "p": p, "algo": algo, "start": gen_start(r), "npseed": r.randrange(2**32)}


def gen_seeds(r):
    """Distinct seeds, among them ones that differ in a single bit or are neighbours."""
    s = r.randrange(2**32)
    return sorted({s, s ^ 1 << r.randrange(32), s ^ 1 << r.randrange(16, 32), (s + 1) % 2**32, s % 1000, s % 2**16,
                   *(r.randrange(2**32) for _ in range(r.choice([2, 10, 30])))})


def near_spec(r, spec):
    """The same kind of run with a few things changed (what a cache with too small a key mixes up)."""
    o = copy.deepcopy(spec)
    w, p = o["w"], o["p"]
    o["algo"] = r.choice([o["algo"]] * 3 + ["MYULA", "PxMALA", "SKROCK"])
    for _ in range(r.choice([1, 1, 2])):
        k = r.choice(["seed", "sigma", "T", "sig", "mask", "ngal", "BJ", "lmda", "rel", "mu", "s", "len", "tune"])
        if k == "seed":
            w["seed"] += 1
        elif k == "sigma":
            w["sigma"] = r.choice([0.3, 0.7, 1.0, 2.0])
        elif k == "T":
            w["T"] = r.choice([0.0, 0.01, 0.1, 0.5])
        elif k == "sig":
            w["sig"] = r.choice(["scalar", "vector", "matrix", "int"])
        elif k == "mask" and "mask" in w:
            w["mask"] = r.choice(["none", "random", "half"])
        elif k == "ngal" and "ngal" in w:
            w["ngal"] = not w["ngal"]
        elif k == "BJ" and "B" in w:
            pick = [x for x in worlds.WAVELETS if x[0] == w["L"] and (x[1] == w["B"] or x[2] == w["J"])
                    and (not w["prior"].startswith("S2") or worlds._full(*x, w.get("spin", 0)))]
            if pick:
                w["L"], w["B"], w["J"] = r.choice(pick)
        elif k == "lmda":
            p["lmda"] = r.choice([0.05, 0.2, 1.0])
        elif k == "rel":
            p["rel"] = r.choice([0.02, 0.2, 0.5, 0.9])
        elif k == "mu":
            p["mu"] = r.choice([0.0, 0.5, 1.0, 3.0])
        elif k == "s":
            p["s"] = r.choice([1, 2, 3, 4, 6])
        elif k == "len":
            gen_schedule(r, p, r.choice([1, 3, 8, 20]))
        elif k == "tune":
            p["tune"] = not p["tune"]
    o["npseed"] = r.choice([o["npseed"], r.randrange(2**32)])
    return o


def gen_clock(r):
    """Any instant, with a liking for round ones, on a steady, frozen or jumping clock."""
    t = r.choice([0.0, 1.0e9, 1.7e9, 2**31 - 1.0, 4.1e9]) + r.choice([0, 1, 59, 0.5, 1e5 * r.random()])
    q = r.choice([1, 1, 10, 60, 3600, 86400])
    return [t if q == 1 else t // q * q, r.choice(["steady", "frozen", "frozen", "jumpy"]), r.randrange(2**31)]


def gen(r, i, tier):
    if i % 150 == 5:
        return {"kind": "fresh", "specs": [gen_spec(r) for _ in range(10)], "hash": r.randrange(1, 4000)}
    spec = gen_spec(r)
    if i % 10 == 3:
        return {"kind": "seeds", "spec": dict(spec, p=dict(spec["p"], nburn=0, ngap=1, nsamples=1), start=None
                                              if spec["algo"] == "PxMALA" else spec["start"]),
                "seeds": gen_seeds(r)}
    return {"kind": "same", "spec": spec, "other": near_spec(r, spec) if r.random() < 0.5 else gen_spec(r),
            "pre": [r.choice(PRE) for _ in range(r.choice([0, 1, 2, 3]))],
            "acts": [r.choice(ACTS + ["plot"] * (i % 4 == 0)) for _ in range(r.choice([0, 1, 2, 4]))],
            "clock": gen_clock(r), "ref_clock": gen_clock(r), "pid": r.random() < 0.3,
            "other_seed": i % 3 == 0,
            "salt": r.randrange(2**31), "late_build": r.random() < 0.5}


_project = pyssht.mollweide_projection


def worker_init():
    pyssht.mollweide_projection = lambda f, L, resolution=24, *a, **k: _project(f, L, 24, *a, **k)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        plt.figure().add_gridspec(1, 2)  # matplotlib's own caches
        plt.close("all")


def go(spec, W=None, m=None):
    if W is None:
        W = worlds.build(spec["w"])
    X0 = start_point(W, spec)
    if m is None:
        m, _ = make_sampler(W, spec["p"], spec["algo"])
    m.run() if X0 is None else m.run(X0)
    out = rows(m)
    out["random-state-afterwards"] = np.append(np.random.get_state()[1], np.random.get_state()[2])
    return out, m


def activity(a, ctx, salt):
    g = worlds.gen(salt)
    if a == "build":
        W = worlds.build(ctx["other"]["w"])
        make_sampler(W, ctx["other"]["p"], ctx["other"]["algo"])
    elif a == "save":
        d = os.environ.get("SIM_SCRATCH", "/tmp")
        extras = {"L": 4, "note": "a", "sigma": 0.5, "setting": "synthesis", "values": g.standard_normal(3)}
        save_mcmc(ctx["m"], ctx["params"], d, f"c08-{os.getpid()}", **dict(list(extras.items())[:salt % 6]))
        os.unlink(os.path.join(d, f"c08-{os.getpid()}.hdf5"))
    elif a == "ci":
        many = [1, 1, 40, 1200][salt % 4]
        uncertainty.credible_interval_range(np.resize(np.abs(ctx["m"].chain), (many, 3)), 0.1)
        t = uncertainty.credible_region_threshold(np.resize(np.real(ctx["m"].logPi), many), 0.1)
        uncertainty.in_credible_region(-1.0, t)
        if salt % 5 == 0:
            n = sum(int(b) * (2 * int(b) - 1) for b in worlds.scale_bandlimits(4, 2, 0))
            uncertainty.wavelet_credible_interval_range(g.standard_normal((min(many, 60), n)), 4, 2, 0, 0.1)
    elif a == "plot":
        k = salt % 7
        f = g.standard_normal((4, 7))
        if k == 0:
            plotting.mollview(g.standard_normal(12))
        elif k == 1:
            plotting.plot_map(f, oversample=False, mask=f > 1, centre0=bool(salt & 8))
        elif k == 2:
            plotting.plot_chain_sample(g.standard_normal(5))
        elif k == 3:
            v = -g.random(6) - 0.1
            plotting.plot_evolution(v, -v, -v)
        elif k == 4:
            plotting.plot_wavelet_maps(f, 4, 2, 0, oversample=False, same_scale=bool(salt & 8))
        elif k == 5:
            plotting.plot_map(f, cbar=bool(salt & 8))
        else:
            plotting.plot_map(f, oversample=True, cbar=False)
        plt.close("all")
    elif a == "utils":
        utils.alm2map(utils.map2alm(g.standard_normal(12), 2), 1)
        utils.soft(g.standard_normal(4), 0.1)
        utils.mw_map_weights(4)
        utils.build_mask(4)
        if salt % 2:
            n = salt % 6 + 1
            utils.hard(g.standard_normal(40), 0.5)
            utils.calc_pixel_areas(n)
            utils.s2_integrate(g.standard_normal(n * (2 * n - 1)), n)
            utils.snr(g.standard_normal(5), g.standard_normal(5))
            utils.chebyshev1(1.1, n), utils.chebyshev2(1.1, n), utils.cheb1der(1.1, n)
            utils.expand_mlm(utils.flatten_mlm(g.standard_normal(8), g.standard_normal(4)), nscalcoefs=4)
    elif a == "params":
        PxMCMCParams(nsamples=4)
    elif a == "pyrandom":
        random.random()
    elif a == "gc":
        import gc
        gc.collect()


def history(a, ctx, salt):
    if a == "run":
        go(ctx["other"])
    elif a == "many":       # a long life before: dozens of samplers, operators and short runs
        W = worlds.build(ctx["other"]["w"])
        vary = salt % 3 == 0
        for k in range(3 + salt % 70):
            q = dict(ctx["other"]["p"], nburn=0, ngap=1, nsamples=1)
            algo = ctx["other"]["algo"]
            if vary:  # all kinds of samplers
                q.update(s=1 + (k + salt) % 6, mu=[1.0, 0.5][k % 2], lmda=[0.05, 0.2, 1.0][(k + salt) % 3])
                algo = ["MYULA", "PxMALA", "SKROCK", "SKROCK"][(k * 7 + salt) % 4]
            m, _ = make_sampler(W, q, algo)
            if k % 4 == 0:
                m.run()
            if k % 8 == 0:
                W = worlds.build(ctx["other"]["w"])
    elif a == "draws":
        np.random.rand(salt % 50)
        np.random.randn(salt % 7)
    elif a == "seed_other":
        np.random.seed(salt % 1000)
    elif a == "set_state":
        np.random.set_state(np.random.RandomState(salt % 1000).get_state())
    else:
        W = worlds.build(ctx["other"]["w"])
        spy = Spy(W)
        m, _ = make_sampler(W, ctx["other"]["p"], ctx["other"]["algo"])
        spy.plan = {("forward", 1): ("raise:" + ("keyboard" if a == "interrupted" else "error"), 0)}
        try:
            m.run()
        except (InjectedError, KeyboardInterrupt):
            pass


def reference(spec):
    np.random.seed(spec["npseed"])
    return go(spec)


def run(sc):
    random.seed(7)
    if sc["kind"] == "fresh":
        return run_fresh(sc)
    if sc["kind"] == "seeds":
        return run_seeds(sc)
    spec = sc["spec"]
    E = iterations(spec["p"])

    def first(add):
        with clock.using(clock.Clock(*sc["ref_clock"])):
            np.random.seed((spec["npseed"] + add) % 2**32)
            return go(spec)[0]

    a = forked(lambda: first(0))
    res = {"steps": 3 * E, "obs": a, "faults": {"clock-" + sc["clock"][1]: 1, "other-process": 1}, "probes": {}}
    moved = spec["algo"] != "PxMALA" or a["acceptance_trace"].any()
    if sc["other_seed"] and E and moved and np.array_equal(a["chain"], forked(lambda: first(1))["chain"]):
        res["viol"] = viol("seed-ignored", "two different seeds gave the same chain")
        return res

    def second():
        ctx = {"other": sc["other"]}
        if sc["pid"]:
            os.getpid = lambda: 1 + sc["salt"] % 30000
        with clock.using(clock.Clock(*sc["clock"])):
            late = None
            if not sc["late_build"]:
                W = worlds.build(spec["w"])
                late = W, make_sampler(W, spec["p"], spec["algo"])[0]
            for k, h in enumerate(sc["pre"]):
                history(h, ctx, sc["salt"] + k)
            if {"save", "ci"} & set(sc["acts"]):
                Wo = worlds.build(sc["other"]["w"])
                ctx["m"], ctx["params"] = make_sampler(Wo, sc["other"]["p"], sc["other"]["algo"])
                go(sc["other"], Wo, ctx["m"])
            np.random.seed(spec["npseed"])
            for k, h in enumerate(sc["acts"]):
                activity(h, ctx, sc["salt"] + k)
            return go(spec, *(late or (None, None)))[0]

    b = forked(second)
    for h in sc["pre"] + sc["acts"]:
        res["faults"][h] = res["faults"].get(h, 0) + 1
    res["inter"] = str((sc["pre"], sc["acts"], sc["clock"], spec["algo"], spec["w"]["kind"], sc["salt"]))
    res["nontrivial"] = True
    d = same(a, b)
    if d:
        what = f"history {sc['pre']}, between seeding and running {sc['acts']}, clock {sc['clock']}"
        res["viol"] = viol("not-reproducible", f"{spec['algo']}: the same seed gave another result: {d} ({what})")
    return res


def run_seeds(sc):
    """One-step chains under many seeds, in one process, all different."""
    def runs():
        out = []
        for s in sc["seeds"]:
            np.random.seed(s)
            out.append(go(sc["spec"])[0])
        return out

    got = forked(runs)
    res = {"steps": len(got), "obs": got, "faults": {"seeds": len(got)}, "inter": str(sc["seeds"]), "probes": {},
           "nontrivial": True}
    seen = {}
    for s, o in zip(sc["seeds"], got):
        k = o["chain"].tobytes()
        if k in seen and np.all(np.isfinite(o["chain"])) and (
                sc["spec"]["algo"] != "PxMALA" or sc["spec"]["start"] is None or o["acceptance_trace"].any()):
            res["viol"] = viol("seed-ignored", f"{sc['spec']['algo']}: seeds {seen[k]} and {s} gave the same chain")
            return res
        seen[k] = s
    return res


def run_fresh(sc):
    here = forked(lambda: [reference(s)[0] for s in sc["specs"]])
    env = dict(os.environ, PYTHONHASHSEED=str(sc["hash"]))
    q = subprocess.run([sys.executable, "-W", "ignore", "-m", "sim.props.c08"], input=json.dumps(sc["specs"]).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=os.path.dirname(os.path.dirname(
                           os.path.dirname(os.path.abspath(__file__)))))
    if q.returncode != 0:
        raise RuntimeError("fresh interpreter failed: " + q.stderr.decode()[-800:])
    there = pickle.loads(q.stdout[q.stdout.index(b"@@PICKLE@@") + 10:])
    res = {"steps": 2 * sum(iterations(s["p"]) for s in sc["specs"]), "faults": {"fresh-interpreter": len(here)},
           "inter": "fresh" + digest(here), "obs": here}
    for s, a, b in zip(sc["specs"], here, there):
        d = same(a, b)
        if d:
            res["viol"] = viol("not-reproducible", f"{s['algo']}: a fresh interpreter gave another result: {d}")
            return res
    return res


def shrink(sc):
    if sc["kind"] == "fresh":
        for k in range(len(sc["specs"])):
            if len(sc["specs"]) > 1:
                yield dict(sc, specs=[sc["specs"][k]])
        return
    if sc["kind"] == "seeds":
        for k in range(len(sc["seeds"])):
            if len(sc["seeds"]) > 2:
                yield dict(copy.deepcopy(sc), seeds=sc["seeds"][:k] + sc["seeds"][k + 1:])
        return
    for key in ("pre", "acts"):
        for k in range(len(sc[key])):
            c = copy.deepcopy(sc)
            del c[key][k]
            yield c
    for k in ("clock", "ref_clock"):
        if sc[k] != [1.0e9, "steady", 0]:
            yield dict(copy.deepcopy(sc), **{k: [1.0e9, "steady", 0]})
    if sc["pid"]:
        yield dict(copy.deepcopy(sc), pid=False)
    for c in shrink_common(sc["spec"]):
        yield dict(copy.deepcopy(sc), spec=c)


if __name__ == "__main__":
    specs = json.load(sys.stdin)
    so, sys.stdout = sys.stdout, open(os.devnull, "w")
    out = [reference(s)[0] for s in specs]
    so.buffer.write(b"@@PICKLE@@" + pickle.dumps(out))
    so.flush()
    os._exit(0)
