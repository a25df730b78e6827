"""C10: operators, priors, transforms and helpers remember nothing and change nothing they are given."""
import copy
import random

import numpy as np
from scipy import sparse

from sim.chain import *
from sim.engine import digest, viol
from sim import boot, rng, sched, worlds
from sim.fork import forked
from sim.props.c09 import shrink_switches

ID = "C10"
LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 40000}
RULE = ("1 to 3 caller threads make random calls on one shared set of operator, prior, transform, measurement and helper "
        "functions under a seeded line-level scheduler: repeated, permuted, negated, slightly perturbed inputs, buffers "
        "reused in place, malformed inputs, interrupted calls, results scribbled over, other objects built with nearly the "
        "same arguments; every result is compared with the same call on a newly built object in an unused process; non-trivial: at least three calls; distinct by (call history, switches)")
REAL = ["pxmcmc.forward", "pxmcmc.measurements", "pxmcmc.transforms", "pxmcmc.prior", "pxmcmc.utils", "pxmcmc.uncertainty"]
STUB = ["thread scheduler (real threads, one running at a time, seeded switching)", "numpy random draws"]
INTER = "distinct (call history, context-switch sequence) pairs"
STEP_UNIT = "scheduling points"
ASSUMPTIONS = ["switches happen between source lines of the package, not inside C extensions"]

TARGETS = ["op.forward", "op.forward", "op.calc_gradg", "op.calc_gradg", "prior.proxf", "prior.proxf", "prior.prior",
           "transform.forward", "transform.inverse", "transform.forward_adjoint", "transform.inverse_adjoint",
           "measurement.forward", "measurement.adjoint"]
HELPERS = ["soft", "mw_map_weights", "calc_pixel_areas", "s2_integrate", "flatten_expand", "chebyshev1", "cheb1der",
           "build_mask", "ci", "wci", "threshold", "snr", "map2alm", "alm2map", "sks", "mask_forward", "chebyshev2", "areas",
           "weights_theta", "bandlimits", "region", "expand"]
MODS = ["new", "new", "same", "permute", "negate", "nudge", "inplace", "view", "bad", "int", "zero", "scales", "nonfinite"]


def gen(r, i, tier):
    w = worlds.gen_world(r)
    tasks = []
    few = r.sample(HELPERS, 2) if i % 6 == 4 else None      # one helper again and again with different settings
    for _ in range(r.choice([1, 1, 2, 3])):
        calls = []
        for _ in range(r.choice([3, 5, 8]) if not few else 14):
            t = r.choice(TARGETS) if r.random() < 0.75 else "util." + r.choice(HELPERS)
            if few:
                t = "util." + r.choice(few)
            elif r.random() < 0.12:
                t = "near"
            calls.append([t, r.choice(MODS), r.randrange(2**31), r.random() < 0.3])
        tasks.append(calls)
    sc = {"w": w, "tasks": tasks, "sseed": r.randrange(2**31), "rate": r.choice([0.02, 0.2, 0.5]), "switches": None}
    if r.random() < 0.3:
        sc["kill"] = [r.randrange(len(tasks)), r.randrange(120), r.choice(["keyboard", "memory", "runtime"])]
    return sc


def neighbour(w, seed):
    """A problem that differs from w in one or two respects only."""
    r = random.Random(seed)
    v = copy.deepcopy(w)
    for _ in range(r.choice([1, 1, 2])):
        k = r.choice(["seed", "sigma", "T", "setting", "sig", "mask", "ngal", "prior", "BJ", "BJ"])
        if k == "seed":
            v["seed"] += 1
        elif k == "BJ":
            if "B" in v:
                near = [x for x in worlds.WAVELETS if x[0] == v["L"] and (x[1] == v["B"] or x[2] == v["J"])]
                full = [x for x in near if worlds._full(*x, v.get("spin", 0))]
                pick = full if v["prior"].startswith("S2") else near
                if pick:
                    v["L"], v["B"], v["J"] = r.choice(pick)
        elif k == "sigma":
            v[k] *= 2
        elif k == "T":
            v[k] += 0.05
        elif k == "setting":
            if not v["prior"].startswith("S2"):
                v[k] = r.choice(["analysis", "synthesis"])
        elif k == "sig":
            v[k] = r.choice(["scalar", "vector", "matrix"])
        elif k == "mask" and k in v:
            v[k] = r.choice(["none", "random", "half"])
        elif k == "ngal" and k in v:
            v[k] = not v[k]
        elif k == "prior" and v[k] in ("S2", "S2P"):
            v[k] = "S2P" if v[k] == "S2" else "S2"
    return v


def visit(w, seed):
    """Build a neighbour and use it a little."""
    W = worlds.build(neighbour(w, seed))
    for t in ("op.forward", "op.calc_gradg", "prior.proxf", "prior.prior", "transform.forward"):
        attempt(resolve(W, t), make_input(W, t, "new", seed, None))
    return 0.0


def sizes(W, target):
    """Length of the vector a target expects (None: unknown here)."""
    op = W.op
    nd, npar = len(W.data), W.nparams
    T = op.transform
    nimg = getattr(op.measurement, "npix", None) or W.nimg
    ncoef = W.ncoef
    return {"op.forward": npar, "op.calc_gradg": nd, "prior.proxf": npar, "prior.prior": npar,
            "transform.forward": nimg, "transform.inverse": ncoef, "transform.forward_adjoint": ncoef,
            "transform.inverse_adjoint": nimg, "measurement.forward": nimg, "measurement.adjoint": nd}.get(target)


def make_input(W, target, mod, seed, prev):
    """A caller-owned input; prev: the caller's previous input for this target (or None)."""
    n = sizes(W, target)
    g = worlds.gen(seed)

    def fresh():
        x = g.standard_normal(n)
        return x + 1j * g.standard_normal(n) if W.complex else x

    if mod == "bad" and W.spec["kind"] in worlds.WAVELET_KINDS + ("wl",):
        mod = "new"  # the C libraries underneath do not check lengths
    if prev is None and mod in ("same", "permute", "negate", "nudge", "inplace"):
        mod = "new"
    if mod == "new":
        return fresh()
    if mod == "same":
        return prev
    if mod == "permute":
        return g.permutation(prev)
    if mod == "negate":
        return -prev
    if mod == "nudge":
        x = prev.copy()
        x[seed % n] += 1e-3
        return x
    if mod == "inplace":
        prev[:] = fresh()[:len(prev)] if len(prev) == n else prev
        return prev
    if mod == "view":
        big = np.empty(2 * n, dtype=complex if W.complex else float)
        big[::2] = fresh()
        return big[::2]
    if mod == "bad":
        return fresh()[:max(n - 1, 0)] if seed % 2 else np.concatenate([fresh(), [1.0]])
    if mod == "scales":  # values of very different sizes, exact zeros among them
        return fresh() * np.array([1.0, 1e-6, 1e-13, 1e5, 0.0, 1e-300, 1.0])[g.integers(0, 7, n)]
    if mod == "nonfinite":  # what a diverged chain passes on
        x = fresh()
        x[g.random(n) < 0.3] = [np.nan, np.inf, -np.inf, 1e300][seed % 4]
        x[seed % n] = [np.nan, np.inf, -np.inf, 1e300][seed % 4]
        return x
    if mod == "int":
        return g.integers(-3, 4, n)
    return fresh() * 0


def resolve(W, target, seed=0):
    kind, name = target.split(".")
    if kind == "util":
        return helper(W, name, random.Random(seed % 13))    # few settings: the same and nearly the same ones come back
    obj = {"op": W.op, "prior": W.prior, "transform": W.op.transform, "measurement": W.op.measurement}[kind]
    return getattr(obj, name)


def helper(W, name, q):
    from pxmcmc import uncertainty as un, utils as u

    seen = []
    L = q.choice([2, 3, 4, 5])
    alpha = q.choice([0.05, 0.2, 0.21, 0.5])

    def A(v):
        """An argument of the caller's; checked afterwards."""
        v = np.array(v)
        seen.append((v, v.copy()))
        return v

    def h(x):
        y = call(x)
        for v, c in seen:
            if v.shape != c.shape or v.dtype != c.dtype or not np.array_equal(v, c, equal_nan=v.dtype.kind in "fc"):
                raise Touched(name)
        return y

    def call(x):
        seen.append((x, x.copy()))
        if name == "soft":
            k = q.randrange(4)
            return u.soft(x, [A(0.1 + 0.2 * (np.arange(len(x)) % 3)), 0.3, 0.31, A(0.3)][k])
        if name == "mw_map_weights":
            return u.mw_map_weights(L)
        if name == "calc_pixel_areas":
            return u.calc_pixel_areas(L, *q.choice([(), (1,), (1.5,), (2,), (0.5,)]))
        if name == "areas":
            r, t = q.choice([1, 1.5, 1.2]), q.choice([0.1, 0.4, 1.3])
            return np.array([u.pixel_area(r, t, t + 0.2, 0.3, 0.3 + t), u.polar_cap_area(r, t)])
        if name == "weights_theta":
            return np.append(u.weights_theta(L), u.mw_weights(q.choice([-2, -1, 0, 1, 2, 3])))
        if name == "bandlimits":
            f = getattr(u, "_multires_bandlimits", None)
            return f(*q.choice(worlds.WAVELETS)) if f else u.norm(x)
        if name == "s2_integrate":
            return u.s2_integrate(A(np.resize(x, L * (2 * L - 1))), L)
        if name == "flatten_expand":
            k = len(x) // 3
            wv, sc = u.expand_mlm(x[:3 * k], nscales=2)
            return u.flatten_mlm(wv, sc)
        if name == "expand":
            n = q.choice([1, 2, 3])
            y = A(np.resize(x, 6 * (n + 1)))
            if q.random() < 0.5:
                return np.concatenate([v.ravel() for v in u.expand_mlm(y, nscales=n, flatten_wavs=q.random() < 0.5)])
            return np.concatenate([v.ravel() for v in u.expand_mlm(y, nscalcoefs=n)])
        if name in ("chebyshev1", "chebyshev2", "cheb1der"):
            X = q.choice([x, x, 1.05, 1.0501, 1.2, 1, 0.3])
            return getattr(u, name)(X, q.choice([0, 1, 2, 3, 4, 5, 7]))
        if name == "build_mask":
            return u.build_mask(q.choice([3, 4]), *q.choice([(), (30,), (20.5,), (10,)]))
        if name == "ci":
            return un.credible_interval_range(A(np.resize(np.real(x), (q.choice([6, 6, 2, 40, 300]), q.choice([1, 4, 5])))), alpha)
        if name == "wci":
            wv = q.choice(sorted(x for x in worlds.WAVELETS if worlds._full(*x, 0)))
            W_ = sum(int(b) * (2 * int(b) - 1) for b in bands(wv))
            return np.concatenate([v.ravel() for v in un.wavelet_credible_interval_range(
                A(np.resize(np.real(x), (3, W_))), *wv, alpha)])
        if name == "threshold":
            return un.credible_region_threshold(A(np.real(x)), alpha)
        if name == "region":
            return float(un.in_credible_region(np.real(x)[0], q.choice([0.0, 0.3])))
        if name == "snr":
            return u.snr(x, A(x + 1))
        if name == "map2alm":
            return u.map2alm(A(np.resize(np.real(x), q.choice([12, 48])).astype(float)), q.choice([1, 2]))
        if name == "alm2map":
            return u.alm2map(A(np.resize(x, 6).astype(complex)), q.choice([1, 2]))
        if name == "sks":
            m = W.op.measurement
            return m.sks_estimate(A(np.resize(x, m.L**2).astype(complex))) if W.spec["kind"] == "wlh" else u.norm(x)
        if name == "mask_forward":
            m = W.op.measurement
            if W.spec["kind"] == "wl":
                return m.mask_adjoint(A(m.mask_forward(A(np.resize(x, m.shape).astype(complex)))))
            return u.norm(x)
    return h


def bands(wv):
    """Band limits of the multiresolution maps, straight from the tiling."""
    import pys2let

    L, B, J = wv
    phi, psi = pys2let.wavelet_tiling(B, L, 1, J, 0)
    psi = np.array([[p[l * l + l] for l in range(L)] for p in psi.T])
    return [np.nonzero(g)[0].max() + 1 for g in np.vstack([phi, psi])]


class Touched(Exception):
    pass


def attempt(f, x):
    try:
        return "ok", f(x)
    except Touched:
        return "touched", None
    except BaseException as e:
        if str(e) == "injected by the simulator":
            return "interrupted", None
        if not isinstance(e, Exception):
            raise
        return "err", type(e).__name__


def relayout(x, strided):
    """A copy with the memory layout the original input had."""
    if not strided:
        return x.copy()
    big = np.empty(2 * len(x), dtype=x.dtype)
    big[::2] = x
    return big[::2]


def dense(v):
    return v.toarray() if sparse.issparse(v) else np.asarray(v)


def run(sc):
    res, calls = forked(lambda: history(sc))
    if res.get("viol"):
        return res
    return forked(lambda: judge(sc, res, calls))


def judge(sc, res, calls):
    """The same calls on new objects, in a process in which nothing else has happened."""
    for r in calls:
        W2 = worlds.build(sc["w"])
        tag, val = attempt(resolve(W2, r["target"], r["seed"]), relayout(r["x"], r["strided"]))
        gtag, gval = r["res"]
        what = f"{r['target']} ({r['mod']} input, call {r['n']})"
        if tag != gtag:
            res["viol"] = viol("history", f"{what} gave {gtag} {gval if gtag == 'err' else ''} where a new object gives {tag} "
                                          f"{val if tag == 'err' else ''}")
            return res
        if tag == "ok":
            e = dense(val)
            if e.shape != r["copy"].shape or not np.allclose(r["copy"], e, rtol=1e-9, atol=1e-10, equal_nan=True):
                res["viol"] = viol("history", f"{what} gave another value than the same call on a new object")
                return res
    return res


def history(sc):
    """The calls as they happen; returns (result so far, calls to be judged)."""
    early = [c[2] for t in sc["tasks"] for c in t if c[0] == "near" and c[2] % 3 == 0]
    for seed in early:  # some neighbours exist before the objects under test are built
        visit(sc["w"], seed)
    W = worlds.build(sc["w"])
    S = sched.Scheduler(sc["sseed"], sc["switches"], sc["rate"], boot.PKG, False, 2_000_000)
    hist = [[] for _ in sc["tasks"]]

    def body(k, calls):
        def f():
            prev = {}
            for n, (target, mod, seed, scribble) in enumerate(calls):
                if target == "near":
                    if seed % 3:
                        visit(sc["w"], seed)
                    continue
                key = "op.forward" if target.startswith("util.") else target
                x = make_input(W, key, mod, seed, prev.get(key))
                snap = np.array(x)
                rec = {"target": target, "x": snap, "mod": mod, "n": n, "seed": seed, "strided": not x.flags.c_contiguous}
                hist[k].append(rec)
                rec["res"] = attempt(resolve(W, target, seed), x)
                if rec["res"][0] == "touched" or not (x.shape == snap.shape and np.array_equal(x, snap, equal_nan=x.dtype.kind in "fc")):
                    rec["mutated"] = True
                if rec["res"][0] == "ok":
                    out = rec["res"][1]
                    rec["copy"] = np.array(dense(out))
                    alias = isinstance(out, np.ndarray) and np.may_share_memory(out, x)
                    # the identity transform hands back its argument; everything else returns something of its own
                    own = not (alias and target.startswith("transform.")
                               and type(W.op.transform).__name__ == "IdentityTransform")
                    rec["live"] = None if scribble or not own else out
                    if scribble and isinstance(out, np.ndarray) and out.ndim and out.flags.writeable and not alias:
                        out[...] = 77
                        rec["scribbled"] = True
                if mod != "bad":
                    prev[key] = x
        return f

    ts = [S.spawn(body(k, c)) for k, c in enumerate(sc["tasks"])]
    kill = sc.get("kill")
    if kill:
        ts[kill[0]].interrupts[kill[1]] = EXC[kill[2]]("injected by the simulator")
    st = rng.Stream(sc["sseed"])
    S.run()
    ncalls = sum(map(len, hist))
    res = {"steps": S.step, "nontrivial": ncalls >= 3, "switches": S.taken,
           "faults": {"context-switch": len(S.taken), "interrupted-call": S.interrupted,
                      "malformed-input": sum(r["mod"] == "bad" for h in hist for r in h),
                      "scribbled-result": sum(bool(r.get("scribbled")) for h in hist for r in h),
                      "neighbour-object": sum(c[0] == "near" for t in sc["tasks"] for c in t),
                      "buffer-reused": sum(r["mod"] == "inplace" for h in hist for r in h)},
           "probes": {"calls": ncalls, "raised": sum(r.get("res", ("",))[0] == "err" for h in hist for r in h)},
           "inter": digest([sc["tasks"], S.taken if sc["switches"] is None else sc["switches"], sc["w"]["seed"]]),
           "obs": [[r.get("copy") for r in h] for h in hist]}
    if S.deadlock:
        res["viol"] = viol("deadlock", "concurrent calls blocked each other for ever")
        return res, []
    for k, t in enumerate(ts):
        if t.error is not None and not (kill and k == kill[0] and S.interrupted):
            raise t.error
    # late victim: one more call after everything, by a fresh caller
    for h in hist:
        for r in h:
            if r.get("mutated"):
                res["viol"] = viol("input-mutated", f"{r['target']} modified the array it was given")
                return res, []
            if r.get("live") is not None:
                now = dense(r["live"])
                if not np.array_equal(now, r["copy"], equal_nan=True):
                    res["viol"] = viol("output-changed", f"a result of {r['target']} changed after it was returned")
                    return res, []
    for k, (v, c) in W.given.items():
        bad = (v != c).nnz if sparse.issparse(v) else not np.array_equal(v, c)
        if bad:
            res["viol"] = viol("argument-mutated", f"the caller's constructor argument '{k}' was modified")
            return res, []
    calls = [{k: r[k] for k in ("target", "mod", "n", "seed", "strided", "x", "copy") if k in r} | {"res": (r["res"][0], None if r["res"][0] == "ok" else r["res"][1])}
             for h in hist for r in h if "res" in r and r["res"][0] != "interrupted"]
    return res, calls


def concretize(sc, res):
    if sc["switches"] is None and res.get("switches") is not None:
        return dict(copy.deepcopy(sc), switches=res["switches"])
    return None


def shrink(sc):
    for k in range(len(sc["tasks"])):
        if len(sc["tasks"]) > 1 and not sc.get("kill"):
            c = copy.deepcopy(sc)
            del c["tasks"][k]
            yield c
        for n in range(len(sc["tasks"][k])):
            if len(sc["tasks"][k]) > 1:
                c = copy.deepcopy(sc)
                del c["tasks"][k][n]
                yield c
    if sc.get("kill"):
        c = copy.deepcopy(sc)
        del c["kill"]
        yield c
    yield from shrink_switches(sc)
