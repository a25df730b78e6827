"""Running a real sampler as a simulated task: seeded draws, observed and faulted operators."""
import numpy as np

from sim import boot  # noqa: F401  (seams first)
from sim import rng, sched, worlds
from pxmcmc.mcmc import MYULA, PxMALA, PxMCMCParams, SKROCK

ALGOS = {"MYULA": MYULA, "PxMALA": PxMALA, "SKROCK": SKROCK}
TRACKS = ["logposterior", "L2", "prior", "chain", "predictions"]
ATTR = {"logposterior": "logPi", "L2": "L2s", "prior": "priors", "chain": "chain",
        "predictions": "preds"}


class InjectedError(Exception):
    pass


class InjectedArith(ArithmeticError):
    pass


EXC = {
    "error": InjectedError, "runtime": RuntimeError, "value": ValueError, "type": TypeError,
    "attribute": AttributeError, "index": IndexError, "key": KeyError, "zerodiv": ZeroDivisionError,
    "floating": FloatingPointError, "memory": MemoryError, "os": OSError, "linalg": np.linalg.LinAlgError,
    "stopiter": StopIteration, "assert": AssertionError, "arith": InjectedArith,
    "keyboard": KeyboardInterrupt, "exit": SystemExit, "genexit": GeneratorExit,
}


def spoil(v, how, pos):
    """A failed numerical computation: the value v comes back with NaN or inf in it."""
    bad = {"nan": np.nan, "inf": np.inf, "ninf": -np.inf}[how.rstrip("1")]
    if np.ndim(v) == 0:
        return type(v)(bad) if isinstance(v, (float, np.floating)) else bad
    v = np.array(v, dtype=complex if np.iscomplexobj(v) else float)
    if how.endswith("1"):
        v.flat[pos % max(v.size, 1)] = bad
    else:
        v[...] = bad
    return v


class Spy:
    """Counts, logs and faults the calls a sampler makes into its operators.

    plan: [site, n, action, arg]: the n-th call at site raises or returns a spoilt value.
    """

    def __init__(self, W, plan=(), log_states=False, yields=False):
        self.counts = {"forward": 0, "gradg": 0, "prox": 0, "prior": 0}
        self.plan = {(p[0], int(p[1])): (p[2], p[3]) for p in plan}
        self.fired = []
        self.log_states = log_states
        self.raised = []
        self.yields = yields
        op, pr = W.op, W.prior
        self._wrap(op, "forward", "forward")
        self._wrap(op, "calc_gradg", "gradg")
        self._wrap(pr, "proxf", "prox")
        self._wrap(pr, "prior", "prior")

    def _wrap(self, obj, name, site):
        orig = getattr(obj, name)

        def call(x, *a, **k):
            st = rng.current()
            if st is not None:
                st.spend()
                if self.log_states and site == "forward":
                    st.log.append(("F", np.array(x)))
            n = self.counts[site]
            self.counts[site] = n + 1
            if self.yields:
                sched.maybe_yield()
            act = self.plan.get((site, n))
            if act is not None and act[0].startswith("raise:"):
                self.fired.append(act[0])
                e = EXC[act[0][6:]]("injected by the simulator")
                self.raised.append(e)
                raise e
            v = orig(x, *a, **k)
            if act is not None:
                self.fired.append(act[0])
                v = spoil(v, act[0], act[1])
            return v

        setattr(obj, name, call)


def iterations(p):
    """Iterations a run needs: the last of nsamples rows is saved at nburn + (nsamples-1)*gap."""
    return 0 if p["nsamples"] == 0 else p["nburn"] + (p["nsamples"] - 1) * max(p["ngap"], 1) + 1


def start_point(W, sc):
    s = sc.get("start")
    if s is None:
        return None
    g = worlds.gen(s["seed"])
    X = g.standard_normal(W.nparams)
    if W.complex:
        X = X + 1j * g.standard_normal(W.nparams)
    if s.get("kind") == "sparse":
        X = X * (g.random(W.nparams) < 0.4)
    elif s.get("kind") == "zero":
        X = X * 0
    elif s.get("kind") == "big":
        X = X * 30
    elif s.get("kind") == "tiny":
        X = X * 10.0 ** g.choice([0, -8, -17, -20, -300], W.nparams)
    return X


def gen_start(r):
    if r.random() < 0.15:
        return None
    return {"seed": r.randrange(2**31), "kind": r.choice(["plain", "plain", "sparse", "zero", "big", "tiny"])}


def budget(p, algo):
    e = iterations(p)
    s = p["s"] if algo == "SKROCK" else 1
    return 3000 + e * (200 + 60 * 2 ** min(s, 12))


class Result:
    pass


def make_sampler(W, p, algo, **extra):
    kw = dict(extra)
    params = worlds.make_params(p, W, PxMCMCParams)
    if algo == "PxMALA" and "tune" in p:
        kw["tune_delta"] = p["tune"]
    m = ALGOS[algo](W.op, W.prior, params, **kw)
    return m, params


def run_chain(W, p, algo, seed, X0=None, overrides=None, spy=None, sampler=None):
    """One complete run; exceptions of the package propagate."""
    R = Result()
    if sampler is None:
        sampler, R.params = make_sampler(W, p, algo)
        R.delta0 = R.params.delta       # what the user asked for
    else:
        R.delta0 = sampler.delta
    R.m = sampler
    R.stream = rng.Stream(seed, overrides, budget(p, algo))
    with rng.using(R.stream):
        sampler.run() if X0 is None else sampler.run(X0)
    R.log = R.stream.log
    return R


def rows(m):
    """Everything a sampler recorded, copied."""
    out = {}
    for a in ("logPi", "L2s", "priors", "chain", "preds"):
        if hasattr(m, a):
            out[a] = np.array(getattr(m, a))
    for a in ("acceptance_trace", "deltas_trace"):
        if hasattr(m, a):
            out[a] = np.array(list(getattr(m, a)), dtype=float)
    return out


def same(a, b, rtol=1e-9, atol=1e-11):
    """Equal up to rounding, NaN equal to NaN; None where different keys/shapes."""
    if set(a) != set(b):
        return f"different quantities {sorted(a)} / {sorted(b)}"
    for k in sorted(a):
        x, y = a[k], b[k]
        if x.shape != y.shape:
            return f"{k}: shape {x.shape} / {y.shape}"
        if not np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True):
            bad = np.argwhere(~np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=True))[0]
            return f"{k}{bad.tolist()}: {x[tuple(bad)]!r} / {y[tuple(bad)]!r}"
    return None


def recorded(p, i):
    """Row in which iteration i is recorded, or None."""
    gap = max(p["ngap"], 1)
    if i < p["nburn"] or (i - p["nburn"]) % gap:
        return None
    return (i - p["nburn"]) // gap


def gen_schedule(r, p, total):
    """Spread `total` iterations over burn-in, thinning and saved samples."""
    if r.random() < 0.5:
        p["nburn"], p["ngap"], p["nsamples"] = 0, r.choice([0, 1]), total
    else:
        p["ngap"] = r.choice([0, 1, 2, 3, 5])
        p["nburn"] = r.randrange(0, total) if total > 1 else 0
        p["nsamples"] = max(1, (total - p["nburn"]) // max(p["ngap"], 1))


def initial_from_draws(R, W):
    """The start the sampler drew itself (documented: Laplace), if the draws tell."""
    L = R.stream.values("L")
    n = W.nparams
    if L.size == n and not W.complex:
        return L
    if L.size == 2 * n and W.complex:
        return L[:n] + 1j * L[n:]
    return None


def noise_rows(Z, n, cplx, iters, order=0):
    """Logged normals as one noise vector per iteration (None if the count is off)."""
    k = n * (2 if cplx else 1)
    if Z.size != iters * k:
        return None
    Z = Z.reshape(iters, k)
    if not cplx:
        return Z
    if order == 0:
        return Z[:, :n] + 1j * Z[:, n:]
    if order == 1:
        return Z[:, n:] + 1j * Z[:, :n]
    return Z[:, 0::2] + 1j * Z[:, 1::2]


def shrink_common(sc):
    """Generic shrinking of chain scenarios."""
    import copy

    p = sc["p"]
    for f in (2, 4):
        if p["nsamples"] // f >= 1:
            c = copy.deepcopy(sc)
            c["p"]["nsamples"] = p["nsamples"] // f
            yield c
    if p["nsamples"] > 1:
        c = copy.deepcopy(sc)
        c["p"]["nsamples"] -= 1
        yield c
    for k, v in (("nburn", 0), ("ngap", 1), ("verbosity", 0), ("mu", 1.0), ("s", 1)):
        if p.get(k) != v:
            c = copy.deepcopy(sc)
            c["p"][k] = v
            yield c
    if p.get("nburn", 0) > 1:
        c = copy.deepcopy(sc)
        c["p"]["nburn"] //= 2
        yield c
    if sc.get("overrides"):
        for j in range(len(sc["overrides"])):
            c = copy.deepcopy(sc)
            del c["overrides"][j]
            yield c
    w = sc["w"]
    for k in ("nimg", "npar", "ndata"):
        if w.get(k, 1) > 1:
            c = copy.deepcopy(sc)
            c["w"][k] = 1
            if k == "nimg" and c["w"].get("setting") == "analysis":
                c["w"]["npar"] = 1
            yield c
    for k, v in (("sig", "scalar"), ("prior", "L1"), ("utrans", False), ("mask", "none"), ("ngal", False)):
        if w.get(k) not in (v, None):
            c = copy.deepcopy(sc)
            c["w"][k] = v
            if k == "utrans":
                c["w"]["npar"] = c["w"]["nimg"]
            yield c
    if sc.get("plan") and len(sc["plan"]) > 1:
        for j in range(len(sc["plan"])):
            c = copy.deepcopy(sc)
            del c["plan"][j]
            yield c
