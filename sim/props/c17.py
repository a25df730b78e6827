"""C17: the experiment programs under kills, disk errors, worker schedules and jobs running at the same time."""
import atexit
import copy
import datetime
import functools
import multiprocessing
import os
import pickle
import random
import runpy
import sys

import healpy as hp
import numpy as np
import pys2let
import pyssht
from greatcirclepaths import GreatCirclePath
from scipy import sparse

from sim.chain import *
from sim.engine import digest, viol
from sim import boot, rng, saves, worlds
import pxmcmc.mcmc
from pxmcmc.measurements import WeakLensing
from pxmcmc.utils import build_mask, calc_pixel_areas
from pxmcmc.prior import S2_Wavelets_L1_Power_Weights

ID = "C17"
LEVEL = "exploration"
RUNS = {"quick": 420, "thorough": 9000}
RULE = ("one to three jobs of an experiment program (mostly phase velocity, whose jobs share a path cache; also weak lensing and "
        "topography) are run in a history of up to five steps: undisturbed, killed before/in/after a disk operation, meeting a "
        "disk error, with a failing pool worker, stopped at a random draw (interrupt, out of memory), or paused at a disk operation while another job runs from start to end; then "
        "every job is repeated undisturbed; pool tasks run in a seeded order; non-trivial: a fault or pause took effect; "
        "distinct by (history, outcomes)")
REAL = ["experiments/*/main.py as __main__", "pxmcmc", "greatcirclepaths", "scipy/numpy/h5py/healpy I/O", "process death and fork"]
STUB = ["disk system calls (simdisk.so)", "multiprocessing.Pool (seeded task order, pickled arguments and results)",
        "datetime.now", "numpy random draws", "chain length (a few iterations)"]
INTER = "distinct job histories (steps, fault points, pauses)"
STEP_UNIT = "disk operations"
ASSUMPTIONS = ["a process dies, not the machine", "two jobs at once differ in job id", "a job pauses only at disk operations",
               "path caches belong to the data file they were built from"]
EXP = os.path.dirname(boot.PKG) + "/experiments"
KINDS = {"before": saves.CRASH_BEFORE, "torn": saves.CRASH_TORN, "after": saves.CRASH_AFTER}


# -- scenarios ---------------------------------------------------------------------

def gen(r, i, tier):
    exp = "phasevel" if r.random() < 0.75 else r.choice(["weaklensing", "earthtopography"])
    L = {"phasevel": r.choice([4, 6, 7, 8]), "weaklensing": r.choice([4, 6]), "earthtopography": r.choice([5, 7])}[exp]
    n = r.randint(1, 8)
    jobs = []
    for k in range(r.choice([1, 2, 2, 3])):
        a = {"algo": r.choice(["myula", "pxmala", "skrock"]), "delta": r.choice([1e-6, 1e-4, 1e-3]),
             "mu": r.choice([1.0, 0.5, 3.0]), "jobid": ["0", "b1", "77"][k]}
        if exp == "phasevel":
            a["nsim"] = r.random() < 0.4
            a["eta"] = r.choice([1.0, 2.0])
        elif exp == "earthtopography":
            a["makenoise"] = r.random() < 0.5
            a["scaleafrica"] = r.choice([0, 2]) if a["makenoise"] else 0
            a["sigma"] = r.choice([1.0, 0.5])
        jobs.append({"a": a, "seed": r.randrange(2**31)})
    steps = []
    for _ in range(r.choice([1, 2, 3, 5])):
        st = {"job": r.randrange(len(jobs)), "order": r.randrange(2**31), "fault": None}
        x = r.random()
        if x < 0.35:
            st["fault"] = ["kill", r.random(), r.choice(sorted(KINDS)), r.randrange(1 << 20)]
        elif x < 0.5:
            st["fault"] = ["err", r.random(), r.choice(["EIO", "ENOSPC", "EACCES", "EDQUOT"]), r.random() < 0.4]
        elif x < 0.58 and exp == "phasevel":
            st["fault"] = ["worker", r.randrange(n), r.choice([None, "fill", "get_points"])]
        elif x < 0.64:
            st["fault"] = ["stop", r.random(), r.choice(sorted(STOPS))]
        elif x < 0.88 and len(jobs) > 1:
            other = r.choice([j for j in range(len(jobs)) if j != st["job"]])
            st["fault"] = ["pause", r.random(), other]
        steps.append(st)
    return {"exp": exp, "L": L, "n": n, "jobs": jobs, "steps": steps, "dseed": r.randrange(2**31),
            "size": [r.choice([1, 2, 4]), r.choice([0, 1]), r.choice([0, 1, 2])], "s": r.choice([1, 2, 3]),
            "cache": r.choice(["p.npz", "p.npz", "paths file.npz", "cache/p.npz"]), "after": True}


# -- the simulated surroundings ------------------------------------------------------

class WorkerError(Exception):
    pass


class Result:
    """An AsyncResult of one or several tasks; what is still to do is done in the simulator's order."""

    def __init__(self, pool, n, single, callback=None, error_callback=None):
        self.pool, self.left, self.single = pool, n, single
        self.got, self.error, self.cb, self.ecb = [None] * n, None, callback, error_callback
        self.order = []
        if n == 0:
            self._finish()

    def _put(self, k, v, e):
        self.order.append((k, v, e))
        self.got[k] = v
        self.left -= 1
        if e is not None and self.error is None:
            self.error = e
        if self.left == 0:
            self._finish()

    def _finish(self):
        if self.error is not None and self.ecb:
            self.ecb(self.error)
        if self.error is None and self.cb:
            self.cb(self.value)

    @property
    def value(self):
        return self.got[0] if self.single else list(self.got)

    def wait(self, timeout=None):
        while self.left:
            if timeout is not None and self.pool.g.random() < 0.5:
                return
            self.pool._step()

    def get(self, timeout=None):
        self.wait(timeout)
        if self.left:
            raise multiprocessing.TimeoutError
        if self.error is not None:
            raise self.error
        return self.value

    def ready(self):
        if self.left and self.pool.g.random() < 0.6:
            self.pool._step()
        return self.left == 0

    def successful(self):
        if self.left:
            raise ValueError("not ready")
        return self.error is None


STOPS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


class Stopping(rng.Stream):
    """A stream whose k-th draw does not happen: the user interrupts, or memory is short."""

    def __init__(self, seed, stop=None):
        super().__init__(seed)
        self.stop, self.drawn, self.stopped = stop, 0, False

    def _deliver(self, kind, n):
        self.drawn += 1
        if self.stop is not None and self.drawn == self.stop[0]:
            self.stopped = True
            raise STOPS[self.stop[1]]("injected by the simulator")
        return super()._deliver(kind, n)


def failing(inside, f, args):
    """A worker's task which fails: before it starts, or within the path work it does."""
    if inside is None:
        SimPool.failed += 1
        raise WorkerError("injected by the simulator")
    cls = type(GreatCirclePath((0.0, 0.0), (10.0, 10.0), "MW", L=4, weighting="average", latlon=True))
    had, real = inside in vars(cls), getattr(cls, inside)

    def broken(self, *a, **k):
        SimPool.failed += 1
        raise WorkerError("injected by the simulator")

    setattr(cls, inside, broken)
    try:
        return f(*args)
    finally:
        if had:
            setattr(cls, inside, real)
        else:
            delattr(cls, inside)


class SimPool:
    """multiprocessing.Pool with the order in which tasks are done decided by the simulator."""

    order, fail, inside, tasks, failed = 0, None, None, 0, 0

    def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
        if initializer:
            initializer(*initargs)
        self.g = random.Random(SimPool.order)
        self.todo, self.gone = [], False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def close(self):
        pass

    def terminate(self):
        self.gone, self.todo = True, []

    def join(self):
        while self.todo:
            self._step()

    def _step(self):
        """One task still to do, whichever the simulator picks, is done."""
        if not self.todo:
            raise RuntimeError("waits for ever: the pool was terminated before its tasks were done")
        t, k, f, args, kwds, res = self.todo.pop(self.g.randrange(len(self.todo)))
        try:
            f, args, kwds = pickle.loads(pickle.dumps((f, args, kwds)))
            g = lambda *a: f(*a, **kwds)
            v = failing(SimPool.inside, g, args) if SimPool.fail == t else g(*args)
            v, e = pickle.loads(pickle.dumps(v)), None
        except Exception as err:
            v, e = None, err
        res._put(k, v, e)

    def _submit(self, f, arglists, single=False, callback=None, error_callback=None, kwds={}):
        if self.gone:
            raise ValueError("Pool not running")
        res = Result(self, len(arglists), single, callback, error_callback)
        for k, a in enumerate(arglists):
            self.todo.append((SimPool.tasks, k, f, a, kwds, res))
            SimPool.tasks += 1
        return res

    def starmap_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return self._submit(f, [tuple(x) for x in it], False, callback, error_callback)

    def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return self._submit(f, [(x,) for x in it], False, callback, error_callback)

    def starmap(self, f, it, chunksize=None):
        return self.starmap_async(f, it).get()

    def map(self, f, it, chunksize=None):
        return self.map_async(f, it).get()

    def imap(self, f, it, chunksize=1):
        res = [self._submit(f, [(x,)], True) for x in it]
        return (r.get() for r in res)

    def imap_unordered(self, f, it, chunksize=1):
        res = self._submit(f, [(x,) for x in it])

        def items():
            for k in range(len(res.got)):
                while len(res.order) <= k:
                    self._step()
                _, v, e = res.order[k]
                if e is not None:
                    raise e
                yield v

        return items()

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        return self._submit(f, [tuple(args)], True, callback, error_callback, kwds)

    def apply(self, f, args=(), kwds={}):
        return self.apply_async(f, args, kwds).get()


def sim_datetime(t):
    class Now(datetime.datetime):
        ticks = 0

        @classmethod
        def now(cls, tz=None):
            cls.ticks += 1
            return datetime.datetime.fromtimestamp(t + cls.ticks * 0.01, datetime.timezone.utc).replace(tzinfo=None)

        utcnow = today = now

    return Now


def datalines(sc):
    g = worlds.gen(sc["dseed"])
    n = sc["n"]
    cols = [g.uniform(-80, 80, n), g.uniform(-179, 179, n), g.uniform(-80, 80, n), g.uniform(-179, 179, n),
            g.standard_normal(n), 0.3 + g.random(n), np.zeros(n), g.integers(1, 5, n)]
    if sc["dseed"] % 3 == 0:  # some data errors recorded with a sign: only their size counts
        cols[5] = np.where(g.random(n) < 0.4, -cols[5], cols[5])
    return np.round(np.stack(cols, 1), 4)


@functools.lru_cache(maxsize=None)
def healpix_map(seed):
    return worlds.gen(seed % 5).standard_normal(12 * 8**2)


def lay_out(D, sc):
    D.wipe()
    for d in ("in", "out", "cache"):
        os.makedirs(os.path.join(D.root, d))
    if sc["exp"] == "phasevel":
        np.savetxt(os.path.join(D.root, "in", "d.txt"), datalines(sc), fmt="%.6f")
    else:
        hp.write_map(os.path.join(D.root, "in", "m_hpx_8.fits"), healpix_map(sc["dseed"]), dtype=np.float64, overwrite=True)


def argv(D, sc, job):
    a = job["a"]
    out = ["main.py"]
    f = os.path.join(D.root, "in", "d.txt" if sc["exp"] == "phasevel" else "m_hpx_8.fits")
    if sc["exp"] == "earthtopography":
        out += ["--infile", f]
    else:
        out += [f]
    if sc["exp"] == "phasevel":
        out += [os.path.join(D.root, sc["cache"])]
    out += ["--outdir", os.path.join(D.root, "out"), "--L", str(sc["L"])]
    for k, v in a.items():
        if v is True:
            out.append("--" + k)
        elif v is not False:
            out += ["--" + k, str(v)]
    return out


def start(D, sc, job, order, now, plan=(), fail=None, inside=None, stop=None):
    """One job in its own process."""
    real = pxmcmc.mcmc.PxMCMCParams
    ns, gap, burn = sc["size"]

    def go():
        class Small(real):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                self.nsamples, self.ngap, self.nburn, self.verbosity, self.s = ns, gap, burn, 0, sc["s"]

        pxmcmc.mcmc.PxMCMCParams = Small
        multiprocessing.Pool = SimPool
        SimPool.order, SimPool.fail, SimPool.inside = order, fail, inside
        datetime.datetime = sim_datetime(now)
        sys.argv = argv(D, sc, job)
        os.chdir(D.root)
        err = None
        stream = Stopping(job["seed"], stop)
        atexit._clear()
        D.on(plan)
        try:
            with rng.using(stream):
                runpy.run_path(f"{EXP}/{sc['exp']}/main.py", run_name="__main__")
        except BaseException as e:
            err = f"{type(e).__name__}: {str(e)[:120]}"
        atexit._run_exitfuncs()     # what the program itself registered
        ops, fired = D.ops(), D.fired()
        import gc

        gc.collect()
        D.off()
        return {"err": err, "ops": ops, "fired": fired, "tasks": SimPool.tasks, "failed": SimPool.failed,
                "draws": stream.drawn, "stopped": stream.stopped}

    return saves.Child(go, D)


# -- oracles ---------------------------------------------------------------------------

@functools.lru_cache(maxsize=4096)
def path_row(a, b, c, d, L):
    p = GreatCirclePath((a, b), (c, d), "MW", L=L, weighting="average", latlon=True)
    p.get_points(points_per_rad=160)
    p.fill()
    return np.array(p.map, dtype=float)


def path_matrix(sc):
    return np.stack([path_row(*map(float, row[:4]), sc["L"]) for row in datalines(sc)])


def read(path):
    """The content of a results file, or what is wrong with it."""
    import h5py

    try:
        with h5py.File(path, "r") as f:
            return {"data": {k: f[k][()] for k in f}, "attrs": {k: f.attrs[k] for k in f.attrs}}
    except Exception as e:
        return f"{type(e).__name__}: {str(e)[:80]}"


def compare(got, want):
    if isinstance(got, str):
        return f"cannot be read ({got})"
    for part in ("data", "attrs"):
        if set(got[part]) != set(want[part]):
            return f"{part} {sorted(got[part])} instead of {sorted(want[part])}"
        for k in want[part]:
            if k == "time":
                continue
            x, y = got[part][k], want[part][k]
            if isinstance(y, (str, bytes)) or np.asarray(y).dtype.kind in "OSU":
                ok = saves.same_value(x, y)
            else:
                ok = np.shape(x) == np.shape(y) and np.allclose(x, y, rtol=1e-9, atol=1e-11, equal_nan=True)
            if not ok:
                return f"{part[:-1] if part == 'attrs' else 'dataset'} {k} differs"
    return None


def judge(sc, job, c):
    """An undisturbed run's file against the command line and, for phase velocity, the data."""
    a = job["a"]
    at = c["attrs"]
    for k in ("delta", "mu", "eta", "sigma", "scaleafrica", "nsim"):
        if k in a and (k not in at or float(at[k]) != float(a[k])):
            return f"attribute {k} is {at.get(k)!r}, the command line says {a[k]!r}"
    if int(at.get("L", -1)) != sc["L"]:
        return f"attribute L is {at.get('L')!r}, the command line says {sc['L']}"
    if len(c["data"]["chain"]) != sc["size"][0] or len(c["data"]["logposterior"]) != sc["size"][0]:
        return "wrong number of samples"
    if not np.allclose(c["data"]["logposterior"], -a["mu"] * c["data"]["priors"] - c["data"]["L2s"] / 2, rtol=1e-8):
        return "the log posterior does not follow from misfit and prior"
    if sc["exp"] != "phasevel":
        return judge_map(sc, a, c)
    rows = datalines(sc)
    S = worlds.synth_matrix(sc["L"], 2, 2).real
    A = path_matrix(sc) @ S
    X = c["data"]["chain"]
    preds = X @ A.T
    if "predictions" in c["data"] and not np.allclose(c["data"]["predictions"], preds, rtol=1e-8, atol=1e-9):
        return "the predictions are not the path averages of the recorded samples, in the order of the data file"
    var = rows[:, 5] ** 2 * (rows[:, 7] if a["nsim"] else 1)
    L2 = np.sum((rows[:, 4] - preds) ** 2 / var, axis=1)
    if not np.allclose(c["data"]["L2s"], L2, rtol=1e-8):
        return "the misfits are not those of the data and data errors in the data file"
    pr = _prior(sc["L"], a["eta"])
    priors = np.array([pr.prior(x) for x in X])
    if not np.allclose(c["data"]["priors"], priors, rtol=1e-8):
        return "the prior values are not those of the recorded samples"
    if not np.allclose(c["data"]["logposterior"], -a["mu"] * priors - L2 / 2, rtol=1e-8):
        return "the log posterior does not follow from misfit and prior"
    return None


@functools.lru_cache(maxsize=None)
def lensing(L, dseed):
    mask = build_mask(L, size=10).astype(bool)
    m = WeakLensing(L, mask, ngal=np.full(mask.shape, 30))
    lmax = L - 1
    k = hp.smoothing(hp.alm2map(hp.map2alm(_fits(dseed), lmax=lmax), nside=3 * lmax - 1), sigma=np.radians(50 / 60))
    kappa = pyssht.inverse(pys2let.lm_hp2lm(hp.map2alm(k, lmax), L), L)
    M = worlds.lens_matrix(L, mask, m.inv_cov)
    return M, M @ kappa.ravel(), m.inv_cov**2 / np.sqrt(2)


@functools.lru_cache(maxsize=None)
def _fits(dseed):
    return np.asarray(healpix_map(dseed), dtype=float)


def judge_map(sc, a, c):
    L = sc["L"]
    B = 2 if sc["exp"] == "weaklensing" else 1.5
    S = worlds.synth_matrix(L, B, 2)
    X = c["data"]["chain"]
    if sc["exp"] == "weaklensing":
        M, data, cinv = lensing(L, sc["dseed"])
        A = M @ S
    else:
        A = S.real
        data = pys2let.alm2map_mw(pys2let.lm_hp2lm(hp.map2alm(_fits(sc["dseed"]), L - 1), L), L, 0).real
        noise = np.asarray(c["attrs"]["noise"], dtype=float)
        var = a["sigma"] ** 2
        if a["makenoise"]:
            if noise.shape != data.shape or not np.all(noise != 0):
                return "the recorded noise is not one value per pixel"
            sig = np.sqrt(var / calc_pixel_areas(L))
            if a["scaleafrica"]:
                ring = {pyssht.theta_to_index(t, L) for t in np.deg2rad(np.linspace(60, 120, 100))}
                col = {pyssht.phi_to_index(f, L) for f in np.deg2rad(np.linspace(-30, 30, 100))}
                sig[np.ix_(sorted(ring), sorted(col))] *= a["scaleafrica"]
            var = sig.ravel() ** 2
        elif np.any(noise != 0):
            return "noise was recorded although none was asked for"
        data = (data + noise) / 1000
        cinv = 1 / (var * np.ones(data.shape))
    preds = X @ A.T
    if "predictions" in c["data"] and not np.allclose(c["data"]["predictions"], preds, rtol=1e-7, atol=1e-8):
        return "the predictions are not those of the recorded samples"
    d = data - preds
    L2 = np.real(np.sum(np.conj(d) * cinv * d, axis=1))
    # a real map held in a complex array falls under the package's convention for complex data
    if not any(np.allclose(c["data"]["L2s"], f * L2, rtol=1e-7) for f in (1, np.sqrt(0.5))):
        return "the misfits are not those of the input map and its errors"
    qw = np.concatenate([worlds.quad_weights(b) for b in worlds.scale_bandlimits(L, B, 2)])
    if not np.allclose(c["data"]["priors"], np.sum(np.abs(qw * X), axis=1), rtol=1e-8):
        return "the prior values are not those of the recorded samples"
    return None


@functools.lru_cache(maxsize=None)
def _prior(L, eta):
    return S2_Wavelets_L1_Power_Weights("synthesis", None, None, 1.0, L, 2, 2, eta=eta)


def cache_ok(path, want):
    try:
        m = sparse.load_npz(path)
        m = m.toarray()
    except Exception as e:
        return f"the path cache cannot be loaded ({type(e).__name__})"
    if m.shape != want.shape or not np.allclose(m, want, rtol=1e-12, atol=0):
        return "the path cache does not hold one row per data line in order"
    return None


# -- runs ----------------------------------------------------------------------------

def run(sc):
    D = saves.disk()
    try:
        return _run(sc, D)
    finally:
        D.off()
        D.wipe()


def _run(sc, D):
    faults, probes = {}, {sc["exp"]: 1, "jobs-ok": 0, "jobs-failed": 0}
    res = {"faults": faults, "probes": probes, "steps": 0, "nontrivial": False}
    trace = []
    cache = os.path.join(D.root, sc["cache"])
    P = path_matrix(sc) if sc["exp"] == "phasevel" else None

    def bad(cls, d):
        res["viol"] = viol(cls, d)
        return res

    def note(k):
        faults[k] = faults.get(k, 0) + 1
        res["nontrivial"] = True

    def settle(r):
        if r[0] == "harness":
            raise RuntimeError(r[1])
        return r

    # each job alone on a fresh disk: the reference, judged against command line and data
    ref, nops, draws = [], [], []
    for k, job in enumerate(sc["jobs"]):
        lay_out(D, sc)
        r = settle(start(D, sc, job, 1, 1e9).result())
        if r[0] != "ok" or r[1]["err"]:
            return bad("fails", f"{sc['exp']} {job['a']['algo']} fails undisturbed: {r[1:] if r[0] != 'ok' else r[1]['err']}")
        res["steps"] += r[1]["ops"]
        files = sorted(os.listdir(os.path.join(D.root, "out")))
        h5 = [f for f in files if f.endswith(".hdf5")]
        if len(h5) != 1:
            return bad("outputs", f"a complete run left {files} instead of one results file")
        if not h5[0][:-5].endswith("_" + job["a"]["jobid"]):
            return bad("outputs", f"the results file {h5[0]} does not end with the job id {job['a']['jobid']}")
        c = read(os.path.join(D.root, "out", h5[0]))
        if isinstance(c, str):
            return bad("outputs", f"the results file of a complete run cannot be read: {c}")
        d = judge(sc, job, c)
        if d:
            return bad("results", f"{sc['exp']} {job['a']['algo']}: {d}")
        if P is not None:
            d = cache_ok(cache, P)
            if d:
                return bad("cache", f"after a complete run {d}")
        ref.append(c)
        nops.append(r[1]["ops"])
        draws.append(r[1]["draws"])
    # the history
    lay_out(D, sc)
    now = [1.1e9]
    outdir = os.path.join(D.root, "out")

    def tree():
        return {k: v for k, v in D.tree().items()}

    def look(before, expect, may, what):
        """expect: jobs that must each have left one new complete results file; may: jobs that may have."""
        after = tree()
        for f, h in before.items():
            if f.startswith("out/") and f.endswith(".hdf5") and after.get(f) != h:
                return bad("damage", f"{what}: the earlier results file {f} was {'changed' if f in after else 'removed'}")
            if f.startswith("in/") and after.get(f) != h:
                return bad("damage", f"{what}: the input file was changed")
        new = {f for f in after if f.startswith("out/") and f.endswith(".hdf5") and f not in before}
        for k in expect + may:
            jid = sc["jobs"][k]["a"]["jobid"]
            mine = [f for f in new if f[:-5].endswith("_" + jid)]
            if len(mine) > 1 or k in expect and len(mine) != 1:
                return bad("outputs", f"{what}: {len(mine)} new results files of job {jid}")
            for f in mine:
                d = compare(read(os.path.join(D.root, f)), ref[k])
                if d:
                    return bad("results", f"{what}: the results file of job {jid} {d} (against the same job run alone)")
                new.discard(f)
        if new:
            return bad("outputs", f"{what}: unexpected results files {sorted(new)}")
        if P is not None and os.path.exists(cache):
            d = cache_ok(cache, P)
            if d:
                return bad("cache", f"{what}: {d}")
        return None

    steps = [dict(st) for st in sc["steps"]]
    if sc["after"]:
        steps += [{"job": k, "order": 5 + k, "fault": None} for k in range(len(sc["jobs"]))]
    for si, st in enumerate(steps):
        k, f = st["job"], st["fault"]
        job = sc["jobs"][k]
        now[0] += 61
        before = tree()
        plan, fail, inside, stop, at = [], None, None, None, 0
        if f and f[0] in ("kill", "err", "pause"):
            at = int(f[1] * nops[k]) if isinstance(f[1], float) else f[1]
        if f and f[0] == "kill":
            plan = [[at, KINDS[f[2]], f[3]]]
        elif f and f[0] == "err":
            plan = [[at, saves.STICKY if f[3] else saves.ERR, saves.ERRNOS[f[2]]]]
        elif f and f[0] == "pause":
            plan = [[at, saves.PAUSE, 0]]
        elif f and f[0] == "worker":
            fail, inside = f[1], f[2]
        elif f and f[0] == "stop":
            stop = [1 + int(f[1] * draws[k]), f[2]]
        ch = start(D, sc, job, st["order"], now[0], plan, fail, inside, stop)
        other = None
        if f and f[0] == "pause" and ch.wait_pause():
            note("paused-job")
            ch2 = start(D, sc, sc["jobs"][f[2]], st["order"] + 1, now[0])
            other = settle(ch2.result())
        if f and f[0] == "pause":
            ch.resume()
        r = settle(ch.result())
        if f and f[0] == "kill" and r == ("exit", saves.CRASHED):
            note("kill-" + f[2])
            what = f"step {si}: job {k} killed {f[2]} disk operation {at}"
            trace.append("killed")
            if look(before, [], [k], what):
                return res
            continue
        if r[0] != "ok":
            return bad("process-death", f"step {si}: job {k} ended with {r}")
        r = r[1]
        res["steps"] += r["ops"]
        trace.append(r["err"] is None)
        if f and f[0] == "err" and r["fired"][saves.ERR] + r["fired"][saves.STICKY]:
            note("disk-error")
            what = f"step {si}: job {k} met {f[2]} at disk operation {at}"
            ok = r["err"] is None
            probes["jobs-ok" if ok else "jobs-failed"] += 1
            if look(before, [k] if ok else [], [] if ok else [k], what):
                return res
            continue
        if f and f[0] == "worker" and r["failed"]:
            note("worker-error" if inside is None else "worker-error-inside")
            probes["jobs-failed"] += 1
            if r["err"] is None or not r["err"].startswith("WorkerError"):
                return bad("swallowed", f"step {si}: a pool worker failed but the job ended with {r['err']}")
            if look(before, [], [], f"step {si}: job {k} had a failing pool worker"):
                return res
            if P is not None and os.path.relpath(cache, D.root) not in before and os.path.exists(cache):
                return bad("cache", f"step {si}: a path cache was written although a worker failed")
            continue
        if stop and r["stopped"]:
            note("stop-" + f[2])
            probes["jobs-failed"] += 1
            what = f"step {si}: job {k} was stopped by {f[2]} at draw {stop[0]}"
            if r["err"] is None:
                return bad("swallowed", f"{what} but ended as if complete")
            if look(before, [], [k], what):
                return res
            continue
        what = f"step {si}: job {k}" + (f" paused at disk operation {at} while job {f[2]} ran" if other else "")
        if other is not None:
            if other[0] != "ok" or other[1]["err"]:
                return bad("fails", f"{what}, which failed: {other[1:] if other[0] != 'ok' else other[1]['err']}")
            trace.append(True)
            res["steps"] += other[1]["ops"]
        if r["err"]:
            return bad("fails", f"{what}: it failed: {r['err']}; before it: {[s['fault'] for s in steps[:si]]}")
        probes["jobs-ok"] += 1 + (other is not None)
        if look(before, [k] + ([f[2]] if other else []), [], what):
            return res
    res["obs"] = [trace, [digest(c["data"]) for c in ref]]
    res["inter"] = digest([sc["exp"], [[s["job"], s["fault"]] for s in sc["steps"]], trace])
    return res


def shrink(sc):
    for k in range(len(sc["steps"])):
        c = copy.deepcopy(sc)
        del c["steps"][k]
        yield c
    for k in range(len(sc["steps"])):
        if sc["steps"][k]["fault"]:
            c = copy.deepcopy(sc)
            c["steps"][k]["fault"] = None
            yield c
    for k in range(len(sc["jobs"]) - 1, 0, -1):
        if all(s["job"] != k and not (s["fault"] and s["fault"][0] == "pause" and s["fault"][2] == k) for s in sc["steps"]) \
                and k == len(sc["jobs"]) - 1:
            c = copy.deepcopy(sc)
            del c["jobs"][k]
            yield c
    if sc["n"] > 1:
        yield dict(copy.deepcopy(sc), n=max(1, sc["n"] // 2))
    if sc["size"] != [1, 0, 0]:
        yield dict(copy.deepcopy(sc), size=[1, 0, 0])
    if sc["s"] > 1:
        yield dict(copy.deepcopy(sc), s=1)
