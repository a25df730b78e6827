"""C18: the plot programs of the experiments under kills, disk errors, interrupts and jobs running at the same time."""
import atexit
import copy
import functools
import io
import os
import re
import runpy
import shutil
import sys

import h5py
import healpy as hp
import numpy as np
import pys2let
import pyssht
from matplotlib.backends.backend_agg import FigureCanvasAgg
from matplotlib.figure import Figure
from scipy import sparse

from sim.chain import *
from sim.engine import digest, viol
from sim import saves, worlds
from sim.props import c17
import pxmcmc.plotting
import pxmcmc.utils
from pxmcmc.measurements import WeakLensing

ID = "C18"
LEVEL = "exploration"
RUNS = {"quick": 330, "thorough": 7000}
RULE = ("one or two jobs of an experiment program leave results on the simulated disk; one to three requests to its plot program "
        "(results file, burn-in, suffix, arrays, mask) are made in a history of up to four steps: undisturbed, killed before/in/after "
        "a disk operation, meeting a disk error (also when reading), interrupted at a figure, or paused at a disk operation while "
        "another request or a new job runs, or run while a job is paused; then every request is repeated undisturbed; "
        "non-trivial: a fault or pause took effect; distinct by (history, outcomes)")
REAL = ["experiments/*/plot.py and main.py as __main__", "pxmcmc", "numpy/h5py/healpy/matplotlib file I/O", "process death and fork"]
STUB = ["disk system calls (simdisk.so)", "plot_map, plot_evolution and plot_chain_sample (record their data, draw a small picture)",
        "oversampling to 256 reduced to 16", "chain length", "stubs of C17 for the jobs"]
INTER = "distinct request histories (steps, fault points, pauses)"
STEP_UNIT = "disk operations"
ASSUMPTIONS = ["a process dies, not the machine", "requests made at the same time differ in suffix",
               "the burn-in asked for is shorter than the chain"]
KINDS = c17.KINDS
TRUTH = {"phasevel": "GDM40_L28.npy", "weaklensing": "takahasi_4096_000_zs16_kappa.fits",
         "earthtopography": "ETOPO1_Ice_hpx_256.fits"}


def gen(r, i, tier):
    sc = c17.gen(r, i, tier)
    want = r.choice(["phasevel", "weaklensing", "earthtopography"])
    while sc["exp"] != want:
        sc = c17.gen(r, i, tier)
    sc["jobs"] = sc["jobs"][:2]
    sc["size"] = [r.choice([2, 3, 6, 12, 25]), r.choice([0, 1]), r.choice([0, 1, 2])]
    sc["cache"] = "p.npz"
    if want == "weaklensing":
        for j in sc["jobs"]:
            j["a"]["delta"] = r.choice([1e-8, 1e-6, 1e-5])
    ns = sc["size"][0]
    reqs = []
    for k in range(r.choice([1, 2, 2, 3])):
        reqs.append({"job": r.randrange(len(sc["jobs"])), "burn": r.choice([0, 1, ns // 2, ns - 1, r.randrange(ns)]),
                     "suffix": r.choice(["", "_a", "-x 2"]) if k == 0 else ["", "_b", ".c"][k],
                     "save": r.random() < 0.75, "nomask": want == "weaklensing" and r.random() < 0.4,
                     "dir": r.choice(["plots", "plots", "figs/a"])})
    steps = []
    for _ in range(r.choice([1, 2, 3, 4])):
        st = {"req": r.randrange(len(reqs)), "fault": None}
        x = r.random()
        if x < 0.3:
            st["fault"] = ["kill", r.random(), r.choice(sorted(KINDS)), r.randrange(1 << 20)]
        elif x < 0.6:
            st["fault"] = ["err", r.random(), r.choice(["EIO", "ENOSPC", "EACCES", "EDQUOT"]), r.random() < 0.4]
        elif x < 0.68:
            st["fault"] = ["stop", r.randrange(14), r.choice(sorted(c17.STOPS))]
        elif x < 0.8 and len(reqs) > 1:
            st["fault"] = ["pause", r.random(), ["req", r.choice([k for k in range(len(reqs)) if k != st["req"]])]]
        elif x < 0.86:
            st["fault"] = ["pause", r.random(), ["job", r.randrange(len(sc["jobs"]))]]
        elif x < 0.94:
            st["fault"] = ["within", r.random(), r.randrange(len(sc["jobs"]))]
        steps.append(st)
    return dict(sc, reqs=reqs, steps=steps)


# -- the simulated surroundings ------------------------------------------------------

@functools.lru_cache(maxsize=None)
def big_mask(size):
    return pxmcmc.utils.build_mask(256, size=size)


class Stop:
    """The k-th figure is not drawn: the user interrupts, or memory is short."""

    def __init__(self, at):
        self.at, self.n, self.stopped = at, 0, False

    def tick(self):
        self.n += 1
        if self.at is not None and self.n == self.at[0] + 1:
            self.stopped = True
            raise c17.STOPS[self.at[1]]("injected by the simulator")


def recorder(drawn, stop):
    class Fig(Figure):
        def __init__(self, kind, data, extra=None):
            super().__init__(figsize=(0.4, 0.3))
            FigureCanvasAgg(self)
            self.what = (kind, [np.array(d) for d in data], extra)

        def savefig(self, name, *a, **k):
            r = super().savefig(name, dpi=30)
            drawn[str(name)] = self.what
            return r

    def plot_map(f, title=None, *a, **k):
        stop.tick()
        names = ["cbar", "cmap", "vmin", "vmax", "cbar_label", "oversample", "centre0", "coasts", "mask"]
        k = dict(zip(names, a), **k)
        m = k.get("mask")
        return Fig("map", [f], None if m is None else np.packbits(np.array(m, dtype=bool)))

    def plot_evolution(logposteriors, L2s, L1s, *a, **k):
        stop.tick()
        return Fig("evolution", [logposteriors, L2s, L1s])

    def plot_chain_sample(X, *a, **k):
        stop.tick()
        return Fig("sample", [X])

    return plot_map, plot_evolution, plot_chain_sample


def argv(D, sc, q, datafile):
    out = ["plot.py", os.path.join(D.root, datafile), os.path.join(D.root, q["dir"]), "--burn", str(q["burn"])]
    if q["suffix"]:
        out.append("--suffix=" + q["suffix"])
    if q["save"]:
        out.append("--save_npy")
    if q["nomask"]:
        out.append("--no-mask")
    return out


def start(D, sc, q, datafile, plan=(), stop=None):
    """One request to the plot program in its own process."""
    if sc["exp"] == "weaklensing":
        big_mask(20)  # before the fork: it is slow

    def go():
        P = pxmcmc.plotting
        drawn, st = {}, Stop(stop)
        P.plot_map, P.plot_evolution, P.plot_chain_sample = recorder(drawn, st)
        over, mask = getattr(P, "_oversample", None), pxmcmc.utils.build_mask
        P._oversample = lambda f, L: over(f, min(L, 16))
        pxmcmc.utils.build_mask = lambda L, *a, **k: \
            big_mask(k.get("size", a[0] if a else 20)).copy() if L == 256 else mask(L, *a, **k)
        np.lib.format.isfileobj = lambda f: False       # numpy's own tofile writes behind the simulated disk's back
        sys.argv = argv(D, sc, q, datafile)
        os.chdir(D.root)
        D.lib.simdisk_cwd(1)
        err, out = None, io.StringIO()
        sys.stdout = out
        atexit._clear()
        D.on(plan)
        D.lib.simdisk_reads(1)
        try:
            runpy.run_path(f"{c17.EXP}/{sc['exp']}/plot.py", run_name="__main__")
        except BaseException as e:
            err = f"{type(e).__name__}: {str(e)[:120]}"
        atexit._run_exitfuncs()     # what the program itself registered
        ops, fired = D.ops(), D.fired()
        import gc

        gc.collect()
        D.off()
        return {"err": err, "ops": ops, "fired": fired, "drawn": {os.path.relpath(k, D.root): v for k, v in drawn.items()},
                "out": out.getvalue(), "stopped": st.stopped}

    return saves.Child(go, D)


def lay_out(D, sc):
    c17.lay_out(D, sc)
    for d in ("plots", "figs/a"):
        os.makedirs(os.path.join(D.root, d))
    t = os.path.join(D.root, TRUTH[sc["exp"]])
    if sc["exp"] == "phasevel":
        np.save(t, truth_map(sc["L"], sc["dseed"]))
        shutil.copy(os.path.join(D.root, "in", "d.txt"), os.path.join(D.root, "synthetic_GDM40_0S254_L28.txt"))
    else:
        hp.write_map(t, c17.healpix_map(sc["dseed"]), dtype=np.float64, overwrite=True)


# -- oracles ---------------------------------------------------------------------------

def truth_map(L, seed):
    return worlds.gen(seed % 1000).standard_normal((L, 2 * L - 1))


def quantile(x, q):
    """Linear interpolation between the order statistics of each column."""
    x = np.sort(x, axis=0)
    h = q * (len(x) - 1)
    k = int(np.floor(h))
    return x[k] + (h - k) * (x[min(k + 1, len(x) - 1)] - x[k])


def ci(x, alpha):
    return quantile(x, 1 - alpha / 2) - quantile(x, alpha / 2)


def db(a, b):
    with np.errstate(divide="ignore"):
        return 20 * np.log10(np.linalg.norm(a) / np.linalg.norm(b))


@functools.lru_cache(maxsize=None)
def lens_truth(L, dseed):
    lmax = L - 1
    k = hp.alm2map(hp.map2alm(np.asarray(c17.healpix_map(dseed), dtype=float), lmax=lmax), nside=3 * lmax - 1)
    k = hp.smoothing(k, sigma=np.radians(50 / 60))
    return pyssht.inverse(pys2let.lm_hp2lm(hp.map2alm(k, lmax), L), L)


@functools.lru_cache(maxsize=None)
def topo_truth(L, dseed):
    return pys2let.alm2map_mw(pys2let.lm_hp2lm(hp.map2alm(np.asarray(c17.healpix_map(dseed), dtype=float), L - 1), L), L, 0) \
        .real.reshape(L, 2 * L - 1) / 1000


def scales(v, L, B):
    """A coefficient vector, cut into the maps of its scales."""
    out, at = [], 0
    for b in worlds.scale_bandlimits(L, B, 2):
        n = b * (2 * b - 1)
        out.append(v[at:at + n].reshape(b, 2 * b - 1))
        at += n
    return out


def expected(sc, q, c):
    """What the figures, arrays and printed numbers of a request must be, from the recorded samples."""
    L, exp = sc["L"], sc["exp"]
    B = {"phasevel": 2, "weaklensing": 2, "earthtopography": 1.5}[exp]
    shape = (L, 2 * L - 1)
    X, lp = c["data"]["chain"], c["data"]["logposterior"]
    S = worlds.synth_matrix(L, B, 2)
    pix = (X @ S.T).real
    best = int(np.argmax(lp))
    MAP, kept = pix[best].reshape(shape), pix[q["burn"]:]
    mean = kept.mean(axis=0).reshape(shape)
    figs = {"evolution": [lp, c["data"]["L2s"], c["data"]["priors"]], "MAP": [MAP], "MAP_wvlt": [X[best]], "mean": [mean],
            "ci_map": [ci(kept, 0.01 if exp == "phasevel" else 0.05).reshape(shape)]}
    nums, masks = {}, {}
    if exp == "phasevel":
        truth = truth_map(L, sc["dseed"])
        figs["diff"] = [np.abs(truth - MAP)]
        for k, v in enumerate(scales(ci(X[q["burn"]:].real, 0.05), L, B)):
            figs[f"ci_map_scale{k}"] = [v]
        w, s = pys2let.analysis_px2wav(mean.ravel().astype(complex), B, L, 2, 1, 0, upsample=0)
        for k, v in enumerate(scales(np.concatenate([s, w]).real, L, B)):
            figs[f"mean_scale{k}"] = [v]
        A, obs = c17.path_matrix(sc), c17.datalines(sc)[:, 4]
    elif exp == "weaklensing":
        truth = lens_truth(L, sc["dseed"])
        figs["diff"], figs["diffmean"] = [np.abs((truth - MAP).real)], [np.abs((truth - mean).real)]
        m = np.ones(shape, bool) if q["nomask"] else pxmcmc.utils.build_mask(L, size=20).astype(bool)
        A = worlds.lens_matrix(L, m, WeakLensing(L, m).inv_cov)
        obs = A @ truth.ravel()
        for k in ("MAP", "diff", "ci_map", "mean", "diffmean"):
            masks[k] = None if q["nomask"] else ~big_mask(20).astype(bool)
    else:
        truth = topo_truth(L, sc["dseed"])
        figs["truth"], figs["diff"], figs["diff_mean"] = [truth], [truth - MAP], [truth - mean]
        noise = np.asarray(c["attrs"]["noise"], dtype=float)
        if np.any(noise != 0):
            figs["noise"] = [noise.reshape(shape) / 1000]
            nums["Input SNR"] = db(truth, noise / 1000)
    d, dm = (truth - MAP).real, (truth - mean).real
    if exp == "weaklensing":
        nums["MAP SNR"], nums["Mean SNR"] = db(truth[m], d[m]), db(truth[m], dm[m])
    else:
        nums["MAP SNR"], nums["Mean SNR"] = db(truth, d), db(truth, dm)
    if exp != "earthtopography":
        for k, v in (("MAP", MAP), ("Mean", mean)):
            nums[k + " R2E"] = (np.linalg.norm(A @ v.ravel() - obs) / np.linalg.norm(obs)) ** 2
    arrs = {"mean": mean, "MAP": MAP, "CI": figs["ci_map"][0], "diff": d, "diff_mean": dm} if q["save"] else {}
    return figs, arrs, nums, masks


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape and a.size == b.size:
        a = a.reshape(b.shape)
    s = 1e-9 * (np.max(np.abs(b), initial=0) + 1e-9)
    return a.shape == b.shape and np.allclose(a.real, b.real, rtol=1e-6, atol=s)


def judge(sc, q, c, r, root, datafile):
    """A request that ended without error: its figures, arrays and printed numbers."""
    figs, arrs, nums, masks = expected(sc, q, c)
    base = lambda n, e: os.path.join(q["dir"], f"{n}{q['suffix']}.{e}")
    for n, want in figs.items():
        f = base(n, "png")
        if f not in r["drawn"]:
            return f"no figure {n} was drawn"
        _, got, mask = r["drawn"][f]
        if len(got) != len(want) or not all(close(g, w) for g, w in zip(got, want)):
            return f"figure {n} does not show what the recorded samples say"
        if n in masks:
            m = np.zeros(1, np.uint8) if mask is None else mask
            if not np.array_equal(m, np.packbits(masks[n])) if masks[n] is not None else m.any():
                return f"figure {n} hides the wrong part of the sky"
        try:
            with open(os.path.join(root, f), "rb") as h:
                b = h.read()
        except OSError:
            b = b""
        if not b.startswith(b"\x89PNG") or b"IEND" not in b[-12:]:
            return f"the picture {f} is missing or incomplete although the program ended well"
    for n, want in arrs.items():
        f = base(n, "npy")
        try:
            got = np.load(os.path.join(root, f))
        except Exception as e:
            return f"the array {f} cannot be loaded ({type(e).__name__}) although the program ended well"
        if not close(got, want):
            return f"the array {n} is not what the recorded samples say"
    for n, want in nums.items():
        m = re.search(rf"^{n}: (\S+)", r["out"], re.M)
        try:
            got = float(m.group(1))
        except (AttributeError, ValueError):
            return f"{n} is not printed"
        tol = 0.0051 if "SNR" in n else 0.0051 * abs(want) + 1e-12
        if not (got == want or abs(got - want) <= tol + 1e-6 * abs(want) or (abs(want) > 250 and abs(got) > 250)
                or "R2E" in n and want < 1e-20 and got < 1e-20):
            return f"{n} is printed as {m.group(1)}, the recorded samples give {want:.4g}"
    for k, v in c["attrs"].items():
        if not re.search(rf"^{k}: ", r["out"], re.M):
            return f"the setting {k} of the results is not printed"
    return None


# -- runs ----------------------------------------------------------------------------

def run(sc):
    D = saves.disk()
    try:
        return _run(sc, D)
    finally:
        D.off()
        D.wipe()


def _run(sc, D):
    faults, probes = {}, {sc["exp"]: 1, "requests-ok": 0, "requests-failed": 0}
    res = {"faults": faults, "probes": probes, "steps": 0, "nontrivial": False}
    trace = []

    def bad(cls, d):
        res["viol"] = viol(cls, d)
        return res

    def note(k):
        faults[k] = faults.get(k, 0) + 1
        res["nontrivial"] = True

    def settle(r):
        if r[0] == "harness":
            raise RuntimeError(r[1])
        return r

    lay_out(D, sc)
    now, files, cont = [1e9], [], []

    def job(k, plan=()):
        now[0] += 61
        return c17.start(D, sc, sc["jobs"][k], 1, now[0], plan)

    nops = []
    for k in range(len(sc["jobs"])):
        had = set(os.listdir(os.path.join(D.root, "out")))
        r = settle(job(k).result())
        if r[0] != "ok" or r[1]["err"]:
            return bad("job", f"the job whose results are to be plotted fails: {r[1:] if r[0] != 'ok' else r[1]['err']}")
        new = sorted(f for f in set(os.listdir(os.path.join(D.root, "out"))) - had if f.endswith(".hdf5"))
        if len(new) != 1:
            return bad("job", f"a job left {new} instead of one results file")
        files.append("out/" + new[0])
        c = c17.read(os.path.join(D.root, files[-1]))
        if isinstance(c, str):
            return bad("job", f"the results to be plotted cannot be read: {c}")
        if not np.max(np.abs(c["data"]["L2s"])) < 1e30:     # a diverged chain has no summary
            probes["diverged"] = 1
            res["obs"] = res["inter"] = "diverged"
            return res
        cont.append(c)
        nops.append(r[1]["ops"])
    if sc["exp"] == "phasevel":
        m = sparse.csr_matrix(c17.path_matrix(sc))
        sparse.save_npz(os.path.join(D.root, "0S254L28.npz"), m)

    def own(q):
        return lambda f: f.startswith(q["dir"] + "/") and f.rsplit(".", 1)[0].endswith(q["suffix"]) \
            and f.count("/") == q["dir"].count("/") + 1

    def untouched(before, qs, jobs, what):
        after = D.tree()
        for f in sorted(set(before) | set(after)):
            if before.get(f) == after.get(f) or any(own(q)(f) for q in qs):
                continue
            if f not in before and jobs and (f.startswith("out/") or f.startswith("cache/") or f.startswith(sc["cache"])):
                continue
            how = "removed" if f not in after else "changed" if f in before else "left behind"
            return bad("damage", f"{what}: the file {f} was {how}")
        return None

    def good(q, r, what):
        d = judge(sc, q, cont[q["job"]], r, D.root, files[q["job"]])
        if d:
            return bad("summary", f"{what}: {d}")
        return None

    def text(q):
        return f"{sc['exp']} plot of {sc['size'][0]} samples (burn {q['burn']}, suffix {q['suffix']!r})"

    steps = [dict(st) for st in sc["steps"]] + [{"req": k, "fault": None} for k in range(len(sc["reqs"]))]
    qops = {}
    for k, q in enumerate(sc["reqs"]):    # alone, on a disk without earlier plots
        before = D.tree()
        r = settle(start(D, sc, q, files[q["job"]]).result())
        if r[0] != "ok":
            return bad("process-death", f"{text(q)}: ended with {r}")
        if r[1]["err"]:
            return bad("fails", f"{text(q)} fails undisturbed: {r[1]['err']}")
        qops[k] = r[1]["ops"]
        res["steps"] += qops[k]
        if good(q, r[1], text(q)) or untouched(before, [q], False, text(q)):
            return res
        for d in ("plots", "figs/a"):
            shutil.rmtree(os.path.join(D.root, d))
            os.makedirs(os.path.join(D.root, d))
    for si, st in enumerate(steps):
        k, f = st["req"], st["fault"]
        q = sc["reqs"][k]
        before = D.tree()
        what = f"step {si}: {text(q)}"
        plan, stop, at = [], None, 0
        if f and f[0] in ("kill", "err", "pause"):
            at = int(f[1] * qops[k]) if isinstance(f[1], float) else f[1]
        if f and f[0] == "kill":
            plan = [[at, KINDS[f[2]], f[3]]]
        elif f and f[0] == "err":
            plan = [[at, saves.STICKY if f[3] else saves.ERR, saves.ERRNOS[f[2]]]]
        elif f and f[0] == "pause":
            plan = [[at, saves.PAUSE, 0]]
        elif f and f[0] == "stop":
            stop = f[1:]
        if f and f[0] == "within":       # a job is paused while the request is served
            at = int(f[1] * nops[f[2]]) if isinstance(f[1], float) else f[1]
            j = job(f[2], [[at, saves.PAUSE, 0]])
            if j.wait_pause():
                note("job-paused")
            r = settle(start(D, sc, q, files[q["job"]]).result())
            j.resume()
            jr = settle(j.result())
            what += f" while a job was paused at its disk operation {at}"
            if jr[0] != "ok" or jr[1]["err"]:
                return bad("fails", f"{what}: the job failed: {jr[1:] if jr[0] != 'ok' else jr[1]['err']}")
            if r[0] != "ok" or r[1]["err"]:
                return bad("fails", f"{what}: it failed: {r[1:] if r[0] != 'ok' else r[1]['err']}")
            if good(q, r[1], what) or untouched(before, [q], True, what):
                return res
            probes["requests-ok"] += 1
            trace.append("within")
            continue
        ch = start(D, sc, q, files[q["job"]], plan, stop)
        qs, jobs, other = [q], False, None
        if f and f[0] == "pause" and ch.wait_pause():
            note("request-paused")
            kind, o = f[2]
            if kind == "req":
                qs.append(sc["reqs"][o])
                other = settle(start(D, sc, qs[1], files[qs[1]["job"]]).result())
            else:
                jobs = True
                other = settle(job(o).result())
            what += f" paused at disk operation {at} while " + ("another request" if kind == "req" else "a job") + " ran"
        if f and f[0] == "pause":
            ch.resume()
        r = settle(ch.result())
        if f and f[0] == "kill" and r == ("exit", saves.CRASHED):
            note("kill-" + f[2])
            trace.append("killed")
            if untouched(before, [q], False, f"{what} killed {f[2]} disk operation {at}"):
                return res
            continue
        if r[0] != "ok":
            return bad("process-death", f"{what} ended with {r}")
        r = r[1]
        res["steps"] += r["ops"]
        trace.append(r["err"] is None)
        if f and f[0] == "err" and r["fired"][saves.ERR] + r["fired"][saves.STICKY]:
            note("disk-error")
            what += f", which met {f[2]} at disk operation {at}"
            probes["requests-failed" if r["err"] else "requests-ok"] += 1
            if untouched(before, [q], False, what) or r["err"] is None and good(q, r, what):
                return res
            continue
        if stop and r["stopped"]:
            note("stop-" + f[2])
            what += f", stopped by {f[2]} at figure {f[1]}"
            probes["requests-failed"] += 1
            if r["err"] is None:
                return bad("swallowed", f"{what}, ended as if complete")
            if untouched(before, [q], False, what):
                return res
            continue
        if other is not None:
            if other[0] != "ok" or other[1]["err"]:
                return bad("fails", f"{what}, which failed: {other[1:] if other[0] != 'ok' else other[1]['err']}")
            if len(qs) > 1 and good(qs[1], other[1], f"{what}; the other request"):
                return res
        if r["err"]:
            return bad("fails", f"{what}: it failed: {r['err']}; before it: {[s['fault'] for s in steps[:si]]}")
        probes["requests-ok"] += 1
        if good(q, r, what) or untouched(before, qs, jobs, what):
            return res
    res["obs"] = [trace, [digest(c["data"]) for c in cont], qops]
    res["inter"] = digest([sc["exp"], sc["reqs"], [[s["req"], s["fault"]] for s in sc["steps"]], trace])
    return res


def shrink(sc):
    for k in range(len(sc["steps"])):
        c = copy.deepcopy(sc)
        del c["steps"][k]
        yield c
    for k in range(len(sc["steps"])):
        if sc["steps"][k]["fault"]:
            c = copy.deepcopy(sc)
            c["steps"][k]["fault"] = None
            yield c
    last = len(sc["reqs"]) - 1
    if last > 0 and all(s["req"] != last and not (s["fault"] and s["fault"][0] == "pause" and s["fault"][2] == ["req", last])
                        for s in sc["steps"]):
        c = copy.deepcopy(sc)
        del c["reqs"][last]
        yield c
    if sc["size"] != [2, 0, 0] and sc["size"][0] > 2:
        c = copy.deepcopy(sc)
        c["size"] = [2, 0, 0]
        for q in c["reqs"]:
            q["burn"] = min(q["burn"], 1)
        yield c
    if sc["n"] > 1:
        yield dict(copy.deepcopy(sc), n=max(1, sc["n"] // 2))
