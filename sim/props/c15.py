"""C15: plotting never disturbs anything that was there: figures, data, random state, settings, output."""
import copy
import sys

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import pys2let
import pyssht

from sim.chain import *
from sim.engine import digest, viol
from sim import boot, rng, sched, worlds
import pxmcmc.plotting as pp

ID = "C15"
LEVEL = "exploration"
RUNS = {"quick": 800, "thorough": 16000}
RULE = ("a history of 2 to 8 steps mixing the package's plotting functions with a user's own pyplot figures (opened, made "
        "current, drawn on, closed), malformed inputs and calls interrupted at a random source line; after every step all "
        "figures, inputs, random state, matplotlib settings and standard output are compared with what they were; the figures "
        "returned are compared with an independent computation; non-trivial: at least one plotting call; distinct by history")
REAL = ["pxmcmc.plotting", "pxmcmc.utils", "matplotlib (Agg), healpy, pyssht, pys2let"]
STUB = ["pyssht map projection (real, but at 24 pixels instead of 500)", "numpy random draws (must stay untouched)", "the caller's standard output", "asynchronous interrupts"]
INTER = "distinct histories"
STEP_UNIT = "plotting calls"
ASSUMPTIONS = ["interrupts do not arrive while output is suppressed", "one thread plots (pyplot itself is not thread safe)"]

CALLS = ["evolution", "evolution", "chain", "chain", "map", "map", "wavelets", "mollview"]
USER = ["fig", "fig", "draw", "sca", "close", "closeret", "subplots"]


def gen(r, i, tier):
    steps = []
    for _ in range(r.choice([2, 3, 5, 8])):
        if r.random() < 0.35:
            steps.append(["user", r.choice(USER), r.randrange(100)])
            continue
        k = r.choice(CALLS)
        o = {"k": k, "seed": r.randrange(2**31), "n": r.choice([1, 2, 5, 30, 150, 700]), "dtype": r.choice(["float", "complex", "int"])}
        if k == "evolution":
            o["ties"] = r.random() < 0.4
        if k in ("map", "wavelets"):
            o["L"] = r.choice([2, 3, 4, 5]) if k == "map" else r.choice([[4, 2, 0], [5, 3, 1], [6, 2, 0], [6, 3, 0], [8, 2, 1], [7, 1.5, 0]])
            o["kw"] = {}
            for name, vals in (("cbar", [False]), ("title", ["some title"]), ("vmin", [-0.5]), ("vmax", [2.0]),
                               ("cmap", ["viridis", "jet"]), ("centre0", [True]), ("cbar_label", ["unit"])):
                if r.random() < 0.25:
                    o["kw"][name] = r.choice(vals)
            o["mask"] = k == "map" and r.random() < 0.3
            o["over"] = k == "map" and r.random() < 0.08
            if r.random() < 0.15:
                o["kw"]["cmap"] = "object:" + r.choice(["viridis", "jet", "gray"])
            if k == "wavelets":
                o["kw"].pop("centre0", None)
                o["same_scale"] = r.random() < 0.5
        if k == "mollview":
            o["nside"] = r.choice([1, 2])
            o["title"] = r.choice([None, "m"])
        x = r.random()
        if x < 0.15:
            o["cut"] = [r.randrange(12), r.choice(["keyboard", "memory", "runtime"])]
        elif x < 0.22:
            o["bad"] = True
        steps.append(["call", o])
    return {"steps": steps, "seed": r.randrange(2**31)}


_project = pyssht.mollweide_projection


def small_projection(f, L, resolution=24, *a, **k):
    return _project(f, L, 24, *a, **k)


RC = dict(matplotlib.rcParams)


def worker_init():
    global RC
    RC = dict(matplotlib.rcParams)
    pyssht.mollweide_projection = small_projection
    warm = make_call({"k": "mollview", "seed": 1, "n": 1, "nside": 1, "title": None})[0]
    warm()
    plt.close("all")
    dict.update(matplotlib.rcParams, RC)  # whatever the warm-up changed must not hide the same change later


def fingerprint(fig):
    out = [fig.get_size_inches().tolist(), len(fig.texts)]
    for ax in fig.axes:
        out.append([type(ax).__name__, ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), ax.get_xscale(), ax.get_yscale(),
                    [np.asarray(l.get_xdata(), float) for l in ax.lines], [np.asarray(l.get_ydata(), float) for l in ax.lines],
                    [np.ma.filled(np.ma.asarray(im.get_array(), float), np.nan) for im in ax.images],
                    [im.get_clim() for im in ax.images], len(ax.texts), len(ax.collections), len(ax.patches)])
    return digest(out)


def world_state():
    st = np.random.mtrand._rand.get_state() if rng.current() is None else None
    return {"rcParams": dict(matplotlib.rcParams), "err": np.geterr(), "stdout": sys.stdout,
            "cmaps": [tuple(matplotlib.colormaps[c](np.array([np.nan, -1.0, 0.3, 2.0])).ravel()) for c in ("turbo", "viridis", "jet")],
            "backend": matplotlib.get_backend(), "interactive": plt.isinteractive()}


class Cmap:
    """A colour map object of the caller, watched like an input array."""

    def __init__(self, name):
        self.c = matplotlib.colormaps[name].copy()
        self.c.set_bad("red", 1.0)
        self.c.set_over("white")

    def state(self):
        return np.array([self.c(np.array([np.nan, -1.0, 0.3, 2.0])).ravel()])


def colours(kw):
    """Replace the stand-in for a colour map object in kw; returns the objects to watch."""
    if str(kw.get("cmap", "")).startswith("object:"):
        c = Cmap(kw["cmap"][7:])
        kw["cmap"] = c.c
        return [c]
    return []


def projected(f, L, mask=None):
    if mask is not None:
        f = np.where(mask, np.nan, f)
    return pyssht.mollweide_projection(f, L)[0]


def oversampled(f, L):
    flm = pyssht.forward(f, f.shape[0], Reality=True)
    return pyssht.inverse(np.concatenate([flm, np.zeros(L**2 - f.shape[0]**2)]), L, Reality=True)


def make_call(o):
    """(function to call, inputs to watch, content check) for a plotting step."""
    g = worlds.gen(o["seed"])
    k, n = o["k"], o["n"]
    if k == "evolution":
        a = [-np.abs(g.standard_normal(n)) - 1, np.abs(g.standard_normal(n)) + 0.1, np.abs(g.standard_normal(n)) + 0.1]
        if o.get("ties") and n > 2:
            a[0][[0, -1]] = a[0].max()
        if o.get("bad"):
            return (lambda: pp.plot_evolution(np.array([]), *a[1:])), a, None

        def check(fig):
            ax = fig.axes
            if len(ax) != 3:
                return f"{len(ax)} panels instead of 3"
            for x, want in zip(ax, (-a[0], a[1], a[2])):
                if not np.array_equal(np.asarray(x.lines[0].get_ydata(), float), want):
                    return "a panel does not show its data"
                v = float(np.ravel(x.lines[1].get_xdata())[0])
                if v != int(v) or a[0][int(v)] != a[0].max():
                    return "the marker is not at a best sample"
        return (lambda: pp.plot_evolution(*a)), a, check
    if k == "chain":
        x = g.standard_normal(n) * 3
        x = x + 1j * g.standard_normal(n) if o["dtype"] == "complex" else x.astype(int) if o["dtype"] == "int" else x
        if o.get("bad"):
            return (lambda: pp.plot_chain_sample([1, 2])), [x], None

        def check(fig):
            if len(fig.axes) != 2:
                return f"{len(fig.axes)} panels instead of 2"
            for ax, want in zip(fig.axes, (x.real, x.imag)):
                if not np.array_equal(np.asarray(ax.lines[0].get_ydata(), float), want):
                    return "a panel does not show its data"
        return (lambda: pp.plot_chain_sample(x)), [x], check
    if k == "map":
        L = o["L"]
        f = g.standard_normal((L, 2 * L - 1))
        kw = dict(o["kw"])
        cm = colours(kw)
        LL = 256 if o["over"] else L
        mask = g.random((LL, 2 * LL - 1)) < 0.3 if o["mask"] else None
        if mask is not None:
            kw["mask"] = mask
        if o.get("bad"):
            return (lambda: pp.plot_map(f[0], oversample=False, **kw)), [f], None

        def check(fig):
            ff = oversampled(f, 256) if o["over"] else f
            im = fig.axes[0].images
            if len(im) != 1:
                return "the map panel holds no single image"
            got = np.ma.filled(np.ma.asarray(im[0].get_array(), float), np.nan)
            if not np.allclose(got, projected(ff, LL, mask), equal_nan=True):
                return "the image is not the projection of the map"
            lo, hi = im[0].get_clim()
            end = max(ff.max(), -ff.min())
            for name, v, c in (("vmin", lo, -end), ("vmax", hi, end)):
                want = c if kw.get("centre0") else kw.get(name)
                if want is not None and kw.get("vmin", -9) < np.nanmax(got) and kw.get("vmax", 9) > np.nanmin(got) \
                        and not np.isclose(v, want):
                    return f"{name} is {v} instead of {want}"
            if kw.get("title") and fig.axes[0].get_title() != kw["title"]:
                return "the title is missing"
            if len(fig.axes) != (2 if kw.get("cbar", True) else 1):
                return "wrong number of panels"
        return (lambda: pp.plot_map(f, oversample=o["over"], **kw)), [f] + ([mask] if mask is not None else []) + cm, check
    if k == "wavelets":
        L, B, J = o["L"]
        f = g.standard_normal((L, 2 * L - 1))
        kw = dict(o["kw"])
        cm = colours(kw)
        if o.get("bad"):
            return (lambda: pp.plot_wavelet_maps([1], L, B, J, oversample=False, **kw)), [f] + cm, None

        def check(figs):
            bls = worlds.scale_bandlimits(L, B, J)
            if len(figs) != len(bls):
                return f"{len(figs)} figures for {len(bls)} scales"
            w, s = pys2let.analysis_px2wav(f.flatten().astype(complex), B, L, J, 1, 0, upsample=0)
            pos = 0
            for q, bl in enumerate(bls):
                m = bl * (2 * bl - 1)
                part = s.real if q == 0 else w.real[pos:pos + m]
                pos += m if q else 0
                got = np.ma.filled(np.ma.asarray(figs[q].axes[0].images[0].get_array(), float), np.nan)
                if not np.allclose(got, projected(part.reshape(bl, 2 * bl - 1).copy(), bl), equal_nan=True):
                    return f"figure {q} does not show scale {q}"
                top = figs[q].axes[0].images[0].get_clim()[1]
                if o["same_scale"] and q and kw.get("vmin", -9) < np.max(w.real) and not np.isclose(top, np.max(w.real)):
                    return f"the colour scale of wavelet scale {q} ends at {top}, not at the largest of all coefficients"
        return (lambda: pp.plot_wavelet_maps(f, L, B, J, same_scale=o["same_scale"], oversample=False, **kw)), [f] + cm, check
    npix = 12 * o["nside"]**2
    m = g.standard_normal(npix)
    if o.get("bad"):
        return (lambda: pp.mollview(m[:-1])), [m], None
    kw = {} if o["title"] is None else {"title": o["title"]}

    def check(fig):
        if not fig.axes or not fig.axes[0].images:
            return "nothing was drawn"
        shown = np.ma.masked_invalid(np.ma.asarray(fig.axes[0].images[0].get_array(), float)).compressed()
        shown = np.unique(shown[shown > -1e30])
        if not all(np.abs(m - v).min() < 1e-12 for v in shown) or not all(np.abs(shown - v).min() < 1e-12 for v in m):
            return "the image does not show the values of the map"
        if o["title"] is not None and not any(o["title"] == a.get_title() for a in fig.axes):
            return "the title is missing"
    return (lambda: pp.mollview(m, **kw)), [m], check


def run(sc):
    plt.close("all")
    dict.update(matplotlib.rcParams, RC)
    out = sys.stdout
    try:
        return _run(sc)
    finally:
        plt.close("all")
        sys.stdout = out


def _run(sc):
    calls, faults, probes = 0, {"interrupted-call": 0, "malformed-input": 0, "user-figure-action": 0}, {"open-figures": 0}
    res = {"faults": faults, "probes": probes, "inter": digest(sc["steps"])}
    obs, returned = [], []
    for k, step in enumerate(sc["steps"]):
        if step[0] == "user":
            faults["user-figure-action"] += 1
            user(step[1], step[2], returned)
            continue
        o = step[1]
        calls += 1
        fn, inputs, check = make_call(o)
        caller = lambda: [a.state() if isinstance(a, Cmap) else a for a in inputs]
        snaps = [np.array(a) for a in caller()]
        before = {
            n: fingerprint(matplotlib._pylab_helpers.Gcf.figs[n].canvas.figure) for n in plt.get_fignums()}
        probes["open-figures"] += len(before)
        rs = np.random.get_state()
        ws = world_state()
        stream = rng.Stream(sc["seed"])
        with rng.using(stream):
            if o.get("cut"):
                r, e, _, fired = sched.interrupt_run(fn, boot.PKG, o["cut"][0],
                                                      EXC[o["cut"][1]]("injected by the simulator"),
                                                      hold=lambda so=sys.stdout: sys.stdout is not so)
                faults["interrupted-call"] += fired
                if e is not None and not fired:
                    raise e
            else:
                try:
                    r, e = fn(), None
                except Exception as ex:
                    if not o.get("bad"):
                        raise
                    r, e = None, ex
        faults["malformed-input"] += bool(o.get("bad"))

        def bad(cls, d):
            res["viol"] = viol(cls, f"step {k} ({o['k']}): {d}")
            return res

        if stream.log or not all(np.array_equal(a, b) for a, b in zip(rs, np.random.get_state())):
            return bad("random-state", "plotting drew random numbers")
        ws2 = world_state()
        for q in ws:
            if ws[q] is not ws2[q] if q == "stdout" else ws[q] != ws2[q]:
                return bad("settings", f"{q} changed")
        for a, s in zip(caller(), snaps):
            if a.dtype != s.dtype or a.shape != s.shape or not np.array_equal(a, s, equal_nan=a.dtype.kind in "fc"):
                return bad("input-mutated", "an input array or colour map was modified")
        now = plt.get_fignums()
        for n, fp in before.items():
            if n not in now:
                return bad("figure-closed", "a figure that was open has been closed")
            if fingerprint(matplotlib._pylab_helpers.Gcf.figs[n].canvas.figure) != fp:
                return bad("figure-changed", "a figure that was open before has been changed")
        if e is None and not o.get("bad"):
            figs = r if isinstance(r, list) else [r]
            if any(not isinstance(f, plt.Figure) for f in figs):
                return bad("return", "did not return its figure")
            nums = [getattr(f, "number", None) for f in figs]
            if any(n in before for n in nums) or len(set(map(id, figs))) != len(figs):
                return bad("figure-reused", "returned a figure that was already in use")
            d = check(r)
            if d:
                return bad("content", d)
            extra = set(now) - set(before) - set(nums)
            if extra:
                return bad("stray-figure", "opened a figure it did not return")
            returned += figs
            obs.append([fingerprint(f) for f in figs])
    res.update(steps=calls, nontrivial=calls > 0, obs=obs)
    return res


def user(what, v, returned):
    nums = plt.get_fignums()
    if what == "fig":
        plt.figure()
        plt.plot([v, v + 1, 2])
    elif what == "subplots":
        fig, ax = plt.subplots(2, 2)
        ax[0, 1].imshow(np.arange(6).reshape(2, 3) + v)
    elif what == "draw" and nums:
        plt.plot([v, 1])
    elif what == "sca" and nums:
        plt.figure(nums[v % len(nums)])
    elif what == "close" and nums:
        plt.close(nums[v % len(nums)])
    elif what == "closeret" and returned:
        plt.close(returned[v % len(returned)])


def shrink(sc):
    for k in range(len(sc["steps"])):
        if len(sc["steps"]) > 1:
            c = copy.deepcopy(sc)
            del c["steps"][k]
            yield c
    for k, s in enumerate(sc["steps"]):
        if s[0] == "call":
            for key in ("cut", "bad", "mask", "ties"):
                if s[1].get(key):
                    c = copy.deepcopy(sc)
                    c["steps"][k][1][key] = None if key == "cut" else False
                    yield c
            for key in list(s[1].get("kw", {})):
                c = copy.deepcopy(sc)
                del c["steps"][k][1]["kw"][key]
                yield c
            if s[1]["n"] > 1:
                c = copy.deepcopy(sc)
                c["steps"][k][1]["n"] = 1
                yield c
