"""C19: the lensing map downloader under network faults, kills, disk errors and runs at the same time."""
import atexit
import copy
import os
import random
import runpy
import sys
import types

import astropy.io.fits.file
import astropy.io.fits.util
import healpy as hp
import numpy as np

from sim.engine import digest, viol
from sim import saves, worlds
from sim.props import c17

ID = "C19"
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 30000}
RULE = ("one to five runs of the downloader against a simulated server and disk, each undisturbed or with a network fault (refused, "
        "error status, cut silently or with an error, timeout, no length), a kill before/in/after a disk operation, a disk error, a full "
        "disk, an interrupt, or paused while another run goes from start to end; then one undisturbed run; non-trivial: a fault or "
        "pause took effect; distinct by (history, outcomes)")
REAL = ["experiments/weaklensing/download_takahasi.py as __main__", "numpy/healpy/astropy file I/O", "process death and fork"]
STUB = ["requests (a seeded server; the module is not installed here)", "tqdm", "disk system calls (simdisk.so)"]
INTER = "distinct download histories (steps, fault points, pauses)"
STEP_UNIT = "disk operations"
ASSUMPTIONS = ["a process dies, not the machine", "the server always holds the same map", "bytes that arrive are right",
               "maps of one block (the real map has one too)"]
BIN = "allskymap_nres12r000.zs16.mag.dat"
FITS = "takahasi_4096_000_zs16_kappa.fits"
URL = "http://cosmo.phys.hirosaki-u.ac.jp/takahasi/allsky_raytracing/sub1/nres12/" + BIN
KINDS = c17.KINDS
NET = ["refuse", "404", "503", "cut", "reset", "timeout", "nolength"]


def gen(r, i, tier):
    steps = []
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        st = {"fault": None, "chunk": r.choice([1 << 20, 4096, 1000, 333])}
        x = r.random()
        if x < 0.3:
            st["fault"] = ["net", r.choice(NET), r.random()]
        elif x < 0.55:
            st["fault"] = ["kill", r.random(), r.choice(sorted(KINDS)), r.randrange(1 << 20)]
        elif x < 0.7:
            st["fault"] = ["err", r.random(), r.choice(["EIO", "ENOSPC", "EACCES", "EDQUOT"]), r.random() < 0.4]
        elif x < 0.77:
            st["fault"] = ["space", r.random()]
        elif x < 0.83:
            st["fault"] = ["stop", r.random(), r.choice(sorted(c17.STOPS))]
        elif x < 0.96:
            st["fault"] = ["pause", r.random()]
        steps.append(st)
    return {"nside": r.choice([2, 4, 8, 16]), "dseed": r.randrange(1000), "steps": steps,
            "there": sorted(f for f in ("bin", "fits", "output.fits", "notes.txt") if r.random() < 0.12)}


def kappa(sc):
    return worlds.gen(sc["dseed"]).standard_normal(12 * sc["nside"] ** 2).astype("float32")


def binary(sc):
    k = kappa(sc)
    n, u = len(k), lambda *v: np.array(v, "uint32").tobytes()
    out = u(16) + np.array([sc["nside"]], "int32").tobytes() + np.array([n], "int64").tobytes() + u(16)
    g = worlds.gen(sc["dseed"] + 5000)
    for part in (k, *(g.standard_normal(n).astype("float32") for _ in range(3))):
        out += u(4 * n) + part.tobytes() + u(4 * n)
    return out


# -- the simulated surroundings ------------------------------------------------------

class Net:
    """What the network does to the requests of one run."""

    def __init__(self, sc, fault, chunk):
        self.body, self.fault, self.chunk, self.log, self.hit, self.bytes = binary(sc), fault, chunk, [], False, 0


def modules(net):
    """Stand-ins for requests and tqdm, with the part of their interface a downloader may use."""
    rq, ex = types.ModuleType("requests"), types.ModuleType("requests.exceptions")

    class RequestException(IOError):
        pass

    names = ["ConnectionError", "HTTPError", "Timeout", "ConnectTimeout", "ReadTimeout", "ChunkedEncodingError"]
    ex.RequestException = rq.RequestException = RequestException
    for n in names:
        setattr(ex, n, type(n, (RequestException,), {}))
        setattr(rq, n, getattr(ex, n))

    class Headers(dict):
        def get(self, k, d=None):
            return next((v for n, v in self.items() if n.lower() == k.lower()), d)

        def __getitem__(self, k):
            v = self.get(k)
            if v is None:
                raise KeyError(k)
            return v

        def __contains__(self, k):
            return self.get(k) is not None

    class Raw:
        def __init__(self, body, cut=None, how=None):
            self.body, self.at, self.cut, self.how = body, 0, cut, how
            self.decode_content = False

        def read(self, amt=None, *a, **k):
            n = len(self.body) - self.at if amt is None or amt < 0 else amt
            end = min(self.at + min(n, net.chunk if amt is not None else n), len(self.body))
            if self.cut is not None and end > self.cut:
                end = max(self.at, self.cut)
                if end == self.at:
                    net.hit = True
                    if self.how == "cut":
                        return b""
                    if isinstance(self.how, type) and not issubclass(self.how, IOError):
                        raise self.how("injected by the simulator")
                    raise (ex.ReadTimeout if self.how == "timeout" else ex.ChunkedEncodingError)("injected by the simulator")
            out = self.body[self.at:end]
            self.at = end
            net.bytes += len(out)
            return out

        def stream(self, amt=65536, *a, **k):
            while True:
                b = self.read(amt)
                if not b:
                    return
                yield b

        def close(self):
            pass

    class Response:
        def __init__(self, status, body, length=True, cut=None, how=None):
            self.status_code, self.ok, self.url = status, status < 400, URL
            self.reason = "OK" if self.ok else "Not available"
            self.headers = Headers({"Content-Length": str(len(body))} if length else {})
            self.raw = Raw(body, cut, how)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def close(self):
            pass

        def raise_for_status(self):
            if not self.ok:
                raise ex.HTTPError(f"{self.status_code} {self.reason}")

        def iter_content(self, chunk_size=1, decode_unicode=False):
            return self.raw.stream(chunk_size or 65536)

        @property
        def content(self):
            out = b"".join(self.raw.stream())
            return out

    def get(url, params=None, **k):
        net.log.append(url)
        f = net.fault
        if f and f[1] == "refuse":
            net.hit = True
            raise ex.ConnectionError("injected by the simulator")
        if url != URL or f and f[1] in ("404", "503"):
            net.hit = url == URL
            return Response(int(f[1]) if f and f[1] in ("404", "503") else 404, b"<html>" + b"not available " * 40 + b"</html>")
        if f and f[1] == "nolength":
            net.hit = True
            return Response(200, net.body, length=False)
        if f:
            return Response(200, net.body, cut=int(f[2] * len(net.body)), how=f[1])
        return Response(200, net.body)

    class Session:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def get(self, *a, **k):
            return get(*a, **k)

        def close(self):
            pass

    rq.get, rq.Session, rq.exceptions = get, Session, ex
    tq = types.ModuleType("tqdm")

    class tqdm:
        def __init__(self, iterable=None, *a, **k):
            self.it = iterable

        def __iter__(self):
            return iter(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def update(self, n=1):
            pass

        def close(self):
            pass

        @classmethod
        def wrapattr(cls, stream, method, total=None, **k):
            class W:
                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    pass

                def __getattr__(self, n):
                    return getattr(stream, n)

            return W()

    tq.tqdm = tqdm
    return {"requests": rq, "requests.exceptions": ex, "tqdm": tq}


def start(D, sc, st, plan=(), space=None):
    def go():
        f = st["fault"]
        fault = f if f and f[0] == "net" else None
        if f and f[0] == "stop":
            fault = ["net", c17.STOPS[f[2]], f[1]]
        net = Net(sc, fault, st["chunk"])
        sys.modules.update(modules(net))
        slow = astropy.io.fits.util._array_to_file_like     # numpy's own tofile writes behind the simulated disk's back
        for m in (astropy.io.fits.util, astropy.io.fits.file):
            m._array_to_file = lambda a, f: slow(a, f)
        sys.argv = ["download_takahasi.py"]
        os.chdir(D.root)
        D.lib.simdisk_cwd(1)
        err = None
        atexit._clear()
        D.on(plan, space)
        try:
            runpy.run_path(f"{c17.EXP}/weaklensing/download_takahasi.py", run_name="__main__")
        except SystemExit as e:
            err = None if e.code in (None, 0) else f"exit {e.code}"
        except BaseException as e:
            err = f"{type(e).__name__}: {str(e)[:120]}"
        atexit._run_exitfuncs()     # what the program itself registered
        ops, fired = D.ops(), D.fired()
        import gc

        gc.collect()
        D.off()
        return {"err": err, "ops": ops, "fired": fired, "hit": net.hit, "requests": len(net.log), "bytes": net.bytes}

    return saves.Child(go, D)


def lay_out(D, sc):
    D.wipe()
    for f in sc["there"]:
        p = os.path.join(D.root, {"bin": BIN, "fits": FITS}.get(f, f))
        if f == "fits":
            hp.write_map(p, kappa(sc).astype(float), dtype=np.float64, overwrite=True)
        else:
            with open(p, "wb") as h:
                h.write(binary(sc) if f == "bin" else b"something of the user's\n" * 9)


# -- runs ----------------------------------------------------------------------------

def run(sc):
    D = saves.disk()
    try:
        return _run(sc, D)
    finally:
        D.off()
        D.wipe()


def _run(sc, D):
    faults, probes = {}, {"runs-ok": 0, "runs-failed": 0, "requests": 0, "bytes": 0}
    res = {"faults": faults, "probes": probes, "steps": 0, "nontrivial": False}
    trace = []
    truth, body = kappa(sc), binary(sc)

    def bad(cls, d):
        res["viol"] = viol(cls, d)
        return res

    def note(k):
        faults[k] = faults.get(k, 0) + 1
        res["nontrivial"] = True

    def settle(r):
        if r[0] == "harness":
            raise RuntimeError(r[1])
        return r

    def path(f):
        return os.path.join(D.root, f)

    def complete(f):
        if not os.path.exists(path(f)):
            return False
        with open(path(f), "rb") as h:
            return h.read() == body

    def look(before, ok, what):
        if os.path.exists(path(FITS)):
            try:
                m = hp.read_map(path(FITS), dtype=None)
            except Exception as e:
                return bad("half-map", f"{what}: the map file cannot be read ({type(e).__name__})")
            if m.shape != truth.shape or not np.array_equal(m.astype("float32"), truth):
                return bad("wrong-map", f"{what}: the map file does not hold the server's map")
        elif ok:
            return bad("no-map", f"{what}: it ended well without a map")
        after = D.tree()
        for f in before:
            if f not in (BIN, FITS) and not own(f) and after.get(f) != before[f]:
                return bad("damage", f"{what}: the file {f} was {'changed' if f in after else 'removed'}")
            if f == FITS and f not in after:
                return bad("damage", f"{what}: a complete map was removed")
        return None

    def own(f):
        return f not in sc["there"]

    # an undisturbed run on an empty disk
    lay_out(D, dict(sc, there=[]))
    r = settle(start(D, sc, {"fault": None, "chunk": 1000}).result())
    if r[0] != "ok" or r[1]["err"]:
        return bad("fails", f"an undisturbed run fails: {r[1:] if r[0] != 'ok' else r[1]['err']}")
    nops = r[1]["ops"]
    res["steps"] += nops
    if look({}, True, "an undisturbed run"):
        return res
    size = 2 * len(body) + os.path.getsize(path(FITS))

    lay_out(D, sc)
    for si, st in enumerate([dict(s) for s in sc["steps"]] + [{"fault": None, "chunk": 1 << 20}]):
        f = st["fault"]
        before, has_fits, has_bin = D.tree(), os.path.exists(path(FITS)), complete(BIN)
        plan, space, at = [], None, 0
        what = f"run {si}"
        if f and f[0] in ("kill", "err", "pause"):
            at = int(f[1] * nops) if isinstance(f[1], float) else f[1]
            plan = [[at, KINDS[f[2]], f[3]] if f[0] == "kill" else
                    [at, saves.STICKY if f[3] else saves.ERR, saves.ERRNOS[f[2]]] if f[0] == "err" else [at, saves.PAUSE, 0]]
            what += f" ({f[0]} at disk operation {at})"
        elif f and f[0] == "space":
            space = int(f[1] * size)
            what += f" (disk full after {space} bytes)"
        elif f:
            what += f" ({f[1] if f[0] == 'net' else f[2]} at {f[2] if f[0] == 'net' else f[1]:.0%} of the transfer)"
        ch = start(D, sc, st, plan, space)
        other = None
        if f and f[0] == "pause":
            if ch.wait_pause():
                note("run-paused")
                other = settle(start(D, sc, {"fault": None, "chunk": 1 << 20}).result())
            ch.resume()
        r = settle(ch.result())
        if f and f[0] == "kill" and r == ("exit", saves.CRASHED):
            note("kill-" + f[2])
            trace.append("killed")
            if look(before, False, what):
                return res
            continue
        if r[0] != "ok":
            return bad("process-death", f"{what} ended with {r}")
        r = r[1]
        res["steps"] += r["ops"]
        probes["requests"] += r["requests"]
        probes["bytes"] += r["bytes"]
        probes["runs-failed" if r["err"] else "runs-ok"] += 1
        trace.append(r["err"] is None)
        if (has_fits or has_bin) and r["requests"]:
            return bad("again", f"{what}: it downloads again what is complete already")
        if look(before, r["err"] is None, what):
            return res
        hit = False
        if f and f[0] == "net" and r["hit"]:
            note("net-" + f[1])
            hit = True
        elif f and f[0] == "stop" and r["hit"]:
            note("stop-" + f[2])
            hit = True
            if r["err"] is None:
                return bad("swallowed", f"{what} ended as if complete")
        elif f and f[0] == "err" and r["fired"][saves.ERR] + r["fired"][saves.STICKY]:
            note("disk-error")
            hit = True
        elif f and f[0] == "space" and r["fired"][10]:
            note("disk-full")
            hit = True
        if other is not None:
            if other[0] != "ok" or other[1]["err"]:
                return bad("fails", f"{what}: the run beside it failed: {other[1:] if other[0] != 'ok' else other[1]['err']}")
            probes["runs-ok"] += 1
        if r["err"] and not hit:
            return bad("fails", f"{what} failed: {r['err']}; before it: {[s['fault'] for s in sc['steps'][:si]]}, there: {sc['there']}")
    res["obs"] = [trace, nops, digest(truth)]
    res["inter"] = digest([sc["there"], sc["steps"], trace])
    return res


def shrink(sc):
    for k in range(len(sc["steps"])):
        c = copy.deepcopy(sc)
        del c["steps"][k]
        yield c
    for k in range(len(sc["steps"])):
        if sc["steps"][k]["fault"]:
            c = copy.deepcopy(sc)
            c["steps"][k]["fault"] = None
            yield c
    for f in sc["there"]:
        yield dict(copy.deepcopy(sc), there=[g for g in sc["there"] if g != f])
    if sc["nside"] > 2:
        yield dict(copy.deepcopy(sc), nside=2)
