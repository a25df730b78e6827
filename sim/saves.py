"""The disk side: samplers to save, the reference model of a saved file, and the simulated disk."""
import ctypes
import errno
import hashlib
import os
import pickle
import select
import shutil
import signal
import time

import numpy as np

from sim.chain import *
from sim import worlds

ERRNOS = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EDQUOT": errno.EDQUOT, "EROFS": errno.EROFS,
          "EACCES": errno.EACCES, "EMFILE": errno.EMFILE, "ENOENT": errno.ENOENT, "EINTR": errno.EINTR,
          "EXDEV": errno.EXDEV, "EPERM": errno.EPERM, "EBUSY": errno.EBUSY}
ERR, SHORT, CRASH_BEFORE, CRASH_TORN, CRASH_AFTER, STICKY, EINTR, PAUSE = 1, 2, 3, 4, 5, 6, 7, 8
CRASHED = 77
NAMES = {"logPi": "logposterior", "preds": "predictions", "chain": "chain", "L2s": "L2s", "priors": "priors",
         "acceptance_trace": "acceptances", "deltas_trace": "deltas"}


class Disk:
    """One simulated disk: everything below root goes through simdisk.so."""

    def __init__(self):
        self.root = os.path.join(os.environ["SIM_SCRATCH"], f"disk{os.getpid()}")
        lib = os.environ.get("SIMDISK_SO")
        self.lib = ctypes.CDLL(lib)
        for f in ("seq", "fired"):
            getattr(self.lib, "simdisk_" + f).restype = ctypes.c_int64
        self.lib.simdisk_plan.argtypes = [ctypes.c_int64, ctypes.c_int, ctypes.c_int64]
        self.lib.simdisk_space.argtypes = [ctypes.c_int64]
        self.wipe()
        self.lib.simdisk_root(self.root.encode())

    def wipe(self):
        self.off()
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)

    def on(self, plan=(), space=None):
        self.lib.simdisk_reset()
        for at, kind, arg in plan:
            self.lib.simdisk_plan(at, kind, arg)
        if space is not None:
            self.lib.simdisk_space(space)
        self.lib.simdisk_enable(1)

    def off(self):
        self.lib.simdisk_enable(0)

    def ops(self):
        return self.lib.simdisk_seq()

    def fired(self):
        return [int(self.lib.simdisk_fired(k)) for k in range(16)]

    def log(self):
        """(operation, length, result, errno) of every logged operation."""
        out = []
        a, b = ctypes.c_int32(), ctypes.c_int32()
        x, y, z = ctypes.c_int64(), ctypes.c_int64(), ctypes.c_int64()
        buf = ctypes.create_string_buffer(96)
        names = ["", "open", "write", "pwrite", "truncate", "fsync", "close", "rename", "unlink", "read", "lock", "link"]
        for i in range(self.lib.simdisk_nlog()):
            self.lib.simdisk_log(i, ctypes.byref(a), ctypes.byref(b), ctypes.byref(x), ctypes.byref(y), ctypes.byref(z), buf)
            out.append([names[a.value], y.value, z.value, b.value])
        return out

    def tree(self):
        """Content hash of every file on the disk (relative path -> digest)."""
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, "rb") as h:
                    out[os.path.relpath(p, self.root)] = hashlib.sha256(h.read()).hexdigest()[:16]
        return out


_disk = None


def disk():
    global _disk
    if _disk is None or _disk.root != os.path.join(os.environ["SIM_SCRATCH"], f"disk{os.getpid()}"):
        _disk = Disk()
    return _disk


# -- what is saved ---------------------------------------------------------------

def gen_sampler(r):
    algo = r.choice(["MYULA", "PxMALA", "PxMALA", "SKROCK"])
    w = worlds.gen_world(r, kinds=["dense", "identity", "path", "cdense", "cpath", "swt", "wl", "cswt"])
    p = worlds.gen_params(r, w, 1, algo)
    gen_schedule(r, p, r.choice([1, 2, 5, 12]))
    if r.random() < 0.15:
        p["nsamples"] = r.choice([300, 1500])     # a file of many disk blocks, rows never reached stay 0
        p["cut"] = True
    p["track"] = list(TRACKS) if r.random() < 0.5 else [t for t in TRACKS if r.random() < 0.5]
    p["verbosity"] = 0
    p["s"] = min(p.get("s", 1), 3)
    if algo == "PxMALA":
        p["tune"] = r.random() < 0.6
    s = {"w": w, "p": p, "algo": algo, "seed": r.randrange(2**31)}
    x = r.random()
    if x < 0.25 or p.pop("cut", False):
        # the run is cut short: what it recorded so far is saved
        s["cut"] = [r.choice(["forward", "gradg", "prox"]), r.randrange(1, 12), r.choice(["keyboard", "memory", "runtime"])]
    elif x < 0.32:
        s["spoil"] = ["forward", r.randrange(1, 6), r.choice(["nan", "inf"]), 0]
    if r.random() < 0.2:  # values only a diverged or an exact chain reaches
        s["marks"] = [r.randrange(2**31) for _ in range(r.choice([1, 3, 6]))]
    return s


MARKS = [np.inf, -np.inf, np.nan, 5e-324, -0.0, 1.7976931348623157e308, 1 / 3, 1e-310, 123456789.12345679]


def mark(m, marks):
    for k in marks:
        g = worlds.gen(k)
        a = getattr(m, ["chain", "logPi", "L2s", "priors", "preds"][k % 5], None)
        if a is not None and a.size:
            v = MARKS[g.integers(len(MARKS))]
            a.flat[g.integers(a.size)] = complex(v, MARKS[g.integers(len(MARKS))]) if a.dtype.kind == "c" else v


def build_sampler(s):
    """The sampler in its final state, and its parameters."""
    W = worlds.build(s["w"])
    plan = []
    if s.get("cut"):
        plan = [[s["cut"][0], s["cut"][1], "raise:" + s["cut"][2], 0]]
    if s.get("spoil"):
        plan.append(s["spoil"])
    Spy(W, plan)
    p = s["p"]
    m, params = make_sampler(W, p, s["algo"])
    with rng.using(rng.Stream(s["seed"], None, 10**9)):
        try:
            m.run()
        except (KeyboardInterrupt, MemoryError, RuntimeError) as e:
            if "injected" not in str(e):
                raise
    mark(m, s.get("marks", ()))
    return m, params


EXTRAS = ["int", "float", "str", "bool", "array", "complex", "strlist", "npfloat", "empty", "unicode", "imat",
          "padded", "bigint", "lines", "longstr", "nan", "inf", "npbool", "npint", "zerod", "negzero", "tiny", "bytes", "f4"]
EXTRA_NAMES = ["note", "seed", "L", "B", "J_min", "time", "run id", "true_map", "x" * 60, "setting",
               "chain", "_x", "ünï", "a.b", "nparams", "CLASS"]


def gen_extras(r):
    k = r.choice([0, 0, 1, 2, 4])
    e = [[n, r.choice(EXTRAS), r.randrange(1000)] for n in r.sample(EXTRA_NAMES, k)]
    if r.random() < 0.1:
        e.append([r.choice(["mu", "delta", "s"]), "float", r.randrange(1000)])    # collides with a parameter
    return e


def build_extras(es):
    out = {}
    for n, kind, v in es:
        out[n] = {"int": v, "float": v / 7, "str": f"text {v}", "bool": bool(v % 2), "array": np.arange(v % 9 + 1) / 3,
                  "complex": v + 0.5j, "strlist": ["a", "bc", str(v)], "npfloat": np.float64(v) / 3, "empty": "",
                  "unicode": f"µ={v} λ", "imat": np.arange(6).reshape(2, 3) * v, "none": None,
                  "padded": f"  {v}\t ", "bigint": 2**53 + 1 + 2 * v, "lines": f"a\nb {v}\n", "longstr": f"{v} " * 3000, "nan": float("nan"), "inf": -np.inf,
                  "npbool": np.bool_(v % 2), "npint": np.int32(v - 500), "zerod": np.array(v / 3), "negzero": -0.0,
                  "tiny": 5e-324 * v, "bytes": np.bytes_(b"raw %d" % v), "f4": np.float32(v) / 3,
                  "huge": np.zeros(20000), "dict": {"a": v}}[kind]
    return out


def snapshot(m, params, extras):
    """The content a save of m now must have (deep copies)."""
    d = {}
    for a, name in NAMES.items():
        if hasattr(m, a):
            d[name] = np.array(getattr(m, a))
    at = dict(vars(params))
    at.update(extras)
    return {"data": d, "attrs": {k: np.array(v) if not isinstance(v, str) else v for k, v in at.items()}}


def same_value(a, b):
    a, b = (v.item() if isinstance(v, np.ndarray) and v.ndim == 0 and v.dtype.kind in "SUO" else v for v in (a, b))
    if isinstance(a, (bytes, str)) or isinstance(b, (bytes, str)):
        dec = lambda v: v.decode() if isinstance(v, bytes) else v
        return isinstance(dec(a), str) and isinstance(dec(b), str) and dec(a) == dec(b)
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "SUO" or b.dtype.kind in "SUO":
        f = lambda v: [x.decode() if isinstance(x, bytes) else str(x) for x in np.ravel(v)]
        return f(a) == f(b)
    if {a.dtype.kind, b.dtype.kind} & set("iu") and "f" in (a.dtype.kind, b.dtype.kind):
        return a.ravel().tolist() == b.ravel().tolist()     # exact: no rounding of large integers
    return np.array_equal(a, b, equal_nan=True)


def diff(path, snap):
    """None if the file at path is exactly the saved state snap, else what is wrong."""
    import h5py

    try:
        f = h5py.File(path, "r")
    except OSError as e:
        return f"the file cannot be opened ({str(e)[:80]})"
    try:
        with f:
            want, have = snap["data"], set()
            f.visit(lambda n: have.add(n))
            if have != set(want):
                return f"datasets {sorted(have)} instead of {sorted(want)}"
            for k, v in want.items():
                got = f[k][()]
                if np.iscomplexobj(v) != np.iscomplexobj(got) or not same_value(v, got):
                    return f"dataset {k} does not hold the sampler's values"
            ha = set(f.attrs.keys())
            if ha != set(snap["attrs"]):
                return f"attributes {sorted(ha)} instead of {sorted(snap['attrs'])}"
            for k, v in snap["attrs"].items():
                if not same_value(v, f.attrs[k]):
                    return f"attribute {k} is {f.attrs[k]!r:.60} instead of {v!r:.60}"
    except (OSError, RuntimeError, KeyError, ValueError) as e:
        return f"the file cannot be read ({type(e).__name__}: {str(e)[:80]})"
    return None


def mem_digest(m, params):
    h = hashlib.sha256()
    for o in (m, params):
        for k in sorted(vars(o)):
            v = vars(o)[k]
            if isinstance(v, (np.ndarray, list, tuple, int, float, str, bool, np.generic)):
                a = np.asarray(v)
                h.update(k.encode() + str(a.shape).encode() + a.tobytes())
    return h.hexdigest()


# -- child processes -------------------------------------------------------------

class Child:
    """fn running in a forked process, which may pause itself at a disk operation."""

    def __init__(self, fn, disk=None):
        a, b = os.pipe()
        if disk is not None:
            pr, pw = os.pipe()
            rr, rw = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 70
            try:
                os.close(a)
                if disk is not None:
                    os.close(pr)
                    os.close(rw)
                    disk.lib.simdisk_pause(pw, rr)
                try:
                    import gc
                    import resource

                    gc.freeze()
                    nul = os.open(os.devnull, os.O_WRONLY)      # HDF5 and h5py complain on stderr
                    os.dup2(nul, 2)

                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    out = pickle.dumps(("ok", fn()))
                except BaseException as e:
                    out = pickle.dumps(("harness", f"{type(e).__name__}: {e}"))
                if disk is not None:
                    os.close(pw)        # no pause any more: who waits for one goes on
                with os.fdopen(b, "wb") as f:
                    f.write(out)
                code = 0
            finally:
                os._exit(code)
        os.close(b)
        self.out, self.paused, self.go = a, None, None
        if disk is not None:
            os.close(pw)
            os.close(rr)
            self.paused, self.go = pr, rw
        self.buf = b""

    def wait_pause(self, wall=60):
        """True once the child has paused, False if it ended without."""
        r, _, _ = select.select([self.paused], [], [], wall)
        return bool(r) and os.read(self.paused, 1) == b"p"

    def resume(self):
        try:
            os.write(self.go, b"g")
        except BrokenPipeError:
            pass

    def result(self, wall=60):
        """("ok", result) | ("exit", code) | ("signal", n) | ("hang",) | ("harness", what)."""
        t0 = time.monotonic()
        hang = False
        while True:
            r, _, _ = select.select([self.out], [], [], 1.0)
            if r:
                c = os.read(self.out, 1 << 16)
                if not c:
                    break
                self.buf += c
            elif time.monotonic() - t0 > wall:
                os.kill(self.pid, signal.SIGKILL)
                hang = True
                break
        for fd in (self.out, self.paused, self.go):
            if fd is not None:
                os.close(fd)
        _, st = os.waitpid(self.pid, 0)
        if hang:
            return ("hang",)
        if os.WIFSIGNALED(st):
            return ("signal", os.WTERMSIG(st))
        if os.WEXITSTATUS(st) != 0:
            return ("exit", os.WEXITSTATUS(st))
        return pickle.loads(self.buf)


def in_child(fn, wall=60):
    """Run fn in a forked process and wait for it."""
    return Child(fn).result(wall)


def lacks(path, name, value):
    """What is missing of an extra that need not be storable as an attribute, or None."""
    import h5py

    try:
        with h5py.File(path, "r") as f:
            got = [o for o in (f.attrs, f) if name in o]
            found = list(got) or [k for o in (f.attrs, f) for k in o if name in k]
            if not found:
                return f"the extra {name!r} is not in the file"
            if value is not None and got and not isinstance(got[0][name], h5py.Group):
                v = np.asarray(got[0][name][()] if got[0] is f else got[0][name])
                if v.shape == value.shape and not np.array_equal(v, value):
                    return f"the extra {name!r} has other values"
    except OSError as e:
        return f"the file cannot be read: {e}"
    return None


def target_path(root, t):
    return os.path.join(root, t["dir"], t["name"] + ".hdf5")


def gen_target(r):
    return {"dir": r.choice(["", "", "out", "a b"]), "name": r.choice(["outputs", "run1", "run.2", "chain λ", "x.hdf5", ".hidden", "50%d {k}", "n" * 120, "run1.part", "A-1 b"])}
