"""The randomness seam.

Every public way of drawing from numpy's random module (the legacy global
functions, scipy.stats through the global RandomState, default_rng) is routed
through dispatchers.  Outside a simulated task they behave exactly as before.
Inside one, the draws come from that task's own seeded Stream, which logs them
and can be told to deliver rare values (a uniform of exactly 0, a ten sigma
normal, ...) at chosen positions.
"""
import threading

import numpy as np

_local = threading.local()
_installed = False


class BudgetExceeded(BaseException):
    """The simulated task made far more calls than the workload can need."""


class Stream:
    """All randomness of one simulated task, and its merged event log.

    log entries: ("N", z) standard normals, ("U", u) uniforms on [0, 1),
    ("L", x) standard Laplace, ("O", name) any other draw,
    ("F", X) a state handed to the forward operator, ("X", ...) faults.
    """

    def __init__(self, seed, overrides=None, budget=2_000_000):
        self.seed = int(seed)
        self.g = np.random.Generator(np.random.PCG64(self.seed))
        self.other = _RealRandomState(self.seed % (2**32))
        self.overrides = {(o[0], int(o[1])): float(o[2]) for o in (overrides or [])}
        self.counts = {"N": 0, "U": 0, "L": 0, "O": 0}
        self.log = []
        self.overridden = 0
        self.budget = budget

    def spend(self, n=1):
        self.budget -= n
        if self.budget < 0:
            raise BudgetExceeded()

    def _deliver(self, kind, n):
        self.spend()
        if kind == "N":
            v = self.g.standard_normal(n)
        elif kind == "U":
            v = self.g.random(n)
        else:
            v = self.g.laplace(size=n)
        c = self.counts[kind]
        for j in range(n) if self.overrides else ():
            o = self.overrides.get((kind, c + j))
            if o is not None:
                v[j] = o
                self.overridden += 1
        self.counts[kind] = c + n
        self.log.append((kind, v.copy()))
        return v

    def draw(self, kind, size):
        if size is None:
            return float(self._deliver(kind, 1)[0])
        shape = (int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size)
        n = 1
        for s in shape:
            n *= s
        return self._deliver(kind, n).reshape(shape)

    def reseed(self, seed):
        self.log.append(("S", None if seed is None else str(seed)))
        if seed is not None:
            self.g = np.random.Generator(np.random.PCG64(_as_seed(seed)))

    def values(self, kind):
        vs = [v for k, v in self.log if k == kind]
        return np.concatenate(vs) if vs else np.zeros(0)


def _as_seed(s):
    try:
        return abs(int(s))
    except Exception:
        return abs(hash(str(s)))


def current():
    return getattr(_local, "stream", None)


class using:
    def __init__(self, stream):
        self.stream = stream

    def __enter__(self):
        self.prev = current()
        _local.stream = self.stream
        return self.stream

    def __exit__(self, *a):
        _local.stream = self.prev


def _size(args):
    return None if len(args) == 0 else tuple(args)


def _affine(x, loc, scale):
    return np.asarray(loc) + np.asarray(scale) * x if np.ndim(x) else loc + scale * x


def _bshape(size, *ps):
    if size is not None:
        return size
    s = np.broadcast_shapes(*[np.shape(p) for p in ps])
    return s if s else None


SIM = {
    # legacy names
    "rand": lambda st, *a: st.draw("U", _size(a)),
    "randn": lambda st, *a: st.draw("N", _size(a)),
    "random_sample": lambda st, size=None: st.draw("U", size),
    "random": lambda st, size=None, dtype=None, out=None: st.draw("U", size),
    "ranf": lambda st, size=None: st.draw("U", size),
    "sample": lambda st, size=None: st.draw("U", size),
    "uniform": lambda st, low=0.0, high=1.0, size=None: _affine(
        st.draw("U", _bshape(size, low, high)), low, np.subtract(high, low)),
    "standard_normal": lambda st, size=None, dtype=None, out=None: st.draw("N", size),
    "normal": lambda st, loc=0.0, scale=1.0, size=None: _affine(
        st.draw("N", _bshape(size, loc, scale)), loc, scale),
    "standard_exponential": lambda st, size=None, dtype=None, method=None, out=None: -np.log(
        st.draw("U", size)),
    "exponential": lambda st, scale=1.0, size=None: -np.asarray(scale) * np.log(
        st.draw("U", _bshape(size, scale))),
    "laplace": lambda st, loc=0.0, scale=1.0, size=None: _affine(
        st.draw("L", _bshape(size, loc, scale)), loc, scale),
    "seed": lambda st, seed=None, *a, **k: st.reseed(seed),
}


def install():
    """Route numpy's (and scipy's) global randomness through the dispatchers."""
    global _installed, _RealRandomState
    if _installed:
        return
    _installed = True
    import scipy.stats

    real = np.random.mtrand._rand
    real_default_rng = np.random.default_rng

    def make(name, orig):
        def call(*a, **k):
            st = current()
            if st is None:
                return orig(*a, **k)
            f = SIM.get(name)
            if f is not None:
                return f(st, *a, **k)
            st.spend()
            st.log.append(("O", name))
            st.counts["O"] += 1
            st.g.random()  # any draw moves the one stream on
            return getattr(st.other, name)(*a, **k)

        call.__name__ = name
        return call

    names = [n for n in dir(real) if not n.startswith("_") and callable(getattr(real, n))]
    table = {n: make(n, getattr(real, n)) for n in names}
    for n in ("ranf", "sample"):
        table[n] = make(n, getattr(np.random, n))

    class DispatchRandomState(np.random.RandomState):
        pass

    for n, f in table.items():
        setattr(DispatchRandomState, n, staticmethod(f))
        if hasattr(np.random, n):
            setattr(np.random, n, f)
    dispatch = DispatchRandomState()

    class SimGenerator(np.random.Generator):
        """What default_rng() hands out inside a simulated task."""

    def gmethod(name):
        def m(self, *a, **k):
            st = current()
            f = SIM.get(name)
            if st is None or f is None:
                return getattr(np.random.Generator, name)(self, *a, **k)
            return f(st, *a, **k)

        return m

    for n in ("random", "uniform", "standard_normal", "normal", "standard_exponential",
              "exponential", "laplace"):
        setattr(SimGenerator, n, gmethod(n))

    def default_rng(seed=None):
        st = current()
        if st is None:
            return real_default_rng(seed)
        if seed is None or isinstance(seed, np.random.SeedSequence):
            return SimGenerator(np.random.PCG64(st.seed))
        if isinstance(seed, np.random.Generator):
            return seed
        if not isinstance(seed, np.random.BitGenerator):
            st.reseed(seed)
            return SimGenerator(np.random.PCG64(_as_seed(seed)))
        return SimGenerator(seed)

    np.random.default_rng = default_rng
    np.random.mtrand._rand = dispatch
    for n in dir(scipy.stats):
        o = getattr(scipy.stats, n)
        if getattr(o, "_random_state", None) is real:
            o._random_state = dispatch


_RealRandomState = np.random.RandomState
