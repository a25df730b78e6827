"""Simulated clocks: every clock Python code can read, decided by the simulator."""
import contextlib
import datetime
import random
import sys
import time

_REAL = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter", "process_time", "thread_time", "time_ns",
                                       "monotonic_ns", "perf_counter_ns", "process_time_ns", "sleep", "localtime", "gmtime",
                                       "strftime", "ctime")}
_REAL_DT = datetime.datetime


class Clock:
    """mode: 'steady' advances a little per reading; 'frozen' never; 'jumpy' jumps back and forth."""

    def __init__(self, start=1.0e9, mode="steady", seed=0):
        self.t, self.mode, self.r, self.reads = float(start), mode, random.Random(seed), 0

    def now(self):
        self.reads += 1
        if self.mode == "steady":
            self.t += 0.0013
        elif self.mode == "jumpy":
            return max(0.0, self.t + self.r.choice([0, 0, 1, -1, 60, -60, 3600, -86400, 1e6]) + self.r.random())
        return self.t

    def functions(self):
        now, ns = self.now, lambda: int(self.now() * 10**9)
        out = {n: now for n in ("time", "monotonic", "perf_counter", "process_time", "thread_time")}
        out.update({n + "_ns": ns for n in ("time", "monotonic", "perf_counter", "process_time")})

        def sleep(s):
            self.t += max(0, s)

        out["sleep"] = sleep
        out["localtime"] = out["gmtime"] = lambda s=None: _REAL["gmtime"](now() if s is None else s)
        out["strftime"] = lambda f, t=None: _REAL["strftime"](f, _REAL["gmtime"](now()) if t is None else t)
        out["ctime"] = lambda s=None: time.asctime(_REAL["gmtime"](now() if s is None else s))
        return out

    def datetime(self):
        now = self.now

        class Now(_REAL_DT):
            @classmethod
            def now(cls, tz=None):
                d = _REAL_DT.fromtimestamp(now(), tz or datetime.timezone.utc)
                return d if tz else d.replace(tzinfo=None)

            @classmethod
            def utcnow(cls):
                return cls.now()

            @classmethod
            def today(cls):
                return cls.now()

        return Now


@contextlib.contextmanager
def using(c):
    """Install clock c (None: leave the clocks alone), also where package modules hold on to clock functions."""
    if c is None:
        yield
        return
    fs, dt = c.functions(), c.datetime()
    undo = []

    def put(obj, name, v):
        undo.append((obj, name, getattr(obj, name)))
        setattr(obj, name, v)

    swap = {id(_REAL[n]): f for n, f in fs.items()}
    swap[id(_REAL_DT)] = dt
    for n, f in fs.items():
        put(time, n, f)
    put(datetime, "datetime", dt)
    for mn, m in list(sys.modules.items()):
        if m is not None and (mn == "pxmcmc" or mn.startswith("pxmcmc.")):
            for k, v in list(vars(m).items()):
                if id(v) in swap:
                    put(m, k, swap[id(v)])
    try:
        yield
    finally:
        for obj, name, v in reversed(undo):
            setattr(obj, name, v)
