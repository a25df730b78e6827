"""C14: output suppression always ends with the caller's standard output back in place."""
import builtins
import copy
import os
import sys

import numpy as np

from sim.chain import *
from sim.engine import digest, viol
from sim import boot, rng, sched
from sim.props.c09 import shrink_switches

import healpy as hp
import pxmcmc.utils as pu

ID = "C14"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 80000}
RULE = ("1 to 4 threads run random programs of nested output suppression, harmonic transforms of the package with a chatty or "
        "failing healpy underneath, prints, exceptions and swapped standard outputs, under a seeded line-level scheduler, "
        "with openings of the null device that fail; non-trivial: at least one suppression; distinct by (programs, switches)")
REAL = ["pxmcmc.utils (suppression, map2alm, alm2map)"]
STUB = ["healpy transforms (chatty / failing wrapper around the real ones)", "opening of files (can fail)",
        "thread scheduler", "the caller's standard output (recorder)"]
INTER = "distinct (thread programs, context-switch sequence) pairs"
STEP_UNIT = "scheduling points"
ASSUMPTIONS = ["a print statement is atomic", "exceptions arrive from the suppressed code or from opening the null device, not "
               "asynchronously between two statements of the suppressing code itself",
               "text a thread prints outside suppression while another thread suppresses may be lost"]

EXCS = ["runtime", "value", "keyboard", "exit", "stopiter", "genexit", "memory", "os"]


def gen_prog(r, depth, swap):
    out = []
    for _ in range(r.choice([1, 2, 3])):
        x = r.random()
        if x < 0.3:
            out.append(["print"])
        elif x < 0.55 and depth < 3:
            out.append(["sup", gen_prog(r, depth + 1, False)])
        elif x < 0.65:
            out.append(["m2a", r.choice(["ok", "ok", "raise", "bad"]), r.choice(EXCS)])
        elif x < 0.75:
            out.append(["a2m", r.choice(["ok", "ok", "raise", "bad"]), r.choice(EXCS)])
        elif x < 0.83:
            out.append(["raise", r.choice(EXCS)])
        elif x < 0.9 and swap and depth == 0:
            out.append(["swap"])
        else:
            out.append(["work"])
    return out


def gen(r, i, tier):
    n = r.choice([1, 1, 2, 2, 3, 4])
    return {"progs": [gen_prog(r, 0, n == 1) for _ in range(n)], "sseed": r.randrange(2**31),
            "rate": r.choice([0.1, 0.3, 0.6]), "switches": None, "opcodes": r.random() < 0.3,
            "openfail": sorted(r.sample(range(8), r.choice([0, 0, 0, 1, 2])))}


class Recorder:
    def __init__(self):
        self.text = []

    def write(self, s):
        self.text.append(s)
        return len(s)

    def flush(self):
        pass


class Escape(Exception):
    pass


def run(sc):
    saved = sys.stdout, builtins.open, hp.map2alm, hp.alm2map
    fds = os.dup(1), os.dup(2)
    mine = os.memfd_create("console")
    os.dup2(mine, 1)
    os.dup2(mine, 2)
    try:
        res = _run(sc)
        if not res.get("viol") and not all(os.path.sameopenfile(mine, k) for k in (1, 2)):
            res["viol"] = viol("not-restored", "after all threads finished, the process's console is not the one it had")
        return res
    finally:
        os.dup2(fds[0], 1)
        os.dup2(fds[1], 2)
        for k in fds + (mine,):
            os.close(k)
        sys.stdout, builtins.open, hp.map2alm, hp.alm2map = saved


def _run(sc):
    S = sched.Scheduler(sc["sseed"], sc["switches"], sc["rate"], boot.PKG, sc["opcodes"], 400_000)
    cur = {"rec": Recorder()}
    recs = [cur["rec"]]
    sys.stdout = cur["rec"]
    real_open, m2a, a2m = builtins.open, hp.map2alm, hp.alm2map
    st = {"tok": 0, "opens": 0, "openfails": 0, "active": 0, "raised": 0, "nested": 0, "sup": 0, "calls": 0}
    inside, free, problems = [], [], []
    tls = {}

    def fake_open(file, *a, **k):
        if file == os.devnull and sched.current_task() is not None:
            n = st["opens"]
            st["opens"] += 1
            if n in sc["openfail"]:
                st["openfails"] += 1
                raise OSError(24, "Too many open files (injected by the simulator)")
        return real_open(file, *a, **k)

    builtins.open = fake_open

    def emit(depth):
        st["tok"] += 1
        tok = f"<{st['tok']}>"
        if depth > 0:
            inside.append(tok)
        elif st["active"] == 0:
            free.append((tok, cur["rec"]))
        print(tok)

    def chatty(real, name):
        def call(*a, **k):
            t = sched.current_task()
            if t is None:
                return real(*a, **k)
            emit(1)
            sched.maybe_yield()
            exc = tls.get(t.tid)
            if exc is not None:
                raise exc
            out = real(*a, **k)
            emit(1)
            return out
        return call

    hp.map2alm, hp.alm2map = chatty(m2a, "map2alm"), chatty(a2m, "alm2map")
    img = np.linspace(-1, 1, 12)
    alm = (np.arange(6) + 0.5j)
    want = {"m2a": m2a(img, 2), "a2m": a2m(alm, 1)}

    def exec_prog(tid, prog, depth):
        for op in prog:
            sched.maybe_yield()
            k = op[0]
            if k == "print":
                emit(depth)
            elif k == "work":
                pu.soft(np.array([1.0, -2.0]), 0.5)
            elif k == "swap":
                cur["rec"] = Recorder()
                recs.append(cur["rec"])
                sys.stdout = cur["rec"]
            elif k == "raise":
                if depth > 0:
                    st["raised"] += 1
                    e = EXC[op[1]]("injected by the simulator")
                    tls[(tid, "exc")] = e
                    raise e
            elif k == "sup":
                st["sup"] += 1
                st["nested"] += depth > 0
                st["active"] += 1
                try:
                    try:
                        with pu.suppress_stdout():
                            exec_prog(tid, op[1], depth + 1)
                    finally:
                        st["active"] -= 1
                except sched.Killed:
                    raise
                except BaseException as e:
                    check_exc(tid, e)
                    if depth > 0:
                        raise
                    tls.pop((tid, "exc"), None)
            else:
                st["sup"] += 1
                st["calls"] += 1
                st["active"] += 1
                try:
                    if op[1] == "raise":
                        st["raised"] += 1
                        tls[tid] = tls[(tid, "exc")] = EXC[op[2]]("injected by the simulator")
                    f = pu.map2alm if k == "m2a" else pu.alm2map
                    args = ((img, 2) if k == "m2a" else (alm, 1))
                    if op[1] == "bad":
                        args = (np.ones(13), 2) if k == "m2a" else (np.ones(4), 1)
                        tls[(tid, "exc")] = "any"
                    try:
                        out = f(*args)
                        if op[1] == "bad" or op[1] == "raise":
                            problems.append(("swallowed", f"{k} returned although the transform underneath failed"))
                        elif not np.allclose(out, want[k]):
                            problems.append(("value", f"{k} returned something else than healpy"))
                    finally:
                        tls.pop(tid, None)
                        st["active"] -= 1
                except sched.Killed:
                    raise
                except BaseException as e:
                    check_exc(tid, e)
                    if depth > 0:
                        raise
                    tls.pop((tid, "exc"), None)
            if depth == 0 and st["active"] == 0 and sys.stdout is not cur["rec"]:
                problems.append(("not-restored", f"nobody suppresses output, but sys.stdout is not the caller's (after {k})"))
                raise Escape()

    def check_exc(tid, e):
        want_e = tls.get((tid, "exc"))
        if isinstance(e, Escape) or e is want_e:
            return
        if isinstance(e, OSError) and "injected by the simulator" in str(e):
            return
        if want_e == "any" and isinstance(e, Exception):
            return
        if isinstance(want_e, StopIteration) and isinstance(e, RuntimeError):
            return
        problems.append(("exception", f"{type(e).__name__}: {str(e)[:100]} came out of a suppressed block instead of "
                                      f"{'the exception raised inside' if want_e is not None else 'nothing'}"))

    for tid, prog in enumerate(sc["progs"]):
        S.spawn(lambda tid=tid, prog=prog: exec_prog(tid, prog, 0))
    S.run()
    res = {"steps": S.step, "switches": S.taken, "nontrivial": st["sup"] > 0,
           "faults": {"context-switch": len(S.taken), "exception-while-suppressed": st["raised"],
                      "open-failed": st["openfails"], "lock-wait": S.lock_waits},
           "probes": {"suppressions": st["sup"], "nested": st["nested"], "printed-free": len(free),
                      "printed-suppressed": len(inside), "swapped": len(recs) - 1},
           "inter": digest([sc["progs"], S.taken if sc["switches"] is None else sc["switches"], sc["openfail"]]),
           "obs": [[r.text for r in recs], S.step, st]}
    end = sys.stdout
    sys.stdout = sys.__stdout__
    if S.deadlock:
        res["viol"] = viol("deadlock", "threads that suppress output blocked each other for ever")
        return res
    if problems:
        res["viol"] = viol(*problems[0])
        return res
    for t in S.tasks:
        if t.error is not None and not isinstance(t.error, Escape):
            raise t.error
    if end is not cur["rec"]:
        res["viol"] = viol("not-restored", "after all threads finished, sys.stdout is not the caller's")
        return res
    alltext = "".join(x for r in recs for x in r.text)
    for tok in inside:
        if tok in alltext:
            res["viol"] = viol("leaked", f"text printed while suppressed appeared on the caller's output")
            return res
    for tok, rec in free:
        if tok not in "".join(rec.text):
            res["viol"] = viol("lost", "text printed while nobody suppressed output never appeared")
            return res
    return res


def concretize(sc, res):
    if sc["switches"] is None and res.get("switches") is not None:
        return dict(copy.deepcopy(sc), switches=res["switches"])
    return None


def _drop(prog):
    for k in range(len(prog)):
        yield prog[:k] + prog[k + 1:]
        if prog[k][0] == "sup":
            for b in _drop(prog[k][1]):
                yield prog[:k] + [["sup", b]] + prog[k + 1:]


def shrink(sc):
    if len(sc["progs"]) > 1:
        for k in range(len(sc["progs"])):
            c = copy.deepcopy(sc)
            del c["progs"][k]
            yield c
    for k, p in enumerate(sc["progs"]):
        for q in _drop(p):
            c = copy.deepcopy(sc)
            c["progs"][k] = copy.deepcopy(q)
            yield c
    for o in range(len(sc["openfail"])):
        c = copy.deepcopy(sc)
        del c["openfail"][o]
        yield c
    if sc["opcodes"]:
        yield dict(copy.deepcopy(sc), opcodes=False)
    yield from shrink_switches(sc)
