"""C06: a run that is cut short keeps a valid prefix, tells its caller, and can be run again."""
import copy
import sys

import numpy as np

from sim.chain import *
from sim.engine import viol
from sim import boot, rng, sched, worlds

ID = "C06"
LEVEL = "fault_enumeration"
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("seeded problem and sampler; one interruption per run, either an exception of a random type from the n-th call "
        "of an operator or prior, or KeyboardInterrupt / SystemExit / MemoryError at the k-th source line executed by the "
        "package (k uniform over the run, a third biased to the recording lines); afterwards the same sampler object is "
        "run again; non-trivial: the interruption fired; distinct by (sampler, interruption point, exception, outcome)")
REAL = ["pxmcmc.mcmc MYULA, PxMALA, SKROCK", "operators and priors underneath"]
STUB = ["numpy random draws (seeded)", "faulting operator calls", "asynchronous exceptions (line-level injection)"]
INTER = "distinct (interruption point, exception type, rows recorded) triples"
ASSUMPTIONS = ["one row may be half written when the exception is asynchronous"]


def gen(r, i, tier):
    algo = r.choice(["MYULA", "PxMALA", "SKROCK"])
    w = worlds.gen_world(r, kinds=["dense", "identity", "path", "cdense", "swt", "pathwt", "wl", "cswt", "cpathwt"])
    p = worlds.gen_params(r, w, 1)
    p["s"] = r.choice([1, 2, 3])
    gen_schedule(r, p, r.choice([2, 4, 8, 15]))
    p["track"] = [t for t in TRACKS if r.random() < 0.8] or ["chain"]
    p["verbosity"] = r.choice([0, 0, 1, 5])
    p["tune"] = r.random() < 0.6
    if r.random() < 0.55:
        how = {"kind": "call", "site": r.choice(["forward", "forward", "gradg", "prox", "prior"]),
               "frac": r.random(), "exc": r.choice(sorted(EXC))}
    else:
        how = {"kind": "line", "frac": r.random(), "near_record": r.random() < 0.33,
               "exc": r.choice(["keyboard", "keyboard", "exit", "memory", "runtime"])}
    if r.random() < 0.08:  # the reader of the progress messages goes away
        how = {"kind": "stdout", "frac": r.random(), "exc": r.choice(["pipe", "os", "keyboard", "value"])}
        p["verbosity"] = r.choice([1, 1, 2, 5])
    # sometimes the machinery is interrupted twice before it is left alone
    return {"w": w, "p": p, "algo": algo, "seed": r.randrange(2**31), "seed2": r.randrange(2**31),
            "start": gen_start(r), "how": how, "again": r.random() < 0.3}


class Console:
    """Standard output that fails at its n-th write."""

    def __init__(self, n=-1, exc=None):
        self.n, self.exc, self.k, self.fired = n, exc, 0, False

    def write(self, text):
        self.k += 1
        if self.k - 1 == self.n:
            self.fired = True
            raise self.exc
        return len(text)

    def flush(self):
        pass

    def __enter__(self):
        self.old, sys.stdout = sys.stdout, self
        return self

    def __exit__(self, *a):
        sys.stdout = self.old


def make_exc(name):
    if name == "pipe":
        return BrokenPipeError(32, "injected by the simulator")
    if name == "value":
        return ValueError("injected by the simulator")
    return EXC[name]("injected by the simulator")


def complete_rows(snap, final):
    """How many leading rows of snap equal the reference rows in every recorded quantity."""
    names = [k for k in snap if k not in ("acceptance_trace", "deltas_trace")]
    n = min(len(final[k]) for k in names) if names else 0
    for j in range(n):
        for k in names:
            if not np.allclose(snap[k][j], final[k][j], rtol=1e-9, atol=1e-11, equal_nan=True):
                return j
    return n


def prefix_ok(got, ref, atleast, slack=1, init=None):
    init = init or {}
    blank = lambda k: init.get(k) if k in init and init[k].shape == got[k].shape else np.zeros_like(got[k])
    eq = lambda a, b: np.array_equal(a, b, equal_nan=True)
    names = [k for k in got if k not in ("acceptance_trace", "deltas_trace")]
    j = complete_rows(got, ref)
    if j < atleast:
        return f"only {j} of the {atleast} rows already recorded survive"
    for k in names:
        a = got[k]
        if a.shape != ref[k].shape:
            return f"{k} changed shape to {a.shape}"
        tail = a[j + slack:]
        if tail.size and not eq(tail, blank(k)[j + slack:]):
            return f"{k} has data beyond the rows that were recorded (row {j})"
        if j < len(a):
            z = eq(a[j], blank(k)[j])
            if not z and not np.allclose(a[j], ref[k][j], rtol=1e-9, atol=1e-11, equal_nan=True):
                return f"{k} row {j} in flight holds values that are not those of its iteration"
    for k in ("acceptance_trace", "deltas_trace"):
        if k in got:
            L = len(got[k])
            if L > len(ref.get(k, [])) or not np.allclose(got[k], ref[k][:L], rtol=1e-9):
                return f"{k} is not a prefix of the uninterrupted one"
    return None


def interrupted(sc, W, m, X0, ref_counts, nlines, record_lines):
    """Run m with the planned interruption -> (error, fired, position, injected exceptions)"""
    how, p, algo = sc["how"], sc["p"], sc["algo"]
    st = rng.Stream(sc["seed"], None, budget(p, algo))

    def go():
        with rng.using(st):
            m.run() if X0 is None else m.run(X0)

    if how["kind"] == "call":
        n = int(how["frac"] * max(ref_counts[how["site"]], 1))
        W.spy.counts = dict.fromkeys(W.spy.counts, 0)
        W.spy.plan = {(how["site"], n): ("raise:" + how["exc"], 0)}
        W.spy.fired, W.spy.raised = [], []
        err = None
        try:
            go()
        except BaseException as e:
            err = e
        W.spy.plan = {}
        return err, bool(W.spy.fired), ("call", how["site"], n), W.spy.raised, st.log
    if how["kind"] == "stdout":
        n = int(how["frac"] * max(nlines, 1))
        err, e = None, make_exc(how["exc"])
        with Console(n, e) as con:
            try:
                go()
            except BaseException as x:
                err = x
        return err, con.fired, ("stdout", n), [e], st.log
    k = int(how["frac"] * max(nlines, 1))
    if how["near_record"] and record_lines:
        k = record_lines[int(how["frac"] * len(record_lines))]
    e = EXC[how["exc"]]("injected by the simulator")
    _, err, _, fired = sched.interrupt_run(go, boot.PKG, k, e)
    return err, fired, ("line", k), [e], st.log


def count_lines(fn, m):
    """Total package lines of fn(), the numbers of those around a change of the recorded rows, snapshots taken there"""
    st = {"n": 0, "last": None, "rec": []}

    def sig():
        s = 0
        for a in ("logPi", "L2s", "priors", "chain", "preds"):
            v = getattr(m, a, None)
            if v is not None:
                s += int(np.count_nonzero(v))
        return s

    def local(frame, event, arg):
        if event == "line":
            if frame.f_code.co_filename.endswith("mcmc.py"):
                s = sig()
                if s != st["last"]:
                    st["rec"] += [max(st["n"] - 1, 0), st["n"], st["n"] + 1]
                    st["last"] = s
            st["n"] += 1
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(boot.PKG) else None

    sys.settrace(tracer)
    try:
        fn()
    finally:
        sys.settrace(None)
    return st["n"], sorted(set(k for k in st["rec"] if k < st["n"]))


def run(sc):
    p, algo, how = sc["p"], sc["algo"], sc["how"]
    E = iterations(p)
    # uninterrupted reference, same draws
    Wr = worlds.build(sc["w"])
    X0 = start_point(Wr, sc)
    cp = lambda: None if X0 is None else X0.copy()
    Wr.spy = Spy(Wr)
    mr, _ = make_sampler(Wr, p, algo)
    st = rng.Stream(sc["seed"], None, budget(p, algo))

    def go():
        with rng.using(st):
            mr.run() if X0 is None else mr.run(cp())

    nlines, rec = 0, []
    if how["kind"] == "line":
        nlines, rec = count_lines(go, mr)
    elif how["kind"] == "stdout":
        with Console() as con:
            go()
        nlines = con.k
    else:
        go()
    ref = rows(mr)
    # what had been recorded when the interruption struck, from a second reference run
    Wi = worlds.build(sc["w"])
    Wi.spy = Spy(Wi, log_states=True)
    m, params = make_sampler(Wi, p, algo)
    init = rows(m)
    pbefore = copy.deepcopy(vars(params))
    start = cp()
    res = {"steps": 2 * E, "faults": {}, "probes": {}}
    err, fired, pos, injected, log = interrupted(sc, Wi, m, start, Wr.spy.counts, nlines, rec)
    got = rows(m)
    res["faults"] = {f"{how['kind']}:{how['exc']}": int(fired)}
    res["nontrivial"] = fired
    done = complete_rows(got, ref)
    res["inter"] = f"{algo}{pos}{how['exc']}{done}"
    res["probes"] = {"mid-run": int(0 < done < p["nsamples"]), "before-first-row": int(done == 0),
                     "after-last-row": int(done == p["nsamples"])}
    res["obs"] = [got, str(type(err)), pos]
    where = f"{algo}, {how['exc']} at {pos}"
    if not fired:
        if err is not None:
            raise err
        return res
    if err is None and how["kind"] == "stdout":
        d = same(got, ref)      # going on without messages is fine, if the results are complete
        if d:
            res["viol"] = viol("prefix", f"{where}: the run went on but recorded something else ({d})")
        return res
    if err is None:
        res["viol"] = viol("swallowed", f"{where}: the run returned as if nothing had happened")
        return res
    chainx, e = [], err
    while e is not None and len(chainx) < 10:
        chainx.append(e)
        e = e.__cause__ or e.__context__
    if not any(x is y for x in chainx for y in injected) and not isinstance(err, type(injected[0])):
        res["viol"] = viol("other-error", f"{where}: caller got {type(err).__name__} instead")
        return res
    if start is not None and not np.array_equal(start, X0):
        res["viol"] = viol("start-mutated", f"{where}: the caller's start point was modified")
        return res
    # rows recorded at the moment of the fault (the reference run up to the same point)
    atleast = max(rows_at(sc, pos, cp, ref), rows_reached(sc, cp, log))
    bad = prefix_ok(got, ref, atleast, init=init)
    if bad:
        res["viol"] = viol("prefix", f"{where}: {bad}")
        return res
    if vars(params) != pbefore:
        res["viol"] = viol("params-mutated", f"{where}: the parameter object was modified")
        return res
    if sc["again"] and how["kind"] == "call":
        interrupted(dict(sc, seed=sc["seed2"] + 1), Wi, m, cp(), Wr.spy.counts, nlines, rec)
        res["faults"][f"{how['kind']}:{how['exc']}"] += 1
    # faults are over: the same object is run again, against a new one
    delta = float(m.delta)
    R = run_chain(Wi, p, algo, sc["seed2"], cp(), sampler=m)
    Wf = worlds.build(sc["w"])
    mf, _ = make_sampler(Wf, dict(p, delta=delta), algo)
    Rf = run_chain(Wf, p, algo, sc["seed2"], cp(), sampler=mf)
    res["steps"] += 2 * E
    d = same(rows(m), rows(mf))
    if d:
        res["viol"] = viol("rerun", f"{where}: running the interrupted sampler again differs from a new one ({d})")
    elif R.stream.counts != Rf.stream.counts:
        res["viol"] = viol("rerun", f"{where}: running the interrupted sampler again takes a different number of steps")
    return res


def rows_reached(sc, cp, log):
    """Rows that must be recorded: once the state after iteration m is handed to the operator, iterations before m are over."""
    p = sc["p"]
    E = iterations(p)
    states = [X for k, X in log if k == "F"]
    if not E or len(states) < 2:
        return 0
    W = worlds.build(sc["w"])
    full = run_chain(W, dict(p, nburn=0, ngap=1, nsamples=E, track=["chain"], verbosity=0), sc["algo"], sc["seed"], cp()).m.chain
    seen = -1
    for X in states[1:]:
        hit = np.nonzero(np.all(full == X, axis=1))[0]
        if len(hit):
            seen = max(seen, int(hit[0]))
    n = seen - p["nburn"]           # iterations nburn .. seen - 1 are over
    return 0 if n <= 0 else min((n - 1) // max(p["ngap"], 1) + 1, p["nsamples"])


class _Stop(BaseException):
    pass


def rows_at(sc, pos, cp, ref):
    """Complete rows of an undisturbed run at the moment pos is reached."""
    W = worlds.build(sc["w"])
    W.spy = Spy(W)
    m, _ = make_sampler(W, sc["p"], sc["algo"])
    st = rng.Stream(sc["seed"], None, budget(sc["p"], sc["algo"]))
    out = {}

    def snap():
        out["rows"] = complete_rows(rows(m), ref)

    X = cp()

    def go():
        with rng.using(st):
            m.run() if X is None else m.run(X)

    if pos[0] == "call":
        site, n = pos[1], pos[2]
        obj, name = {"forward": (W.op, "forward"), "gradg": (W.op, "calc_gradg"), "prox": (W.prior, "proxf"),
                     "prior": (W.prior, "prior")}[site]
        inner = getattr(obj, name)

        def call(*a, **k):
            if W.spy.counts[site] == n:
                snap()
                raise _Stop()
            return inner(*a, **k)

        setattr(obj, name, call)
        # what is recorded counts at the moment itself, before any cleanup
        try:
            go()
        except _Stop:
            pass
    elif pos[0] == "stdout":
        class Stopper(Console):
            def write(self, text):
                if self.k == self.n:
                    snap()
                return super().write(text)

        with Stopper(pos[1], _Stop()):
            try:
                go()
            except _Stop:
                pass
    else:
        c = {"n": 0}

        def local(frame, event, arg):
            if event == "line":
                if c["n"] == pos[1]:
                    snap()
                    raise _Stop()
                c["n"] += 1
            return local

        sys.settrace(lambda f, e, a: local if f.f_code.co_filename.startswith(boot.PKG) else None)
        try:
            go()
        except _Stop:
            pass
        finally:
            sys.settrace(None)
    return out.get("rows", 0)


def shrink(sc):
    yield from shrink_common(sc)
    for k, v in (("again", False),):
        if sc[k] != v:
            yield dict(copy.deepcopy(sc), **{k: v})
    for f in (0.0, sc["how"]["frac"] / 2):
        if f != sc["how"]["frac"]:
            c = copy.deepcopy(sc)
            c["how"]["frac"] = f
            yield c
