"""Cooperative scheduling of real threads, one at a time, at chosen points.

Tasks run in real threads but only the one holding the baton executes.  The
baton can move at every line (or bytecode) executed inside the package under
test, at every operator call and at every lock.  Which task runs next is decided
by an explicit list of switches when one is given (replay), otherwise by a
seeded generator; the switches actually taken are recorded.
"""
import random
import sys
import threading
import weakref

_tls = threading.local()


class Deadlock(Exception):
    pass


class Killed(BaseException):
    pass


class Task:
    def __init__(self, sched, tid, fn):
        self.sched, self.tid, self.fn = sched, tid, fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.waiting = None
        self.result = None
        self.error = None
        self.steps = 0
        self.interrupts = {}
        self.held = {}      # lock -> frame that took it

    def body(self):
        _tls.task = self
        self.sem.acquire()
        try:
            if self.sched.killing:
                return
            if self.sched.trace_prefix:
                sys.settrace(self.sched.tracer)
            try:
                self.result = self.fn()
            finally:
                sys.settrace(None)
        except Killed:
            pass
        except BaseException as e:  # the verdict belongs to the oracle
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            _tls.task = None
            self.sched.finished(self)


class Scheduler:
    def __init__(self, seed=0, switches=None, rate=0.2, trace_prefix=None, opcodes=False,
                 max_steps=2_000_000):
        self.rng = random.Random(seed)
        self.replay = None if switches is None else {int(a): int(b) for a, b in switches}
        self.rate = rate
        self.tasks = []
        self.step = 0
        self.taken = []
        self.trace_prefix = trace_prefix
        self.opcodes = opcodes
        self.main = threading.Semaphore(0)
        self.deadlock = False
        self.killing = False
        self.max_steps = max_steps
        self.interrupted = 0
        self.lock_waits = 0

    def spawn(self, fn):
        t = Task(self, len(self.tasks), fn)
        self.tasks.append(t)
        return t

    def runnable(self):
        return [t for t in self.tasks if not t.done and (t.waiting is None or t.waiting())]

    def pick(self, cands, me):
        """Next task among cands; me may be None (must switch)."""
        k = self.step
        self.step += 1
        if self.replay is not None:
            want = self.replay.get(k)
            for t in cands:
                if t.tid == want:
                    return t
            return me if me in cands else cands[0]
        if me in cands and self.rng.random() >= self.rate:
            return me
        t = cands[self.rng.randrange(len(cands))]
        default = me if me in cands else cands[0]
        if t is not default:
            self.taken.append([k, t.tid])
        return t

    def yield_point(self, me):
        me.steps += 1
        if self.killing:
            raise Killed()
        if self.step > self.max_steps:
            self.killing = True
            raise Killed()
        c = self.runnable()
        nxt = self.pick(c, me)
        if nxt is not me:
            nxt.sem.release()
            me.sem.acquire()
            if self.killing:
                raise Killed()

    def block(self, me, ready):
        """me waits until ready(); someone else must run."""
        self.lock_waits += 1
        me.waiting = ready
        c = self.runnable()
        if not c:
            self.deadlock = True
            self.kill()
            raise Killed()
        nxt = self.pick(c, None)
        if nxt is not me:
            nxt.sem.release()
            me.sem.acquire()
        me.waiting = None
        if self.killing:
            raise Killed()

    def kill(self):
        self.killing = True

    def finished(self, me):
        if self.killing:
            for t in self.tasks:
                if not t.done:
                    t.sem.release()
                    return
            self.main.release()
            return
        c = self.runnable()
        if c:
            self.pick(c, None).sem.release()
        elif all(t.done for t in self.tasks):
            self.main.release()
        else:
            self.deadlock = True
            self.killing = True
            for t in self.tasks:
                if not t.done:
                    t.sem.release()
                    return

    def run(self):
        free_all()
        ths = [threading.Thread(target=t.body, daemon=True) for t in self.tasks]
        for th in ths:
            th.start()
        self.pick(self.runnable(), None).sem.release()
        self.main.acquire()
        for th in ths:
            th.join(10)

    # -- tracing -----------------------------------------------------------
    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.trace_prefix) or frame.f_code.co_name == "<module>":
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            me = getattr(_tls, "task", None)
            if me is not None:
                # an interrupt due in a function that holds a lock is delivered right after the release (CPython itself can
                # lose a lock to one that lands inside a with statement's exit), or in a function called while it is held
                due = [k for k in me.interrupts if k <= me.steps] if me.interrupts and below(frame, me.held) else ()
                if due:
                    exc = me.interrupts.pop(min(due))
                    self.interrupted += 1
                    me.steps += 1
                    raise exc
                self.yield_point(me)
        return self.local


def below(frame, held):
    """Is every frame that took a lock a caller (not the running function itself) of this one?"""
    if not held:
        return True
    up, f = set(), frame.f_back
    while f is not None:
        up.add(f)
        f = f.f_back
    return all(h in up for h in held.values())


def current_task():
    return getattr(_tls, "task", None)


def maybe_yield():
    t = current_task()
    if t is not None:
        t.sched.yield_point(t)


_real_lock = threading.Lock
_real_rlock = threading.RLock


_all = weakref.WeakSet()


def free_all():
    """Every run starts with no lock held by a thread of an earlier run."""
    for k in list(_all):
        k._owner, k._count = None, 0
        k._real = _real_rlock() if k.reentrant else _real_lock()


class SimLock:
    """A lock the scheduler understands (outside a simulation: an ordinary one)."""

    reentrant = False

    def __init__(self):
        self._real = _real_rlock() if self.reentrant else _real_lock()
        self._owner = None
        self._count = 0
        _all.add(self)

    def acquire(self, blocking=True, timeout=-1):
        me = current_task()
        if me is None:
            return self._real.acquire(blocking, timeout)
        if self.reentrant and self._owner is me:
            self._count += 1
            return True
        me.sched.yield_point(me)
        while self._owner is not None:
            if not blocking or timeout >= 0:
                return False
            me.sched.block(me, lambda: self._owner is None)
        self._owner, self._count = me, 1
        f = sys._getframe(1)
        while f.f_code.co_filename == __file__:
            f = f.f_back
        me.held[self] = f
        return True

    def release(self):
        me = current_task()
        if me is None:
            return self._real.release()
        if self._owner is None or (self.reentrant and self._owner is not me):
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner.held.pop(self, None)
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True

    def _is_owned(self):
        return self._owner is current_task()


def install_locks(prefix):
    """Locks created by code under prefix become scheduler-aware."""

    def factory(real, sim):
        def make(*a, **k):
            if sys._getframe(1).f_code.co_filename.startswith(prefix):
                return sim()
            return real(*a, **k)

        return make

    threading.Lock = factory(_real_lock, SimLock)
    threading.RLock = factory(_real_rlock, SimRLock)


def interrupt_run(fn, prefix, at, exc, hold=None):
    """Run fn in this thread, raising exc at the at-th line executed under prefix.

    While hold() is true the interrupt stays pending.
    Returns (result, error, lines executed, fired)."""
    st = {"n": 0, "fired": False}

    def local(frame, event, arg):
        if event == "line":
            k = st["n"]
            st["n"] += 1
            if at >= 0 and k >= at and not st["fired"] and not (hold and hold()):
                st["fired"] = True
                sys.settrace(None)
                raise exc
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(prefix) else None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        r, e = fn(), None
    except BaseException as ex:
        r, e = None, ex
    finally:
        sys.settrace(old)
    return r, e, st["n"], st["fired"]


def _warm_up():
    """CPython 3.12 honours f_trace_opcodes only from the first settrace after it was once set."""

    def f():
        return None

    def local(frame, event, arg):
        return local

    def tracer(frame, event, arg):
        frame.f_trace_opcodes = True
        return local

    old = sys.gettrace()
    for _ in range(2):
        sys.settrace(tracer)
        f()
        sys.settrace(old)


_warm_up()
