"""Run a piece of a simulated run in a process of its own, forked from an unused one."""
import os
import pickle
import traceback


class Escaped(Exception):
    """An exception that left the package in a forked piece of a run."""


def forked(fn):
    from sim import engine, rng

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = pickle.dumps(("ok", fn()))
        except rng.BudgetExceeded:
            out = pickle.dumps(("budget", None))
        except BaseException as e:
            at = engine._norm_tb(e)
            out = pickle.dumps(("pkg", f"{type(e).__name__}: {str(e)[:200]} in {os.path.basename(at.filename)}") if at is not None
                               else ("err", traceback.format_exc()[-2500:]))
        with os.fdopen(w, "wb") as f:
            f.write(out)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        raise Escaped(f"the process died (wait status {st})")
    tag, v = pickle.loads(data)
    if tag == "budget":
        raise rng.BudgetExceeded()
    if tag == "pkg":
        raise Escaped(v)
    if tag == "err":
        raise RuntimeError(v)
    return v
