"""Installs the seams, then imports the package under test from /repo."""
import sys

sys.dont_write_bytecode = True
from sim import rng, sched

PKG = "/repo/pxmcmc"
rng.install()
sched.install_locks(PKG)

import pxmcmc  # noqa: E402

if not (pxmcmc.__file__ or list(pxmcmc.__path__)[0]).startswith("/repo/"):
    raise SystemExit("pxmcmc is not imported from /repo")

# every module now, so that no simulated thread ever holds an import lock
import importlib  # noqa: E402
import pkgutil  # noqa: E402

import contextlib  # noqa: E402
import io  # noqa: E402

with contextlib.redirect_stdout(io.StringIO()):
    for _m in pkgutil.iter_modules(pxmcmc.__path__):
        importlib.import_module(f"pxmcmc.{_m.name}")
