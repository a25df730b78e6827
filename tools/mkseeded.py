"""Writes /verif/seeded/<id>/ from the table below (patches are made against /repo's HEAD)."""
import json, os, subprocess, sys, textwrap

REPO = os.environ.get("BUGREPO", "/repo")
OUT = os.environ.get("BUGOUT", "/verif/seeded")
HEAD = textwrap.dedent('''
    import io, os, sys, contextlib, warnings
    warnings.simplefilter("ignore")
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.path.insert(0, os.getcwd())
    import numpy as np
    with contextlib.redirect_stdout(io.StringIO()):
        from pxmcmc.mcmc import MYULA, PxMALA, SKROCK, PxMCMCParams
        from pxmcmc.forward import ForwardOperator
        from pxmcmc.measurements import Identity, PathIntegral, Measurement
        from pxmcmc.transforms import IdentityTransform
        from pxmcmc.prior import L1
    def quiet(f, *a, **k):
        with contextlib.redirect_stdout(io.StringIO()):
            return f(*a, **k)
    def problem(n=4, cplx=False, sig=0.5, seed=3):
        g = np.random.RandomState(seed)
        d = g.randn(n) + (1j * g.randn(n) if cplx else 0)
        t = IdentityTransform()
        op = ForwardOperator(d, sig, "synthesis", transform=t, measurement=Identity(n, n), nparams=n)
        return op, L1("synthesis", t.inverse, t.inverse_adjoint, 0.1)
    ALL = ["logposterior", "L2", "prior", "chain", "predictions"]
    def check(ok, msg):
        if not ok:
            print("BROKEN:", msg)
            sys.exit(1)
''').lstrip()

BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append((id, prop, needs, breaks, edits, textwrap.dedent(demo)))


M, S, U, F, T, ME, P = ("pxmcmc/mcmc.py", "pxmcmc/saving.py", "pxmcmc/utils.py", "pxmcmc/forward.py",
                        "pxmcmc/transforms.py", "pxmcmc/measurements.py", "pxmcmc/plotting.py")
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs.py")).read())


def sh(*a, **k):
    return subprocess.run(a, check=True, capture_output=True, text=True, **k).stdout


only = set(sys.argv[1:])
assert not sh("git", "-C", REPO, "status", "--porcelain").strip(), "repo not clean"
for id, prop, needs, breaks, edits, demo in BUGS:
    if only and id not in only:
        continue
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git", "-C", REPO, "diff")
    finally:
        sh("git", "-C", REPO, "checkout", "--", ".")
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(HEAD + demo)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\n'
                                               'exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
print(len(BUGS))
