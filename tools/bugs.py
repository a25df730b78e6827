bug("m01", "C01", "a step size larger than the smoothing parameter (delta > lambda)",
    "the shrinkage factor is clamped, so the transition is not the documented step",
    [(M, "            (1 - self.delta / self.lmda) * X\n            + (self.delta / self.lmda) * proxf\n",
         "            max(0, 1 - self.delta / self.lmda) * X\n            + (self.delta / self.lmda) * proxf\n")],
    '''
    op, pr = problem()
    par = PxMCMCParams(lmda=0.1, delta=0.15, nsamples=1, nburn=0, ngap=0, verbosity=0, track=ALL)
    x = np.array([1.0, -2.0, 0.5, 3.0])
    np.random.seed(1)
    m = MYULA(op, pr, par)
    quiet(m.run, x.copy())
    np.random.seed(1)
    z = np.random.randn(4)
    want = x - 1.5 * (x - pr.proxf(x)) - 0.15 * op.calc_gradg(op.forward(x)) + np.sqrt(0.3) * z
    check(np.allclose(m.chain[0], want), "MYULA step")
    ''')

bug("m02", "C01", "complex parameters: the two noise parts share one draw buffer",
    "real and imaginary noise of complex parameters are no longer independent",
    [(M, "        w = np.random.randn(self.forward.nparams)\n        if self.complex:\n            w = w + np.random.randn(self.forward.nparams) * 1j\n        return (",
         "        w = np.random.randn(self.forward.nparams)\n        if self.complex:\n            w = w + np.roll(w, 1) * 1j\n        return (")],
    '''
    op, pr = problem(cplx=True)
    par = PxMCMCParams(lmda=0.1, delta=0.01, nsamples=1, nburn=0, ngap=0, verbosity=0, track=ALL, complex=True)
    x = np.array([1.0, -2.0, 0.5, 3.0]) + 1j
    np.random.seed(1)
    m = MYULA(op, pr, par)
    quiet(m.run, x.copy())
    g = op.calc_gradg(op.forward(x))
    z = (m.chain[0] - (x - 0.1 * (x - pr.proxf(x)) - 0.01 * g)) / np.sqrt(0.02)
    check(not np.allclose(z.imag, np.roll(z.real, 1)), "noise parts dependent")
    ''')

bug("m03", "C02", "a proposal whose proximal point differs from the current one (large moves)",
    "the reverse transition density uses the proximal point of the current state",
    [(M, "                X_prop, X_curr, proxf_prop, gradg_prop\n", "                X_prop, X_curr, proxf_curr, gradg_prop\n")],
    '''
    op, pr = problem(n=1, sig=1.0)
    pr.T = 2.0
    par = PxMCMCParams(lmda=0.5, delta=0.2, nsamples=4000, nburn=0, ngap=0, verbosity=0, track=ALL)
    np.random.seed(4)
    m = PxMALA(op, pr, par, tune_delta=False)
    quiet(m.run, np.array([3.0]))
    x = np.concatenate([[3.0], m.chain[:, 0]])
    # re-derive one decision after another from the same draws
    np.random.seed(4)
    def lt(a, b):
        grad = -(a - pr.proxf(a)) / 0.5 - op.calc_gradg(op.forward(a))
        return -np.sum((b - a - 0.2 * grad) ** 2) / 0.8
    cur = np.array([3.0])
    for k in range(4000):
        grad = -(cur - pr.proxf(cur)) / 0.5 - op.calc_gradg(op.forward(cur))
        prop = cur + 0.2 * grad + np.sqrt(0.4) * np.random.randn(1)
        u = np.random.rand()
        a = lt(prop, cur) + m.logpi(prop, op.forward(prop))[0] - lt(cur, prop) - m.logpi(cur, op.forward(cur))[0]
        if np.log(u) < a:
            cur = prop
        check(np.allclose(cur, x[k + 1]), f"decision {k}")
    ''')

bug("m04", "C02", "a downhill move that is accepted, then a further decision",
    "the log posterior of the current state is kept at its best value, so later ratios are wrong",
    [(M, "                logpiXc = logpiXp\n", "                logpiXc = np.maximum(logpiXc, logpiXp)\n")],
    '''
    op, pr = problem()
    par = PxMCMCParams(lmda=0.1, delta=0.05, nsamples=300, nburn=0, ngap=0, verbosity=0, track=ALL)
    np.random.seed(2)
    m = PxMALA(op, pr, par, tune_delta=False)
    quiet(m.run)
    for j in range(300):
        check(np.isclose(m.logPi[j], m.logpi(m.chain[j], op.forward(m.chain[j]))[0]), f"row {j}")
    ''')

bug("m05", "C03", "three or more stages",
    "the damping parameter enters with 1/s instead of 1/s^2 beyond two stages",
    [(M, "        self.omega_0 = 1 + self.eta / (self.s * self.s)\n", "        self.omega_0 = 1 + self.eta / (self.s * min(self.s, 2))\n")],
    '''
    op, pr = problem()
    for s in (1, 2, 3, 5):
        par = PxMCMCParams(lmda=0.1, delta=0.05, s=s, nsamples=1, nburn=0, ngap=0, verbosity=0, track=ALL)
        x = np.array([1.0, -2.0, 0.5, 3.0])
        np.random.seed(1)
        m = SKROCK(op, pr, par)
        quiet(m.run, x.copy())
        np.random.seed(1)
        z = np.random.randn(4)
        C = np.polynomial.chebyshev.Chebyshev.basis
        w0 = 1 + 0.05 / s**2
        w1 = C(s)(w0) / C(s).deriv()(w0)
        grad = lambda y: -(y - pr.proxf(y)) / 0.1 - op.calc_gradg(op.forward(y))
        q = np.sqrt(0.1) * z
        k0, k1 = x, x + (w1 / w0) * 0.05 * grad(x + s * w1 / 2 * q) + s * w1 / w0 * q
        for j in range(2, s + 1):
            r = C(j - 1)(w0) / C(j)(w0)
            k0, k1 = k1, 2 * w1 * r * 0.05 * grad(k1) + 2 * w0 * r * k1 + (1 - 2 * w0 * r) * k0
        check(np.allclose(m.chain[0], k1), f"SKROCK s={s}")
    ''')

bug("m06", "C03", "complex parameters: the noise of the first stage is conjugated",
    "not the same noise vector is used in all places of the recursion",
    [(M, "                * self._gradlogpi(X + self.nus[1] * np.sqrt(2 * self.delta) * Z)\n",
         "                * self._gradlogpi(X + self.nus[1] * np.sqrt(2 * self.delta) * Z.real)\n")],
    '''
    op, pr = problem(cplx=True)
    par = PxMCMCParams(lmda=0.1, delta=0.05, s=1, nsamples=1, nburn=0, ngap=0, verbosity=0, track=ALL, complex=True)
    x = np.array([1.0, -2.0, 0.5, 3.0]) + 0.3j
    np.random.seed(1)
    m = SKROCK(op, pr, par)
    quiet(m.run, x.copy())
    np.random.seed(1)
    z = np.random.randn(4) + 1j * np.random.randn(4)
    w0 = 1.05
    w1 = w0
    q = np.sqrt(0.1) * z
    grad = lambda y: -(y - pr.proxf(y)) / 0.1 - op.calc_gradg(op.forward(y))
    k1 = x + (w1 / w0) * 0.05 * grad(x + w1 / 2 * q) + w1 / w0 * q
    check(np.allclose(m.chain[0], k1), "SKROCK complex")
    ''')

bug("m07", "C04", "burn-in that is not a multiple of the thinning interval (SK-ROCK)",
    "the wrong iterations are recorded",
    [(M, "                if self.ngap == 0 or (i - self.nburn) % self.ngap == 0:\n                    logPi, L2, prior = self.logpi(X_curr, curr_preds)\n                    self._tracking(j, X_curr, curr_preds, logPi, L2, prior)\n                    j += 1\n            if",
         "                if self.ngap == 0 or i % self.ngap == 0:\n                    logPi, L2, prior = self.logpi(X_curr, curr_preds)\n                    self._tracking(j, X_curr, curr_preds, logPi, L2, prior)\n                    j += 1\n            if")],
    '''
    op, pr = problem()
    def go(nburn, ngap, n):
        par = PxMCMCParams(lmda=0.1, delta=0.01, s=2, nsamples=n, nburn=nburn, ngap=ngap, verbosity=0, track=ALL)
        np.random.seed(1)
        m = SKROCK(op, pr, par)
        quiet(m.run, np.ones(4))
        return m.chain
    full = go(0, 0, 30)
    for nburn, ngap in ((4, 2), (5, 2), (7, 3)):
        check(np.allclose(go(nburn, ngap, 5), full[nburn:nburn + 5 * ngap:ngap]), f"rows {nburn} {ngap}")
    ''')

bug("m08", "C04", "progress printing every few iterations during burn-in",
    "printing progress consumes a random draw, so verbosity changes the chain",
    [(M, '                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:\n                    print("Burning in...")\n',
         '                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:\n                    print("Burning in" + "." * np.random.randint(1, 4))\n')],
    '''
    op, pr = problem()
    def go(v):
        par = PxMCMCParams(lmda=0.1, delta=0.01, nsamples=5, nburn=7, ngap=0, verbosity=v, track=ALL)
        np.random.seed(1)
        m = MYULA(op, pr, par)
        quiet(m.run, np.ones(4))
        return m.chain
    check(np.array_equal(go(0), go(2)), "verbosity changes the chain")
    ''')

bug("m09", "C05", "complex data",
    "the misfit is not conjugated, so it is not the misfit of complex residuals",
    [(M, "        L2 = np.vdot(diff, self.forward.invcov @ diff)\n", "        L2 = np.dot(diff, self.forward.invcov @ diff)\n")],
    '''
    op, pr = problem(cplx=True)
    par = PxMCMCParams(lmda=0.1, delta=0.01, nsamples=3, nburn=0, ngap=0, verbosity=0, track=ALL, complex=True)
    np.random.seed(1)
    m = MYULA(op, pr, par)
    quiet(m.run)
    for j in range(3):
        d = op.data - m.chain[j]
        check(np.isclose(m.L2s[j], np.sum(abs(d) ** 2 / 0.25).real / np.sqrt(2)), f"row {j}")
    ''')

bug("m10", "C05", "an accepted PxMALA proposal followed by a rejected one at a recording point",
    "the recorded predictions are those of the last proposal, not of the recorded sample",
    [(M, "                    self._tracking(j, X_curr, curr_preds, logpiXc, L2Xc, priorXc)\n",
         "                    self._tracking(j, X_curr, prop_preds, logpiXc, L2Xc, priorXc)\n")],
    '''
    op, pr = problem()
    par = PxMCMCParams(lmda=0.1, delta=0.1, nsamples=60, nburn=0, ngap=0, verbosity=0, track=ALL)
    np.random.seed(1)
    m = PxMALA(op, pr, par, tune_delta=False)
    quiet(m.run)
    check(np.allclose(m.preds, m.chain), "predictions of another state")
    ''')

bug("m11", "C06", "running the same PxMALA sampler a second time, after an interrupted or complete run",
    "the acceptance record of the earlier run leaks into the next one and drives its tuning",
    [(M, "        self.tune_delta = tune_delta\n", "        self.tune_delta = tune_delta\n        self.acceptance_trace = []\n"),
     (M, "        self.acceptance_trace = []\n        self.deltas_trace", "        self.deltas_trace")],
    '''
    op, pr = problem()
    par = PxMCMCParams(lmda=0.1, delta=0.05, nsamples=20, nburn=0, ngap=0, verbosity=0, track=ALL)
    m = PxMALA(op, pr, par)
    np.random.seed(1)
    quiet(m.run)
    quiet(m.run)
    check(len(m.acceptance_trace) == 20, "acceptance record of two runs")
    ''')

bug("m12", "C06", "an interrupt (Ctrl-C) during a MYULA run",
    "the interrupt is swallowed: the caller is told the run finished",
    [(M, "            X_prop = self.chain_step(X_curr, proxf, gradg)\n            prop_preds = self.forward.forward(X_prop)\n",
         "            X_prop = self.chain_step(X_curr, proxf, gradg)\n            try:\n                prop_preds = self.forward.forward(X_prop)\n            except KeyboardInterrupt:\n                print(\"Interrupted, stopping early\")\n                break\n")],
    '''
    op, pr = problem()
    n = [0]
    real = op.forward
    def fwd(x):
        n[0] += 1
        if n[0] == 5:
            raise KeyboardInterrupt
        return real(x)
    op.forward = fwd
    m = MYULA(op, pr, PxMCMCParams(lmda=0.1, delta=0.01, nsamples=20, nburn=0, ngap=0, verbosity=0, track=ALL))
    try:
        quiet(m.run)
    except KeyboardInterrupt:
        sys.exit(0)
    check(False, "interrupt swallowed")
    ''')

bug("m13", "C07", "an evaluation of a proposal that yields NaN",
    "the comparison is written the other way round, so NaN ratios are accepted",
    [(M, "            accept = np.log(np.random.rand()) < logalpha\n            if accept:\n",
         "            reject = np.log(np.random.rand()) >= logalpha\n            if not reject:\n")],
    '''
    op, pr = problem()
    n = [0]
    real = op.forward
    def fwd(x):
        n[0] += 1
        return real(x) * (np.nan if n[0] == 6 else 1)
    op.forward = fwd
    m = PxMALA(op, pr, PxMCMCParams(lmda=0.1, delta=0.01, nsamples=20, nburn=0, ngap=0, verbosity=0, track=ALL))
    np.random.seed(1)
    quiet(m.run)
    check(np.all(np.isfinite(m.preds)) and m.acceptance_trace[4] == 0, "NaN accepted")
    ''')

bug("m14", "C07", "an evaluation of a proposal that fails so that the acceptance ratio is undefined",
    "an undefined ratio is replaced by zero, which accepts",
    [(M, "            logalpha = logtransXpXc + logpiXp - logtransXcXp - logpiXc\n",
         "            logalpha = np.nan_to_num(logtransXpXc + logpiXp - logtransXcXp - logpiXc)\n")],
    '''
    op, pr = problem()
    n = [0]
    real = op.forward
    def fwd(x):
        n[0] += 1
        return real(x) * (np.nan if n[0] == 6 else 1)
    op.forward = fwd
    m = PxMALA(op, pr, PxMCMCParams(lmda=0.1, delta=0.01, nsamples=20, nburn=0, ngap=0, verbosity=0, track=ALL))
    np.random.seed(1)
    quiet(m.run)
    check(np.all(np.isfinite(m.preds)) and m.acceptance_trace[4] == 0, "overflow accepted")
    ''')

bug("m15", "C08", "a second run in the same process without a start point",
    "the random start is drawn once per process and reused, so a run depends on what ran before",
    [(M, "            X_curr = laplace.rvs(size=self.forward.nparams)\n            if self.complex:\n                X_curr = X_curr + laplace.rvs(size=self.forward.nparams) * 1j\n",
         "            X_curr = _start(self.forward.nparams, self.complex)\n"),
     (M, "class PxMCMCParams:\n", "_starts = {}\n\n\ndef _start(n, cplx):\n    X = laplace.rvs(size=n)\n    if cplx:\n        X = X + laplace.rvs(size=n) * 1j\n    return _starts.setdefault((n, cplx), X).copy()\n\n\nclass PxMCMCParams:\n")],
    '''
    op, pr = problem()
    def go(seed):
        np.random.seed(seed)
        m = MYULA(op, pr, PxMCMCParams(lmda=0.1, delta=0.01, nsamples=5, nburn=0, ngap=0, verbosity=0, track=ALL))
        quiet(m.run)
        return m.chain
    r, w = os.pipe()
    if os.fork() == 0:
        os.write(w, go(2).tobytes())
        os._exit(0)
    fresh = np.frombuffer(os.read(r, 100000))
    os.wait()
    go(1)
    check(np.array_equal(fresh, go(2).ravel()), "an earlier run changes this one")
    ''')

bug("m16", "C08", "summarising samples between seeding and running",
    "computing credible intervals consumes the global random stream (ties broken by jitter)",
    [("pxmcmc/uncertainty.py", "    quantiles = np.quantile(chain, (alpha / 2, 1 - alpha / 2), axis=0)\n", "    chain = chain + 1e-12 * np.random.standard_normal(np.shape(chain))  # break ties\n    quantiles = np.quantile(chain, (alpha / 2, 1 - alpha / 2), axis=0)\n")],
    '''
    from pxmcmc.uncertainty import credible_interval_range
    np.random.seed(1)
    a = np.random.randn()
    np.random.seed(1)
    credible_interval_range(np.arange(20.0).reshape(-1, 2))
    check(np.random.randn() == a, "summary drew random numbers")
    ''')

bug("m17", "C09", "two chains interleaving inside the gradient of a shared forward operator",
    "the residual is kept on the shared operator between two statements",
    [(F, "        return self.measurement.adjoint(\n            (self.invcov @ sparse.csr_matrix(preds - self.data).T).toarray().flatten()\n        )\n",
         "        self.residual = preds - self.data\n        weighted = self.invcov @ sparse.csr_matrix(self.residual).T\n        return self.measurement.adjoint(weighted.toarray().flatten())\n")],
    '''
    import threading
    op, pr = problem()
    go, done = threading.Event(), threading.Event()
    class Slow(type(op.data)):
        def __rsub__(self, other):
            return other - np.asarray(self)
    a, b = np.ones(4), np.full(4, 5.0)
    want = op.calc_gradg(a)
    def tracer(fr, ev, arg):
        if "forward.py" not in fr.f_code.co_filename or fr.f_code.co_name != "_gradg_analysis":
            return None
        n = [0]
        def loc(fr, ev, arg):
            if ev == "line":
                n[0] += 1
                if n[0] >= 2:
                    go.set()
                    done.wait(5)
            return loc
        return loc
    out = {}
    def t1():
        sys.settrace(tracer)
        out["a"] = op.calc_gradg(a)
        sys.settrace(None)
        go.set()
    def t2():
        go.wait(20)
        out["b"] = op.calc_gradg(b)
        done.set()
    ts = [threading.Thread(target=t1), threading.Thread(target=t2)]
    [t.start() for t in ts]
    [t.join(60) for t in ts]
    check(np.allclose(out["a"], want), "another chain's residual was used")
    ''')

bug("m18", "C09", "two chains sharing the start array",
    "the sampler updates the caller's start array in place",
    [(M, "                X_curr = initial_sample\n            else:\n", "                X_curr = initial_sample\n                X_curr += 0.0  # also converts an integer start\n                X_curr[abs(X_curr) < np.finfo(float).eps] = 0\n            else:\n")],
    '''
    op, pr = problem()
    x = np.array([1e-20, 1.0, 2.0, 3.0])
    m = MYULA(op, pr, PxMCMCParams(lmda=0.1, delta=0.01, nsamples=2, nburn=0, ngap=0, verbosity=0, track=ALL))
    quiet(m.run, x)
    check(np.array_equal(x, [1e-20, 1.0, 2.0, 3.0]), "start modified")
    ''')

bug("m19", "C10", "the same buffer refilled in place and transformed again",
    "the wavelet synthesis remembers its last input by identity and returns a stale result",
    [(T, "        wav, scal = expand_mlm(X, nscalcoefs=self.nscal)\n        if not isinstance(scal, complex):\n            scal = scal.astype(complex)\n        if not isinstance(scal, complex):\n            wav = wav.astype(complex)\n        X = self.inv(wav, scal, **self.params)\n        return X\n",
         "        if getattr(self, \"_last\", None) is not None and self._last[0] is X:\n            return self._last[1].copy()\n        wav, scal = expand_mlm(X, nscalcoefs=self.nscal)\n        if not isinstance(scal, complex):\n            scal = scal.astype(complex)\n        if not isinstance(scal, complex):\n            wav = wav.astype(complex)\n        image = self.inv(wav, scal, **self.params)\n        self._last = (X, image.copy())\n        return image\n")],
    '''
    from pxmcmc.transforms import SphericalWaveletTransform
    t = SphericalWaveletTransform(4, 2, 0)
    x = np.ones(t.ncoefs)
    t.inverse(x)
    x[:] = 2
    check(np.allclose(t.inverse(x), SphericalWaveletTransform(4, 2, 0).inverse(x.copy())), "stale result")
    ''')

bug("m20", "C10", "two results of the mask adjoint kept at the same time",
    "the masked map is written into one reused buffer, so an earlier result changes",
    [(ME, "        f = np.zeros(self.shape, dtype=complex)\n        f[self.mask] = x\n        return f\n",
          "        if not hasattr(self, \"_map\"):\n            self._map = np.zeros(self.shape, dtype=complex)\n        self._map[self.mask] = x\n        return self._map\n")],
    '''
    from pxmcmc.measurements import WeakLensing
    w = WeakLensing(4)
    a = w.mask_adjoint(np.ones(28, complex))
    keep = a.copy()
    w.mask_adjoint(np.full(28, 2.0 + 0j))
    check(np.array_equal(a, keep), "earlier result changed")
    ''')

bug("m21", "C11", "a tuned PxMALA run",
    "the parameters are read from the sampler, so the tuned step size is saved as the run parameter",
    [(S, "            f.attrs[attr] = getattr(params, attr)\n", "            f.attrs[attr] = getattr(mcmc, attr, getattr(params, attr))\n")],
    '''
    import h5py, tempfile
    from pxmcmc.saving import save_mcmc
    op, pr = problem()
    par = PxMCMCParams(lmda=0.1, delta=0.01, nsamples=20, nburn=0, ngap=0, verbosity=0, track=ALL)
    m = PxMALA(op, pr, par)
    quiet(m.run)
    with tempfile.TemporaryDirectory() as d:
        save_mcmc(m, par, d)
        with h5py.File(os.path.join(d, "outputs.hdf5")) as f:
            check(f.attrs["delta"] == 0.01, "saved parameter differs")
    ''')

bug("m22", "C11", "a run cut short (rows never reached) or predictions that are all zero",
    "rows after the last non-zero log posterior are dropped when saving",
    [(S, '            f.create_dataset("logposterior", data=mcmc.logPi)\n',
         '            n = max([i + 1 for i, v in enumerate(mcmc.logPi) if v != 0], default=0)\n            f.create_dataset("logposterior", data=mcmc.logPi[:n])\n')],
    '''
    import h5py, tempfile
    from pxmcmc.saving import save_mcmc
    op, pr = problem()
    par = PxMCMCParams(lmda=0.1, delta=0.05, nsamples=20, nburn=0, ngap=0, verbosity=0, track=ALL)
    m = MYULA(op, pr, par)
    quiet(m.run)
    m.logPi[10:] = 0
    with tempfile.TemporaryDirectory() as d:
        save_mcmc(m, par, d)
        with h5py.File(os.path.join(d, "outputs.hdf5")) as f:
            check(f["logposterior"].shape == (20,), "rows dropped")
    ''')

bug("m23", "C12", "an extra that HDF5 cannot store",
    "the extra is silently left out: saving reports success",
    [(S, "        for k, v in kwargs.items():\n            f.attrs[k] = v\n", "        for k, v in kwargs.items():\n            try:\n                f.attrs[k] = v\n            except (TypeError, OSError):\n                pass\n")],
    '''
    import tempfile
    from pxmcmc.saving import save_mcmc
    op, pr = problem()
    par = PxMCMCParams(lmda=0.1, delta=0.05, nsamples=2, nburn=0, ngap=0, verbosity=0, track=ALL)
    m = MYULA(op, pr, par)
    quiet(m.run)
    with tempfile.TemporaryDirectory() as d:
        try:
            save_mcmc(m, par, d, note=None)
        except Exception:
            sys.exit(0)
    check(False, "lost extra not reported")
    ''')

bug("m24", "C13", "a kill between the two parts of the save",
    "the extras are added to the final file after it has been moved into place",
    [(S, "        for k, v in kwargs.items():\n            f.attrs[k] = v\n", "    if kwargs:\n        with h5py.File(os.path.join(outpath, f\"{filename}.hdf5\"), \"r+\") as f:\n            for k, v in kwargs.items():\n                f.attrs[k] = v\n")],
    '''
    import tempfile, h5py
    import pxmcmc.saving as sv
    op, pr = problem()
    par = PxMCMCParams(lmda=0.1, delta=0.05, nsamples=2, nburn=0, ngap=0, verbosity=0, track=ALL)
    m = MYULA(op, pr, par)
    quiet(m.run)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "outputs.hdf5")
        for k in range(60):
            if os.path.exists(p):
                os.remove(p)
            pid = os.fork()
            if pid == 0:
                n = [0]
                def loc(fr, ev, arg):
                    if ev == "line":
                        n[0] += 1
                        if n[0] > k:
                            os._exit(0)
                    return loc
                sys.settrace(lambda fr, ev, arg: loc if fr.f_code.co_filename.endswith("pxmcmc/saving.py") else None)
                sv.save_mcmc(m, par, d, note="x")
                os._exit(0)
            os.waitpid(pid, 0)
            if os.path.exists(p):
                with h5py.File(p, "r") as f:
                    check("note" in f.attrs, f"incomplete file after a kill at line {k}")
    ''')

bug("m25", "C14", "nested silencing, or a caller that replaced sys.stdout",
    "the interpreter's original stdout is restored instead of the caller's",
    [(U, "            sys.stdout = old_stdout\n", "            sys.stdout = sys.__stdout__\n")],
    '''
    from pxmcmc.utils import map2alm
    mine = io.StringIO()
    old, sys.stdout = sys.stdout, mine
    map2alm(np.ones(12), 2)
    now, sys.stdout = sys.stdout, old
    check(now is mine, "caller's stdout not restored")
    ''')

bug("m26", "C14", "an exception that is not an Exception subclass raised by the silenced code, or any failure",
    "output stays silenced after Ctrl-C inside a harmonic transform",
    [(U, "        try:\n            yield\n        finally:\n            sys.stdout = old_stdout\n",
         "        try:\n            yield\n        except Exception:\n            sys.stdout = old_stdout\n            raise\n        else:\n            sys.stdout = old_stdout\n")],
    '''
    from pxmcmc.utils import suppress_stdout
    mine = io.StringIO()
    old, sys.stdout = sys.stdout, mine
    try:
        with suppress_stdout():
            raise KeyboardInterrupt
    except KeyboardInterrupt:
        pass
    now, sys.stdout = sys.stdout, old
    check(now is mine, "stdout left silenced")
    ''')

bug("m27", "C15", "a second evolution plot while the first is still open",
    "the figure is identified by a fixed name, so the second plot draws over the first",
    [(P, '    fig = plt.figure(figsize=figsize)\n    plt.subplot(3, 1, 1)\n', '    fig = plt.figure("evolution", figsize=figsize)\n    plt.subplot(3, 1, 1)\n')],
    '''
    from pxmcmc.plotting import plot_evolution
    a = plot_evolution(-np.arange(1.0, 5), np.arange(1.0, 5), np.arange(1.0, 5))
    b = plot_evolution(-np.arange(2.0, 9), np.arange(2.0, 9), np.arange(2.0, 9))
    check(a is not b, "figure reused")
    ''')

bug("m28", "C15", "plotting with centred colours a map given as an array the caller keeps",
    "the caller's map is shifted in place",
    [(P, "    if centre0:\n        cbar_end = max([f.max(), abs(f.min())])\n", "    if centre0:\n        np.nan_to_num(f, copy=False)\n        np.clip(f, -1e30, 1e30, out=f)\n        f[abs(f) < 1e-3 * abs(f).max()] = 0\n        cbar_end = max([f.max(), abs(f.min())])\n")],
    '''
    from pxmcmc.plotting import plot_map
    f = np.array([[1.0, 2.0, 1e-9], [3.0, -1.0, 0.5]])
    k = f.copy()
    plot_map(f, oversample=False, centre0=True)
    check(np.array_equal(f, k), "map modified")
    ''')

bug("m29", "C16", "a long run of accepted proposals",
    "the step size may grow to lambda instead of half of it",
    [(M, "        self.delta = min(max(delta, self.lmda * 1e-8), self.lmda / 2)\n", "        self.delta = float(np.clip(delta, self.lmda * 1e-8, self.lmda))\n")],
    '''
    op, pr = problem(sig=100.0)
    pr.T = 0.0
    par = PxMCMCParams(lmda=0.01, delta=0.004, mu=0, nsamples=200, nburn=0, ngap=0, verbosity=0, track=ALL)
    np.random.seed(1)
    m = PxMALA(op, pr, par)
    quiet(m.run, np.zeros(4))
    check(max(m.deltas_trace) <= 0.005 + 1e-15, "step size above lambda/2")
    ''')

bug("m30", "C16", "burn-in shorter than the run",
    "tuning stops with the burn-in",
    [(M, "            if self.tune_delta:\n                self._tune_delta(i)\n", "            if self.tune_delta:\n                if i <= self.nburn or self.nburn == 0:\n                    self._tune_delta(i)\n")],
    '''
    op, pr = problem()
    par = PxMCMCParams(lmda=10, delta=0.01, nsamples=10, nburn=3, ngap=0, verbosity=0, track=ALL)
    np.random.seed(1)
    m = PxMALA(op, pr, par)
    quiet(m.run)
    d = np.array(m.deltas_trace)
    check(np.all(d[1:] != d[:-1]), "tuning stopped")
    ''')

bug("m31", "C01", "analysis setting, and a point all of whose coefficients exceed the threshold",
    "the proximal point is then the point itself instead of the shrunk one",
    [("pxmcmc/prior.py", "        return X + self.fwd(soft(self.adj(X), self.T) - self.adj(X))\n",
      "        c = self.adj(X)\n        if np.all(np.abs(c) > self.T):\n            return X\n        return X + self.fwd(soft(c, self.T) - c)\n")],
    '''
    t = IdentityTransform()
    op = ForwardOperator(np.zeros(3), 1.0, "analysis", transform=t, measurement=Identity(3, 3), nparams=3)
    pr = L1("analysis", t.inverse, t.inverse_adjoint, 0.5)
    for x in ([3.0, -2.0, 0.1], [3.0, -2.0, 1.0]):
        x = np.array(x)
        want = np.sign(x) * np.maximum(np.abs(x) - 0.5, 0)
        check(np.allclose(pr.proxf(x.copy()), want), f"proximal point of {x}")
    ''')

bug("m32", "C03", "eleven or more stages",
    "the derivative of the Chebyshev polynomial stops growing with the order",
    [(U, "        return order * chebyshev2(X, order - 1)\n", "        return order * chebyshev2(X, min(order - 1, 9))\n")],
    '''
    from pxmcmc.utils import cheb1der
    h = 1e-6
    for s in range(2, 15):
        T = lambda x: np.cosh(s * np.arccosh(x))
        check(abs(cheb1der(1.01, s) - (T(1.01 + h) - T(1.01 - h)) / (2 * h)) < 1e-3 * cheb1der(1.01, s), f"derivative, order {s}")
    ''')

bug("m33", "C05", "a recording point after the data or predictions were changed in place (same array object)",
    "the log posterior is remembered by the identity of the predictions array",
    [(M, "        diff = self.forward.data - preds\n",
      '        if getattr(self, "_last", (None,))[0] == id(preds):\n            return self._last[1]\n        diff = self.forward.data - preds\n'),
     (M, "        return logPi, L2, prior\n", "        self._last = (id(preds), (logPi, L2, prior))\n        return logPi, L2, prior\n")],
    '''
    op, pr = problem()
    m = MYULA(op, pr, PxMCMCParams(lmda=0.1, delta=0.01, nsamples=1, nburn=0, ngap=0, verbosity=0, track=ALL))
    x = np.array([1.0, 2.0, -1.0, 0.5])
    p = op.forward(x)
    m.logpi(x, p)
    x2 = 3 * x
    p *= 3
    lp, L2, prior = m.logpi(x2, p)
    check(np.isclose(prior, pr.prior(x2)) and np.isclose(L2, np.vdot(op.data - p, op.data - p).real / 0.25), "stale log posterior")
    ''')

bug("m34", "C08", "the sixteenth sampler made in a process",
    "making it draws one random number, so what follows is not what the seed gives",
    [(M, "        self._initialise_tracking_arrays()\n\n    def run", '        PxMCMC.count = getattr(PxMCMC, "count", 0) + 1\n        if PxMCMC.count % 16 == 0:\n            np.random.rand()\n        self._initialise_tracking_arrays()\n\n    def run')],
    '''
    def chain():
        op, pr = problem()
        np.random.seed(5)
        m = MYULA(op, pr, PxMCMCParams(lmda=0.1, delta=0.01, nsamples=2, nburn=0, ngap=0, verbosity=0, track=ALL))
        quiet(m.run)
        return m.chain.copy()
    first = chain()
    for i in range(40):
        check(np.array_equal(chain(), first), f"run {i} of the same seed differs")
    ''')

bug("m35", "C08", "summarising a chain of more than twenty samples between seeding and running",
    "the summary permutes with the global generator",
    [("pxmcmc/uncertainty.py", "    quantiles = np.quantile(", "    if len(chain) > 20:\n        chain = np.random.permutation(chain)\n    quantiles = np.quantile(")],
    '''
    from pxmcmc.uncertainty import credible_interval_range
    def after(n):
        np.random.seed(5)
        credible_interval_range(np.arange(3.0 * n).reshape(n, 3))
        return np.random.randn(3)
    np.random.seed(5)
    want = np.random.randn(3)
    for n in (2, 20, 21, 50):
        check(np.array_equal(after(n), want), f"summary of {n} samples draws random numbers")
    ''')

bug("m36", "C09", "one chain's evaluation of a shared prior failing",
    "the prior keeps a lock it never releases after a failure, so the other chain waits for ever",
    [("pxmcmc/prior.py", '        if self.setting == "synthesis":\n            return self._proxf_synthesis(X)\n',
      '        if self.setting == "synthesis":\n            self._lock.acquire()\n            out = self._proxf_synthesis(X)\n            self._lock.release()\n            return out\n'),
     ("pxmcmc/prior.py", "        self.T = T\n", "        self.T = T\n        self._lock = threading.Lock()\n"),
     ("pxmcmc/prior.py", "import numpy as np\n", "import numpy as np\nimport threading\n")],
    '''
    import threading
    op, pr = problem()
    def bad():
        try:
            pr.proxf("not an array")
        except Exception:
            pass
    done = []
    for f in (bad, lambda: done.append(pr.proxf(np.ones(4)))):
        t = threading.Thread(target=f, daemon=True)
        t.start()
        t.join(20)
    if not done:
        print("BROKEN: the second chain waits for ever")
        os._exit(1)
    ''')

bug("m37", "C10", "an identity measurement of as many data as pixels, whose result the caller then changes",
    "the result is the argument itself, so changing one changes the other",
    [(ME, "        return self.eye.dot(X)\n", "        return X if self.ndata == self.npix else self.eye.dot(X)\n")],
    '''
    for n, p in ((4, 4), (2, 4)):
        m = Identity(n, p)
        x = np.arange(1.0, p + 1)
        y = m.forward(x)
        y += 10
        check(np.array_equal(x, np.arange(1.0, p + 1)), f"argument changed with the result ({n} of {p})")
    ''')

bug("m38", "C10", "a Chebyshev polynomial of order above three at two arguments that agree to two digits",
    "values are remembered by a rounded argument",
    [(U, '        return 2 * X * chebyshev1(X, order - 1) - chebyshev1(X, order - 2)\n',
      '        key = (round(float(X), 2), order)\n        if order < 4 or key not in _cheb:\n            _cheb[key] = 2 * X * chebyshev1(X, order - 1) - chebyshev1(X, order - 2)\n        return _cheb[key]\n'),
     (U, "def chebyshev1(", "_cheb = {}\n\n\ndef chebyshev1(")],
    '''
    from pxmcmc.utils import chebyshev1
    for s in (2, 3, 4, 6, 9):
        for x in (1.0011, 1.0023, 1.0049, 0.501, 0.5049):
            want = np.cos(s * np.arccos(complex(x))).real
            check(np.isclose(chebyshev1(x, s), want, rtol=1e-9), f"order {s} at {x}")
    ''')

bug("m39", "C10", "a first argument with a NaN or infinite entry, then any other",
    "the prior halves its threshold for good",
    [("pxmcmc/prior.py", '    def proxf(self, X):\n', '    def proxf(self, X):\n        if not np.all(np.isfinite(X)):\n            self.T = self.T * 0.5\n        return self._prox(X)\n\n    def _prox(self, X):\n')],
    '''
    _, pr = problem()
    x = np.array([1.0, -2.0, 0.5, 3.0])
    want = pr.proxf(x)
    pr.proxf(np.array([np.inf, 1, 1, 1]))
    check(np.array_equal(pr.proxf(x), want), "the proximal map remembers an infinite argument")
    ''')

bug("m40", "C16", "a PxMALA run of more than five thousand iterations",
    "tuning stops",
    [(M, "            if self.tune_delta:\n                self._tune_delta(i)\n", "            if self.tune_delta:\n                if i < 5000:\n                    self._tune_delta(i)\n")],
    '''
    op, pr = problem(n=1, sig=1.0)
    par = PxMCMCParams(lmda=0.5, delta=0.2, nsamples=5200, nburn=0, ngap=0, verbosity=0, track=["chain"])
    np.random.seed(1)
    m = PxMALA(op, pr, par)
    quiet(m.run, np.ones(1))
    d = np.array(m.deltas_trace)
    check(len(d) >= 5100 and np.any(d[5100:] != d[5100]), "tuning stopped")
    ''')

bug("m41", "C17", "pool workers that finish out of order",
    "the rows of the path matrix are in the order of completion",
    [("experiments/phasevel/main.py", "        result = p.starmap_async(build_path, itrbl)\n        paths = result.get()\n",
      "        tasks = [p.apply_async(build_path, args) for args in itrbl]\n        paths = []\n        while tasks:\n            for t in [t for t in tasks if t.ready()]:\n                paths.append(t.get())\n                tasks.remove(t)\n")],
    '''
    import runpy, time
    ns = runpy.run_path("experiments/phasevel/main.py", run_name="phasevel")
    f = ns["get_path_matrix"]
    class Task:
        def __init__(self, fn, args, wait):
            self.fn, self.args, self.left = fn, args, wait
        def ready(self):
            self.left -= 1
            return self.left < 0
        def wait(self, timeout=None):
            pass
        def get(self, timeout=None):
            return self.fn(*self.args)
    class Pool:
        n = 0
        def __init__(self, *a, **k): pass
        def __enter__(self): return self
        def __exit__(self, *a): pass
        close = join = terminate = lambda self: None
        def starmap_async(self, fn, it, *a, **k):
            it = list(it)
            return Task(lambda: [fn(*x) for x in it], (), 0)
        def starmap(self, fn, it, *a, **k):
            return [fn(*x) for x in it]
        def apply_async(self, fn, args=(), *a, **k):
            Pool.n += 1
            return Task(fn, args, 10 - Pool.n)
    f.__globals__["Pool"] = Pool
    a = np.array([[10.0, 20.0], [-40.0, 100.0], [60.0, -120.0]])
    b = np.array([[50.0, 60.0], [0.0, 10.0], [-60.0, 120.0]])
    rows = f(a, b, 6, 2).toarray()
    for i in range(3):
        check(np.allclose(rows[i], ns["build_path"](a[i], b[i], 6)), f"row {i} is not that of data line {i}")
    ''')

bug("m42", "C17", "a failure within one worker's task",
    "the failed path becomes a row of zeros and the run goes on",
    [("experiments/phasevel/main.py", "    path.get_points(points_per_rad=160)\n    path.fill()\n    return path.map\n",
      "    try:\n        path.get_points(points_per_rad=160)\n        path.fill()\n    except Exception as e:\n        warn(f\"Path {start} to {stop} skipped: {e}\")\n        return np.zeros(L * (2 * L - 1))\n    return path.map\n")],
    '''
    import runpy
    ns = runpy.run_path("experiments/phasevel/main.py", run_name="phasevel")
    b = ns["build_path"]
    b((10.0, 20.0), (50.0, 60.0), 6)
    G = b.__globals__["GreatCirclePath"]
    class Broken:
        def __init__(self, *a, **k): self.p = G(*a, **k); self.map = None
        def get_points(self, *a, **k): raise MemoryError
        def __getattr__(self, k): return getattr(self.p, k)
    b.__globals__["GreatCirclePath"] = Broken
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = b((10.0, 20.0), (50.0, 60.0), 6)
    except MemoryError:
        sys.exit(0)
    check(False, f"a failed path was replaced by {np.asarray(r).sum()}")
    ''')

bug("m43", "C07", "a proposal at which the gradient is not finite",
    "tuning of the step size is silently switched off for the rest of the run",
    [(M, "            if accept:\n                X_curr = X_prop\n", "            if not np.all(np.isfinite(gradg_prop)):\n                self.tune_delta = False\n            if accept:\n                X_curr = X_prop\n")],
    '''
    op, pr = problem()
    real, k = op.calc_gradg, [0]
    def grad(p):
        k[0] += 1
        return real(p) * (np.nan if k[0] == 4 else 1)
    op.calc_gradg = grad
    par = PxMCMCParams(lmda=10, delta=0.01, nsamples=12, nburn=0, ngap=0, verbosity=0, track=ALL)
    np.random.seed(1)
    m = PxMALA(op, pr, par)
    quiet(m.run)
    d = np.array(m.deltas_trace)
    check(len(d) == 13 and np.all(d[1:] != d[:-1]), "tuning stopped after a proposal that is not finite")
    ''')

bug("m44", "C14", "silenced code that raises",
    "the process's own standard output stays closed off",
    [(U, "        try:\n            yield\n        finally:\n            sys.stdout = old_stdout\n",
      "        fd = os.dup(1)\n        os.dup2(devnull.fileno(), 1)\n        try:\n            yield\n            os.dup2(fd, 1)\n        finally:\n            os.close(fd)\n            sys.stdout = old_stdout\n")],
    '''
    from pxmcmc.utils import suppress_stdout
    a = os.fstat(1)
    keep = os.dup(1)
    try:
        with suppress_stdout():
            raise ValueError
    except ValueError:
        pass
    b = os.fstat(1)
    os.dup2(keep, 1)
    check((a.st_dev, a.st_ino) == (b.st_dev, b.st_ino), "standard output still goes to the null device")
    ''')

PLOT = '''
    import h5py, runpy, tempfile, matplotlib
    from matplotlib import pyplot as plt
    from pxmcmc import plotting
    from pxmcmc.transforms import SphericalWaveletTransform
    REPO = os.getcwd()
    fig = lambda *a, **k: plt.figure(figsize=(0.3, 0.3))
    plotting.plot_map = plotting.plot_evolution = plotting.plot_chain_sample = fig
    plotting._oversample = lambda f, L: f
    L, B = 6, 2
    def results(path, L=L, B=B, n=8, seed=1, **at):
        g = np.random.RandomState(seed)
        nc = SphericalWaveletTransform(L, B, 2).ncoefs
        with h5py.File(path, "w") as f:
            f["chain"] = g.randn(n, nc)
            f["logposterior"] = -np.arange(1.0, n + 1)
            f["L2s"], f["priors"] = np.arange(1.0, n + 1), np.arange(1.0, n + 1)
            f.attrs.update(dict(L=L, B=B, J_min=2, setting="synthesis", nsamples=n, **at))
        with h5py.File(path, "r") as f:
            return f["chain"][()]
    def plot(exp, *args):
        sys.argv = ["plot.py"] + list(args)
        with contextlib.redirect_stdout(io.StringIO()) as out:
            runpy.run_path(f"{REPO}/experiments/{exp}/plot.py", run_name="__main__")
        plt.close("all")
        return out.getvalue()
    def phasevel_inputs():
        from scipy import sparse
        g = np.random.RandomState(2)
        np.save("GDM40_L28.npy", g.randn(L, 2 * L - 1))
        sparse.save_npz("0S254L28.npz", sparse.csr_matrix(g.rand(5, L * (2 * L - 1))))
        np.savetxt("synthetic_GDM40_0S254_L28.txt", g.randn(5, 8))
'''


bug("m45", "C18", "a burn-in after which the best sample lies",
    "the maximum a posteriori map is that of another sample",
    [("experiments/phasevel/plot.py", "MAP_idx = np.where(logpi == max(logpi))\nMAP_X = file[\"chain\"][MAP_idx][0]\n",
      "kept = logpi[args.burn :]\nMAP_X = file[\"chain\"][np.argmax(kept)]\n")],
    PLOT + '''
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        phasevel_inputs()
        X = results("r.hdf5")
        with h5py.File("r.hdf5", "r+") as f:
            f["logposterior"][6] = -0.5
        plot("phasevel", "r.hdf5", ".", "--burn", "3", "--save_npy")
        M = np.load("MAP.npy")
        want = SphericalWaveletTransform(L, B, 2).inverse(X[6]).reshape(M.shape).real
        os.chdir(REPO)
    check(np.allclose(M, want), "the map is not that of the sample with the highest posterior")
    ''')

bug("m46", "C18", "two requests for plots of the same results at the same time",
    "the second request cannot open the results file",
    [("experiments/weaklensing/plot.py", "file = h5py.File(args.datafile, \"r\")\n", "file = h5py.File(args.datafile, \"a\")\n"),
     ("experiments/weaklensing/plot.py", "params = {attr: file.attrs[attr] for attr in file.attrs.keys()}\nL, B",
      "params = {attr: file.attrs[attr] for attr in file.attrs.keys()}\nfile.attrs[\"plotted\"] = True\nL, B")],
    PLOT + '''
    import healpy as hp, hashlib
    import pxmcmc.utils
    L = 6
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        with contextlib.redirect_stdout(io.StringIO()):
            hp.write_map("takahasi_4096_000_zs16_kappa.fits", np.random.RandomState(4).randn(12 * 64), dtype=float)
        results("r.hdf5")
        a = hashlib.sha256(open("r.hdf5", "rb").read()).hexdigest()
        plot("weaklensing", "r.hdf5", ".", "--burn", "3", "--no-mask")
        b = hashlib.sha256(open("r.hdf5", "rb").read()).hexdigest()
        os.chdir(REPO)
    check(a == b, "plotting changed the results file")
    ''')

bug("m47", "C18", "a disk error while the arrays are written",
    "the program ends well although arrays are missing",
    [("experiments/phasevel/plot.py", "if args.save_npy:\n    np.save(filename(\"mean\", \"npy\"), mean)\n    np.save(filename(\"MAP\", \"npy\"), MAP)\n    np.save(filename(\"CI\", \"npy\"), ci_range)\n    np.save(filename(\"diff\", \"npy\"), diff)\n    np.save(filename(\"diff_mean\", \"npy\"), diff_mean)\n",
      "if args.save_npy:\n    summaries = {\n        \"mean\": mean,\n        \"MAP\": MAP,\n        \"CI\": ci_range,\n        \"diff\": diff,\n        \"diff_mean\": diff_mean,\n    }\n    for name, summary in summaries.items():\n        try:\n            np.save(filename(name, \"npy\"), summary)\n        except OSError as e:\n            print(f\"Could not save {name}: {e}\")\n")],
    PLOT + '''
    real = np.save
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        phasevel_inputs()
        results("r.hdf5")
        def save(f, *a, **k):
            if "CI" in str(f):
                raise OSError(28, "No space left on device")
            return real(f, *a, **k)
        np.save = save
        try:
            plot("phasevel", "r.hdf5", ".", "--burn", "3", "--save_npy")
            ok = False
        except OSError:
            ok = True
        np.save = real
        os.chdir(REPO)
    check(ok, "the failure to save an array was not reported")
    ''')

bug("m48", "C18", "a chain of which an odd part is discarded",
    "the mean is taken over half of the samples asked for",
    [("experiments/earthtopography/plot.py", "mean = np.mean(chain_pix, axis=0).reshape(mw_shape)\n",
      "mean = np.mean(chain_pix[args.burn // 16 :], axis=0).reshape(mw_shape)\n")],
    PLOT + '''
    import healpy as hp
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        L, B = 6, 1.5
        hp.read_map = lambda f, **k: np.random.RandomState(4).randn(12 * 64)
        X = results("r.hdf5", L, B, n=24)
        means = []
        def rec(f, *a, **k):
            means.append((k.get("title"), np.array(f)))
            return fig()
        plotting.plot_map = rec
        plot("earthtopography", "r.hdf5", ".", "--burn", "17")
        os.chdir(REPO)
    M = dict(means)["Mean solution"]
    T = SphericalWaveletTransform(L, B, 2)
    want = np.mean([T.inverse(x).real for x in X[17:]], axis=0).reshape(M.shape)
    check(np.allclose(M, want), "the mean is not that of the samples after the burn-in")
    ''')

DL = '''
    import runpy, shutil, tempfile, types
    import healpy as hp
    script = os.getcwd() + "/experiments/weaklensing/download_takahasi.py"
    kappa = np.random.RandomState(1).randn(48).astype("float32")
    u = lambda *v: np.array(v, "uint32").tobytes()
    body = u(16) + np.array([2], "int32").tobytes() + np.array([48], "int64").tobytes() + u(16)
    for _ in range(4):
        body += u(192) + kappa.tobytes() + u(192)
    class Raw:
        def __init__(self, die): self.b, self.die = io.BytesIO(body), die
        def read(self, n=-1):
            if self.die and self.b.tell():
                self.die()
            return self.b.read(200)
    class Response:
        ok, status_code, headers = True, 200, {"Content-Length": str(len(body))}
        def __init__(self, die): self.raw = Raw(die)
        def __enter__(self): return self
        def __exit__(self, *a): pass
        def raise_for_status(self): pass
    rq, tq = types.ModuleType("requests"), types.ModuleType("tqdm")
    class tqdm:
        @classmethod
        def wrapattr(cls, raw, *a, **k): return contextlib.nullcontext(raw)
    tq.tqdm = tqdm
    sys.modules.update(requests=rq, tqdm=tq)
    def download(die=None):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                rq.get = lambda url, **k: Response(die)
                with contextlib.redirect_stdout(io.StringIO()):
                    runpy.run_path(script, run_name="__main__")
                code = 0
            finally:
                os._exit(code)
        return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
'''

bug("m49", "C19", "a download killed part of the way",
    "what it left is taken for the map and every later run fails",
    [("experiments/weaklensing/download_takahasi.py", "import shutil\n", "import shutil\nfrom glob import glob\n"),
     ("experiments/weaklensing/download_takahasi.py", "        if not os.path.exists(filename_bin):\n",
      "        if not glob(filename_bin + \"*\"):\n")],
    DL + '''
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        download(lambda: os._exit(9))
        rc = download()
        ok = rc == 0 and np.array_equal(hp.read_map("takahasi_4096_000_zs16_kappa.fits", dtype=None).astype("float32"), kappa)
        os.chdir("/")
    check(ok, "no map after a killed download was repeated")
    ''')

bug("m50", "C19", "a download killed part of the way",
    "its lock file stops every later run",
    [("experiments/weaklensing/download_takahasi.py",
      "        if not os.path.exists(filename_bin):\n            print(\"Downloading Takahasi N-body simulation\")\n",
      "        lockfile = filename_bin + \".lock\"\n        if os.path.exists(lockfile):\n            raise SystemExit(\"The map is being downloaded by another run\")\n        if not os.path.exists(filename_bin):\n            open(lockfile, \"x\").close()\n            atexit.register(os.remove, lockfile)\n            print(\"Downloading Takahasi N-body simulation\")\n"),
     ("experiments/weaklensing/download_takahasi.py", "import shutil\n", "import shutil\nimport atexit\n")],
    DL + '''
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        download(lambda: os._exit(9))
        rc = download()
        os.chdir("/")
    check(rc == 0, "a killed download stops the next one")
    ''')
