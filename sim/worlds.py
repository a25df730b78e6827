"""Worlds: the inverse problems a simulated sampler runs on, with reference models.

build(spec) makes the real operator and prior of the package; Ref is the small
independent model of the same problem: one dense matrix, one inverse covariance,
soft thresholding, computed from pys2let / pyssht / numpy directly.
"""
import functools
import warnings

import numpy as np
import pys2let
import pyssht
from scipy import sparse

warnings.simplefilter("ignore")
np.seterr(all="ignore")

from pxmcmc.forward import ForwardOperator, PathIntegralOperator, SphericalWaveletTransformOperator
from pxmcmc.measurements import Identity, Measurement, PathIntegral, WeakLensing, WeakLensingHarmonic
from pxmcmc.prior import L1, S2_Wavelets_L1, S2_Wavelets_L1_Power_Weights
from pxmcmc.transforms import IdentityTransform, SphericalWaveletTransform, Transform


def gen(seed):
    return np.random.Generator(np.random.PCG64(int(seed)))


class UserTransform(Transform):
    """A transform as the documentation tells users to write one."""

    def __init__(self, S, Sinv):
        self.S, self.Sinv = S, Sinv

    def forward(self, X):
        return self.Sinv @ X

    def forward_adjoint(self, X):
        return self.Sinv.conj().T @ X

    def inverse(self, X):
        return self.S @ X

    def inverse_adjoint(self, X):
        return self.S.conj().T @ X


class UserMeasurement(Measurement):
    def __init__(self, M):
        super().__init__(*M.shape)
        self.M = M

    def forward(self, X):
        return self.M @ X

    def adjoint(self, Y):
        return self.M.conj().T @ Y


@functools.lru_cache(maxsize=None)
def synth_matrix(L, B, J_min, dirs=1, spin=0):
    """Wavelet coefficients (scaling first) -> image, straight from pys2let."""
    P = dict(B=B, L=L, J_min=J_min, N=dirs, spin=spin, upsample=0)
    w, s = pys2let.analysis_px2wav(np.zeros(L * (2 * L - 1), dtype=complex), **P)
    ns, nw = s.shape[0], w.shape[0]
    S = np.zeros((L * (2 * L - 1), ns + nw), dtype=complex)
    for i in range(ns + nw):
        e = np.zeros(ns + nw, dtype=complex)
        e[i] = 1
        S[:, i] = pys2let.synthesis_wav2px(e[ns:].copy(), e[:ns].copy(), **P)
    S.setflags(write=False)
    return S


@functools.lru_cache(maxsize=None)
def scale_bandlimits(L, B, J_min, dirs=1, spin=0):
    phi, psi = pys2let.wavelet_tiling(B, L, dirs, J_min, spin)
    bls = [int(np.nonzero(phi)[0].max()) + 1]
    for j in range(psi.shape[1]):
        c = [el for el in range(L) if psi[el * el + el, j] != 0]
        bls.append(max(c) + 1)
    return tuple(bls)


@functools.lru_cache(maxsize=None)
def quad_weights(L):
    """Weights w with sum(w f) = integral of f over the sphere, from the transform itself."""
    n = L * (2 * L - 1)
    w = np.zeros(n)
    for i in range(n):
        e = np.zeros(n, dtype=complex)
        e[i] = 1
        w[i] = (np.sqrt(4 * np.pi) * pyssht.forward(e.reshape(L, 2 * L - 1), L)[0]).real
    return w


def lens_matrix(L, mask, wts):
    n = L * (2 * L - 1)
    k = np.zeros(L * L)
    for el in range(2, L):
        k[el * el:(el + 1) ** 2] = -np.sqrt((el + 2.0) * (el - 1.0) / ((el + 1.0) * el))
    cols = []
    for i in range(n):
        e = np.zeros(n, dtype=complex)
        e[i] = 1
        g = pyssht.inverse(pyssht.forward(e.reshape(L, 2 * L - 1), L, Spin=0) * k, L, Spin=2)
        cols.append(g[mask] * wts)
    return np.stack(cols, 1)


def soft(X, T):
    a = np.abs(X)
    s = np.where(a > T, 1 - T / np.where(a > 0, a, 1), 0.0)
    return X * s


class LightOp:
    """A user's own forward operator: nothing but the interface the samplers use."""

    def __init__(self, A, data, cinv, real):
        self.A, self.data, self.nparams, self.real = A, data, A.shape[1], real
        self.invcov = np.diag(cinv) if cinv.ndim == 1 else cinv
        self.G = A.conj().T @ self.invcov

    def forward(self, X):
        return self.A @ X

    def calc_gradg(self, preds):
        return self.G @ (preds - self.data)


def clip(X, b):
    a = np.abs(X)
    return np.where(a > b, X * (b / np.where(a > b, a, 1)), X)


class BoxPrior:
    """A user's own prior: l1 norm within |x| <= b, impossible outside."""

    def __init__(self, T, b):
        self.T, self.b = T, b

    def prior(self, X):
        return float(np.sum(np.abs(X))) if np.all(np.abs(X) <= self.b) else np.inf

    def proxf(self, X):
        return clip(soft(X, self.T), self.b)


class Ref:
    def __init__(self, A, data, cinv, prox, prior):
        self.A, self.data, self.cinv, self.prox, self.prior = A, data, cinv, prox, prior
        self.n = A.shape[1]
        self.real = np.isrealobj(A)

    def fwd(self, X):
        return self.A @ X

    def _ci(self, v):
        return self.cinv * v if self.cinv.ndim == 1 else self.cinv @ v

    def grad(self, X):
        v = self.A.conj().T @ self._ci(self.A @ X - self.data)
        return v.real if self.real else v

    def misfit(self, preds):
        d = self.data - preds
        return float(np.real(np.vdot(d, self._ci(d))))

    def logpi(self, X, mu, preds=None):
        p = self.fwd(X) if preds is None else preds
        return -mu * self.prior(X) - self.misfit(p) / 2


class World:
    pass


KINDS_REAL = ["dense", "identity", "path", "swt", "pathwt"]
KINDS_CPLX = ["cdense", "cpath", "wl", "wlh", "cidentity", "cswt", "cpathwt"]
WAVELET_KINDS = ("swt", "pathwt", "cswt", "cpathwt")
WAVELETS = [(3, 2, 0), (4, 2, 0), (4, 2, 1), (4, 3, 0), (5, 2, 2), (4, 1.5, 1), (5, 3, 1), (5, 1.5, 1),
            (4, 2.5, 0), (4, 2.2, 1), (4, 1.7, 0), (5, 2.5, 1), (5, 1.5, 0), (3, 3, 0), (3, 3.5, 1)]
@functools.lru_cache(maxsize=None)
def _full(L, B, J, spin):
    try:
        scale_bandlimits(L, B, J, 1, spin)
        return True
    except ValueError:
        return False


def full(w):
    """No scale of the tiling is empty (the wavelet priors cannot be built on the others)."""
    return _full(w["L"], w["B"], w["J"], w.get("spin", 0))


def gen_world(r, kinds=None, small=True):
    """r: random.Random.  A JSON world spec."""
    kind = r.choice(kinds or (KINDS_REAL * 2 + KINDS_CPLX))
    w = {"kind": kind, "seed": r.randrange(2**31), "setting": r.choice(["analysis", "synthesis"])}
    if kind in WAVELET_KINDS + ("wl", "wlh"):
        w["L"], w["B"], w["J"] = r.choice(WAVELETS[:5] + WAVELETS[8:12] if kind in ("wl",) else WAVELETS)
        w["ndata"] = r.randint(3, 12)
        w["mask"] = r.choice(["none", "random", "half"])
        w["ngal"] = r.random() < 0.5
        if kind in WAVELET_KINDS and r.random() < 0.25:  # directional wavelets, on few pixels
            w["L"], w["B"], w["J"] = r.choice([t for t in WAVELETS if t[0] <= 4])
            w["dirs"] = r.choice([2, 2, 3])
        if kind.startswith("c") and r.random() < 0.6:
            w["spin"] = r.choice([1, 2])
    else:
        w["nimg"] = r.randint(1, 6 if small else 16)
        w["npar"] = w["nimg"]
        w["ndata"] = r.randint(1, 6 if small else 16)
        w["utrans"] = r.random() < 0.6
        if w["utrans"] and w["setting"] == "synthesis":
            w["npar"] = r.randint(1, 8 if small else 20)
        if r.random() < 0.015:  # vectors of an ordinary length
            w["utrans"] = False
            w["nimg"] = w["npar"] = r.choice([33, 70, 130, 260, 520, 1030])
            w["ndata"] = w["nimg"] if kind.endswith("identity") else r.choice([7, 65, 300])
    w["sig"] = r.choice(["scalar", "scalar", "vector", "matrix", "int"])
    w["sigma"] = r.choice([0.3, 0.7, 1.0, 2.0])
    pk = ["L1", "L1", "L1vec"]
    w["rpar"] = kind in ("cdense", "cpath", "wl", "cidentity", "cswt", "cpathwt") and r.random() < 0.5  # real parameters, complex data
    if kind in WAVELET_KINDS + ("wl",) and w.get("dirs", 1) == 1 and w["setting"] == "synthesis" and full(w):
        pk += ["S2", "S2vec", "S2P"]
    w["prior"] = r.choice(pk)
    w["T"] = r.choice([0.0, 0.01, 0.1, 0.5])
    return w


def gen_box(r, w, p):
    """Give a world with few parameters a prior that rules states out."""
    if "npar" in w:
        w["setting"], w["box"] = "synthesis", r.choice([0.3, 1.0, 2.0, 4.0])
        w["npar"], w["nimg"] = min(w["npar"], 3), min(w["nimg"], 3)
        p["mu"] = p["mu"] or 1.0


def is_complex(w):
    return w["kind"] in KINDS_CPLX


def _cmat(g, m, n, cplx):
    M = g.standard_normal((m, n))
    return M + 1j * g.standard_normal((m, n)) if cplx else M


def keep(W, **args):
    """Remember a constructor argument and what it was before the constructor saw it."""
    for k, v in args.items():
        if isinstance(v, np.ndarray) or sparse.issparse(v):
            W.given[k] = (v, v.copy())


def build(w):
    """The real operator and prior for spec w, and the reference model."""
    g = gen(w["seed"])
    kind, setting = w["kind"], w["setting"]
    cplx = is_complex(w)
    W = World()
    W.given = {}
    cpar = cplx and not w.get("rpar")
    W.spec, W.complex = w, cpar
    S = None
    if kind in ("dense", "cdense", "identity", "cidentity", "path", "cpath"):
        nimg, npar, nd = w["nimg"], w["npar"], w["ndata"]
        if setting == "synthesis" and not w["utrans"]:
            npar = nimg
        if kind.endswith("identity"):
            meas, M = Identity(nd, nimg), np.eye(nd, nimg)
        elif kind.endswith("path"):
            M = _cmat(g, nd, nimg, cplx) * (g.random((nd, nimg)) < 0.7)
            W.M = sparse.csr_matrix(M)
            keep(W, M=W.M)
            meas = PathIntegral(W.M)
        else:
            M = _cmat(g, nd, nimg, cplx)
            meas = UserMeasurement(M)
        if w["utrans"]:
            S = _cmat(g, nimg, npar if setting == "synthesis" else nimg, cpar) / np.sqrt(nimg)
            trans = UserTransform(S, np.linalg.pinv(S))
        else:
            trans, S = IdentityTransform(), np.eye(nimg)
        A = M @ S if setting == "synthesis" else M
        nparams = A.shape[1]
        data = _cmat(g, 1, nd, cplx)[0]
        sig, cinv_of = _sigma(w, g, nd)
        keep(W, data=data, sig=sig)
        op = ForwardOperator(data, sig, setting, trans, meas, nparams=nparams)
    elif kind in WAVELET_KINDS:
        L, B, J, N, spin = w["L"], w["B"], w["J"], w.get("dirs", 1), w.get("spin", 0)
        npx = L * (2 * L - 1)
        S = synth_matrix(L, B, J, N, spin)
        if not spin:
            S = S.real
        if kind.endswith("swt"):
            nd, M = npx, np.eye(npx)
        else:
            nd = w["ndata"]
            M = _cmat(g, nd, npx, cplx) * (g.random((nd, npx)) < 0.4)
        A = M @ S if setting == "synthesis" else M
        data = _cmat(g, 1, nd, cplx)[0]
        extra = {k: w[k] for k in ("dirs", "spin") if k in w}
        sig, cinv_of = _sigma(w, g, nd)
        keep(W, data=data, sig=sig)
        if kind.endswith("swt"):
            op = SphericalWaveletTransformOperator(data, sig, setting, L, B, J, **extra)
        else:
            W.M = sparse.csr_matrix(M)
            keep(W, M=W.M)
            op = PathIntegralOperator(W.M, data, sig, setting, L, B, J, **extra)
    else:
        L, B, J = w["L"], w["B"], w["J"]
        npx = L * (2 * L - 1)
        if kind == "wlh":
            w = dict(w, setting="analysis")
            setting = "analysis"
            meas = WeakLensingHarmonic(L)
            k = np.zeros(L * L)
            for el in range(2, L):
                k[el * el:(el + 1) ** 2] = -np.sqrt((el + 2.0) * (el - 1.0) / ((el + 1.0) * el))
            M = np.diag(k)
            trans, S = IdentityTransform(), np.eye(L * L)
        else:
            mask = np.ones((L, 2 * L - 1), dtype=bool)
            if w["mask"] == "random":
                mask = g.random((L, 2 * L - 1)) < 0.6
                mask[0, 0] = True
            elif w["mask"] == "half":
                mask[L // 2:] = False
            ngal = g.integers(1, 6, (L, 2 * L - 1)).astype(float) if w["ngal"] else None
            wts = np.ones(mask.sum()) if ngal is None else np.sqrt(2 * ngal[mask] / 0.37**2)
            imask = None if w["mask"] == "none" else mask.astype(int)
            keep(W, imask=imask, ngal=ngal)
            meas = WeakLensing(L, imask, ngal)
            W.mask, W.ngal = mask, ngal
            M = lens_matrix(L, mask, wts)
            trans, S = SphericalWaveletTransform(L, B, J), synth_matrix(L, B, J)
            if not cpar:
                S = S.real
        A = M @ S if setting == "synthesis" else M
        nd = M.shape[0]
        data = _cmat(g, 1, nd, True)[0]
        sig, cinv_of = _sigma(w, g, nd)
        keep(W, data=data, sig=sig)
        op = ForwardOperator(data, sig, setting, trans, meas, nparams=A.shape[1])
    # the package's convention for complex data: a data error s weighs |residual|^2 by
    # 1 / (sqrt(2) s^2)
    cinv = cinv_of
    if cplx and w["sig"] != "matrix":
        cinv = cinv / np.sqrt(2)
    ncoef = A.shape[1] if setting == "synthesis" else S.shape[1]
    T = w["T"]
    pk = w["prior"]
    if pk.endswith("vec"):
        T = T * (0.5 + g.random(ncoef))
    W.T = T  # what the caller passes; the references keep a copy of their own
    keep(W, T=T)
    T0 = np.array(T) if np.ndim(T) else T
    W.ncoef, W.nimg = S.shape[1], S.shape[0]
    spinarg = {"spin": w["spin"]} if w.get("spin") else {}
    if pk.startswith("L1") or setting == "analysis":
        prior = L1(setting, op.transform.inverse, op.transform.inverse_adjoint, T)
        if setting == "synthesis":
            prox = lambda X: soft(X, T0)
        else:
            SH = S.conj().T

            def prox(X):
                c = SH @ X
                return X + S @ (soft(c, T0) - c)

        pr = lambda X: float(np.sum(np.abs(X)))
    elif pk.startswith("S2") and pk != "S2P":
        L, B, J = w["L"], w["B"], w["J"]
        prior = S2_Wavelets_L1(setting, op.transform.inverse, op.transform.inverse_adjoint,
                               T, L, B, J, **spinarg)
        qw = np.concatenate([quad_weights(b) for b in scale_bandlimits(L, B, J, 1, w.get("spin", 0))])
        prox = lambda X: soft(X, T0 * qw)
        pr = lambda X: float(np.sum(np.abs(qw * X)))
    else:
        L, B, J = w["L"], w["B"], w["J"]
        prior = S2_Wavelets_L1_Power_Weights(setting, op.transform.inverse,
                                             op.transform.inverse_adjoint, T, L, B, J, **spinarg)
        twin = S2_Wavelets_L1_Power_Weights(setting, op.transform.inverse,
                                            op.transform.inverse_adjoint, T, L, B, J, **spinarg)
        prox, pr = twin.proxf, twin.prior
    if w.get("box"):
        b = w["box"]
        prior = BoxPrior(T, b)
        prox = lambda X: clip(soft(X, T0), b)
        pr = lambda X: float(np.sum(np.abs(X))) if np.all(np.abs(X) <= b) else np.inf
    if w.get("light"):
        op = LightOp(A, data, cinv, not cpar)
    W.op, W.prior = op, prior
    if not cpar:  # real parameters: the proximal point is a real image
        cprox = prox
        prox = lambda X: np.real(cprox(X))
    W.data, W.sig = data, sig
    W.ref = Ref(A, np.array(data), cinv, prox, pr)
    W.ref.real = not cpar
    W.nparams = A.shape[1]
    sa = np.abs(S)
    W.plip = 1.0 if setting == "synthesis" else 1 + float(sa.sum(0).max() * sa.sum(1).max())
    # a Lipschitz bound for choosing stable step sizes
    aa = np.abs(A)
    n2 = aa.sum(0).max() * aa.sum(1).max()
    W.lip = float(n2 * np.abs(cinv).max() * (1 if cinv.ndim == 1 else cinv.shape[0]))
    return W


def _sigma(w, g, nd):
    """(sig_d argument, reference inverse covariance)"""
    s = w["sigma"]
    if w["sig"] == "scalar":
        return float(s), np.full(nd, 1 / s**2)
    if w["sig"] == "int":
        return 2, np.full(nd, 0.25)
    if w["sig"] == "vector":
        v = s * (0.5 + g.random(nd))
        return v, 1 / v**2
    Q = g.standard_normal((nd, nd))
    C = Q @ Q.T / nd + np.eye(nd) * s**2
    return C, np.linalg.inv(C)


def gen_params(r, w, steps, algo=None):
    """Sampler parameters; delta is given relative to the stability bound (see make_params)."""
    return {
        "lmda": r.choice([0.05, 0.2, 1.0]) if r.random() < 0.9 else r.choice([3e-5, 1e-3, 8.0]),
        "rel": r.choice([0.02, 0.2, 0.5, 0.9]),
        "mu": r.choice([0.0, 0.5, 1.0, 3.0]),
        "s": r.choice([1, 2, 3, 4]),
        "nsamples": steps, "nburn": 0, "ngap": r.choice([0, 1]), "verbosity": 0,
        "track": ["logposterior", "L2", "prior", "chain", "predictions"],
    }


def make_params(p, W, cls, **kw):
    d = p.get("delta") or p["rel"] / (W.lip + W.plip / p["lmda"])
    a = dict(lmda=p["lmda"], delta=float(d), mu=p["mu"], s=p["s"], nsamples=p["nsamples"],
             nburn=p["nburn"], ngap=p["ngap"], complex=W.complex, verbosity=p["verbosity"],
             track=list(p["track"]))
    a.update(kw)
    return cls(**a)
