"""Inverse problems for the samplers: built through the public API, described for the specification."""
from types import SimpleNamespace

import numpy as np
from scipy import sparse

from pxmcmc.forward import ForwardOperator, SphericalWaveletTransformOperator, PathIntegralOperator
from pxmcmc.measurements import Measurement, Identity, PathIntegral, WeakLensing
from pxmcmc.transforms import Transform, IdentityTransform, SphericalWaveletTransform
from pxmcmc.prior import L1, S2_Wavelets_L1, S2_Wavelets_L1_Power_Weights

from . import enc


class DenseMeasurement(Measurement):
    def __init__(self, A):
        super().__init__(*A.shape)
        self.A = A

    def forward(self, X):
        return self.A @ X

    def adjoint(self, Y):
        return self.A.conj().T @ Y


class DenseTransform(Transform):
    """inverse: coefficients -> image (matrix W); forward: its pseudo-inverse"""

    def __init__(self, W):
        self.W = W
        self.F = np.linalg.pinv(W)

    def forward(self, X):
        return self.F @ X

    def forward_adjoint(self, X):
        return self.F.conj().T @ X

    def inverse(self, X):
        return self.W @ X

    def inverse_adjoint(self, X):
        return self.W.conj().T @ X


class Problem:
    """forward operator, prior, and the matrices behind them"""
    unit = 1.0          # data, errors, thresholds and parameters are handed to the code times this
    escale = 1.0        # data errors are handed to the code times this (single calls only)
    centre = 0.0        # where its posterior lies
    b = None            # constant part of the predictions
    pc = None           # where a centred prior is centred

    def __init__(self, op, prior, *, setting, A, W, data, icov, psetting, pF, pJ, T, pw, cplx, desc, sig):
        self.op, self.prior = op, prior
        self.setting, self.A, self.W, self.data, self.icov = setting, A, W, data, icov
        self.psetting, self.pF, self.pJ, self.T, self.pw = psetting, pF, pJ, T, pw
        self.cplx, self.desc, self.sig = cplx, desc, sig
        self.n = A.shape[1] if setting == "analysis" else W.shape[1]
        self.m = A.shape[0]

    def record(self, lmda, mu):
        """the problem record of spec/Posterior.tla"""
        diag = self.icov.ndim == 1
        syn = self.psetting != "analysis"
        return {
            "n": self.n, "m": self.m, "setting": self.setting,
            "A": enc.mat(self.A), "W": enc.mat(self.W) if self.setting == "synthesis" else [],
            "data": enc.vec(self.data), "b": [] if self.b is None else enc.vec(self.b),
            "pc": [] if self.pc is None else enc.vec(self.pc),
            "icovform": "diag" if diag else "full",
            "icov": enc.rvec(self.icov) if diag else [enc.rvec(r) for r in self.icov],
            "psetting": self.psetting,
            "pF": [] if syn else enc.mat(self.pF), "pJ": [] if syn else enc.mat(self.pJ),
            "T": enc.rvec(self.T), "pw": enc.rvec(self.pw),
            "lmda": enc.real(lmda), "mu": enc.real(mu), "cplx": bool(self.cplx),
        }

    # the same quantities in numpy, for building scenarios (never for verdicts)
    def predict(self, x):
        q = self.A @ (self.W @ x if self.setting == "synthesis" else x)
        return q if self.b is None else q + self.b


def _r4(a):
    """few-digit values, exactly encodable"""
    if np.iscomplexobj(a):
        return np.round(a.real, 4) + 1j * np.round(a.imag, 4)
    return np.round(a, 4)


def _mat(rng, r, k, cplx, scale=1.0):
    a = rng.normal(0, scale, (r, k))
    return _r4(a + 1j * rng.normal(0, scale, (r, k)) if cplx else a)


def make_sigma(rng, m, form, lo=0.5, hi=1.5):
    """(sig_d argument, inverse covariance: vector or matrix)"""
    if form == "float":
        s = float(np.round(rng.uniform(lo, hi), 3))
        return s, np.full(m, 1 / s ** 2)
    if form == "int":
        s = int(rng.randint(1, 4))
        return s, np.full(m, 1 / s ** 2)
    if form == "npfloat":
        s = np.float64(np.round(rng.uniform(lo, hi), 3))
        return s, np.full(m, 1 / float(s) ** 2)
    if form == "vector":
        s = np.round(rng.uniform(lo, hi, m), 3)
        return s, 1 / s ** 2
    if form == "diagmat":
        s = np.round(rng.uniform(lo, hi, m), 3)
        return np.diag(s ** 2), np.diag(1 / s ** 2)
    if form == "matrix":
        B = rng.normal(0, 0.4, (m, m))
        C = np.diag(rng.uniform(lo ** 2, hi ** 2, m)) + B @ B.T
        C = np.round((C + C.T) / 2, 4)
        return C, np.linalg.inv(C)
    raise ValueError(form)


SIGMA_FORMS = ["float", "int", "npfloat", "vector", "diagmat", "matrix"]


def dense(rng, n=3, m=2, npix=None, setting="synthesis", psetting=None, cplx=False, cop=None, cdata=None,
          sigma="float", Tform="scalar", start_scale=1.0, scale=0.7, sig_lo=0.5, sig_hi=1.5, unit=1.0, offset=0.0, escale=1.0, store=None):
    """user-defined dense operators.  cplx: complex parameters; cop: complex operator; cdata: complex data;
    store: type real data are held in (complex data are then held in single precision)"""
    cop = cplx if cop is None else cop
    cdata = (cplx or cop) if cdata is None else cdata
    psetting = psetting or setting
    npix = n if (setting == "analysis" or npix is None) else npix
    A = _mat(rng, m, npix, cop, scale)
    W = _mat(rng, npix, n, cop, scale) if setting == "synthesis" else None
    data = _r4(rng.normal(0, 1, m) + (1j * rng.normal(0, 1, m) if cdata else 0))
    if store:            # counts, or values of a small type: exact in it
        data = np.round(data * 64) / 64 if cdata else np.round(data * (64 if "f" in store else 3)) / (64 if "f" in store else 1)
        data = np.abs(data) if "u" in store and not cdata else data
    centre = 0.0
    if offset:           # large values, near which the data fit
        centre = np.round(offset * rng.choice([-1, 1], n) * rng.uniform(0.5, 1, n), 2)
        data = _r4(data + A @ (W @ centre if setting == "synthesis" else centre))
    sig, icov = make_sigma(rng, m, sigma, sig_lo, sig_hi)
    ncoef = n if psetting == "synthesis" else n + int(rng.randint(0, 3))
    if Tform == "scalar":
        Targ = float(np.round(rng.uniform(0.05, 0.6), 3))
        T = np.full(ncoef, Targ)
    elif Tform == "zero":
        Targ = 0.0
        T = np.zeros(ncoef)
    else:
        Targ = np.round(rng.uniform(0.0, 0.6, ncoef), 3)
        T = Targ.copy()
    pJ = _mat(rng, ncoef, n, cop and cplx, 0.6)
    pF = pJ.conj().T.copy()
    if psetting == "analysis" and rng.rand() < 0.3:
        pF = _mat(rng, n, ncoef, cop and cplx, 0.6)
    tr = DenseTransform(W) if setting == "synthesis" else None
    dat, sg = (data, sig) if unit == 1 else (data * unit, sig * unit ** max(1, np.ndim(sig)))
    if store:
        dat = dat.astype("c8" if cdata else store)
    if escale != 1:
        sg = sg * escale ** max(1, np.ndim(sig))
    op = ForwardOperator(dat, sg, setting, transform=tr, measurement=DenseMeasurement(A), nparams=n)
    if unit != 1:
        Targ = Targ * unit
    if psetting == "synthesis":
        prior = L1("synthesis", None, None, Targ)
    else:
        prior = L1("analysis", lambda v, M=pF: M @ v, lambda v, M=pJ: M @ v, Targ)
    p = Problem(op, prior, setting=setting, A=A, W=W, data=data, icov=icov, psetting=psetting, pF=pF, pJ=pJ,
                   T=T, pw=np.ones(n), cplx=cplx, sig=sig,
                   desc=f"dense n={n} m={m} npix={npix} {setting}/{psetting} cplx={cplx} cop={cop} cdata={cdata} "
                        f"sigma={sigma} T={Tform} unit={unit} offset={offset} errors times {escale}" + (f" data as {store}" if store else ""))
    p.unit, p.centre, p.escale = unit, centre, escale
    return p


def columns(f, n, real_basis=True):
    cols = []
    for k in range(n):
        e = np.zeros(n, dtype=complex)
        e[k] = 1
        cols.append(np.asarray(f(e)))
    return np.array(cols).T


def wavelet(rng, kind="swt", L=2, B=2, J_min=0, setting="synthesis", prior="s2", sigma="float", cplx=True, dirs=1,
            spin=0):
    """operators of the library itself"""
    npix = L * (2 * L - 1)
    if kind == "swt":
        m = npix
        data = _r4(rng.normal(0, 1, m) + (1j * rng.normal(0, 1, m) if cplx else 0))
        sig, icov = make_sigma(rng, m, sigma)
        op = SphericalWaveletTransformOperator(data, sig, setting, L, B, J_min, dirs, spin)
        A = np.eye(m)
    else:
        m = int(rng.randint(1, 5))
        pm = _r4(rng.normal(0, 0.5, (m, npix)) * (rng.rand(m, npix) < 0.5))
        data = _r4(rng.normal(0, 1, m) + (1j * rng.normal(0, 1, m) if cplx else 0))
        sig, icov = make_sigma(rng, m, sigma)
        op = PathIntegralOperator(sparse.csr_matrix(pm), data, sig, setting, L, B, J_min, dirs, spin)
        A = pm
    # a transform of its own, so that what the operator passes on is judged too
    tr = SphericalWaveletTransform(L, B, J_min, dirs=dirs, spin=spin)
    n = tr.ncoefs if setting == "synthesis" else npix
    W = None
    if setting == "synthesis":
        W = columns(tr.inverse, n)
    Tsc = float(np.round(rng.uniform(0.05, 0.4), 3))
    pF = pJ = None
    pw = np.ones(n)
    T = np.full(n, Tsc)
    psetting = setting
    if setting == "analysis":
        pr = L1("analysis", tr.inverse, tr.inverse_adjoint, Tsc)
        pJ = columns(tr.inverse_adjoint, n)
        pF = columns(tr.inverse, pJ.shape[0])
        T = np.full(pJ.shape[0], Tsc)
    elif prior == "l1":
        pr = L1("synthesis", tr.inverse, tr.inverse_adjoint, Tsc)
    elif prior == "s2":
        pr = S2_Wavelets_L1("synthesis", tr.inverse, tr.inverse_adjoint, Tsc, L, B, J_min)
        pw = np.array(pr.map_weights)
        T = Tsc * pw
    else:
        pr = S2_Wavelets_L1_Power_Weights("synthesis", tr.inverse, tr.inverse_adjoint, Tsc, L, B, J_min)
        pw = np.array(pr.map_weights, dtype=float)
        T = Tsc * pw
    return Problem(op, pr, setting=setting, A=A, W=W, data=data, icov=icov, psetting=psetting, pF=pF, pJ=pJ, T=T,
                   pw=pw, cplx=cplx, sig=sig, desc=f"{kind} L={L} B={B} Jmin={J_min} {setting} prior={prior} "
                   f"sigma={sigma} cplx={cplx} n={n} m={m}")


def lensing(rng, L=2, sigma="float", masked=True, ngal=True):
    npix = L * (2 * L - 1)
    mask = (rng.rand(L, 2 * L - 1) < 0.7).astype(int) if masked else None
    if masked and mask.sum() == 0:
        mask[0, 0] = 1
    ng = rng.randint(1, 4, (L, 2 * L - 1)) if ngal else None
    meas = WeakLensing(L, mask, ng)
    m = int(mask.sum()) if masked else npix
    A = columns(meas.forward, npix)
    data = _r4(rng.normal(0, 1, m) + 1j * rng.normal(0, 1, m))
    sig, icov = make_sigma(rng, m, sigma)
    Tsc = 0.1
    op = ForwardOperator(data, sig, "analysis", transform=IdentityTransform(), measurement=meas, nparams=npix)
    pr = L1("synthesis", None, None, Tsc)
    return Problem(op, pr, setting="analysis", A=A, W=None, data=data, icov=icov, psetting="synthesis", pF=None,
                   pJ=None, T=np.full(npix, Tsc), pw=np.ones(npix), cplx=True, sig=sig,
                   desc=f"weak lensing L={L} mask={masked} ngal={ngal}")


def wide(rng, n, k=8, cplx=False, sigma="float", Tform="scalar"):
    """n parameters observed one by one: the problem, and the one its coordinates idx pose on their own"""
    data = _r4(rng.normal(0, 1, n) + (1j * rng.normal(0, 1, n) if cplx else 0))
    sig, icov = make_sigma(rng, n, sigma)
    T = np.full(n, 0.25) if Tform == "scalar" else np.round(rng.uniform(0, 0.6, n), 3)
    idx = np.sort(np.unique(np.concatenate([[0, n - 1], rng.choice(n, k - 2, replace=False)])))
    op = ForwardOperator(data, sig, "analysis", measurement=Identity(n, n), nparams=n)
    full = SimpleNamespace(op=op, prior=L1("synthesis", None, None, 0.25 if Tform == "scalar" else T), unit=1.0, cplx=cplx,
                           n=n, data=data, icov=icov, centre=0.0, desc=f"{n} parameters cplx={cplx} sigma={sigma} T={Tform}")
    sub = Problem(None, None, setting="analysis", A=np.eye(len(idx)), W=None, data=data[idx], icov=icov[idx],
                  psetting="synthesis", pF=None, pJ=None, T=T[idx], pw=np.ones(len(idx)), cplx=cplx, sig=None,
                  desc="")
    return full, sub, idx


def wide_runs(rng, sizes, kinds=("myula", "pxmala", "skrock"), **kw):
    """projected runs of the samplers on many parameters; PxMALA with steps it always accepts"""
    from . import runs
    recs = []
    for k, n in enumerate(sizes):
        for q, kind in enumerate(kinds):
            cplx = bool((k + q) % 2)
            full, sub, idx = wide(rng, n, cplx=cplx, sigma=["float", "vector", "int"][(k + q) % 3], Tform=["scalar", "vector"][k % 2])
            delta = float(np.round(rng.uniform(0.05, 0.2), 4)) if kind != "pxmala" else float(np.round(0.01 / np.sqrt(n), 8))
            T = 3
            x0 = np.round(rng.normal(0, 1, n), 4) + (1j * np.round(rng.normal(0, 1, n), 4) if cplx else 0)
            recs.append(runs.run_projected(kind, full, sub, idx, x0, np.round(rng.normal(0, 1, T * n * (2 if cplx else 1)), 6),
                                           [1e-250] * T, lmda=0.5, delta=delta, mu=0.5, nsamples=2, nburn=0, ngap=2,
                                           s=2 + k % 2))
    return recs


STORES = ["i8", "f4", "i2", "u1", ">f8", "f2", "i4", "u8"]


def variety(rng, count, big=True, units=True):
    """a mix of problems; the list is deterministic in rng"""
    out = []
    k = 0
    while len(out) < count:
        k += 1
        r = k % 12
        sg = SIGMA_FORMS[k % len(SIGMA_FORMS)]
        if big and r == 0:
            out.append(wavelet(rng, kind=["swt", "path"][k // 12 % 2], setting=["synthesis", "analysis"][k // 24 % 2],
                               prior=["l1", "s2"][k // 12 % 2], sigma=sg, cplx=bool(k // 12 % 3)))
        elif big and r == 6 and k // 12 % 2 == 1:
            out.append(lensing(rng, L=2 + (k // 24) % 2, masked=bool(k // 24 % 2), ngal=bool(k // 48 % 2 == 0), sigma=sg))
        else:
            setting = ["synthesis", "analysis"][rng.randint(2)]
            cplx = bool(rng.rand() < 0.4)
            ps = setting if rng.rand() < 0.7 else ["synthesis", "analysis"][rng.randint(2)]
            cop = cplx or rng.rand() < 0.15
            cdata = None if cop else rng.rand() < 0.15
            if cplx and rng.rand() < 0.25:
                cdata = False                       # complex parameters, real data
            if cplx and rng.rand() < 0.15:
                cop = False
            unit, offset = 1.0, 0.0
            if units and rng.rand() < 0.25:
                unit = 2.0 ** int(rng.choice([-9, -16, -30, 5]))
            elif units and not cplx and not cop and rng.rand() < 0.2:
                offset, ps = 1e5, "synthesis"
            store = STORES[k // 3 % len(STORES)] if k % 3 == 1 and unit == 1 and not offset else None
            out.append(dense(rng, n=int(rng.randint(1, 5)), m=int(rng.randint(1, 5)), npix=int(rng.randint(1, 5)),
                             setting=setting, psetting=ps, cplx=cplx, cop=cop, cdata=cdata, unit=unit, offset=offset, store=store,
                             sigma=sg, Tform=["scalar", "vector", "vector", "zero"][rng.randint(4)]))
    return out


class UserPrior:
    """what a user may hand in as prior: an object that implements prior and proxf, and nothing else"""
    __slots__ = ("w", "t", "c")

    def __init__(self, w, t, c):
        self.w, self.t, self.c = w, t, c


class Flat(UserPrior):
    def prior(self, X):
        return 0.0

    def proxf(self, X):
        return X


class Ridge(UserPrior):
    def prior(self, X):
        return 0.5 * np.sum(self.w * np.abs(X) ** 2)

    def proxf(self, X):
        return X / (1 + self.t)


class Centred(UserPrior):
    def prior(self, X):
        return np.sum(self.w * np.abs(X - self.c))

    def proxf(self, X):
        d = X - self.c
        a = np.abs(d)
        return self.c + d * np.where(a > self.t, 1 - self.t / np.where(a > 0, a, 1), 0)


class Positive(UserPrior):
    def prior(self, X):
        return 0

    def proxf(self, X):
        return np.maximum(np.real(X), 0)


class Wall(Positive):
    def prior(self, X):
        return np.inf if np.min(np.real(X)) < 0 else 0.0


class Group(UserPrior):
    def _norms(self, X):
        return [np.linalg.norm(X[k:k + 2]) for k in range(0, len(X), 2)]

    def prior(self, X):
        return float(sum(self.w[2 * k] * v for k, v in enumerate(self._norms(X))))

    def proxf(self, X):
        out = np.array(X, dtype=np.result_type(X, float))
        for k, v in enumerate(self._norms(X)):
            t = self.t[2 * k]
            out[2 * k:2 * k + 2] *= 0 if v <= t else (v - t) / v
        return out


USER_PRIORS = {"flat": Flat, "ridge": Ridge, "centred": Centred, "positive": Positive, "group": Group}
HARD = {"wall": Wall}


class AffineMeasurement(DenseMeasurement):
    """observations with a known constant part"""

    def __init__(self, A, b):
        super().__init__(A)
        self.b = b

    def forward(self, X):
        return self.A @ X + self.b


class OwnForward(ForwardOperator):
    """a user's own forward operator: predictions and gradient written out, no transform, no measurement"""

    def __init__(self, data, sig_d, M, b):
        super().__init__(data, sig_d, "analysis", nparams=M.shape[1])
        self.M, self.b = M, b

    def forward(self, X):
        return self.M @ X + self.b

    def calc_gradg(self, preds):
        return self.M.conj().T @ (self.invcov @ (preds - self.data))


def user(rng, prior, operator, n=3, m=2, cplx=False, sigma="float", setting="analysis"):
    """a problem put together from a user's own parts: prior "library" or one of USER_PRIORS, operator "affine" (a
    measurement with a constant part), "own" (a forward operator of their own) or "dense" (plain matrices)"""
    own = operator == "own"
    p = dense(rng, n=n, m=m, npix=None if own else int(rng.randint(1, 5)), setting="analysis" if own else setting,
              psetting="synthesis", cplx=cplx, sigma=sigma, Tform="vector")
    if operator != "dense":
        p.b = _r4(rng.normal(0, 1, m) + (1j * rng.normal(0, 1, m) if cplx else 0))
    if own:
        p.op = OwnForward(p.data, p.sig, p.A, p.b)
    elif operator == "affine":
        p.op = ForwardOperator(p.data, p.sig, setting, transform=DenseTransform(p.W) if setting == "synthesis" else None,
                               measurement=AffineMeasurement(p.A, p.b), nparams=n)
    if prior != "library":
        p.psetting = prior
        p.pw = np.round(rng.uniform(0.2, 1.5, n), 3)
        p.T = np.round(rng.uniform(0.05, 0.8, n), 3)
        p.pc = _r4(rng.normal(0, 1, n) + (1j * rng.normal(0, 1, n) if cplx else 0)) if prior == "centred" else None
        p.prior = {**USER_PRIORS, **HARD}[prior](p.pw, p.T, p.pc)
    p.desc += f" {operator} operator, {prior} prior"
    return p
