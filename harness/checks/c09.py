"""Predictions and gradient describe one Gaussian data fidelity."""
import numpy as np
from scipy import sparse
from .. import enc, problems, runs
from ..core import attempt
from . import posterior

WHAT = ("forward", "gradg")


def preds(r, p, k=0):
    """predictions to differentiate at: far from the data, near them, equal to them, almost real, of spread magnitudes"""
    q = np.round(r.normal(0, 2, p.m), 4)
    w = np.round(r.normal(0, 2, p.m), 4)
    cx = np.iscomplexobj(p.data) or p.cplx
    form = ["plain", "plain", "near", "almost real", "spread", "some equal", "equal"][k % 7]
    if form == "near":
        return p.data + q * 2.0 ** -12 + (1j * w * 2.0 ** -14 if cx else 0)
    if form == "almost real" and cx:
        return q + 1j * w * 2.0 ** -16
    if form == "spread":
        return (q + (1j * w if cx else 0)) * 2.0 ** -r.randint(-6, 14, p.m)
    if form == "some equal":
        return np.where(r.rand(p.m) < 0.5, p.data, q)
    if form == "equal":
        return p.data.copy()
    return q + 1j * w if cx else q


def at(r, p, k):
    x = runs.start(r, p)
    if k % 4 == 1:
        x = x * 2.0 ** -r.randint(0, 16, p.n)
    if k % 4 == 2 and p.cplx:
        x = x.real + 1j * x.imag * 2.0 ** -15
    return x


UNITS = [2.0 ** -10, 2.0 ** -20, 2.0 ** 10, 2.0 ** -30]


def check(c):
    r = c.rng
    recs = []
    for k, p in enumerate(problems.variety(r, c.pick(110, 700))):
        buf = np.zeros(p.n, dtype=complex if p.cplx else float)
        qbuf = np.zeros(p.m, dtype=complex)
        for rep in range(3):
            x = runs.start(r, p, scale=[1, 4, 0.01][rep])
            if rep == 1 and k % 3 == 0:
                x = np.repeat(x, 2)[::2]
            if rep == 2 and k % 4 == 0:
                x = np.round(3 * x.real).astype(int)
            recs.append(posterior.point(p, x, None if rep == 0 else preds(r, p, 3 * k + rep), what=WHAT, buf=buf if rep != 2 else None, qbuf=qbuf if k % 3 else None))
    # small and large values, problems in other units
    for k in range(c.pick(90, 500)):
        cplx = bool(k % 2)
        mixed = k % 7 == 2          # a complex operator between real parameters or data
        p = problems.dense(r, n=int(r.randint(1, 5)), m=int(r.randint(1, 6)), npix=int(r.randint(1, 4)), cplx=cplx,
                           cdata=False if mixed else True if k % 5 == 0 else None, cop=True if mixed else None, sigma=problems.SIGMA_FORMS[k % 6], setting=["synthesis", "analysis"][k // 2 % 2],
                           unit=UNITS[k % 4] if k % 3 == 0 else 1.0, escale=2.0 ** [0, 14, 0, -9, 0, 22][k % 6])
        for rep in range(2):
            recs.append(posterior.point(p, at(r, p, k + rep), preds(r, p, 2 * k + rep), what=WHAT))
    c.validate("TrPosterior", recs, label="forward and calc_gradg", heap="8g")
    # larger and lopsided sizes
    recs = []
    for k, (n, m, npix) in enumerate([(1, 1, 1), (1, 40, 1), (40, 1, 3), (30, 30, 2), (5, 70, 5), (64, 3, 16), (3, 129, 2), (2, 3, 50)]):
        for cplx in (False, True):
            p = problems.dense(r, n=n, m=m, npix=npix, cplx=cplx, sigma=problems.SIGMA_FORMS[k % 5], scale=0.3,
                               setting=["synthesis", "analysis"][k % 3 == 2])
            recs.append(posterior.point(p, runs.start(r, p), preds(r, p), what=WHAT))
    c.validate("TrPosterior", recs, label="larger sizes")
    # operators of the library, including directional, spin and larger bandlimits
    recs = []
    combos = [("swt", 2, 2, 0, 1, 0), ("path", 3, 2, 0, 1, 0), ("swt", 3, 2, 1, 1, 0), ("path", 3, 3, 0, 1, 0), ("swt", 3, 1.5, 2, 1, 0),
              ("swt", 3, 2, 0, 2, 0), ("path", 3, 2, 0, 2, 0), ("swt", 3, 2, 0, 1, 2), ("path", 4, 2, 1, 1, 0), ("swt", 4, 2, 0, 1, 0)]
    if c.thorough:
        combos += [("swt", 5, 2, 1, 1, 0), ("swt", 4, 3, 0, 2, 2), ("path", 5, 2, 0, 1, 0), ("path", 6, 2, 2, 1, 0)]
    for k, (kind, L, B, J, N, spin) in enumerate(combos):
        for setting in ("synthesis", "analysis"):
            cplx = bool((k + (setting == "analysis")) % 3)
            if spin:
                cplx = True
            o = attempt(problems.wavelet, r, kind=kind, L=L, B=B, J_min=J, setting=setting, prior="l1", dirs=N, spin=spin,
                        sigma=problems.SIGMA_FORMS[k % 6], cplx=cplx)
            if o.exc:
                recs.append({"op": "raise", "want": "", "exc": o.exc, "_desc": f"{kind} {L} {B} {J} {N} {spin} {setting}", "_text": o.text})
                continue
            p = o.value
            for rep in range(2):
                # the wavelet operators return complex maps of real coefficients: q real or complex
                q = preds(r, p, k) if rep else None
                recs.append(posterior.point(p, at(r, p, k + rep), q, what=WHAT))
    for L in c.pick([2, 3, 4], [2, 3, 4, 5, 6]):
        for m, g in ((True, True), (False, True), (True, False), (False, False)):
            p = problems.lensing(r, L=L, masked=m, ngal=g, sigma="vector")
            recs.append(posterior.point(p, runs.start(r, p), preds(r, p), what=WHAT))
    c.validate("TrPosterior", recs, label="library operators", heap="8g")
    # settings
    recs = []
    F = problems.ForwardOperator
    A = np.eye(2)
    for s in ["", "Analysis", "SYNTHESIS", "analysis ", "synth", "both", None, 0, 1, True, "harmonic", "analysissynthesis"]:
        recs.append(posterior.raises(f"setting {s!r}", "ValueError", F, np.zeros(2), 1.0, s, measurement=problems.DenseMeasurement(A)))
        recs.append(posterior.raises(f"wavelet operator setting {s!r}", "ValueError", problems.SphericalWaveletTransformOperator,
                                     np.zeros(6), 1.0, s, 2, 2, 0))
        recs.append(posterior.raises(f"path operator setting {s!r}", "ValueError", problems.PathIntegralOperator,
                                     sparse.csr_matrix(np.ones((2, 6))), np.zeros(2), 1.0, s, 2, 2, 0))
    for s in ("analysis", "synthesis"):
        recs.append(posterior.raises(f"setting {s!r}", "", F, np.zeros(2), 1.0, s, measurement=problems.DenseMeasurement(A)))
    c.validate("TrPosterior", recs, label="settings")
