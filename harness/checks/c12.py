"""Weak lensing maps convergence to shear with the right kernel and mask."""
import numpy as np
import pyssht
from pxmcmc.measurements import WeakLensing, WeakLensingHarmonic
from .. import enc
from ..core import attempt
from .c11 import masks
from .c17 import filled


def coefs(r, n, k):
    x = np.round(r.normal(0, 1, n) + 1j * r.normal(0, 1, n), 4)
    return [x, x.real.copy(), 1j * x.real, np.round(x * 1000), np.repeat(x, 2)[::2], x.real + 1j * x.imag * 2.0 ** -16, x * 2.0 ** -r.randint(0, 20, n)][k % 7]


def rec(op, desc, o=None, **k):
    return dict({"op": op, "exc": (o.exc or "") if o else "", "_text": o.text if o else "", "_desc": desc}, **k)


def harmonic(c, recs):
    r = c.rng
    order = list(range(1, c.pick(17, 41))) + c.pick([32], [50, 64])
    r.shuffle(order)
    objs = {}
    for L in order + order[:6]:
        again = L in objs
        if not again:
            # the pixel operator inherits the estimator, so alternate
            o = attempt(WeakLensingHarmonic, L)
            if o.exc:
                recs.append(rec("construct", f"WeakLensingHarmonic({L})", o))
                continue
            objs[L] = o.value
        H = objs[L]
        for k in range(3):
            x = coefs(r, L * L, k + L)
            keep = x.copy()
            for name, f in (("forward", H.forward), ("adjoint", H.adjoint)):
                o = attempt(f, x)
                rc = rec("harmonic", f"WeakLensingHarmonic({L}).{name} case {k} again={again}", o, L=L, x=enc.vec(x), out=[], same=True)
                recs.append(filled(rc, lambda: dict(out=enc.vec(o.value), same=bool(np.array_equal(keep, x)))))
            o = attempt(H.sks_estimate, x)
            rc = rec("sks", f"WeakLensingHarmonic({L}).sks_estimate case {k} again={again}", o, L=L, x=enc.vec(x), out=[], same=True)
            recs.append(filled(rc, lambda: dict(out=enc.vec(o.value), same=bool(np.array_equal(keep, x)))))
            o = attempt(lambda: H.sks_estimate(H.forward(x)))
            rc = rec("recover", f"Kaiser-Squires of the shear, L={L} case {k}", o, L=L, x=enc.vec(x), out=[])
            recs.append(filled(rc, lambda: dict(out=enc.vec(o.value))))


def large(c, recs):
    """every degree of large bandlimits, at sampled orders"""
    r = c.rng
    for L in c.pick([33, 50, 101, 160, 257], [33, 50, 64, 101, 129, 160, 200, 257, 400, 512]):
        o = attempt(WeakLensingHarmonic, L)
        if o.exc:
            recs.append(rec("construct", f"WeakLensingHarmonic({L})", o))
            continue
        H = o.value
        for k in range(3):
            x = coefs(r, L * L, k)
            keep = x.copy()
            ls = np.arange(L)
            idx = sorted(set((ls * ls + r.randint(0, 2 * ls + 1)).tolist()) | {0, 1, 2, 3, L * L - 1} | set((ls * ls).tolist()[-9:]))
            for name, f in (("forward", H.forward), ("adjoint", H.adjoint), ("sks_estimate", H.sks_estimate)):
                o = attempt(f, x)
                rc = rec("sampled", f"WeakLensingHarmonic({L}).{name} case {k}", o, L=L, deg=[int(np.sqrt(i + 0.5)) for i in idx], x=enc.vec(x[idx]),
                         out=[], same=True, len=0, inverse=name == "sks_estimate")
                recs.append(filled(rc, lambda: dict(out=enc.vec(np.asarray(o.value)[idx]), len=int(np.size(o.value)), same=bool(np.array_equal(keep, x)))))


def pixel(c, recs):
    r = c.rng
    for L in range(1, c.pick(6, 8)):
        np_ = L * (2 * L - 1)
        S2 = np.zeros((np_, L * L), dtype=complex)
        for k in range(L * L):
            e = np.zeros(L * L, dtype=complex)
            e[k] = 1
            S2[:, k] = pyssht.inverse(e, L, Spin=2).ravel() if k >= 4 else 0
        tab = [enc.vec(row) for row in S2]
        for name, mask, ngal in masks(r, L):
            # galaxy counts at masked pixels are irrelevant
            if ngal is not None and mask is not None and name == "float mask":
                ngal = np.where(np.asarray(mask).astype(bool), ngal, np.nan)
            keepm = None if mask is None else np.array(mask)
            keepn = None if ngal is None else np.array(ngal)
            o = attempt(WeakLensing, L, mask=mask, ngal=ngal)
            if o.exc:
                recs.append(rec("construct", f"WeakLensing({L}) {name}", o))
                continue
            W = o.value
            mlist = [1] * np_ if mask is None else [int(bool(v)) for v in np.asarray(mask).ravel()]
            glist = [] if ngal is None else [enc.real(float(v)) if np.isfinite(v) else enc.real(0) for v in np.asarray(ngal).ravel()]
            for k in range(5):
                klm = np.round(r.normal(0, 1, L * L) + 1j * r.normal(0, 1, L * L), 4)
                kap = np.ascontiguousarray(pyssht.inverse(klm, L, Spin=0))
                if k in (1, 3):      # a real convergence map, an almost real one
                    kap = np.ascontiguousarray(kap.real)
                    if k == 3:
                        kap = kap + 1j * np.ascontiguousarray(pyssht.inverse(klm[::-1].copy(), L, Spin=0).real) * 2.0 ** -14
                    klm = pyssht.forward(kap.astype(complex), L, Spin=0)
                if k == 4:
                    klm, kap = klm * 2.0 ** -12, kap * 2.0 ** -12
                x = kap.ravel().copy() if k != 2 else kap
                keep = x.copy()
                o = attempt(W.forward, x)
                rc = rec("shear", f"WeakLensing({L}).forward {name} map {k}", o, L=L, klm=enc.vec(klm), S2=tab, mask=mlist, ngal=glist, out=[], same=True)

                def f():
                    v = np.asarray(o.value)
                    if v.ndim != 1:
                        raise ValueError(v.shape)
                    same = np.array_equal(keep, x) and (mask is None or np.array_equal(keepm, mask)) and (ngal is None or np.array_equal(keepn, ngal, equal_nan=ngal.dtype.kind == "f"))
                    return dict(out=enc.vec(v), same=bool(same))
                recs.append(filled(rc, f))
            # the masking operators by themselves
            fm = np.round(r.normal(0, 1, (L, 2 * L - 1)) + 1j * r.normal(0, 1, (L, 2 * L - 1)), 4)
            if L % 2:
                fm = np.asfortranarray(fm)
            x = np.round(r.normal(0, 1, sum(mlist)), 4) * (1 + 0.5j)
            kf, kx = fm.copy(), x.copy()

            def both():
                a, b = W.mask_forward(fm), W.mask_adjoint(x)
                a2, b2 = W.mask_forward(fm * 2 + 1), W.mask_adjoint(x * 3 - 1)      # must not disturb what was returned
                W.forward(kap.ravel().astype(complex)), W.adjoint(x.astype(complex))
                return a, b
            o = attempt(both)
            rc = rec("mask", f"mask operators L={L} {name}", o, mask=mlist, f=enc.vec(fm.ravel()), x=enc.vec(x), fwd=[], adj=[], same=True)

            def g():
                a, b = np.asarray(o.value[0]), np.asarray(o.value[1])
                if a.ndim != 1 or b.shape != (L, 2 * L - 1):
                    raise ValueError((a.shape, b.shape))
                return dict(fwd=enc.vec(a), adj=enc.vec(b.ravel()), same=bool(np.array_equal(kf, fm) and np.array_equal(kx, x)))
            recs.append(filled(rc, g))


def refusals(c, recs):
    def refuse(desc, f, *a, **k):
        o = attempt(f, *a, **k)
        recs.append({"op": "refuse", "exc": o.exc or "", "_desc": desc})
    for cls in (WeakLensingHarmonic, WeakLensing):
        for L in (0, -1, -2, -7):
            refuse(f"{cls.__name__}({L})", cls, L)
    for L in (1, 2, 3, 4, 6, 9):
        bad = [(L + 1, 2 * L - 1), (L, 2 * L), (2 * L - 1, L) if L > 1 else (2, 1), (L * (2 * L - 1),), (L, 2 * L - 1, 1), (1, 1) if L > 1 else (1, 2),
               (L, 2 * L - 2) if L > 1 else (2, 2)]
        if L > 1:
            bad.append((2 * L - 1, L))
            bad.append((1, 2 * L - 1))
            bad.append((L, 1))
        for sh in bad:
            refuse(f"WeakLensing({L}, mask of shape {sh})", WeakLensing, L, mask=np.ones(sh))
            refuse(f"WeakLensing({L}, bool mask of shape {sh})", WeakLensing, L, mask=np.ones(sh, dtype=bool))
            refuse(f"WeakLensing({L}, ngal of shape {sh})", WeakLensing, L, ngal=np.ones(sh))
            m = np.ones((L, 2 * L - 1), dtype=int)
            m[0, 0] = 0
            refuse(f"WeakLensing({L}, mask, ngal of shape {sh})", WeakLensing, L, mask=m, ngal=np.ones(sh))
            o = attempt(WeakLensing, L, mask=m)
            if not o.exc:
                W = o.value
                for v in (np.nan, complex(0, np.nan), complex(np.nan, 1)):
                    for at in (0, -1):
                        f, x = np.ones((L, 2 * L - 1), dtype=type(v)), np.ones(int(m.sum()), dtype=type(v))
                        if x.size:
                            f[m == 1] = np.where(np.arange(x.size) == at % x.size, v, 1)
                            x[at] = v
                            refuse(f"mask_forward L={L} of a signal with {v} at a pixel in use", W.mask_forward, f)
                            refuse(f"mask_adjoint L={L} of observations with {v}", W.mask_adjoint, x)
            if not o.exc:
                refuse(f"mask_forward L={L} of shape {sh}", o.value.mask_forward, np.ones(sh))
                if np.prod(sh) != L * (2 * L - 1):
                    refuse(f"forward L={L} of {np.prod(sh)} pixels", o.value.forward, np.ones(int(np.prod(sh)), dtype=complex))


def check(c):
    c.model("MCLensing")
    recs, pix = [], []
    harmonic(c, recs)
    large(c, recs)
    refusals(c, recs)
    pixel(c, pix)
    c.validate("TrLensing", recs, label="harmonic lensing, refusals")
    c.validate("TrLensing", pix, label="pixel lensing", heap="12g")
