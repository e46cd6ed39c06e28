"""The spherical wavelet transform is invertible, adjoint-exact, well laid out."""
from fractions import Fraction

import numpy as np
import pyssht
from pxmcmc.transforms import SphericalWaveletTransform, IdentityTransform
from .. import enc
from ..core import attempt
from .c17 import filled
from .layout import CONFIGS, total, bandlimits, hlen, htotal
from .ops import matrix_record, pairs_record, FORMS


def bl_map(r, L, spin, kind):
    flm = np.round(r.normal(0, 1, L * L) + 1j * r.normal(0, 1, L * L), 5)
    flm[:spin ** 2] = 0
    f = pyssht.inverse(flm, L, Spin=spin).ravel()
    if kind == "real":
        for l in range(L):
            for m in range(1, l + 1):
                flm[l * l + l - m] = (-1) ** m * np.conj(flm[l * l + l + m])
            flm[l * l + l] = flm[l * l + l].real
        f = np.ascontiguousarray(pyssht.inverse(flm, L, Spin=0).ravel().real)
    elif kind == "int":
        f = np.full(L * (2 * L - 1), int(r.randint(-5, 6)))
    elif kind == "strided":
        f = np.repeat(f, 2)[::2]
    elif kind == "one degree":
        l = int(r.randint(abs(spin), L))
        flm[:l * l] = 0
        flm[(l + 1) ** 2:] = 0
        f = pyssht.inverse(flm, L, Spin=spin).ravel()
    elif kind == "frozen":
        f = f.copy()
        f.flags.writeable = False
    return f


def ident(c, r, recs):
    for n in (1, 2, 5, 9):
        T = IdentityTransform()
        for a, b in ((T.forward, T.forward_adjoint), (T.inverse, T.inverse_adjoint)):
            recs.append(matrix_record(r, a, b, n, n, f"IdentityTransform n={n}", known="identity"))


def harmonic(c, r, chosen, wav, ops):
    """the same transform between harmonic coefficients"""
    budget = c.pick(24, 80)
    for k, (L, B, J0, dirs, spin) in enumerate(chosen[::c.pick(3, 1)] + [(20, 2, 1, 1, 0), (33, 3, 2, 1, 2), (24, 1.5, 2, 2, 0)]):
        d = f"L={L} B={B} J_min={J0} dirs={dirs} spin={spin} harmonic"
        fr = Fraction(B)
        key = {"L": L, "bn": fr.numerator, "bd": fr.denominator, "J0": J0, "dirs": dirs, "harm": True}
        o = attempt(SphericalWaveletTransform, L, B, J0, dirs, spin, True) if k % 2 else attempt(SphericalWaveletTransform, L, B, J0, dirs=dirs, spin=spin, harmonic=True)
        if o.exc:
            wav.append({"op": "construct", "exc": o.exc, "_text": o.text, "_desc": d})
            continue
        T = o.value
        n, m, bls = L * L, htotal(L, B, J0, dirs), bandlimits(L, B, J0)
        flm = np.round(r.normal(0, 1, n) + 1j * r.normal(0, 1, n), 5)
        flm[:spin ** 2] = 0
        o = attempt(T.forward, flm)
        rc = dict({"op": "layout", "exc": o.exc or "", "_text": o.text, "_desc": "layout " + d}, **key)
        wav.append(filled(rc, lambda: dict(ncoefs=int(T.ncoefs), nscal=int(T.nscal), nwav=int(T.nwav), jmax=int(T.J_max), nscales=int(T.nscales), len=int(np.size(o.value)))))
        for kind, x in (("complex", flm), ("real", flm.real.copy()), ("one", np.where(np.arange(n) == n - 1, 1 + 2j, 0))):
            u = [1.0, 2.0 ** -34, 2.0 ** 20][len(wav) % 3]
            keep = x.copy()
            o = attempt(lambda: np.asarray(T.inverse(T.forward(x * u))) / u)
            rc = {"op": "roundtrip", "exc": o.exc or "", "_text": o.text, "_desc": f"inverse(forward(x)) {kind} {d}", "x": enc.vec(x), "out": [], "same": bool(np.array_equal(keep, x))}
            wav.append(filled(rc, lambda: dict(out=enc.vec(np.asarray(o.value)))))
        if dirs == 1 and L <= 24:
            def modes():
                pix = SphericalWaveletTransform(L, B, J0, 1, spin).forward(np.ascontiguousarray(pyssht.inverse(flm, L, Spin=spin).ravel()))
                out, at = [], 0
                for i, b in enumerate(bls):
                    w = b * (2 * b - 1)
                    v = pyssht.forward(np.ascontiguousarray(pix[at:at + w].reshape(b, 2 * b - 1)), b, Spin=0)
                    if i:       # wavelet coefficients are expanded in Wigner functions
                        v = v / np.concatenate([np.full(2 * l + 1, np.sqrt((2 * l + 1) / (16 * np.pi ** 3))) for l in range(b)])
                    out.append(v)
                    at += w
                return dict(x=enc.vec(np.concatenate(out)), out=enc.vec(np.asarray(T.forward(flm))))
            wav.append(filled({"op": "modes", "exc": "", "_text": "", "_desc": "coefficients " + d, "x": [], "out": []}, modes))
        if (dirs < 4 or min(bls[1:]) >= dirs) and L <= 10:
            for l in range(abs(spin), L):
                e = np.zeros(n, dtype=complex)
                e[l * l:(l + 1) ** 2] = np.exp(1j * r.uniform(0, 6, 2 * l + 1))
                o = attempt(T.forward, e)
                rc = dict({"op": "support", "exc": o.exc or "", "_text": o.text, "_desc": f"degree {l} {d}", "l": l, "blocks": []}, **key)

                def blocks():
                    v = np.abs(np.asarray(o.value))
                    if v.shape != (m,):
                        raise ValueError(v.shape)
                    out, at = [], 0
                    for i, b in enumerate(bls):
                        w = b * b if i == 0 else hlen(b, dirs)
                        out.append(float(v[at:at + w].max()))
                        at += w
                    return dict(blocks=enc.rvec(out))
                wav.append(filled(rc, blocks))
        if n * m <= c.pick(2500, 9000) and budget > 0:
            budget -= 1
            ops.append(matrix_record(r, T.forward, T.forward_adjoint, n, m, "forward " + d, forms=["real", "complex", "strided", "int"], tol=8))
            ops.append(matrix_record(r, T.inverse, T.inverse_adjoint, m, n, "inverse " + d, forms=["real", "complex", "strided", "int"], tol=8))
        else:
            ops.append(pairs_record(r, T.forward, T.forward_adjoint, n, m, "forward " + d, count=2, tol=7))
            ops.append(pairs_record(r, T.inverse, T.inverse_adjoint, m, n, "inverse " + d, count=2, tol=7))


def check(c):
    c.model("MCLayout", c.pick("MCLayout", "MCLayoutBig"))
    r = c.rng
    ops, wav, objs = [], [], []
    ident(c, r, ops)
    cfgs = list(CONFIGS)
    r.shuffle(cfgs)
    variants = [(1, 0), (1, 0), (2, 0), (1, 2), (3, 2), (2, 1), (1, 1), (3, 0), (1, -2), (2, -1), (4, 0), (1, 3)]
    chosen = []
    for k, (L, B, J0) in enumerate(cfgs):
        dirs, spin = variants[k % len(variants)]
        if dirs > L or abs(spin) >= L:
            dirs, spin = 1, 0
        chosen.append((int(L), B if B != int(B) else int(B), int(J0), dirs, spin))
        if k % 5 == 0:
            chosen.append((int(L), float(B), int(J0), 1, 0))
    budget_m = c.pick(30, 90)
    for L, B, J0, dirs, spin in chosen:
        d = f"L={L} B={B} J_min={J0} dirs={dirs} spin={spin}"
        fr = Fraction(B)
        key = {"L": L, "bn": fr.numerator, "bd": fr.denominator, "J0": J0, "dirs": dirs, "harm": False}
        o = attempt(SphericalWaveletTransform, L, B, J0, dirs, spin) if len(objs) % 2 else attempt(SphericalWaveletTransform, L=L, B=B, J_min=J0, dirs=dirs, spin=spin)
        if o.exc:
            wav.append({"op": "construct", "exc": o.exc, "_text": o.text, "_desc": d})
            continue
        T = o.value
        n, m = L * (2 * L - 1), total(L, B, J0, dirs)
        o = attempt(T.forward, bl_map(r, L, spin, "complex"))
        rc = dict({"op": "layout", "exc": o.exc or "", "_text": o.text, "_desc": "layout " + d}, **key)
        wav.append(filled(rc, lambda: dict(ncoefs=int(T.ncoefs), nscal=int(T.nscal), nwav=int(T.nwav), jmax=int(T.J_max), nscales=int(T.nscales), len=int(np.size(o.value)))))
        objs.append((T, L, spin, d))
        for kind in (["complex", "real", "int", "strided", "frozen", "one degree"] if spin == 0 and L <= 6 else ["complex", "real"] if spin == 0 else ["complex", "strided"]):
            if L > 8 and not c.thorough and kind == "int":
                continue
            f = bl_map(r, L, spin, kind)
            u = [1.0, 2.0 ** -34, 2.0 ** 20][len(wav) % 3] if kind in ("complex", "real", "one degree") else 1.0
            if u != 1:
                f = f * u
            keep = f.copy()
            o = attempt(lambda: np.asarray(T.inverse(T.forward(f))) / u)
            if u != 1:
                f, keep = f / u, keep / u
            rc = {"op": "roundtrip", "exc": o.exc or "", "_text": o.text, "_desc": f"inverse(forward(x)) {kind} {d}", "x": enc.vec(f), "out": [], "same": bool(np.array_equal(keep, f))}
            wav.append(filled(rc, lambda: dict(out=enc.vec(np.asarray(o.value)))))
        # response of the scales to single degrees
        bls = bandlimits(L, B, J0)
        # pys2let packs fewer orientations of a scale whose bandlimit is below their number, and pads the end
        if (L <= 10 or c.thorough) and (dirs < 4 or min(bls[1:]) >= dirs):
            for l in range(abs(spin), L):
                e = np.zeros(L * L, dtype=complex)
                e[l * l:(l + 1) ** 2] = np.exp(1j * r.uniform(0, 6, 2 * l + 1))
                f = pyssht.inverse(e, L, Spin=spin).ravel()
                o = attempt(T.forward, f)
                rc = dict({"op": "support", "exc": o.exc or "", "_text": o.text, "_desc": f"degree {l} {d}", "l": l, "blocks": []}, **key)

                def blocks():
                    v = np.abs(np.asarray(o.value))
                    if v.shape != (m,):
                        raise ValueError(v.shape)
                    out, at = [], 0
                    for k, b in enumerate(bls):
                        w = b * (2 * b - 1) * (1 if k == 0 else 2 * dirs - 1)
                        out.append(float(v[at:at + w].max()))
                        at += w
                    return dict(blocks=enc.rvec(out))
                wav.append(filled(rc, blocks))
        if n * m <= c.pick(4200, 12000) and budget_m > 0:
            budget_m -= 1
            forms = FORMS if n * m < 800 else ["real", "complex", "strided", "imag unit", "int", "nearly real", "spread", "complex *2^-20"]
            ops.append(matrix_record(r, T.forward, T.forward_adjoint, n, m, "forward " + d, forms=forms, tol=8))
            ops.append(matrix_record(r, T.inverse, T.inverse_adjoint, m, n, "inverse " + d, forms=forms, tol=8))
        elif m < c.pick(2500, 10000):
            ops.append(pairs_record(r, T.forward, T.forward_adjoint, n, m, "forward " + d, count=2, tol=7))
            ops.append(pairs_record(r, T.inverse, T.inverse_adjoint, m, n, "inverse " + d, count=2, tol=7))
    # larger bandlimits
    for k, (L, B, J0, dirs, spin) in enumerate(c.pick([(17, 2, 0, 1, 0), (20, 3, 1, 1, 0), (24, 2, 2, 1, 2), (32, 2, 0, 1, 0), (33, 1.5, 3, 1, 0), (18, 2, 1, 2, 0)],
                                                      [(L, B, J, d, s) for L in (17, 24, 32, 33, 48, 64) for B in (2, 1.5, 3) for J in (0, 3) for d, s in ((1, 0), (1, 2), (2, 0))])):
        d = f"L={L} B={B} J_min={J0} dirs={dirs} spin={spin}"
        o = attempt(SphericalWaveletTransform, L, B, J0, dirs, spin)
        if o.exc:
            wav.append({"op": "construct", "exc": o.exc, "_text": o.text, "_desc": d})
            continue
        T = o.value
        n, m = L * (2 * L - 1), total(L, B, J0, dirs)
        for kind, u in (("complex", 1.0), ("one degree", 2.0 ** -34), ("real" if spin == 0 else "complex", 2.0 ** -20)):
            f = bl_map(r, L, spin, kind)
            o = attempt(lambda: np.asarray(T.inverse(T.forward(f * u))) / u)
            rc = {"op": "roundtrip", "exc": o.exc or "", "_text": o.text, "_desc": f"inverse(forward(x)) {kind} unit {u} {d}", "x": enc.vec(f), "out": [], "same": True}
            wav.append(filled(rc, lambda: dict(out=enc.vec(np.asarray(o.value)))))
        fr = Fraction(B)
        o = attempt(T.forward, f)
        rc = {"op": "layout", "exc": o.exc or "", "_text": o.text, "_desc": "layout " + d, "L": L, "bn": fr.numerator, "bd": fr.denominator, "J0": J0, "dirs": dirs, "harm": False}
        wav.append(filled(rc, lambda: dict(ncoefs=int(T.ncoefs), nscal=int(T.nscal), nwav=int(T.nwav), jmax=int(T.J_max), nscales=int(T.nscales), len=int(np.size(o.value)))))
        ops.append(pairs_record(r, T.forward, T.forward_adjoint, n, m, "forward " + d, count=2, tol=7))
        ops.append(pairs_record(r, T.inverse, T.inverse_adjoint, m, n, "inverse " + d, count=2, tol=7))
    harmonic(c, r, chosen, wav, ops)
    # objects made earlier still work after the others were made and used
    for T, L, spin, d in objs[:40]:
        f = bl_map(r, L, spin, "complex")
        o = attempt(lambda: T.inverse(T.forward(f)))
        rc = {"op": "roundtrip", "exc": o.exc or "", "_text": o.text, "_desc": f"later inverse(forward(x)) {d}", "x": enc.vec(f), "out": [], "same": True}
        wav.append(filled(rc, lambda: dict(out=enc.vec(np.asarray(o.value)))))
    c.validate("TrWavelet", wav, label="layout, round trips, bands", heap="8g")
    c.validate("TrOperator", ops, label="adjoints", heap="14g")
