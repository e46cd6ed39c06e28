"""Quadrature and pixel areas on the sphere are exact."""
import numpy as np
import pyssht
from pxmcmc.utils import mw_map_weights, s2_integrate, pixel_area, polar_cap_area, calc_pixel_areas
from .. import enc
from ..core import attempt


def rec(op, o, desc, **k):
    return dict({"op": op, "exc": o.exc or "", "_desc": desc, "_text": o.text}, **k)


def filled(rc, f):
    if not rc["exc"]:
        try:
            rc.update(f())
        except Exception as e:  # noqa
            rc["exc"], rc["_text"] = "NotRecordable", repr(e)
    return rc


def weights(L, desc=""):
    o = attempt(mw_map_weights, L)
    rc = rec("weights", o, f"mw_map_weights({L}) {desc}", L=int(L), n=0, ndim=0, rmin=[], rmax=[], rsum=[])

    def f():
        w = np.array(o.value)
        out = dict(n=int(w.size), ndim=int(w.ndim))
        if w.shape == (L * (2 * L - 1),):
            W = w.reshape(L, 2 * L - 1)
            out.update(rmin=enc.rvec(W.min(1)), rmax=enc.rvec(W.max(1)), rsum=enc.rvec(W.sum(1)))
        return out
    return filled(rc, f), o.value


def maps(r, L):
    """bandlimited maps and their l=0 coefficient"""
    re, im = r.normal(0, 1, L * L), r.normal(0, 1, L * L)
    flm = np.round(re + 1j * im, 6)
    yield "complex", pyssht.inverse(flm, L, Spin=0), flm[0]
    for l in range(L):
        for m in range(1, l + 1):
            flm[l * l + l - m] = (-1) ** m * np.conj(flm[l * l + l + m])
        flm[l * l + l] = flm[l * l + l].real
    g = pyssht.inverse(flm, L, Spin=0)
    yield "almost real", g.real + 1e-8j * g.imag + 1e-7j * g.real, flm[0] * (1 + 1e-7j)
    yield "real", np.ascontiguousarray(g.real), flm[0].real
    yield "whole numbers", np.full((L, 2 * L - 1), 3), 3 * np.sqrt(4 * np.pi)
    yield "ones and noughts", np.ones((L, 2 * L - 1), dtype=bool), np.sqrt(4 * np.pi)
    yield "constant", np.full((L, 2 * L - 1), 2.5), 2.5 * np.sqrt(4 * np.pi)


def check(c):
    c.model("MCSphere", c.pick("MCSphere", "MCSphereBig"))
    r = c.rng
    recs = []
    order = list(range(1, c.pick(33, 81))) + c.pick([50, 67, 100], [128, 160, 200])
    r.shuffle(order)
    for L in order:
        rc, w = weights(L)
        recs.append(rc)
        if L <= 8 and isinstance(w, np.ndarray) and w.flags.writeable:
            w *= 3.0      # the caller's array is the caller's
            recs.append(weights(L, "again, after the first result was overwritten")[0])
        recs.append(weights(int(r.randint(1, 12)), "interleaved")[0]) if L % 4 == 0 else None
        for kind, f, a00 in maps(r, L) if L <= c.pick(24, 60) or L == 50 else []:
            for lay, g in (("", f.ravel()), ("strided ", np.repeat(f.ravel(), 2)[::2])):
                keep = g.copy()
                o = attempt(s2_integrate, g, L)
                rc = rec("integral", o, f"s2_integrate L={L} {kind} {lay}", L=L, a00=enc.num(a00), out=[], same=bool(np.array_equal(keep, g)))
                recs.append(filled(rc, lambda: dict(out=enc.num(complex(o.value)))))
                if L > 6:
                    break
    for k in range(c.pick(150, 600)):
        rad = [1, 1.0, 2, np.float64(0.5), float(np.round(r.uniform(0.2, 60), 3)), 1000.0][k % 6]
        t = np.sort(np.round(r.uniform(0, np.pi, 2), 6))
        p = np.round(r.uniform(-np.pi, 2 * np.pi, 2), 6)
        if k % 3 == 0:
            p = np.sort(p)
        if k % 7 == 0:
            t[0] = 0.0
        if k % 7 == 1:
            t[1] = np.pi
        if k % 11 == 0:
            p[:] = 0, 2 * np.pi
        if k % 13 == 0:
            t = t[::-1]
        a = [float(t[0]), float(t[1]), float(p[0]), float(p[1])]
        o = attempt(pixel_area, rad, *a)
        rc = rec("rect", o, f"pixel_area({rad}, {a})", r=enc.real(rad), t1=enc.real(a[0]), t2=enc.real(a[1]), p1=enc.real(a[2]), p2=enc.real(a[3]), out=[])
        recs.append(filled(rc, lambda: dict(out=enc.real(float(o.value)))))
        o2 = attempt(polar_cap_area, rad, a[k % 2])
        rc = rec("cap", o2, f"polar_cap_area({rad}, {a[k % 2]})", r=enc.real(rad), t=enc.real(a[k % 2]), out=[])
        recs.append(filled(rc, lambda: dict(out=enc.real(float(o2.value)))))
    for k, L in enumerate(list(range(1, c.pick(22, 50)))):
        for rad in {1, [1.0, 2, 0.5, 6371.0 / 100, 3.7, 1000][k % 6], 2.5 if L < 4 else 1}:
            for default in ((True, False, True) if rad == 1 else (False,) * (1 + (L < 6))):
                o = attempt(calc_pixel_areas, L) if default else attempt(calc_pixel_areas, L, rad)
                rc = rec("areas", o, f"calc_pixel_areas({L}, {rad})", L=L, r=enc.real(rad), shape=[], rmin=[], rmax=[], total=[])

                def f():
                    A = np.array(o.value)
                    return dict(shape=list(A.shape), rmin=enc.rvec(A.min(1)), rmax=enc.rvec(A.max(1)), total=enc.real(float(A.sum())))
                recs.append(filled(rc, f))
                if isinstance(o.value, np.ndarray) and o.value.flags.writeable:
                    o.value *= 3.0            # the caller's array is the caller's
    c.validate("TrSphere", [x for x in recs if x], label="mw_map_weights, s2_integrate, pixel areas")
