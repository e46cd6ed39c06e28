"""Thresholding, masking and noise helpers do what they say."""
import numpy as np
from pxmcmc.utils import hard, snr, build_mask
from .. import enc
from ..core import attempt
from .c17 import filled


def gauss_ints(r, n, cplx, ties):
    """integers / Gaussian integers; equal moduli only where the two numbers differ by sign or by swapping the parts"""
    out, seen = [], {}
    while len(out) < n:
        if ties and out and r.rand() < 0.45:
            a, b = out[r.randint(len(out))]
            a, b = a * r.choice([-1, 1]), b * r.choice([-1, 1])
            out.append((int(a), int(b)))
            continue
        a, b = int(r.randint(-60, 61)), int(r.randint(-60, 61)) if cplx else 0
        if seen.setdefault(a * a + b * b, (abs(a), abs(b))) != (abs(a), abs(b)):
            continue
        out.append((a, b))
    return out


def hard_cases(c, recs):
    r = c.rng
    k = 0
    for n in [1, 2, 3, 4, 5, 7, 8, 10, 16, 20, 33, 50, 97] + ([100, 101, 64, 300] if c.thorough else []):
        for T in [None, 0, 0.05, 0.1, 0.25, 0.3, 0.5, 2 / 3, 0.75, 0.9, 1, 1.0, 1.0 / n, (n - 1) / n]:
            k += 1
            for cplx in (False, True):
                for ties in (False, True):
                    g = gauss_ints(r, n, cplx, ties)
                    if k % 6 == 0:
                        g = [g[0]] * n        # all equal
                    if k % 5 == 0:
                        g[::2] = [(0, 0)] * len(g[::2])
                    scale = [1.0, 0.25, 0.5, 2.0][k % 4]
                    x = np.array([complex(a, b) if cplx else a for a, b in g])
                    if not (k % 8 == 0 and scale == 1.0):
                        x = x * scale
                    else:
                        scale = 1
                    X = np.repeat(x, 2)[::2] if k % 3 == 0 else x.copy()
                    o = attempt(hard, X, **({} if T is None else {"T": T}))
                    TT = 0.1 if T is None else T
                    rc = {"op": "hard", "x": [list(z) for z in g], "k": int(TT * n), "out": [], "exc": o.exc or "", "_text": o.text,
                          "_desc": f"hard n={n} T={T} complex={cplx} ties={ties} x={x.tolist()[:20]}"}

                    def f():
                        v = np.asarray(o.value)
                        if v.shape != (n,):
                            raise ValueError(v.shape)
                        v = v / scale
                        re, im = np.real(v), np.imag(v)
                        if np.any(re != np.rint(re)) or np.any(im != np.rint(im)):
                            raise ValueError("changed values")
                        return dict(out=[[int(a), int(b)] for a, b in zip(re, im)])
                    recs.append(filled(rc, f))


def snr_cases(c, recs):
    r = c.rng
    for k in range(c.pick(80, 400)):
        n = [1, 2, 5, 12, 30][k % 5]
        shape = (n,) if k % 3 else (n, 3)
        s = np.round(r.normal(0, 10 ** r.uniform(-1, 2), shape), 5)
        e = np.round(r.normal(0, 10 ** r.uniform(-1, 1), shape), 5)
        if k % 4 == 1:
            s = s + 1j * np.round(r.normal(0, 3, shape), 5)
        if k % 4 == 2:
            s = s + 1j * np.round(r.normal(0, 3, shape), 5)
            e = e + 1j * np.round(r.normal(0, 3, shape), 5)
        if k % 7 == 0:
            s, e = np.rint(s).astype(int) + 1, np.rint(e).astype(int) + 2
        if k % 14 == 3:
            s, e = (r.randint(-120, 121, shape) + 0).astype(np.int8), r.randint(1, 200, shape).astype(np.uint8)
        if k % 14 == 5:
            s, e = r.randint(0, 2, shape).astype(bool), r.randint(-120, 121, shape).astype(np.int16) | 1
        if k % 9 == 0:
            e = e[:1]
        if np.linalg.norm(e) == 0 or np.linalg.norm(s) == 0:
            continue
        keep = s.copy(), e.copy()
        o = attempt(snr, s, e)
        rc = {"op": "snr", "signal": enc.vec(s), "noise": enc.vec(e), "ratio": [], "same": bool(np.array_equal(keep[0], s) and np.array_equal(keep[1], e)),
              "exc": o.exc or "", "_text": o.text, "_desc": f"snr case {k} shape {shape} {s.dtype} {e.dtype}"}
        recs.append(filled(rc, lambda: dict(ratio=enc.real(float(10 ** (float(o.value) / 20))))))


def mask_cases(c, recs):
    r = c.rng
    sizes = [0, 1, 5, 10, None, 20, 33.3, 45, 60, 62.872, 75.5, 89, 90, 100]
    for L in list(range(1, 10)) + c.pick([12, 16, 21], [12, 13, 16, 20, 21, 25, 32, 40, 64]):
        narrow, last = [], -1
        for i, size in enumerate(sizes if L > 5 else [x for x in sizes for _ in (0, 1)]):
            if L > 9 and not c.thorough and i % 2 == 0 and size != 20 and size is not None:
                continue
            o = attempt(build_mask, L, **({} if size is None else {"size": size}), seconds=120)
            sz = 20 if size is None else size
            rc = {"op": "mask", "L": L, "size": int(round(sz * 1000)), "shape": [], "mask": [], "narrow": narrow, "exc": o.exc or "", "_text": o.text,
                  "_desc": f"build_mask({L}, {size})"}

            def f():
                m = np.asarray(o.value)
                return dict(shape=list(m.shape), mask=[[int(v) if v in (0, 1) else 7 for v in row] for row in m])
            recs.append(filled(rc, f))
            if isinstance(o.value, np.ndarray) and o.value.flags.writeable:
                o.value[...] = 1 - o.value        # the caller's array is the caller's
            narrow = rc["mask"] if len(rc["mask"]) == L else []


def check(c):
    c.model("MCHelpers", c.pick("MCHelpers", "MCHelpersBig"))
    recs = []
    hard_cases(c, recs)
    snr_cases(c, recs)
    mask_cases(c, recs)
    c.validate("TrHelpers", recs, label="hard, snr, build_mask")
