"""Credible intervals and regions have their stated coverage."""
import math
from fractions import Fraction

import numpy as np
from pxmcmc.uncertainty import (credible_interval_range, wavelet_credible_interval_range, credible_region_threshold,
                                in_credible_region)
from .. import enc
from ..core import attempt
from .c17 import filled
from .layout import CONFIGS, total

ALPHAS = [None, 0.05, 0.1, 0.32, 0.5, 0.01, 0.25, 0.0, 1.0, 0.9, 0.6, 2 / 3]


def kw(alpha):
    return {} if alpha is None else {"alpha": alpha}


def ch(r, n, p, dt, kind):
    if kind == 0:
        x = r.normal(0, 1, (n, p)) * np.linspace(1, 4, p) + np.linspace(-5, 5, p)
    elif kind == 1:
        x = r.randint(-3, 4, (n, p)).astype(float)          # many ties
    elif kind == 2:
        x = np.exp(r.normal(0, 2, (n, p)))
    else:
        x = np.tile(np.linspace(-3, 3, p), (n, 1))           # a stuck chain
    if np.issubdtype(dt, np.integer):
        return np.rint(x * 10).astype(dt)
    return np.round(x, 6).astype(dt)


def layouts(a):
    return [("C", np.ascontiguousarray(a)), ("F", np.asfortranarray(a)), ("strided", np.repeat(a, 2, axis=0)[::2]),
            ("reversed", np.ascontiguousarray(a[::-1])[::-1])]


def check(c):
    c.model("MCCredible", c.pick("MCCredible", "MCCredibleBig"))
    r = c.rng
    recs = []
    sizes = [(1, 1), (1, 4), (2, 1), (2, 3), (3, 2), (4, 5), (5, 1), (7, 3), (10, 2), (11, 4), (20, 3), (21, 2), (40, 2), (101, 3), (260, 2), (1001, 1)]
    if c.thorough:
        sizes += [(n, 2) for n in range(12, 40)] + [(250, 2), (3, 40), (1000, 1)]
    k = 0
    for n, p in sizes:
        for alpha in ALPHAS:
            k += 1
            dt = [float, float, np.float32, int][k % 4]
            A = ch(r, n, p, dt, k % 4 if k % 5 else 0)
            lay, X = layouts(A)[k % 4]
            keep = X.copy()
            for perm in (False, True):
                Y = X[r.permutation(n)] if perm else X
                o = attempt(credible_interval_range, Y, **kw(alpha))
                rc = {"op": "interval", "p": p, "chain": [enc.rvec(row) for row in X], "alpha": enc.real(0.05 if alpha is None else alpha),
                      "tol": 5 if dt is np.float32 else 9, "same": bool(np.array_equal(keep, X)), "out": [], "exc": o.exc or "", "_text": o.text,
                      "_desc": f"credible_interval_range {n}x{p} {np.dtype(dt).name} {lay} alpha={alpha} shuffled={perm}"}
                recs.append(filled(rc, lambda: dict(out=enc.rvec(one_d(o.value)))))
    for i, (L, B, J0) in enumerate(CONFIGS):
        t = total(L, B, J0)
        if t > c.pick(900, 4000) or not c.thorough and i % 2 and L > 6:
            continue
        n = [5, 3, 2, 8, 1][i % 5]
        alpha = ALPHAS[i % len(ALPHAS)]
        X = ch(r, n, t, float, 0)
        lay, X = layouts(X)[i % 4]
        keep = X.copy()
        f = Fraction(B)
        o = attempt(wavelet_credible_interval_range, X, L, B, J0, **kw(alpha))
        rc = {"op": "wavelet", "L": L, "bn": f.numerator, "bd": f.denominator, "J0": J0, "chain": [enc.rvec(row) for row in X],
              "alpha": enc.real(0.05 if alpha is None else alpha), "tol": 9, "shapes": [], "maps": [], "exc": o.exc or "", "_text": o.text,
              "same": bool(np.array_equal(keep, X)), "_desc": f"wavelet_credible_interval_range L={L} B={B} J_min={J0} n={n} alpha={alpha} {lay}"}
        recs.append(filled(rc, lambda: dict(shapes=[list(np.shape(m)) for m in o.value], maps=[enc.rvec(m) for m in o.value])))
    for n in list(range(1, 26)) + [30, 41, 60, 101, 257] + ([200, 201, 333] if c.thorough else []):
        for q, alpha in enumerate(ALPHAS):
            k += 1
            if k % 3 == 0:
                lp = -np.abs(r.randint(0, 6, n).astype(float)) - 2      # ties
            elif k % 3 == 1:
                lp = -np.round(np.exp(r.normal(3, 1.5, n)), 4)
            else:
                lp = np.round(r.normal(0, 30, n), 4)
            if k % 11 == 0:
                lp = lp * 1000
            if k % 7 == 0:
                lp = np.repeat(lp, 2)[::2]
            a = 0.05 if alpha is None else alpha
            finite = lp.copy()
            below = int(math.floor(a * (n - 1))) - 1     # as many may lie outside a hard constraint without reaching the quantile
            if k % 4 == 1 and below > 0:
                low = np.argsort(lp, kind="stable")[:1 + k % below]
                finite[low] = lp.min() - 1
                lp = lp.copy()
                lp[low] = -np.inf
            keep = lp.copy()
            o = attempt(credible_region_threshold, lp, **kw(alpha))
            rc = {"op": "region", "logpis": enc.rvec(finite), "alpha": enc.real(a), "tol": 8, "thr": [], "cmp": [], "inside": [], "top": [],
                  "maxout": int(math.ceil(a * (n - 1) + 1e-9)), "exc": o.exc or "", "_text": o.text, "same": True, "_desc": f"region n={n} alpha={alpha} logpi={lp.tolist()[:12]}"}

            def f():
                thr = o.value
                ins = []
                for v in lp:
                    m = attempt(in_credible_region, v, thr)
                    if m.exc:
                        rc["exc"] = m.exc
                        return {}
                    ins.append(bool(m.value))
                return dict(thr=enc.real(float(thr)), cmp=[int(np.sign(v - thr)) for v in lp], inside=ins, top=[bool(v == lp.max()) for v in lp],
                            same=bool(np.array_equal(keep, lp)))
            recs.append(filled(rc, f))
    # as many samples as runs have: only the threshold, against the order statistics next to it
    for n, alpha in c.pick([(3000, 0.05), (6001, 0.32)], [(3000, 0.05), (6001, 0.32), (5000, 0.01), (20001, 0.5), (12000, None)]):
        lp = np.round(-np.exp(r.normal(3, 1.5, n)), 4)
        keep = lp.copy()
        o = attempt(credible_region_threshold, lp, **kw(alpha))
        a = 0.05 if alpha is None else alpha
        st = np.sort(keep)
        h = int(math.floor(Fraction(str(a)) * (n - 1)))
        rc = {"op": "largeregion", "n": n, "alpha": enc.real(a), "h": h, "lo": enc.real(float(st[h])), "hi": enc.real(float(st[min(h + 1, n - 1)])),
              "tol": 8, "thr": [], "exc": o.exc or "", "_text": o.text, "same": bool(np.array_equal(keep, lp)), "_desc": f"region n={n} alpha={alpha}"}
        recs.append(filled(rc, lambda: dict(thr=enc.real(float(o.value)))))
    vals = [0, -1.0, 3.5, -1e-9, 1e-12, -250.0, np.float64(-250.0), -np.inf, np.inf, -1e12, np.float32(2.5)]
    for v in vals:
        for t in vals:
            o = attempt(in_credible_region, v, t)
            rc = {"op": "member", "cmp": int(v > t) - int(v < t), "inside": False, "exc": o.exc or "", "_text": o.text, "_desc": f"in_credible_region({v}, {t})"}
            recs.append(filled(rc, lambda: dict(inside=bool(o.value))))
    c.validate("TrCredible", recs, label="credible intervals and regions", heap="10g")


def one_d(v):
    v = np.asarray(v)
    if v.ndim != 1:
        raise ValueError(f"shape {v.shape}")
    return v
