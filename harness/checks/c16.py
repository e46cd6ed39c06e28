"""Weighted wavelet priors: threshold and norm carry the same weights."""
from fractions import Fraction

import numpy as np
import pys2let
from pxmcmc.prior import S2_Wavelets_L1, S2_Wavelets_L1_Power_Weights
from .. import enc
from ..core import attempt
from .c17 import filled
from .layout import CONFIGS, total, bandlimits

KINDS = {"quad": S2_Wavelets_L1, "power": S2_Wavelets_L1_Power_Weights}


def no(x):
    raise AssertionError("the synthesis priors do not need the transform")


def profiles(L, B, J0):
    """values of scaling function and wavelets per degree (axisymmetric: order 0 only)"""
    phi, psi = pys2let.wavelet_tiling(B, L, 1, J0, 0)
    idx = [l * l + l for l in range(L)]
    out = [np.real(np.asarray(phi)).ravel()[:L]] + [np.real(psi[idx, j]) for j in range(psi.shape[1])]
    return out


def observe(prior, n):
    """the weight of coefficient k, as the prior of the k-th unit vector"""
    w = np.zeros(n)
    for k in range(n):
        e = np.zeros(n)
        e[k] = 1.0
        w[k] = float(np.real(prior.prior(e)))
    return w


def observe_at_once(r, make, n):
    """all weights from one prox with thresholds 1: prox(C) = C - w for large C; some compared with the prior"""
    P = make(1.0)
    C = 2.0 ** 20
    w = C - np.real(P.proxf(np.full(n, C)))
    C = 2.0 ** np.ceil(np.log2(np.max(np.abs(w)) * 2 + 1e-6))
    w = C - np.real(P.proxf(np.full(n, C)))
    for k in r.choice(n, min(n, 60), replace=False):
        e = np.zeros(n)
        e[k] = 1.0
        v = float(np.real(P.prior(e)))
        if not abs(v - w[k]) <= 1e-9 * max(1, abs(v)):
            raise ValueError(f"coefficient {k}: prior {v}, threshold {w[k]}")
    return w


def thresholds(r, n, k):
    return [0.5, 1, np.float64(2.0), np.round(r.uniform(0.1, 3, n), 3), 20.0, np.full(n, 7), np.repeat(np.round(r.uniform(1, 3, n), 3), 2)[::2], 0][k % 8]


def signal(r, w, T, k):
    """values around the thresholds"""
    t = np.abs(w) * T
    n = w.size
    c = r.choice([0.0, 0.4, 0.97, 1.0 / 3, 1.05, 2.0, 7.0], n) * np.where(r.rand(n) < 0.5, -1, 1)
    x = np.round(c * np.where(t > 1e-9, t, 1.0), 9)
    if k % 2:
        x = x * np.exp(1j * r.uniform(0, 6.28, n))
        x = np.round(x, 9)
    return x


def one(c, recs, L, B, J0, kind, eta, k, dirs=1, key=None, objs=None):
    r = c.rng
    n = total(L, B, J0, dirs)
    fr = Fraction(B)
    d = f"{kind} L={L} B={B} J_min={J0} dirs={dirs}" + (f" eta={eta}" if kind == "power" else "")
    base = {"kind": kind, "L": L, "bn": fr.numerator, "bd": fr.denominator, "J0": J0, "dirs": dirs, "e2": int(2 * (1 if eta is None else eta))}
    T = thresholds(r, n, k)
    if kind == "power":        # keep the numbers in the range of the specification's arithmetic
        top = max(2 * np.pi ** 2 * max(float(np.argmax(p)), 1.0) ** (1 if eta is None else eta) / (np.sum(p ** 2) * b * (2 * b - 1) or 1e-9)
                  for p, b in zip(profiles(L, B, J0), bandlimits(L, B, J0)))
        if top * np.max(T) > 60:
            T = T * 2.0 ** -np.ceil(np.log2(top * np.max(T) / 60))
    keepT = np.array(T)
    kw = {} if eta is None or kind == "quad" else {"eta": eta}
    f = no if k % 3 else None
    o = attempt(KINDS[kind], "synthesis", f, f, T, L, B, J0, **(dict(dirs=dirs, spin=0) if dirs > 1 or k % 4 == 0 else {}), **kw)
    rc = dict({"op": "weights", "n": -1, "lo": [], "hi": [], "prof": [], "exc": o.exc or "", "_text": o.text, "_desc": "weights " + d, "_key": key}, **base)
    if o.exc:
        recs.append(rc)
        return
    P = o.value
    w = [None]

    def see():
        w[0] = observe(P, n)
        lo, hi = rings(w[0], bandlimits(L, B, J0), dirs)
        return dict(n=n, lo=lo, hi=hi, prof=[enc.rvec(p) for p in profiles(L, B, J0)] if kind == "power" else [])
    recs.append(filled(rc, see))
    if rc["exc"] or w[0] is None:
        return
    for q in range(2):
        value(c, recs, P, w[0], T, keepT, k + q, d, key)
    if objs is not None:
        objs.append((P, w[0], T, keepT, d, key))


def rings(w, bls, dirs=1):
    lo, hi, at = [], [], 0
    for q, b in enumerate(bls):
        for _ in range(1 if q == 0 else 2 * dirs - 1):
            W = w[at:at + b * (2 * b - 1)].reshape(b, 2 * b - 1)
            at += W.size
        lo.append(enc.rvec(W.min(1)))
        hi.append(enc.rvec(W.max(1)))
    return lo, hi


def large(c, recs, L, B, J0, kind, eta):
    n = total(L, B, J0, 1)
    fr = Fraction(B)
    kw = {} if eta is None or kind == "quad" else {"eta": eta}
    o = attempt(observe_at_once, c.rng, lambda T: KINDS[kind]("synthesis", no, no, T, L, B, J0, **kw), n)
    rc = {"op": "weights", "n": -1, "lo": [], "hi": [], "prof": [], "exc": o.exc or "", "_text": o.text, "kind": kind, "L": L, "bn": fr.numerator,
          "bd": fr.denominator, "J0": J0, "dirs": 1, "e2": int(2 * (1 if eta is None else eta)), "_desc": f"weights {kind} L={L} B={B} J_min={J0} eta={eta}"}

    def see():
        lo, hi = rings(o.value, bandlimits(L, B, J0))
        return dict(n=len(o.value), lo=lo, hi=hi, prof=[enc.rvec(p) for p in profiles(L, B, J0)] if kind == "power" else [])
    recs.append(filled(rc, see))


def value(c, recs, P, w, T, keepT, k, d, key=None):
    n = w.size
    if n > c.pick(420, 1500):
        return
    x = signal(c.rng, w, np.broadcast_to(keepT, (n,)), k)
    if k % 5 == 0:
        x = np.repeat(x, 2)[::2]
    keep = x.copy()
    o = attempt(lambda: (P.prior(x), P.proxf(x)))
    rc = {"op": "value", "x": enc.vec(x), "w": enc.rvec(w), "T": enc.rvec(np.broadcast_to(keepT, (n,))), "prior": [], "prox": [], "same": True,
          "exc": o.exc or "", "_text": o.text, "_desc": f"prior and prox {d}", "_key": key}
    recs.append(filled(rc, lambda: dict(prior=enc.real(float(np.real(o.value[0]))), prox=enc.vec(o.value[1]),
                                        same=bool(np.array_equal(keep, x) and np.array_equal(keepT, np.asarray(T))))))


def check(c):
    c.model("MCSphere")
    c.model("MCThreshold")
    r = c.rng
    recs, objs = [], []
    cfgs = list(CONFIGS)
    r.shuffle(cfgs)
    k = 0
    nq = npw = 0
    etas = [None, 1, 0, 2, 0.5, 3, 1.0, 4, 3.5]
    for L, B, J0 in cfgs:
        L, J0, B = int(L), int(J0), (int(B) if B == int(B) else float(B))
        n = total(L, B, J0)
        if n > c.pick(900, 2500):
            continue
        k += 1
        if nq < c.pick(45, 150):
            nq += 1
            one(c, recs, L, B, J0, "quad", None, k, objs=objs if n < 150 else None)
        pw = [float(np.sum(p ** 2)) for p in profiles(L, B, J0)]
        if min(pw) > 1e-3 and npw < c.pick(45, 150):
            npw += 1
            one(c, recs, L, B, J0, "power", etas[k % 9], k, objs=objs if n < 150 else None)
    # bandlimits as in use
    for q, (L, B, J0) in enumerate(c.pick([(24, 2, 0), (32, 3, 1), (40, 2, 3), (64, 2, 4)],
                                          [(24, 2, 0), (32, 3, 1), (40, 2, 3), (64, 2, 4), (64, 1.5, 2), (96, 3, 2), (128, 2, 5), (33, 1.5, 4)])):
        for kind in KINDS:
            if kind == "power" and min(float(np.sum(p ** 2)) for p in profiles(L, B, J0)) < 1e-3:
                continue
            large(c, recs, L, B, J0, kind, etas[q % 7])
    # earlier priors after all the others were made
    for q, (P, w, T, keepT, d, key) in enumerate(objs[:30]):
        value(c, recs, P, w, T, keepT, q, "later " + d, key)
    # known findings
    one(c, recs, 9, 2, 2, "power", 1, 0, key="power-weights-of-an-empty-scale")
    for kind in KINDS:
        one(c, recs, 4, 2, 0, kind, None, 0, dirs=2, key="directional-wavelets")
    for kind, cls in KINDS.items():
        for s, want in (("analysis", "NotImplementedError"), ("synth", ""), ("", ""), (None, "")):
            for T in (0.5, np.ones(total(4, 2, 1))):
                o = attempt(cls, s, no, no, T, 4, 2, 1)
                recs.append({"op": "refuse", "want": want, "exc": o.exc or "", "_desc": f"{cls.__name__} setting {s!r}"})
    c.validate("TrWeights", recs, label="S2_Wavelets_L1 and power weights", heap="10g")
