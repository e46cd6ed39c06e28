"""The proximal map is the exact minimiser for the L1 prior it goes with."""
import itertools
import numpy as np
from pxmcmc.utils import soft
from .. import enc, problems, runs
from ..core import attempt
from . import posterior

WHAT = ("prior", "prox")


def soft_record(x, T, desc, call=None):
    arr = np.asarray(x)
    rec = {"op": "soft", "x": enc.vec(arr), "T": enc.rvec(np.broadcast_to(np.asarray(T, dtype=float), arr.shape)), "out": [],
           "exc": "", "same": True, "_desc": f"soft {desc} x={arr.tolist()} T={np.asarray(T).tolist()}"[:900]}
    keep, keepT = arr.copy(), np.array(T)
    o = attempt(call or soft, x, T)
    rec["exc"], rec["_text"] = o.exc or "", o.text
    rec["same"] = bool(np.array_equal(keep, np.asarray(x)) and np.array_equal(keepT, np.asarray(T)))
    if not o.exc:
        try:
            rec["out"] = enc.vec(o.value)
        except Exception as e:  # noqa
            rec["exc"], rec["_text"] = "NotRecordable", repr(e)
    return rec


def check(c):
    c.model("MCThreshold", c.pick("MCThreshold", "MCThresholdBig"))
    r = c.rng
    recs = []
    # grid: zeros, ties with the threshold, all signs and phases
    grid = [0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 0.25, -2.0, 3.0]
    for T in (0, 0.0, 0.5, 1, 1.0, 0.25, 10):
        recs.append(soft_record(np.array(grid), T, "grid"))
        z = np.array([complex(a, b) for a, b in itertools.product([0, 0.6, -0.6, 3, -3, 0.3], [0, 0.8, -0.8, 4, -4, -0.4])])
        recs.append(soft_record(z, T, "complex grid"))
        recs.append(soft_record(np.array([0, 1, -1, 2, -2, 5]), T, "integers"))
        recs.append(soft_record([0.0, 1.0, -1.5, 0.5], T, "list"))
    recs.append(soft_record(np.zeros(4), 0.3, "all zero"))
    recs.append(soft_record(np.zeros(0), 0.3, "empty"))
    recs.append(soft_record(np.array([-0.3]), 0.3, "single"))
    recs.append(soft_record(np.array([1.0, -2.0, 0.05]), 0.1, "default threshold", call=lambda x, T: soft(x)))
    for k in range(c.pick(150, 900)):
        n = int(r.choice([1, 2, 5, 17, 64, 200]))
        cplx = bool(k % 2)
        x = r.normal(0, 10 ** r.uniform(-3, 2), n)
        x = x + 1j * r.normal(0, 1, n) if cplx else x
        if k % 3 == 0:
            x[r.rand(n) < 0.3] = 0
        T = [float(10 ** r.uniform(-3, 1)), np.abs(r.normal(0, 1, n)), np.zeros(n), np.where(r.rand(n) < 0.5, np.abs(x), 0.2)][k % 4]
        if k % 5 == 0:
            x = np.repeat(x, 2)[::2]
        recs.append(soft_record(x, T, f"random n={n} complex={cplx}"))
    # in other units: soft(ux, uT) = u soft(x, T); almost real and almost imaginary values, spread magnitudes
    for k in range(c.pick(60, 400)):
        n = int(r.choice([1, 3, 8, 33]))
        x = r.normal(0, 1, n) + 1j * r.normal(0, 1, n) * [1, 2.0 ** -15, 2.0 ** -20][k % 3]
        x = [x, 1j * x, x.real.copy(), x * 2.0 ** -r.randint(0, 18, n)][k % 4]
        T = [0.3, np.abs(r.normal(0, 0.5, n)), np.abs(x) * r.uniform(0.9, 1.1, n), 0.0][k // 4 % 4]
        u = [2.0 ** -20, 2.0 ** 12, 2.0 ** -35, 2.0 ** -60, 2.0 ** -300, 2.0 ** 400][k % 6]
        recs.append(soft_record(x, T, "spread"))
        recs.append(soft_record(x, T, f"unit {u}", call=lambda a, b: soft(a * u, b * u) / u))
    for k in range(c.pick(6, 20)):           # as large as in use
        n = [700, 1500, 3000][k % 3]
        x = r.normal(0, 1, n) + 1j * r.normal(0, 1, n) * (k % 2)
        T = [0.3, np.abs(r.normal(0, 0.5, n))][k // 2 % 2]
        u = [1.0, 2.0 ** -35, 2.0 ** 12][k // 2 % 3]
        recs.append(soft_record(x if k % 2 else x.real.copy(), T, f"large, unit {u}", call=lambda a, b: soft(a * u, b * u) / u))
    c.validate("TrProx", recs, label="soft")
    # priors with dense and library transforms; several points per object
    recs = []
    for k, p in enumerate(problems.variety(r, c.pick(80, 500))):
        buf = np.zeros(p.n, dtype=complex if p.cplx else float)
        for rep in range(3):
            x = runs.start(r, p, scale=[1, 0.2, 5][rep])
            if rep == 1:
                x[: (p.n + 1) // 2] = 0
            if rep == 2 and k % 3 == 0:
                x = x * 2.0 ** -r.randint(0, 18, p.n)
            if rep == 2 and k % 3 == 1 and p.cplx:
                x = x.real + 1j * x.imag * 2.0 ** -15
            recs.append(posterior.point(p, x, what=WHAT, buf=buf))
    for k, (L, B, J) in enumerate([(2, 2, 0), (3, 2, 0), (3, 3, 0), (4, 2, 1)]):
        for kind, setting in itertools.product(("swt", "path"), ("analysis", "synthesis")):
            p = problems.wavelet(r, kind=kind, L=L, B=B, J_min=J, setting=setting, prior="l1", cplx=bool(k % 2) or True)
            recs.append(posterior.point(p, runs.start(r, p), what=WHAT))
    for k in range(c.pick(4, 16)):
        p = problems.dense(r, n=[300, 800][k % 2], m=1, npix=1, cplx=bool(k // 2 % 2), Tform=["scalar", "vector"][k % 2], psetting="synthesis")
        recs.append(posterior.point(p, runs.start(r, p), what=WHAT))
    c.validate("TrProx", recs, label="L1 prior and prox", heap="8g")
