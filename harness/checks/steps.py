"""Single calls of chain_step and calc_logtransition, and the law of the noise."""
import numpy as np

from .. import enc, problems, runs, rng as vrng
from ..core import attempt


def _vec(r, n, cplx, scale=1.0):
    v = np.round(r.normal(0, scale, n), 5)
    return v + 1j * np.round(r.normal(0, scale, n), 5) if cplx else v


def chain_steps(c):
    r = c.rng
    recs = []
    for k in range(c.pick(60, 400)):
        cplx = bool(k % 2)
        n = int(r.randint(1, 9))
        p = problems.dense(r, n=n, m=2, cplx=cplx)
        kind = ["myula", "pxmala"][k // 2 % 2]
        lmda = float(np.round(10 ** r.uniform(-2, 2), 4))
        delta = float(np.round(10 ** r.uniform(-4, 0.5), 5))
        x, pf, g = _vec(r, n, cplx, 2), _vec(r, n, cplx), _vec(r, n, cplx, 3)
        if not cplx and k % 8 == 2:
            g = _vec(r, n, True)          # complex gradient, real parameters
        rec = {"op": "step", "x": enc.vec(x), "p": enc.vec(pf), "gr": enc.vec(g), "lmda": enc.real(lmda),
               "delta": enc.real(delta), "cplx": cplx, "exc": "", "same": True, "out": [], "w": [],
               "_desc": f"{kind}.chain_step cplx={cplx} n={n} lmda={lmda} delta={delta}"}
        o = attempt(runs.build, kind, p, lmda=lmda, delta=delta)
        if not o.exc:
            keep = [v.copy() for v in (x, pf, g)]
            vrng.script(runs.gaussians(r, p, 2), [])
            o = attempt(o.value[1].chain_step, x, pf, g)
            gs, _, _ = vrng.drawn()
            vrng.off()
            rec["same"] = all(np.array_equal(a, b) for a, b in zip(keep, (x, pf, g)))
            rec["w"] = enc.rvec(gs)
        finish(rec, o)
        recs.append(rec)
    c.validate("TrStep", recs, label="chain_step calls")


def finish(rec, o, scalar=False):
    rec["exc"] = o.exc or ""
    rec["_text"] = o.text
    if not o.exc:
        try:
            rec["out"] = enc.real(float(o.value)) if scalar else enc.vec(o.value)
        except Exception as e:  # noqa
            rec["exc"] = "NotRecordable"
            rec["_text"] = repr(e)


def transitions(c):
    r = c.rng
    recs = []
    for k in range(c.pick(60, 400)):
        cplx = bool(k % 2)
        n = int(r.randint(1, 9))
        p = problems.dense(r, n=n, m=2, cplx=cplx)
        lmda = float(np.round(10 ** r.uniform(-1, 1.5), 4))
        delta = float(np.round(10 ** r.uniform(-2, 0.3), 5))
        x, x2, pf, g = _vec(r, n, cplx, 2), _vec(r, n, cplx, 2), _vec(r, n, cplx), _vec(r, n, cplx, 3)
        keep = [v.copy() for v in (x, x2, pf, g)]
        rec = {"op": "trans", "x": enc.vec(x), "x2": enc.vec(x2), "p": enc.vec(pf), "gr": enc.vec(g),
               "lmda": enc.real(lmda), "delta": enc.real(delta), "exc": "", "same": True, "out": enc.real(0),
               "_desc": f"calc_logtransition cplx={cplx} n={n} lmda={lmda} delta={delta}"}
        o = attempt(runs.build, "pxmala", p, lmda=lmda, delta=delta)
        if not o.exc:
            o = attempt(o.value[1].calc_logtransition, x, x2, pf, g)
            rec["same"] = all(np.array_equal(a, b) for a, b in zip(keep, (x, x2, pf, g)))
        finish(rec, o, scalar=True)
        recs.append(rec)
    c.validate("TrStep", recs, label="calc_logtransition calls")


EDGES = [-1.1503493803760079, -0.6744897501960817, -0.3186393639643752, 0.0, 0.3186393639643752,
         0.6744897501960817, 1.1503493803760079]


def noise_record(desc, vals, pairs=None):
    """statistics of draws that should be independent standard normal"""
    v = np.asarray(vals, dtype=float)
    n = v.size
    bins = np.bincount(np.searchsorted(EDGES, v), minlength=8)
    a, b = pairs if pairs is not None else (v, np.roll(v, 1))
    return {"op": "noise", "n": int(n), "bins": [int(x) for x in bins], "agree": int(np.sum((a > 0) == (b > 0)) * n // len(a)),
            "repeats": int(n - np.unique(v).size), "tol": int(6 * np.sqrt(n) * 0.5 + 1), "exc": "", "_desc": desc}


def noise_law(c, kinds=("myula",)):
    """noise as it comes out of the code with numpy's own generator: recovered from the steps"""
    recs = []
    for kind in kinds:
        for cplx in (False, True):
            n, tr = 25, c.pick(80, 400)
            A = np.zeros((1, n))
            op = problems.ForwardOperator(np.zeros(1), 1.0, "analysis", measurement=problems.DenseMeasurement(A), nparams=n)
            pr = problems.L1("synthesis", None, None, 0.0)
            p = problems.Problem(op, pr, setting="analysis", A=A, W=None, data=np.zeros(1), icov=np.ones(1),
                                 psetting="synthesis", pF=None, pJ=None, T=np.zeros(n), pw=np.ones(n), cplx=cplx,
                                 desc="free particle", sig=1.0)
            delta = 0.5
            params, mc = runs.build(kind, p, lmda=1.0, delta=delta, nsamples=tr)
            x0 = np.zeros(n, dtype=complex if cplx else float)
            vrng.record(c.seed + 17)
            o = attempt(mc.run, x0)
            if o.exc:
                recs.append({"op": "noise", "n": 1, "bins": [0] * 8, "agree": 0, "repeats": 0, "tol": 1, "exc": o.exc,
                             "_desc": f"{kind} free particle", "_text": o.text})
                continue
            # no drift: increments are sqrt(2 delta) xi
            inc = np.diff(np.vstack([x0[None], mc.chain]), axis=0) / np.sqrt(2 * delta)
            parts = [inc.real] + ([inc.imag] if cplx else [])
            for q, part in enumerate(parts):
                recs.append(noise_record(f"{kind} noise part {q} cplx={cplx}", part.ravel()))
                recs.append(noise_record(f"{kind} noise part {q} across transitions", part.ravel(),
                                         (part[1:].ravel(), part[:-1].ravel())))
            if cplx:
                recs.append(noise_record(f"{kind} real against imaginary noise", inc.real.ravel(),
                                         (inc.real.ravel(), inc.imag.ravel())))
    c.validate("TrStep", recs, label="law of the noise")
