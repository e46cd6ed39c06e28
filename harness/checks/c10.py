"""The forms of data error agree, and ill-formed ones are rejected."""
import numpy as np
from .. import enc, problems, runs
from ..core import attempt
from . import posterior


def op_for(data, sig, A):
    return problems.ForwardOperator(data, sig, "analysis", measurement=problems.DenseMeasurement(A), nparams=A.shape[1])


def cov_record(form, sig, data, desc, extra_sig=None, u=1.0):
    """the weights in use, seen through the gradient at unit residuals, times the covariance described by sig"""
    m = len(data)
    rec = {"op": "cov", "form": form, "m": m, "icov": [], "exc": "", "_desc": desc,
           "sig": enc.real(float(sig)) if form == "scalar" else enc.rvec(sig) if form == "vector" else [enc.rvec(x) for x in sig]}

    def weights():
        g = sig if extra_sig is None else extra_sig
        op = op_for(data * u, g if u == 1 else g * u ** max(1, np.ndim(g)), np.eye(m))
        cols = []
        for k in range(m):
            q = (data * u).astype(complex if np.iscomplexobj(data) else float)
            w = u * 2.0 ** 12          # a residual far above the data, so that it is exact
            q[k] += w
            res = (q - data * u)[k]
            cols.append(np.asarray(op.calc_gradg(q)) * (u * u) / res)
        return np.array(cols).T
    o = attempt(weights)
    rec["exc"], rec["_text"] = o.exc or "", o.text
    if not o.exc:
        try:
            rec["icov"] = enc.mat(o.value)
        except enc.Unencodable as e:
            rec["exc"], rec["_text"] = "NotRecordable", repr(e)
    return rec


def shaped(r, m, k):
    """covariances of various shapes: full, almost diagonal, one correlated pair, banded, blocks, strongly correlated, integer, unequal magnitudes"""
    d = r.uniform(0.3, 2, m)
    form = ["full", "almost diagonal", "one pair", "banded", "blocks", "strong", "integer", "magnitudes"][k % 8]
    C = np.diag(d)
    if form == "full" or m < 2:
        return spd(r, m)
    if form == "almost diagonal":
        B = r.normal(0, 0.002, (m, m))
        C = C + B + B.T
    elif form == "one pair":
        i, j = r.choice(m, 2, replace=False)
        C[i, j] = C[j, i] = 0.4 * np.sqrt(d[i] * d[j])
    elif form == "banded":
        for i in range(m - 1):
            C[i, i + 1] = C[i + 1, i] = 0.4 * np.sqrt(d[i] * d[i + 1])
    elif form == "blocks":
        h = m // 2
        C[:h, :h] = spd(r, h) if h else C[:h, :h]
        C[h:, h:] = spd(r, m - h)
    elif form == "strong":
        C = 0.1 * C + 1.0
    elif form == "integer":
        return np.eye(m, dtype=int) * 3 + np.ones((m, m), dtype=int)
    elif form == "magnitudes":
        s = 10.0 ** r.uniform(-2, 2, m)
        C = spd(r, m) * np.outer(s, s)
        return (C + C.T) / 2
    return np.round((C + C.T) / 2, 4)


def spd(r, m, strength=0.4):
    B = r.normal(0, strength, (m, m))
    C = np.diag(r.uniform(0.3, 2, m)) + B @ B.T
    return np.round((C + C.T) / 2, 4)


def agree(r, data, sigs, desc):
    """L2, log-posterior and gradient under equivalent descriptions"""
    m = len(data)
    cx = np.iscomplexobj(data)
    A = problems._mat(r, m, 3, cx)
    q = np.round(r.normal(0, 2, m), 4) + (1j * np.round(r.normal(0, 2, m), 4) if cx else 0)
    x = np.array([0.5, -1.25, 2.0]) + (0.5j if cx else 0)
    l2s, grads = [], []
    rec = {"op": "same", "exc": "", "digits": 8, "l2s": [], "grads": [], "_desc": desc}

    def call(sig, u=1.0):
        op = op_for(data * u, sig if u == 1 else sig * u ** max(1, np.ndim(sig)), A)
        p = problems.L1("synthesis", None, None, 0.1)
        mc = runs.KINDS["myula"](op, p, runs.PxMCMCParams(nsamples=1, complex=cx, mu=1.5))
        lp = mc.logpi(x, q * u)
        return lp, op.calc_gradg(q * u) * u
    for s, u in [(s, 1.0) for s in sigs] + [(s, 2.0 ** e) for s in sigs[::2] for e in (-9, -22)]:
        o = attempt(call, s, u)
        if o.exc:
            rec["exc"], rec["_text"] = o.exc, o.text
            return rec
        try:
            l2s.append(enc.real(posterior.as_real(o.value[0][1])))
            l2s_lp = enc.real(posterior.as_real(o.value[0][0]))
            grads.append(enc.vec(o.value[1]) + [l2s_lp])
        except enc.Unencodable as e:
            rec["exc"], rec["_text"] = "NotRecordable", repr(e)
            return rec
    rec["l2s"], rec["grads"] = l2s, grads
    return rec


def check(c):
    r = c.rng
    recs = []
    for k in range(c.pick(70, 400)):
        m = int(r.choice([1, 2, 3, 4, 6, 9]))
        cx = bool(k % 2)
        data = np.round(r.normal(0, 2, m), 4) + (1j * np.round(r.normal(0, 2, m), 4) if cx else 0)
        s = float(np.round(10 ** r.uniform(-1.5, 1.2), 4))
        v = np.round(10 ** r.uniform(-1.2, 1, m), 4)
        M = spd(r, m)
        i = int(r.randint(1, 6))
        vi = r.randint(1, 6, m)
        d = f"m={m} complex={cx}"
        recs += [cov_record("scalar", s, data, f"scalar {s} {d}"),
                 cov_record("scalar", s, data, f"numpy scalar {s} {d}", np.float64(s)),
                 cov_record("scalar", i, data, f"integer scalar {i} {d}"),
                 cov_record("vector", v, data, f"vector {d}"),
                 cov_record("vector", vi, data, f"integer vector {d}"),
                 cov_record("vector", v[::-1], data, f"reversed view {d}"),
                 cov_record("matrix", M, data, f"matrix {d}"),
                 cov_record("matrix", (S := shaped(r, m, k)), data, f"matrix shape {k % 8} {d}"),
                 cov_record("matrix", S, data, f"matrix shape {k % 8} small unit {d}", u=2.0 ** -18),
                 cov_record("matrix", S, data, f"matrix shape {k % 8} large unit {d}", u=2.0 ** 15),
                 cov_record("vector", np.round(10 ** r.uniform(-2, 2, m), 3), data, f"spread vector {d}"),
                 cov_record("vector", v, data, f"vector large unit {d}", u=2.0 ** 15),
                 cov_record("scalar", s, data, f"scalar large unit {d}", u=2.0 ** 15),
                 cov_record("vector", v, data, f"vector small unit {d}", u=2.0 ** -18),
                 cov_record("scalar", s, data, f"scalar small unit {d}", u=2.0 ** -18),
                 cov_record("matrix", np.asfortranarray(M), data, f"Fortran-ordered matrix {d}"),
                 cov_record("matrix", np.diag(v), data, f"diagonal matrix {d}")]
        # stored as another number type: the squares of small integers do not fit theirs
        t, top = [("int8", 100), ("uint8", 250), ("int16", 30000), ("uint16", 60000), ("int32", 70000), ("float32", 9)][k % 6]
        vt = r.randint(1, top, m).astype(t) / np.array(1 if top > 9 else 8, dtype=t)
        vt = vt.astype(t)
        vf = vt.astype(float)
        big = data * np.median(vf)
        recs += [agree(r, big, [vf, vt], f"{t} vector {vt.tolist()} {d}"), agree(r, big, [vf[0], vt[0]], f"{t} scalar {vt[0]} {d}"),
                 agree(r, big, [vf[-1], np.array(vt[-1])], f"{t} array without dimensions {vt[-1]} {d}")]
        if top < 1000:
            recs += [cov_record("vector", vf, data, f"{t} vector {vt.tolist()} {d}", vt), cov_record("scalar", vf[0], data, f"{t} scalar {vt[0]} {d}", vt[0])]
        recs += [agree(r, data, [s, np.float64(s), np.full(m, s), np.diag(np.full(m, s ** 2))], f"scalar forms {s} {d}"),
                 agree(r, data, [v, np.diag(v ** 2)], f"vector forms {d}"),
                 agree(r, data, [i, float(i), np.full(m, i), np.full(m, i) * 1.0, np.eye(m) * i ** 2, np.eye(m, dtype=int) * i ** 2],
                       f"integer forms {i} {d}")]
    c.validate("TrCov", recs, label="inverse covariance and equivalent forms")
    # against the posterior
    recs = []
    for k in range(c.pick(40, 200)):
        p = problems.dense(r, n=int(r.randint(1, 4)), m=int(r.randint(1, 6)), npix=2, cplx=bool(k % 2),
                           cdata=None if k % 3 else True, sigma=problems.SIGMA_FORMS[k % 6], setting=["synthesis", "analysis"][k % 2])
        q = np.round(r.normal(0, 2, p.m), 4) + (1j * np.round(r.normal(0, 2, p.m), 4) if np.iscomplexobj(p.data) else 0)
        recs.append(posterior.point(p, runs.start(r, p), q, what=("gradg", "logpi")))
    for k, form in enumerate(["matrix", "vector", "float", "diagmat", "matrix", "vector", "matrix"]):
        p = problems.dense(r, n=3, m=[20, 60, 60, 15, 110, 300, 65][k], npix=2, cplx=bool(k % 2), sigma=form)
        recs.append(posterior.point(p, runs.start(r, p), p.predict(runs.start(r, p)), what=("gradg", "logpi")))
    c.validate("TrCov", recs, label="L2, log-posterior and gradient")
    recs = []
    for cx in (False, True):
        for m in (1, 2, 3, 5):
            data = np.zeros(m, dtype=complex if cx else float)
            A = np.eye(m)
            for a, b in ((1, 2), (2, 1), (m, m + 1), (m + 1, m), (m, 1) if m > 1 else (3, 1), (1, m) if m > 1 else (1, 3)):
                recs.append(posterior.raises(f"{a}x{b} matrix for {m} data", "ValueError", op_for, data, np.ones((a, b)), A))
            for n in (m - 1, m + 1, 2 * m, m * m) if m > 1 else (0, 2, 5):
                if n != m:
                    recs.append(posterior.raises(f"{n} standard deviations for {m} data", "TypeError", op_for, data, np.ones(n), A))
            if m > 1:
                recs.append(posterior.raises(f"1 standard deviation for {m} data", "TypeError", op_for, data, np.ones(1), A))
            recs.append(posterior.raises(f"vector for {m} data", "", op_for, data, np.ones(m), A))
            recs.append(posterior.raises(f"matrix for {m} data", "", op_for, data, np.eye(m), A))
    c.validate("TrCov", recs, label="ill-formed data errors")
