"""Single calls of the forward operator, prior and log-posterior for TrPosterior."""
import numpy as np

from .. import enc, runs
from ..core import attempt


def snapshot(p):
    s = [p.data.tobytes(), np.asarray(p.op.data).tobytes(), np.asarray(p.sig).tobytes(), np.asarray(getattr(p.prior, "T", 0)).tobytes()]
    ic = getattr(p.op, "invcov", None)
    if hasattr(ic, "toarray"):
        s.append(ic.toarray().tobytes())
    return s


def point(p, x, q=None, what=("forward", "gradg", "prior", "prox", "logpi"), mu=1.0, digits=8, kind="myula", buf=None, qbuf=None):
    """call everything once; q: predictions for calc_gradg and logpi (default: those of x)"""
    rec = {"op": "point", "P": p.record(0.7, mu), "x": enc.vec(x), "q": [], "given": list(what), "exc": "", "same": True,
           "digits": digits, "_desc": f"{p.desc} {what} mu={mu} x={np.asarray(x).tolist()}"[:1500]}

    u = p.unit          # the problem may be posed in other units: data, errors and parameters times u
    e2 = p.escale ** 2

    def call():
        out = {}
        xc = x * u if u != 1 else x.copy()
        if buf is not None:          # the caller reuses one array for successive points
            buf[...] = xc
            xc = buf
        before = snapshot(p)
        if "forward" in what:
            out["forward"] = p.op.forward(xc) / u
        qq = q if q is not None else p.predict(x)
        qc = np.array(qq) * u
        out["q"] = np.array(qq).copy()
        if qbuf is not None:
            qbuf[...] = qc
            qc = qbuf
        if "gradg" in what:
            out["gradg"] = p.op.calc_gradg(qc) * u * e2
        if "prior" in what:
            out["prior"] = p.prior.prior(xc) / u
        if "prox" in what:
            out["prox"] = p.prior.proxf(xc) / u
        if "logpi" in what:
            params, mc = runs.build(kind, p, lmda=0.7, delta=0.1, mu=mu / e2, nsamples=1)
            lp = mc.logpi(xc, qc)
            out["logpi"] = [lp[0] * e2, lp[1] * e2, lp[2] / u]
        out["same"] = (np.array_equal(xc / u, x) and np.array_equal(qc / u, out["q"]) and snapshot(p) == before)
        return out
    o = attempt(call)
    if o.exc:
        rec["exc"], rec["_text"] = o.exc, o.text
        return rec
    v = o.value
    try:
        rec["same"] = bool(v["same"])
        rec["q"] = enc.vec(v["q"])
        for k in ("forward", "gradg", "prox"):
            if k in what:
                if np.asarray(v[k]).ndim != 1:
                    raise enc.Unencodable(f"{k} has shape {np.asarray(v[k]).shape}")
                rec[k] = enc.vec(v[k])
        if "prior" in what:
            rec["prior"] = enc.real(as_real(v["prior"]))
        if "logpi" in what:
            rec["logpi"] = [enc.real(as_real(t)) for t in v["logpi"]]
    except (enc.Unencodable, TypeError, ValueError) as e:
        rec["exc"], rec["_text"] = "NotRecordable", repr(e)
    return rec


def as_real(v):
    """a real number; a complex one with an imaginary part is not recordable"""
    v = complex(v)
    if v.imag != 0:
        raise enc.Unencodable(f"not real: {v}")
    return float(v.real)


def raises(desc, want, f, *a, **k):
    o = attempt(f, *a, **k)
    return {"op": "raise", "want": want, "exc": o.exc or "", "_desc": desc, "_text": o.text}
