"""A run starts where it is told to, and only there."""
import array
import numpy as np
from .. import enc, problems, runs, rng as vrng
from ..core import attempt
from . import steps

KINDS = ["myula", "pxmala", "skrock"]
LAPLACE = [-np.log(4), -np.log(2), -np.log(4 / 3), 0.0, np.log(4 / 3), np.log(2), np.log(4)]


class Duck:
    """array-like, but not an array"""

    def __init__(self, v):
        self.v = v
        self.ndim, self.size, self.shape, self.dtype = v.ndim, v.size, v.shape, v.dtype

    def __array__(self, dtype=None, copy=None):
        return np.array(self.v, dtype=dtype)

    def __len__(self):
        return len(self.v)

    def __getitem__(self, k):
        return self.v[k]


def starts(r, n, cplx):
    """(description, object)"""
    v = np.round(r.normal(0, 1, n), 3) + 0.0
    w = v + 1j * np.round(r.normal(0, 1, n), 3) if cplx else v
    out = [("good", w.copy()), ("list", w.tolist()), ("tuple", tuple(w.tolist())), ("row", w.reshape(1, -1)),
           ("column", w.reshape(-1, 1)), ("cube", w.reshape(1, -1, 1)), ("zero-dim", np.array(1.0)), ("scalar", 1.0), ("int", 3),
           ("npscalar", np.float64(2.0)), ("string", "abc"), ("matrix", np.asmatrix(w)), ("dict", {}), ("empty list", []),
           ("array-like", Duck(w.copy())), ("array.array", array.array("d", v.tolist())), ("memoryview", memoryview(v.copy())), ("generator", (a for a in w)),
           ("range", range(n)), ("bool", True),
           ("empty", np.zeros(0)), ("short", w[:-1].copy()), ("long", np.append(w, 1.0)), ("double", np.append(w, w)),
           ("square", np.zeros((n, n))), ("one", np.zeros(1)),
           ("strided", np.repeat(w, 2)[::2]), ("reversed", w[::-1]), ("fortran", np.asfortranarray(w)),
           ("view", np.append(w, w)[:n])]
    ro = w.copy()
    ro.setflags(write=False)
    out.append(("readonly", ro))
    out.append(("integers", np.arange(n)))
    out.append(("zeros", np.zeros(n, dtype=w.dtype)))
    if cplx:
        out.append(("real start of a complex chain", v.copy()))
    return out


def admit(kind, p, name, x0, tune):
    isarr = isinstance(x0, np.ndarray)
    rec = {"op": "admit", "isarray": isarr, "ndim": int(np.ndim(x0)) if isarr else 0, "size": int(np.size(x0)) if isarr else 0,
           "n": p.n, "exc": "", "draws": 0, "untouched": True, "same": True, "detached": True,
           "_desc": f"{kind} {p.desc} start={name}"}
    o = attempt(runs.build, kind, p, lmda=0.8, delta=0.1, nsamples=3, tune=tune, s=2)
    if o.exc:
        rec["exc"], rec["_text"] = "build " + o.exc, o.text
        return rec, None
    mc = o.value[1]
    fresh = {a: getattr(mc, a).copy() for a in runs.ATTR.values()}
    before = x0.copy() if isarr else None
    vrng.script(runs.gaussians(np.random.RandomState(3), p, 8), [0.3] * 8)
    o = attempt(mc.run, x0)
    g, u, _ = vrng.drawn()
    vrng.off()
    rec["exc"], rec["_text"] = o.exc or "", o.text
    rec["draws"] = len(g) + len(u)
    rec["untouched"] = all(np.array_equal(getattr(mc, a), v) for a, v in fresh.items())
    if isarr:
        rec["same"] = bool(np.array_equal(before, x0)) and before.dtype == x0.dtype
        if not o.exc and x0.flags.writeable and x0.size:
            after = {a: getattr(mc, a).copy() for a in runs.ATTR.values()}
            keep = x0.copy()
            x0[...] = 77
            rec["detached"] = all(np.array_equal(getattr(mc, a), v) for a, v in after.items())
            x0[...] = keep
    return rec, mc


def check(c):
    c.model("MCSampler")
    r = c.rng
    recs = []
    for q in range(c.pick(2, 6)):
        for kind in KINDS:
            for cplx in (False, True):
                n = [1, 3, 2, 4, 6, 5][(q * 2 + cplx) % 6]
                p = problems.dense(r, n=n, m=2, npix=2, cplx=cplx, setting=["synthesis", "analysis"][q % 2])
                for name, x0 in starts(r, n, cplx):
                    rec, mc = admit(kind, p, name, x0, tune=bool(q % 2))
                    recs.append(rec)
    c.validate("TrStart", recs, label="start points of every kind")
    # the run proceeds from the very values given
    recs = []
    for k, p in enumerate(problems.variety(r, c.pick(36, 200), big=False)):
        kind = KINDS[k % 3]
        lmda, delta = runs.tuning(r, p, hi=0.9)
        x0 = runs.start(r, p, scale=[0.5, 2, 5][k % 3])
        form = k // 3 % 6
        if form == 1:
            x0 = np.repeat(x0, 2)[::2]
        elif form == 2:
            x0 = np.round([3, 300, 40][k // 18 % 3] * x0.real).astype([int, np.int32, np.int8, np.int16][k // 6 % 4] if k // 18 % 3 != 1 else int)
        elif form == 3:
            x0 = x0[::-1]
        elif form == 4:
            x0 = np.zeros_like(x0)
        elif form == 5:
            x0 = x0.real.copy()
        # thinned: the burn-in must also begin there
        nb = k % 2
        T = nb + 1
        rec, mc = runs.run_recorded(kind, p, x0, runs.gaussians(r, p, T), [1e-200] * T, lmda=lmda, delta=delta, nsamples=1,
                                    nburn=nb, s=1 + k % 2)
        rec["rows"] = False
        recs.append(rec)
    # second run of the same object from another start
    for k, p in enumerate(problems.variety(r, c.pick(12, 60), big=False)):
        kind = KINDS[k % 3]
        lmda, delta = runs.tuning(r, p, hi=0.9)
        params, mc = runs.build(kind, p, lmda=lmda, delta=delta, nsamples=2, s=2)
        for rep in range(2):
            x0 = runs.start(r, p)
            rec = runs.base_record(kind, p, x0, lmda=lmda, delta=delta, nsamples=2, s=2)
            vrng.script(runs.gaussians(r, p, 5), [0.4] * 8)
            o = attempt(mc.run, x0 * p.unit)
            g, u, _ = vrng.drawn()
            vrng.off()
            runs.fill(rec, mc, o, g, u, p.unit)
            rec["rows"] = False
            rec["_desc"] += f" run number {rep + 1} of this object"
            recs.append(rec)
    c.validate("TrRun", recs, label="first steps from a given start", clauses={"raised", "step", "kept", "rows", "draws"})
    # default start
    recs = []
    for kind in KINDS:
        for cplx in (False, True):
            n = c.pick(2000, 8000)
            A = np.zeros((1, n))
            data = np.zeros(1, dtype=complex if cplx else float)
            op = problems.ForwardOperator(data, 1.0, "analysis", measurement=problems.DenseMeasurement(A), nparams=n)
            p = problems.Problem(op, problems.L1("synthesis", None, None, 0.0), setting="analysis", A=A, W=None, data=data,
                                 icov=np.ones(1), psetting="synthesis", pF=None, pJ=None, T=np.zeros(n), pw=np.ones(n), cplx=cplx,
                                 desc="free", sig=1.0)
            got = []
            o = attempt(runs.build, kind, p, lmda=1.0, delta=1e-22, nsamples=1, s=1)
            for rep in range(2):
                if o.exc is None:
                    mc = o.value[1] if rep == 0 else mc
                    vrng.record(c.seed + 5 + 0 * rep) if rep == 0 else None
                    o2 = attempt(mc.run)
                    x = mc.chain[0].copy() if not o2.exc else np.zeros(0)
                    exc, text = o2.exc or "", o2.text
                else:
                    x, exc, text = np.zeros(0), o.exc, o.text
                recs.append({"op": "default", "n": n, "size": int(x.size), "cplx": cplx,
                             "iscomplex": bool(np.iscomplexobj(x) and np.abs(x.imag).max() > 0.1) if x.size else cplx, "exc": exc,
                             "_desc": f"{kind} default start cplx={cplx}", "_text": text})
                if x.size:
                    got.append(x)
            for x in got:
                for part, v in [("real", x.real)] + ([("imaginary", x.imag)] if cplx else []):
                    recs.append(law(f"{kind} default start {part} part cplx={cplx}", v))
                if cplx:
                    recs.append(law(f"{kind} default start real against imaginary", x.real, (x.real, x.imag)))
            if len(got) == 2:
                recs.append(law(f"{kind} default start of two runs", got[0].real, (got[0].real, got[1].real)))
                a = np.concatenate([got[0].real, got[1].real])
                recs.append(law(f"{kind} default start repeats", a))
    c.validate("TrStart", recs, label="default start points")


def law(desc, v, pairs=None):
    rec = steps.noise_record(desc, v, pairs)
    rec["bins"] = [int(x) for x in np.bincount(np.searchsorted(LAPLACE, v), minlength=8)]
    return rec
