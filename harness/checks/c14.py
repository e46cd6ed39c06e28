"""Packing and unpacking coefficients lose and reorder nothing."""
import numpy as np
from pxmcmc.utils import flatten_mlm, expand_mlm
from ..core import attempt

DTYPES = [float, complex, np.float32, np.complex64, int, np.int32]


class Intern:
    def __init__(self):
        self.d = {}

    def __call__(self, a, new=False):
        out = []
        for z in np.asarray(a).ravel().tolist():
            z = complex(z)
            if new:
                self.d.setdefault(z, len(self.d) + 1)
            out.append(self.d.get(z, 0))
        return out


def values(r, n, dt, offset=0):
    """distinct values"""
    k = np.arange(offset + 1, offset + n + 1)
    k = k * np.where(r.rand(n) < 0.5, -1, 1)
    if np.issubdtype(dt, np.complexfloating):
        return (k * 0.5 + 1j * np.roll(k, 1) * 0.25).astype(dt)
    if np.issubdtype(dt, np.floating):
        return (k * 0.5).astype(dt)
    return k.astype(dt)


def cols_of(a, I):
    a = np.asarray(a)
    return [I(a[:, k]) for k in range(a.shape[1])]


def layouts(a):
    yield "C", np.ascontiguousarray(a)
    yield "F", np.asfortranarray(a)
    yield "T", np.ascontiguousarray(a.T).T
    yield "strided", np.repeat(np.repeat(a, 2, axis=0), 2, axis=1)[::2, ::2]


def rec(op, desc, **k):
    return dict({"op": op, "exc": "", "want": "", "same": True, "_desc": desc}, **k)


def call(rc, f, args, kw, done):
    keep = [np.array(a) for a in args]
    o = attempt(f, *args, **kw)
    rc["exc"], rc["_text"] = o.exc or "", o.text
    rc["same"] = all(np.array_equal(a, b) for a, b in zip(keep, args))
    if not o.exc:
        try:
            done(o.value)
        except Exception as e:  # noqa
            rc["exc"], rc["_text"] = "NotRecordable", repr(e)
    return rc


def cases(r, n, ns, dt, recs, deep):
    I = Intern()
    scal = values(r, n, dt)
    wav = values(r, n * ns, dt, n)
    I(scal, True), I(wav, True)
    W = wav.reshape(ns, n).T if ns else np.zeros((n, 0), dtype=dt)     # column k is scale k
    d = f"n={n} scales={ns} {np.dtype(dt).name}"
    for lay, A in layouts(W):
        rc = rec("flatten2", f"flatten {lay} {d}", scal=I(scal), cols=cols_of(A, I), out=[])
        recs.append(call(rc, flatten_mlm, (A, scal), {}, lambda v, rc=rc: rc.update(out=I(one_d(v)))))
    rc = rec("flatten1", f"flatten 1D {d}", scal=I(scal), wav=I(wav), out=[])
    recs.append(call(rc, flatten_mlm, (wav, scal), {}, lambda v, rc=rc: rc.update(out=I(one_d(v)))))
    v0 = np.concatenate([scal, wav])
    for lay, v in (("", v0), ("strided ", np.repeat(v0, 2)[::2])):
        rc = rec("expand_scales", f"expand nscales {lay}{d}", v=I(v), ns=ns, scal=[], cols=[])
        recs.append(call(rc, expand_mlm, (v,), dict(nscales=ns), lambda o, rc=rc: rc.update(scal=I(one_d(o[1])), cols=cols_of(o[0], I))))
        if ns:
            rc = rec("expand_flat", f"expand flat {lay}{d}", v=I(v), ns=ns, scal=[], wav=[])
            recs.append(call(rc, expand_mlm, (v,), dict(nscales=ns, flatten_wavs=True),
                             lambda o, rc=rc: rc.update(scal=I(one_d(o[1])), wav=I(one_d(o[0])))))
    for m in sorted({0, 1, n, n + 1, v0.size - 1, v0.size} if deep else {n, 1}):
        if 0 <= m <= v0.size:
            for fl in (False, True):
                rc = rec("expand_coefs", f"expand nscalcoefs={m} flatten={fl} {d}", v=I(v0), n=int(m), scal=[], wav=[])
                recs.append(call(rc, expand_mlm, (v0,), dict(nscalcoefs=m, flatten_wavs=fl),
                                 lambda o, rc=rc: rc.update(scal=I(one_d(o[1])), wav=I(one_d(o[0])))))
    # round trip through the code itself
    if ns:
        rc = rec("expand_scales", f"round trip {d}", v=I(v0), ns=ns, scal=[], cols=[])
        recs.append(call(rc, lambda A, s: expand_mlm(flatten_mlm(A, s), nscales=ns), (W, scal), {},
                         lambda o, rc=rc: rc.update(scal=I(one_d(o[1])), cols=cols_of(o[0], I))))


def mixed(r, n, ns, dw, ds, recs):
    """wavelets and scaling coefficients of different types"""
    I = Intern()
    scal, wav = values(r, n, ds), values(r, n * ns, dw, n)
    I(scal, True), I(wav, True)
    W = wav.reshape(ns, n).T
    d = f"n={n} scales={ns} wavelets {np.dtype(dw).name} scaling {np.dtype(ds).name}"
    rc = rec("flatten2", f"flatten {d}", scal=I(scal), cols=cols_of(W, I), out=[])
    recs.append(call(rc, flatten_mlm, (W, scal), {}, lambda v, rc=rc: rc.update(out=I(one_d(v)))))
    rc = rec("flatten1", f"flatten 1D {d}", scal=I(scal), wav=I(wav), out=[])
    recs.append(call(rc, flatten_mlm, (wav, scal), {}, lambda v, rc=rc: rc.update(out=I(one_d(v)))))


def one_d(a):
    a = np.asarray(a)
    if a.ndim != 1:
        raise ValueError(f"shape {a.shape}")
    return a


def check(c):
    c.model("MCPacking", c.pick("MCPacking", "MCPackingBig"))
    r = c.rng
    recs = []
    k = 0
    for n in range(1, c.pick(6, 10)):
        for ns in range(0, c.pick(6, 10)):
            for dt in (DTYPES if c.thorough else [DTYPES[k % 6], DTYPES[(k + 1) % 2]]):
                cases(r, n, ns, dt, recs, True)
            k += 1
    for n, ns in [(16, 1), (1, 30), (36, 4), (100, 3), (7, 13), (64, 2)] + ([(500, 6), (1000, 2)] if c.thorough else []):
        for dt in (complex, float):
            cases(r, n, ns, dt, recs, False)
    for dw in DTYPES:
        for ds in DTYPES:
            if dw != ds:
                mixed(r, int(r.randint(1, 6)), int(r.randint(1, 4)), dw, ds, recs)
    # unequal lengths: more or fewer scaling coefficients than rows of wavelets
    for n, m, ns in [(1, 3, 2), (4, 2, 3), (9, 1, 1), (0, 4, 2), (3, 0, 0), (25, 9, 2)]:
        I = Intern()
        scal, wav = values(r, n, complex), values(r, m * ns, complex, n)
        I(scal, True), I(wav, True)
        W = wav.reshape(ns, m).T
        rc = rec("flatten2", f"flatten {n} scaling, {m} rows of {ns} scales", scal=I(scal), cols=cols_of(W, I), out=[])
        recs.append(call(rc, flatten_mlm, (W, scal), {}, lambda v, rc=rc: rc.update(out=I(one_d(v)))))
    v = np.arange(12.0)
    for kw in ({}, dict(nscales=2, nscalcoefs=4), dict(nscales=0, nscalcoefs=0), dict(nscales=1, nscalcoefs=0), dict(nscales=0, nscalcoefs=3),
               dict(flatten_wavs=True), dict(nscales=2, nscalcoefs=4, flatten_wavs=True)):
        rc = rec("refuse", f"expand {kw}", want="ValueError")
        recs.append(call(rc, expand_mlm, (v,), kw, lambda o: None))
    c.validate("TrPacking", recs, label="flatten and expand")
