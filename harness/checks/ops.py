"""Recording linear operators: columns through unit vectors, values at other points, pairings."""
import numpy as np
from .. import enc
from ..core import attempt


class Raised(Exception):
    pass


def call(f, x):
    o = attempt(f, x)
    if o.exc:
        e = Raised(o.exc)
        e.name, e.text = o.exc, o.text
        raise e
    v = np.asarray(o.value)
    if v.ndim != 1:
        e = Raised("shape")
        e.name, e.text = "Shape", f"shape {v.shape}"
        raise e
    return v


def scaled(form):
    """the power of two in "complex *2^-20", by which the argument is scaled and the result divided"""
    if "*2^" in form:
        form, e = form.split(" *2^")
        return form, 2.0 ** int(e)
    return form, 1.0


def point(r, n, form):
    x = np.round(r.normal(0, 1, n), 4)
    y = np.round(r.normal(0, 1, n), 4)
    if form == "int":
        x = r.randint(-4, 5, n)
    elif form == "complex":
        x = x + 1j * y
    elif form == "imag":
        x = 1j * x
    elif form == "strided":
        x = np.repeat(x + 1j * y, 2)[::2]
    elif form == "reversed":
        x = x[::-1]
    elif form == "f32":
        x = np.round(x * 16).astype(np.float32) / np.float32(16)
    elif form == "c64":
        x = ((np.round(x * 16) + 1j * np.round(y * 16)) / 16).astype(np.complex64)
    elif form == "zero":
        x = np.zeros(n)
    elif form == "imag unit":
        x = np.zeros(n, dtype=complex)
        x[r.randint(n)] = 1j
    elif form == "big":
        x = x * 1000.0
    elif form == "nearly real":
        x = x + 1j * y * 2.0 ** -float(r.choice([10, 14, 18, 21]))
    elif form == "nearly imag":
        x = 1j * x + y * 2.0 ** -float(r.choice([10, 14, 18, 21]))
    elif form == "spread":
        x = (x + 1j * y) * 2.0 ** -r.randint(0, 22, n)
    elif form == "one big":
        x = (x + 1j * y) * 2.0 ** -17
        x[r.randint(n)] = 500.0
    elif form == "constant":
        x = np.full(n, complex(x[0], y[0])) if n else x
    elif form == "nearly constant":
        x = (1.25 + x * 2.0 ** -16) if n else x
    elif form == "frozen":
        x = x + 1j * x[::-1]
        x.flags.writeable = False
    elif form != "real":
        raise ValueError(form)
    return x


def points(r, n, forms):
    """varied arguments of length n, with the scale each is to be divided by"""
    out = []
    for form in forms:
        f, s = scaled(form)
        x = point(r, n, f)
        out.append((x * s if s != 1 else x, s))
    return out


FORMS = ["real", "int", "complex", "imag", "strided", "reversed", "f32", "c64", "zero", "imag unit", "big", "frozen",
         "nearly real", "nearly imag", "spread", "one big", "constant", "nearly constant", "complex *2^-20", "real *2^-40", "complex *2^16"]
# contiguous doubles only, as pyssht needs
SHORT = ["real", "complex", "imag", "imag unit", "frozen", "nearly real", "nearly imag", "spread", "one big", "constant", "complex *2^-20", "real *2^-40"]


def unit(n, k, cplx):
    e = np.zeros(n, dtype=complex if cplx else float)
    e[k] = 1
    return e


def matrix_record(r, fwd, adj, n, m, desc, known="", M=None, forms=FORMS, tol=9, cplx=True):
    rc = {"op": "matrix", "n": n, "m": m, "F": [], "A": [], "xs": [], "fxs": [], "ys": [], "ays": [], "known": known,
          "M": [enc.vec(c) for c in M] if M is not None else [], "tol": tol, "same": True, "repeat": True, "exc": "", "_desc": desc}
    try:
        order = r.permutation(n)
        F = [None] * n
        for k in order:
            F[k] = call(fwd, unit(n, k, cplx))
        A = [None] * m
        for k in r.permutation(m):
            A[k] = call(adj, unit(m, k, cplx))
        xs, ys = points(r, n, forms), points(r, m, forms) if m else []
        fx, ay = [], []
        for f, pts, outs, cols in ((fwd, xs, fx, F), (adj, ys, ay, A)):
            held = []
            buf = np.zeros(pts[0][0].size if pts else 0, dtype=complex)
            for k, (x, s) in enumerate(pts):
                keep = x.copy()
                v = call(f, x)
                outs.append(np.array(v) / s)
                rc["same"] &= bool(np.array_equal(keep, x))
                if k % 2:
                    held.append((v, np.array(v)))     # a result is not changed by later calls
                elif v.size and v.flags.writeable and not np.shares_memory(v, x):
                    v *= 2            # what the caller does with a result must not matter
                if k % 3 == 0:
                    w = call(f, x)
                else:                 # the caller reuses one array
                    buf[...] = x
                    w = np.array(call(f, buf))
                rc["repeat"] &= bool(np.allclose(w / s, outs[-1], rtol=1e-8, atol=1e-9))
                rc["same"] &= bool(np.array_equal(keep, x))
            rc["repeat"] &= all(bool(np.array_equal(v, w)) for v, w in held)
        xs, ys = [x / s for x, s in xs], [x / s for x, s in ys]
        rc.update(F=[enc.vec(c) for c in F], A=[enc.vec(c) for c in A], xs=[enc.vec(x) for x in xs], ys=[enc.vec(x) for x in ys],
                  fxs=[enc.vec(x) for x in fx], ays=[enc.vec(x) for x in ay])
    except Raised as e:
        rc["exc"], rc["_text"] = e.name, e.text
    except enc.Unencodable as e:
        rc["exc"], rc["_text"] = "NotRecordable", repr(e)
    return rc


def pairs_record(r, fwd, adj, n, m, desc, count=2, tol=8, known="", rows=()):
    rc = {"op": "pairs", "n": n, "m": m, "xs": [], "fxs": [], "ys": [], "ays": [], "tol": tol, "same": True, "exc": "", "known": known,
          "rows": [{"i": int(i) + 1, "at": [int(j) + 1 for j in at], "v": enc.vec(v)} for i, at, v in rows], "_desc": desc}
    try:
        for q in range(count):
            (x, s), = points(r, n, [["complex", "nearly real", "imag", "strided", "spread", "complex *2^-20"][q % 6]])
            (y, t), = points(r, m, [["nearly real", "complex", "real", "complex", "complex *2^-20", "spread"][q % 6]])
            kx, ky = x.copy(), y.copy()
            fx, ay = np.array(call(fwd, x)) / s, np.array(call(adj, y)) / t
            rc["same"] &= bool(np.array_equal(kx, x) and np.array_equal(ky, y))
            x, y = x / s, y / t
            rc["xs"].append(enc.vec(x)), rc["ys"].append(enc.vec(y))
            rc["fxs"].append(enc.vec(fx)), rc["ays"].append(enc.vec(ay))
    except Raised as e:
        rc["exc"], rc["_text"] = e.name, e.text
    except enc.Unencodable as e:
        rc["exc"], rc["_text"] = "NotRecordable", repr(e)
    return rc
