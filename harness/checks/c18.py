"""Chebyshev helpers satisfy the Chebyshev recurrences at every order."""
import numpy as np
from pxmcmc.utils import chebyshev1, chebyshev2, cheb1der
from .. import enc
from ..core import attempt

FUN = {"first": chebyshev1, "second": chebyshev2, "derivative": cheb1der}


def check(c):
    c.model("MCCheb")
    r = c.rng
    recs = []
    for name, f in FUN.items():
        for n in range(-12, 0):
            for x in (0.3, 2, np.float64(-1.0)):
                o = attempt(f, x, n)
                recs.append({"op": "neg", "f": name, "want": "ValueError", "exc": o.exc or "", "_desc": f"{name} order {n} at {x}"})
        # exact integers
        for n in range(0, c.pick(19, 24)):
            for x in range(-6, 7):
                def want():
                    a, b = 1, (x if name == "first" else 2 * x)
                    m = n if name != "derivative" else n - 1
                    for _ in range(max(m, 0)):
                        a, b = b, 2 * x * b - a
                    return a if m >= 0 else 0
                # only where machine integers of TLC suffice (every intermediate value)
                if abs(x) > 1 and (2 * abs(x)) ** n * (n + 1) >= 2 ** 30:
                    continue
                o = attempt(f, x, n)
                out, exc = 0, o.exc or ""
                if not exc:
                    if float(o.value) == int(o.value):
                        out = int(o.value)
                    else:
                        exc = "NotInteger"
                recs.append({"op": "int", "f": name, "want": "", "exc": exc, "x": x, "n": n, "out": out if abs(out) < 2 ** 31 else 0,
                             "_desc": f"{name} order {n} at {x}", "_text": o.text})
        # real and complex points, scalars and arrays
        for n in list(range(0, c.pick(19, 24))) + [20, 21]:
            for q in range(c.pick(4, 12)):
                hi = min(3.0, 0.55 * 10 ** (6.5 / max(n, 1)))
                x = float(np.round(r.uniform(-1, 1) * max(hi, 1.02), 6))
                forms = [x, np.float64(x), 0.0 if q == 0 else 1.0 if q == 1 else -1.0 if q == 2 else 1 + 0.05 / max(n, 1) ** 2]
                if q == 0:
                    forms.append(complex(x * 0.6, 0.1))
                if n >= 1:
                    forms.append(np.round(r.uniform(-1, 1, 3), 6))
                for z in forms:
                    keep = np.array(z)
                    o = attempt(f, z, n)
                    rec = {"op": "real", "f": name, "want": "", "exc": o.exc or "", "x": enc.vec(np.atleast_1d(z)), "n": n, "out": [],
                           "same": bool(np.array_equal(keep, np.array(z))), "_desc": f"{name} order {n} at {z}", "_text": o.text}
                    if not o.exc:
                        try:
                            rec["out"] = enc.vec(np.broadcast_to(np.atleast_1d(o.value), np.atleast_1d(z).shape))
                        except Exception as e:  # noqa
                            rec["exc"], rec["_text"] = "NotRecordable", repr(e)
                    recs.append(rec)
    c.validate("TrCheb", recs, label="chebyshev1, chebyshev2, cheb1der")
