"""Encoding of recorded values for TLC (see spec/Fixed.tla for the number format)."""
import math
from decimal import Decimal, ROUND_HALF_EVEN, localcontext

import numpy as np

LIMIT = 10 ** 8


class Unencodable(Exception):
    pass


def real(x):
    """5 limbs in base 10^4, 12 decimals, floor-normalised.  x: float or int or Decimal"""
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        x = x.item()
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            raise Unencodable(repr(x))
        if abs(x) >= LIMIT:
            raise Unencodable(repr(x))
        n, d = x.as_integer_ratio()
    elif isinstance(x, int):
        if abs(x) >= LIMIT:
            raise Unencodable(repr(x))
        n, d = x, 1
    else:
        raise Unencodable(repr(type(x)))
    k = n * 10 ** 12
    q, r = divmod(k, d)
    if 2 * r >= d:
        q += 1
    out = [0] * 5
    for i in (4, 3, 2, 1):
        q, out[i] = divmod(q, 10000)
    out[0] = q
    return out


def num(z):
    """real, or a pair for a number with non-zero imaginary part"""
    if isinstance(z, (complex, np.complexfloating)):
        z = complex(z)
        if z.imag == 0:
            return real(z.real)
        return [real(z.real), real(z.imag)]
    return real(z)


def vec(v):
    return [num(z) for z in np.asarray(v).ravel().tolist()]


def rvec(v):
    return [real(z) for z in np.asarray(v).ravel().tolist()]


def mat(m):
    return [vec(r) for r in np.asarray(m)]


def unreal(l):
    """back to a float"""
    k = 0
    for d in l:
        k = k * 10000 + d
    return k / 10 ** 12


def unvec(v):
    return [unreal(x) if len(x) == 5 else complex(unreal(x[0]), unreal(x[1])) for x in v]


def sint(v, scale):
    """integers round(v*scale) for TLC's 32 bit integers"""
    a = np.asarray(v, dtype=float).ravel()
    if not np.all(np.isfinite(a)) or (a.size and np.abs(a * scale).max() > 2 ** 30):
        raise Unencodable("range")
    return [int(k) for k in np.rint(a * scale)]


def finite(v):
    return bool(np.all(np.isfinite(np.asarray(v))))
