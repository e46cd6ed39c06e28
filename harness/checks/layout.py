"""Wavelet configurations used by several checks: (L, B, J_min), B a dyadic rational so that ceil(B^j) is exact."""
from fractions import Fraction


def ceil_pow(B, j):
    f = Fraction(B) ** j
    return -(-f.numerator // f.denominator)


def j_max(B, L):
    j = 0
    while Fraction(B) ** j < L:
        j += 1
    return j


def bandlimits(L, B, J0):
    return [min(ceil_pow(B, J0), L)] + [min(ceil_pow(B, j + 1), L) for j in range(J0, j_max(B, L) + 1)]


def total(L, B, J0, dirs=1):
    b = bandlimits(L, B, J0)
    return b[0] * (2 * b[0] - 1) + (2 * dirs - 1) * sum(x * (2 * x - 1) for x in b[1:])


def hlen(b, dirs):
    n = min(dirs, b)
    return (2 * n - 1) * b * b - n * (n - 1) * (2 * n - 1) // 3


def htotal(L, B, J0, dirs=1):
    b = bandlimits(L, B, J0)
    return b[0] ** 2 + sum(hlen(x, dirs) for x in b[1:])


CONFIGS = [(L, B, J0) for L in (2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16) for B in (2, 3, 1.5, 2.5, 1.75, 4, 1.25)
           for J0 in (0, 1, 2, 3)
           if J0 <= j_max(B, L) and not (B == 1.25 and L > 8) and not (B == 1.75 and L > 12)]
