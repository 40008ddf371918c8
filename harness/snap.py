"""Observation of real numbers as exact rationals (the only numeric step of the binding).

A float is reported as the *simplest* rational within the tolerance; when that rational's
denominator is beyond `dmax` the value is reported as irrational ([sign, 0]).  NaN/inf are
[0, 0].  The specification never accepts [s, 0] where it computed a rational.
"""
import math
from fractions import Fraction

INT_MAX = 2**31 - 1


def _simplest(lo: Fraction, hi: Fraction) -> Fraction:
    # simplest rational in [lo, hi], 0 < lo <= hi  (Stern-Brocot / continued fraction)
    a0, b0, a1, b1 = 0, 1, 1, 0
    n0, d0, n1, d1 = lo.numerator, lo.denominator, hi.numerator, hi.denominator
    while True:
        q = n0 // d0
        if q * d0 == n0:                       # lo is an integer here
            p = q
            return Fraction(p * a1 + a0, p * b1 + b0)
        if n1 // d1 > q:
            p = q + 1
            return Fraction(p * a1 + a0, p * b1 + b0)
        a0, b0, a1, b1 = a1, b1, q * a1 + a0, q * b1 + b0
        n0, d0, n1, d1 = d1, n1 - q * d1, d0, n0 - q * d0


_cache: dict = {}


def snap(x: float, tol: float, dmax: int) -> list:
    """[n, d] in lowest terms, or [sign, 0] / [0, 0]."""
    if not math.isfinite(x):
        return [0, 0]
    if abs(x) <= tol:
        return [0, 1]
    key = (x, tol, dmax)
    r = _cache.get(key)
    if r is None:
        s = 1 if x > 0 else -1
        a = abs(x)
        n = round(a)
        if n > 0 and abs(a - n) <= tol:
            f = Fraction(n)
        else:
            f = _simplest(Fraction(a - tol), Fraction(a + tol))
        if f.denominator > dmax or f.numerator > INT_MAX:
            r = [s, 0]
        else:
            r = [s * f.numerator, f.denominator]
        if len(_cache) < 400000:
            _cache[key] = r
    return list(r)


def snap_angle(rad: float, tol: float, dmax: int) -> list:
    """[cos, sin, floor_deg, on_integer_degree, raw_floor_deg]"""
    if not math.isfinite(rad):
        return [[0, 0], [0, 0], -99999, 0, -99999]
    deg = math.degrees(rad)
    eps = max(1e-9, 60 * tol)
    near = round(deg)
    ex = abs(deg - near) <= eps * max(1.0, abs(deg) / 90)
    fl = near if ex else math.floor(deg)
    lim = 10**8
    return [snap(math.cos(rad), tol, dmax), snap(math.sin(rad), tol, dmax),
            max(-lim, min(lim, fl)), int(ex), max(-lim, min(lim, math.floor(deg)))]
