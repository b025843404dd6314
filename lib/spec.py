"""Independent specification of field sampling, written from the documentation of the schemes and
generic over numbers (Fraction / float / Sym).  Never looks at parcels' code."""
from fractions import Fraction

OOB, SURF, TEX = 'out-of-bounds', 'through-surface', 'time-extrapolation'
ERRNAME = {6: OOB, 61: SURF, 7: TEX, 51: 'interpolation', 5: 'error'}


class Err(Exception):
    def __init__(self, kind):
        self.kind = kind


def cells(c, x):
    """all i with x in the closed interval [c[i], c[i+1]] (ascending or descending c); [] if none"""
    out = []
    for i in range(len(c) - 1):
        lo, hi = (c[i], c[i + 1]) if c[i + 1] > c[i] else (c[i + 1], c[i])
        if x >= lo and x <= hi:
            out.append(i)
    return out


def rel(c, i, x):
    return (x - c[i]) / (c[i + 1] - c[i])


def bilin(v, yi, xi, eta, xsi):
    return ((1 - xsi) * (1 - eta) * v[yi][xi] + xsi * (1 - eta) * v[yi][xi + 1]
            + xsi * eta * v[yi + 1][xi + 1] + (1 - xsi) * eta * v[yi + 1][xi])
