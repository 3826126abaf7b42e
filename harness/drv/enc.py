"""Exact encoding of values observed in the library, and recording of outcomes."""
import random
import warnings

import numpy as np

warnings.simplefilter('ignore')
import skcurve                                        # noqa: E402
from skcurve import Curve, Point, Segment             # noqa: E402


class Malformed(Exception):
    """The library returned something that is not a value of the documented type."""


def num(x):
    """One number, exactly."""
    if isinstance(x, (bool, np.bool_)):
        raise Malformed('boolean for number')
    if isinstance(x, np.ndarray):
        if x.ndim != 0:
            raise Malformed('array for number')
        x = x[()]
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x:
            return 'nan'
        if x in (float('inf'), float('-inf')):
            return 'inf' if x > 0 else '-inf'
        n, d = x.as_integer_ratio()
        return str(n) if d == 1 else '%d/%d' % (n, d)
    raise Malformed('%s for number' % type(x).__name__)


def vec(v):
    """A 1-D array or sequence of numbers."""
    if isinstance(v, np.ndarray) and v.ndim != 1:
        raise Malformed('array of rank %d for vector' % v.ndim)
    return [num(x) for x in v]


def mat(m):
    """A 2-D array."""
    m = np.asarray(m)
    if m.ndim != 2:
        raise Malformed('array of rank %d for matrix' % m.ndim)
    return [vec(r) for r in m]


def boolean(b):
    if isinstance(b, (bool, np.bool_)):
        return bool(b)
    raise Malformed('%s for truth value' % type(b).__name__)


def integer(i):
    if isinstance(i, (int, np.integer)) and not isinstance(i, (bool, np.bool_)) and abs(int(i)) < 2 ** 31:
        return int(i)
    raise Malformed('%r for integer' % (i,))


def point(p):
    if not isinstance(p, Point):
        raise Malformed('%s for point' % type(p).__name__)
    return vec(p.data)


def segment(s):
    if not isinstance(s, Segment):
        raise Malformed('%s for segment' % type(s).__name__)
    return [point(s.p1), point(s.p2)]


def curve(c):
    if not isinstance(c, Curve):
        raise Malformed('%s for curve' % type(c).__name__)
    d = c.data
    if not isinstance(d, np.ndarray) or d.ndim != 2:
        raise Malformed('curve data')
    par = bool(c.isparametric)
    return {'nd': int(c.ndim), 'pts': mat(d), 'par': par, 't': vec(c.t) if par else [], 'dt': c.dtype.name}


def pcurve(p):
    """A point, as a one-point curve record."""
    return {'nd': int(p.ndim), 'pts': [point(p)], 'par': False, 't': [], 'dt': p.dtype.name}


def pseg(s):
    """A segment, as a two-point curve record."""
    if not isinstance(s, Segment):
        raise Malformed('%s for segment' % type(s).__name__)
    return {'nd': int(s.ndim), 'pts': [point(s.p1), point(s.p2)], 'par': False, 't': [], 'dt': 'any'}


def err(e):
    return {'k': 'err', 'e': [k.__name__ for k in type(e).__mro__]}


def outcome(fn, kind='curve', enc=None):
    """Call fn; returns (recorded outcome, result or None)."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = fn()
            if kind == 'curve':
                return {'k': 'curve', 'c': (enc or curve)(r)}, r
            return {'k': 'val', 'v': enc(r)}, r
    except Exception as e:                            # noqa: B902 - the outcome is what is recorded
        return err(e), None


def optint(i):
    return {'h': i is not None, 'v': 0 if i is None else int(i)}


class Rng(random.Random):
    """Seeded randomness with a few helpers."""

    def coin(self, p=0.5):
        return self.random() < p

    def weighted(self, items):
        """items: list of (weight, value)"""
        tot = sum(w for w, _ in items)
        x = self.random() * tot
        for w, v in items:
            x -= w
            if x < 0:
                return v
        return items[-1][1]
