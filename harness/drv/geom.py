"""Segments and geometric predicates, recorded for TraceGeom.tla."""
import itertools
import json
import math
import random
import warnings
from fractions import Fraction

import numpy as np

from skcurve import Curve, Point, Segment

from . import enc
from .enc import num, outcome


def f32(*objs):
    return any(o.p1.dtype == np.float32 or o.p2.dtype == np.float32 if isinstance(o, Segment)
               else o.dtype == np.float32 for o in objs)


def rec(s):
    return [enc.vec(s.p1.data), enc.vec(s.p2.data)]


class Space:
    """Generates points of one style, and configurations of segments."""

    def __init__(self, r, prop):
        self.r = r
        self.n = r.weighted([(4, 2), (4, 3), (1.5, 4), (.5, 5), (.3, r.randint(6, 9))])
        self.style = r.weighted([(4, 'grid'), (3, 'dyadic'), (3, 'gauss'), (1.5, 'far'), (1.5, 'tiny'), (1, 'huge'), (1, 'int'),
                                 (1.2, 'fine'), (.7, 'f32'), (.7, 'uint8')])
        self.dt = {'int': r.choice(['int64', 'int32', 'int8']), 'f32': 'float32', 'uint8': 'uint8'}.get(self.style, 'float64')

    @property
    def exact(self):
        return self.style in ('grid', 'dyadic', 'int', 'far', 'tiny', 'huge', 'fine', 'f32', 'uint8')

    def scalar(self):
        r = self.r
        s = self.style
        if s == 'grid':
            return float(r.randint(-2, 2))
        if s == 'int':
            return r.randint(-9, 9)
        if s == 'uint8':
            return r.choice([0, 1, 2, 3, 100, 200, 255])
        if s in ('dyadic', 'f32'):
            return r.randint(-64, 64) / 8.
        if s == 'far':
            return 1024. * 1000 + r.randint(-64, 64) / 8.
        if s == 'tiny':
            return r.randint(-64, 64) * 2. ** -r.choice([30, 30, 40])
        if s == 'huge':
            return r.randint(-64, 64) * 2. ** 30
        if s == 'fine':
            return r.choice([0., 1., 1., 2.]) + r.choice([0., 0., 1., 3.]) * 2. ** -r.choice([20, 30])
        return r.gauss(0, 1)

    def vec(self):
        return np.array([self.scalar() for _ in range(self.n)])

    def dvec(self):
        """a direction: without the offset of the far style"""
        r = self.r
        if self.style == 'far':
            return np.array([r.randint(-64, 64) / 8. for _ in range(self.n)])
        if self.style == 'uint8':
            return np.array([r.randint(-9, 9) for _ in range(self.n)])
        v = self.vec()
        if r.coin(.25):                                      # along few axes
            for i in range(self.n):
                if r.coin(.6):
                    v[i] = 0
        return v

    def tpar(self):
        r = self.r
        if self.style in ('int', 'uint8'):
            return r.randint(-3, 3)
        if self.exact:
            return r.choice([0., 1., .5, .25, -1., 2., r.randint(-48, 48) / 16.])
        return r.choice([0., 1., r.random(), r.uniform(-2, 3)])

    def point(self, v):
        v = np.asarray(v)
        if self.dt == 'uint8':
            v = np.clip(v, 0, 255)
        if self.dt == 'int8':
            v = np.clip(v, -128, 127)
        return Point(v.astype(self.dt), dtype=self.dt)

    def seg(self, a, b):
        a, b = self.point(a), self.point(b)
        r = self.r
        if r.coin(.2):
            rows = np.array([a.data, b.data])
            return Curve(rows, dtype=self.dt).segments[0]
        return Segment(a, b)

    def segment(self, singular=.08):
        r = self.r
        p = self.vec()
        if r.coin(singular):
            return self.seg(p, p)
        return self.seg(p, self.vec() if r.coin() else p + self.dvec())

    def pair(self):
        """two segments in some relation"""
        r = self.r
        k = r.weighted([(3, 'free'), (3, 'col'), (2, 'par'), (2, 'cross'), (2, 'plane'), (1, 'share'), (1, 'same'), (.7, 'near'),
                        (1, 'touch'), (1.5, 'miss')])
        p, d = self.vec(), self.dvec()
        if k == 'miss':                                       # the lines meet just outside of, or just inside, an end
            e = self.dvec()
            h = r.choice([-1, 1, 1]) * 2. ** -r.choice([6, 8, 10, 10, 11] + [12, 13, 16, 20] * (self.style != 'f32'))
            t = r.choice([-h, 1 + h])
            u = r.choice([-h, 1 + h, .5, .25])
            s, o = self.seg(p - t * d, p + (1 - t) * d), self.seg(p - u * e, p + (1 - u) * e)
            return (s, o) if r.coin() else (o, s)
        if k == 'free':
            return self.segment(), self.segment()
        if k == 'col':
            t = [self.tpar() for _ in range(4)]
            if r.coin(.2):
                t[1] = t[0]
            if r.coin(.2):
                t[3] = t[2]
            if r.coin(.3):
                t[2] = t[r.randrange(2)]
            q = [p + x * d for x in t]
            return self.seg(q[0], q[1]), self.seg(q[2], q[3])
        if k == 'par':
            q = self.vec()
            a, b = self.tpar(), self.tpar()
            return self.seg(p, p + d), self.seg(q + a * d, q + b * d)
        if k == 'cross':
            e = self.dvec()
            t = [self.tpar() for _ in range(4)]
            return self.seg(p + t[0] * d, p + t[1] * d), self.seg(p + t[2] * e, p + t[3] * e)
        if k == 'plane':
            e = self.dvec()
            q = [p + self.tpar() * d + self.tpar() * e for _ in range(4)]
            return self.seg(q[0], q[1]), self.seg(q[2], q[3])
        if k == 'share':
            s, o = self.segment(), self.segment()
            return s, self.seg(r.choice([s.p1, s.p2]).data, o.p2.data)
        if k == 'same':
            s = self.segment()
            return (s, s) if r.coin(.3) else (s, self.seg(s.p1.data, s.p2.data)) if r.coin() else (s, s.reverse())
        if k == 'touch':
            s = self.segment()
            t = self.tpar()
            return s, self.seg(s.p1.data + t * (s.p2.data.astype(float) - s.p1.data), self.vec())
        s = self.segment()                                    # nearly parallel or collinear
        h = r.choice([1e-3, 1e-6, 1e-9, 1e-12, 1e-14])
        q = [x.data + h * np.array([r.gauss(0, 1) for _ in range(self.n)]) * (1 + np.abs(s.data).max()) for x in (s.p1, s.p2)]
        if self.dt != 'float64':
            return s, s
        return s, self.seg(q[0] + r.choice([0, 1]) * d, q[1] + r.choice([0, 1]) * d)


def ask(fn):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            return fn()


def val(fn, encf=lambda x: x):
    return outcome(lambda: ask(fn), 'val', encf)[0]


def pick_tol(r, s, *others):
    """an explicit tolerance of the singular values, or None"""
    if f32(s, *others) or r.coin(.5):
        return None
    top = max(float(np.abs(np.asarray(x.data, dtype=float)).max()) for x in (s,) + others)
    return r.choice([1e-9, 1e-6, 1e-3, .03, .5, 4., 100.]) * (top or 1.)


def tolrec(tol):
    return '' if tol is None else num(tol)


def kw(tol):
    return {} if tol is None else {'tol': tol}


# ------------------------------------------------------------------ C16
def segpoint(r, sp):
    s = sp.segment()
    k = r.choice(['one', 'list', 'tuple', 'array', 'int'])
    n = 1 if k in ('one', 'int') else r.choice([0, 1, 2, 3, 5])
    ts = [r.randint(-2, 3) if k == 'int' else float(r.choice([sp.tpar(), r.uniform(-.5, 1.5)])) + 0. for _ in range(n)]
    return segpoint_record(s, ts, k)


def segpoint_record(s, ts, k):
    arg = ts[0] if k in ('one', 'int') else {'list': list, 'tuple': tuple, 'array': lambda x: np.array(x, dtype=float)}[k](ts)

    def fn():
        o = s.point(arg)
        return [enc.point(o)] if k in ('one', 'int') else [enc.point(x) for x in o]
    return {'op': 'segpoint', 'prop': 'C16', 's': rec(s), 'ts': [num(t) for t in ts], 'out': val(fn), 'f32': f32(s)}


def segt(r, sp):
    s = sp.segment(0)
    a, b = s.p1.data.astype(float), s.p2.data.astype(float)
    single = r.coin(.4)
    n = 1 if single else r.choice([1, 2, 3, 5])
    ps = []
    for _ in range(n):
        k = r.weighted([(5, 'on'), (3, 'off'), (1, 'end'), (1, 'near')])
        t = r.randint(-32, 48) / 16. if sp.exact else sp.tpar()
        if k == 'on':
            q = a + t * (b - a)
        elif k == 'end':
            q = r.choice([a, b])
        elif k == 'off':
            q = sp.vec() if r.coin() else a + t * (b - a) + sp.dvec()
        else:
            q = a + t * (b - a) + r.choice([1e-3, 1e-5]) * np.array([r.gauss(0, 1) for _ in a])
        ps.append(Point(q))
    return segt_record(s, ps, single, r.choice([list, tuple]), pick_tol(r, s))


def segt_record(s, ps, single, seq, tol=None):
    arg = ps[0] if single else seq(ps)

    def fn():
        o = s.t(arg, **kw(tol))
        return [num(o)] if single else enc.vec(o)
    return {'op': 'segt', 'prop': 'C16', 's': rec(s), 'ps': [enc.vec(p.data) for p in ps], 'tol': tolrec(tol), 'out': val(fn),
            'f32': f32(s)}


def segbasic(r, sp):
    return segbasic_record(sp.segment(.2))


def segbasic_record(s):
    def fn():
        c = s.to_curve()
        v = s.reverse()
        return {'data': enc.mat(s.data), 'ndim': int(s.ndim), 'dir': enc.point(s.direction), 'len': num(s.seglen), 'dot': num(s.dot),
                'rev': [enc.point(v.p1), enc.point(v.p2)], 'singular': enc.boolean(s.singular), 'curve': enc.curve(c)['pts']}
    return {'op': 'segbasic', 'prop': 'C16', 's': rec(s), 'out': val(fn), 'f32': f32(s),
            'isint': s.p1.dtype.kind in 'iu' and s.p2.dtype.kind in 'iu'}


def segeq(r, sp):
    s, o = sp.pair()
    if r.coin(.4):
        o = Segment(s.p1, s.p2) if r.coin() else Segment(s.p1, o.p2)
    return segeq_record(s, o)


def segeq_record(s, o):
    ii = all(p.dtype.kind in 'iu' for p in (s.p1, s.p2, o.p1, o.p2))
    return {'op': 'segeq', 'prop': 'C16', 's': rec(s), 'r': rec(o), 'isint': ii,
            'out': val(lambda: {'eq': enc.boolean(s == o), 'ne': enc.boolean(s != o)})}


def reject(r, sp, prop):
    s = sp.segment()
    q = Point(s.p1.data)
    other = Point([1.] * (s.ndim + 1))
    o2 = Segment(other, Point([0.] * (s.ndim + 1)))
    bad = r.choice([1, 'x', None, [1., 2.], s.data])
    opts = {
        'C16': [(lambda: Segment(bad, q), ['TypeError']), (lambda: Segment(q, bad), ['TypeError']),
                (lambda: Segment(q, other), ['ValueError']), (lambda: Segment(Point([]), Point([])), ['ValueError']),
                (lambda: s.point([[0., 1.]]), ['ValueError']), (lambda: s.point(np.zeros((2, 2))), ['ValueError'])],
        'C17': [(lambda: s.collinear(bad), ['TypeError']), (lambda: s.coplanar(bad), ['TypeError']),
                (lambda: s.angle(bad), ['TypeError']), (lambda: s.angle(q), ['TypeError'])],
        'C19': [(lambda: s.distance(bad), ['TypeError']), (lambda: s.shortest_segment(bad), ['TypeError'])],
    }
    fn, exp = r.choice(opts[prop])
    return {'op': 'reject', 'prop': prop, 'expected': exp, 'out': val(fn, lambda x: 0)}


# ------------------------------------------------------------------ C17
def orders(s, o):
    s2, o2 = s.reverse(), o.reverse()
    return [(s, o), (o, s), (s2, o), (s, o2), (s2, o2), (o2, s)]


def pair_event(s, o, tol=None, ptol=None):
    def fn():
        return {'par': [enc.boolean(a.parallel(b, **kw(ptol))) for a, b in orders(s, o)],
                'col': [enc.boolean(a.collinear(b, **kw(tol))) for a, b in orders(s, o)],
                'cop': [enc.boolean(a.coplanar(b, **kw(tol))) for a, b in orders(s, o)]}
    return {'op': 'pair', 'prop': 'C17', 's': rec(s), 'r': rec(o), 'tol': tolrec(tol), 'ptol': tolrec(ptol), 'out': val(fn)}


def pointpred(r, sp):
    s = sp.segment()
    k = r.choice(['on', 'off', 'end'])
    a, b = s.p1.data.astype(float), s.p2.data.astype(float)
    q = a + sp.tpar() * (b - a) if k == 'on' else sp.vec() if k == 'off' else r.choice([a, b])
    return pointpred_record(s, Point(q), pick_tol(r, s))


def pointpred_record(s, p, tol=None):
    v = s.reverse()
    k = kw(tol)
    return {'op': 'pointpred', 'prop': 'C17', 's': rec(s), 'p': enc.vec(p.data), 'tol': tolrec(tol),
            'out': val(lambda: {'col': [enc.boolean(s.collinear(p, **k)), enc.boolean(v.collinear(p, **k))],
                                'cop': [enc.boolean(s.coplanar(p, **k)), enc.boolean(v.coplanar(p, **k))]})}


def isplane(r, sp):
    m = r.choice([0, 1, 2, 3, 4, 4, 5, 5, 6])
    p, d, e = sp.vec(), sp.dvec(), sp.dvec()
    if r.coin(.7):
        rows = [p + sp.tpar() * d + sp.tpar() * e for _ in range(m)]
        if m and r.coin(.25):
            rows[r.randrange(m)] = sp.vec()
    else:
        rows = [sp.vec() for _ in range(m)]
    rows = [sp.point(x).data for x in rows]
    return isplane_record(Curve(np.array(rows, dtype=sp.dt).reshape(m, sp.n), dtype=sp.dt))


def isplane_record(c):
    return {'op': 'isplane', 'prop': 'C17', 'pts': enc.mat(c.data), 'out': val(lambda: c.isplane, enc.boolean)}


def angle(r, sp):
    s, o = sp.pair()
    return angle_record(s, o, r.weighted([(3, None), (1, r.randint(1, 6))]))


def angle_record(s, o, nd):
    return {'op': 'angle', 'prop': 'C17', 's': rec(s), 'r': rec(o), 'scale': str(10 ** nd) if nd else '0',
            'out': val(lambda: s.angle(o, ndigits=nd) if nd else s.angle(o), num)}


# ------------------------------------------------------------------ C18, C19
def overlap_event(s, o, check):
    def fn():
        return [[] if x is None else enc.segment(x) for x in (a.overlap(b, check_collinear=check) for a, b in orders(s, o))]
    return {'op': 'overlap', 'prop': 'C18', 's': rec(s), 'r': rec(o), 'check': check, 'out': val(fn)}


def short_event(s, o):
    isp = isinstance(o, Point)

    def fn():
        c = s.shortest_segment(o)
        d = s.distance(o)
        dr = d if isp else o.distance(s)
        return {'c': enc.segment(c), 'd': num(d), 'dr': num(dr)}
    return {'op': 'short', 'prop': 'C19', 's': rec(s), 'r': [enc.vec(o.data)] * 2 if isp else rec(o), 'point': isp, 'out': val(fn),
            'f32': f32(s, o)}


def shortest(r, sp):
    s, o = sp.pair()
    k = r.choice(['seg', 'seg', 'point'])
    if k == 'point':
        return short_event(s, r.choice([o.p1, o.p2, sp.point(sp.vec())]))
    if r.coin(.2) and sp.dt == 'float64':                      # very different lengths
        f = r.choice([1e-6, 1e-9, 2. ** -20, 1e6])
        o = Segment(o.p1, Point(o.p1.data + f * (o.p2.data - o.p1.data)))
    return short_event(s, o) if r.coin() else short_event(o, s)


def trace(r, prop):
    out = []
    for _ in range(4):
        sp = Space(r, prop)
        for _ in range(4):
            if prop == 'C16':
                out += [segpoint(r, sp), segt(r, sp), segbasic(r, sp), segeq(r, sp)]
            elif prop == 'C17':
                s, o = sp.pair()
                out += [pair_event(s, o, pick_tol(r, s, o), r.choice([None, 1e-9, 1e-4, .01, .3])), pointpred(r, sp), isplane(r, sp), angle(r, sp)]
            elif prop == 'C18':
                s, o = sp.pair()
                out.append(overlap_event(s, o, r.coin()))
                s, o = sp.pair()
                out.append(overlap_event(s, o, r.coin()))
            elif prop == 'C19':
                out += [shortest(r, sp), shortest(r, sp)]
    if prop in ('C16', 'C17', 'C19'):
        out.append(reject(r, sp, prop))
    return out


def play(b, prop):
    """a call of SegMC"""
    r = random.Random(json.dumps(b))

    def seg(q, dt):
        v = np.array([[float(z) for z in p] for p in q])
        if v.shape[1] == 1:                                   # no curve
            return Segment(*(Point(x.astype(dt), dtype=dt) for x in v))
        c = Curve(v.astype(dt), dtype=dt)
        return c.segments[0] if r.random() < .5 else Segment(c[0], c[1])

    def pt(p):
        return Point([float(z) for z in p])
    dt = r.choice(['float64', 'float64', 'int64', 'float32', 'int8'])
    s = seg(b['s'], dt)
    k = b['op']
    if k == 'point':
        ts = [float(Fraction(t)) for t in b['ts']]
        how = ['list', 'tuple', 'array'] + (['one'] if len(ts) == 1 else [])
        return [segpoint_record(s, ts, h) for h in how]
    if k == 't':
        ps = [pt(p) for p in b['ps']]
        return [segt_record(s, ps, False, r.choice([list, tuple]))] + ([segt_record(s, ps, True, list)] if len(ps) == 1 else [])
    if k == 'basic':
        return [segbasic_record(s)]
    if k == 'eq':
        return [segeq_record(s, seg(b['r'], r.choice([dt, 'float64'])))]
    if k == 'pointpred':
        return [pointpred_record(s, pt(b['p']))]
    if k == 'isplane':
        rows = np.array([[float(z) for z in p] for p in b['ps']])
        return [isplane_record(Curve(rows.astype(dt), dtype=dt))]
    if k == 'angle':
        return [angle_record(s, seg(b['r'], dt), b['nd'] or None)]
    return [short_event(s, pt(b['p']))]
