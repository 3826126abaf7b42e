"""Intersections of segments and curves, recorded for TraceInter.tla."""
import json
import random
import warnings
from fractions import Fraction

import numpy as np

from skcurve import Curve, Point, Segment, CurveSegment, get_intersect_method, IntersectionType, SegmentsIntersection

from . import enc, geom
from .enc import num, outcome, Malformed
from .geom import Space, rec, val


def info(o):
    """type and data of a record"""
    t = o.intersect_type.name
    d = o.intersect_info.data
    if d is None:
        return t, 'none', []
    if isinstance(d, Point):
        return t, 'point', [enc.point(d)] * 2
    return t, 'segment', enc.segment(d)


def observed(o, same):
    t, kind, seg = info(o)
    p, s = o.intersect_point, o.intersect_segment
    return {'truth': enc.boolean(bool(o)), 'type': t, 'infotype': o.intersect_info.type.name, 'kind': kind, 'seg': seg,
            'point': [] if p is None else enc.point(p), 'iseg': [] if s is None else enc.segment(s), 'same': bool(same)}


def samedata(a, b):
    return a is b or (np.array_equal(a.p1.data, b.p1.data) and np.array_equal(a.p2.data, b.p2.data))


def segs_event(s, o, method):
    def fn():
        out = []
        for a, b in geom.orders(s, o):
            x = a.intersect(b, method=method) if method else a.intersect(b)
            out.append(observed(x, samedata(x.segment1, a) and samedata(x.segment2, b)))
        return out
    return {'op': 'segs', 'prop': 'C20', 's': rec(s), 'r': rec(o), 'out': val(fn)}


def almost_method(r, **kw):
    """the way the method is asked for"""
    if r.coin(.3):
        m = get_intersect_method('almost', **kw)
        return {'method': m}
    return dict(kw, method='almost')


def pick_ptol(r):
    return r.choice([None, None, 1e-9, 1e-4, .01, .3])


def asegs_event(r, s, o):
    tol = r.choice([None, .3, .6, 1.2, 1e-3, 1e-9, 1e-7])
    kw = {} if tol is None else {'dist_tol': tol}
    corr = r.coin(.4)
    ptol = pick_ptol(r) if corr else None
    if corr:
        kw['correct_overlap'] = True
    if ptol is not None:
        kw['parallel_tol'] = ptol
    m = almost_method(r, **kw)

    def fn():
        x = s.intersect(o, **m)
        return observed(x, samedata(x.segment1, s) and samedata(x.segment2, o))
    return {'op': 'asegs', 'prop': 'C22', 's': rec(s), 'r': rec(o), 'tol': num(tol or 1e-5), 'ptol': geom.tolrec(ptol), 'correct': corr, 'out': val(fn)}


class Curves:
    def __init__(self, r):
        self.r = r
        self.sp = sp = Space(r, 'C21')
        if sp.style in ('uint8', 'f32') and r.coin():
            sp.style, sp.dt = 'grid', 'float64'
        if r.coin(.45):
            sp.n = 2
        if r.coin(.4):
            sp.style, sp.dt = 'grid', 'float64'

    def curve(self, big=False, size=None):
        r, sp = self.r, self.sp
        m = r.weighted([(.5, 0), (.5, 1), (1.5, 2), (6, r.randint(3, 5)), (3, r.randint(5, 8 if big else 6))])
        if size is not None:
            m = size
        rows = []
        if size is not None and r.coin(.6):                # a zigzag about the axes
            k = r.randrange(sp.n)
            for i in range(m):
                v = np.zeros(sp.n)
                v[k] = i if r.coin(.9) else i - 1.
                v[(k + 1) % sp.n] = (1 if i % 2 else -1) * r.choice([1., 1., 2.])
                rows.append(v)
            m = 0
        for i in range(m):
            if rows and r.coin(.12):
                rows.append(r.choice(rows))
            elif len(rows) > 1 and r.coin(.12):
                rows.append(rows[-1] + sp.tpar() * (rows[-1] - rows[-2]))     # straight on or back
            else:
                rows.append(sp.vec())
        rows = [sp.point(x).data for x in rows]
        m = len(rows)
        a = np.array(rows, dtype=sp.dt).reshape(m, sp.n)
        kw = {'tdata': np.arange(m) * 1.} if m and r.coin(.1) else {}
        return Curve(a, dtype=sp.dt, **kw)


def operand(x):
    return enc.mat(x.data)


def samecurve(a, b):
    return a is b or (a.data.shape == b.data.shape and np.array_equal(a.data, b.data))


def place(seg, x):
    """the number of a record's segment among the segments of the operand, 0 if it is none of them"""
    if isinstance(x, Segment):
        return 1 if samedata(seg, x) else 0
    if not isinstance(seg, CurveSegment) or not samecurve(seg.curve, x):
        return 0
    i = enc.integer(seg.idx)
    d = x.data
    if not (0 <= i < len(d) - 1) or not np.array_equal(seg.p1.data, d[i]) or not np.array_equal(seg.p2.data, d[i + 1]):
        return 0
    return i + 1


def record(o, a, b, solo=None):
    i, j = place(o.segment1, a), place(o.segment2, b)
    d = dict(observed(o, i > 0 and j > 0), i=i, j=j)
    if solo is not None:
        t, k, s = info(o.segment1.intersect(o.segment2, **solo))
        d['solo'] = {'type': t, 'seg': s or [[], []]}
        if not s:
            d['solo']['seg'] = [['nan'] * a.ndim] * 2
    return d


def operands(r):
    cs = Curves(r)
    k = r.weighted([(5, 'cc'), (3, 'self'), (1.5, 'selfcopy'), (1.5, 'cs'), (1.5, 'sc')])
    a = cs.curve(k == 'self')
    if k == 'self':
        return a, a, True
    if k == 'selfcopy':
        return a, Curve(a, dtype=a.dtype), False
    if k == 'cc':
        if r.coin(.12):                                   # a long and a short one
            a = cs.curve(size=r.choice([r.randint(9, 16), r.randint(9, 16), r.randint(30, 50)]))
            n = r.randint(2, 4)
            b = cs.curve(size=n)
            if r.coin():
                k = r.randrange(cs.sp.n)                  # along the middle of a zigzag
                b = Curve(np.array([[(i * 12. / n if j == k else 0.) for j in range(cs.sp.n)] for i in range(n + 1)]),
                          dtype=cs.sp.dt)
            return (a, b, False) if r.coin() else (b, a, False)
        b = cs.curve()
        if len(a) > 1 and len(b) and r.coin(.3):          # a shared stretch
            rows = [x.data for x in b]
            i = r.randrange(len(a) - 1)
            rows[r.randrange(len(rows)):0] = [a[i].data, a[i + 1].data]
            b = Curve(np.array(rows), dtype=cs.sp.dt)
        return a, b, False
    s = cs.sp.segment()
    return (a, s, False) if k == 'cs' else (s, a, False)


def call(r, a, b, self, **kw):
    if self and r.coin(.6):
        return a.intersect(**kw)
    return a.intersect(b, **kw)


def curves_event(r):
    a, b, self = operands(r)
    kw = r.choice([{}, {'method': 'exact'}, {'method': get_intersect_method('exact')}])
    return curves_record(r, a, b, self, kw)


def curves_record(r, a, b, self, kw):
    def fn():
        res = call(r, a, b, self, **kw)
        if not isinstance(res, list):
            raise Malformed('not a list')
        return [record(o, a, b, kw) for o in res]
    return {'op': 'curves', 'prop': 'C21', 'a': operand(a), 'b': operand(b), 'self': self, 'out': val(fn)}


def acurves_event(r):
    a, b, self = operands(r)
    tol = r.choice([None, .3, .6, 1.2, .8, 1e-3, 1e-7])
    etol = r.choice([None, .05, .3, .7, 1.1])
    return acurves_record(r, a, b, self, tol, etol, pick_ptol(r))


def acurves_record(r, a, b, self, tol, etol, ptol=None):
    kw = {} if tol is None else {'dist_tol': tol}
    ekw = {} if etol is None else {'extra_tol': etol}
    pkw = kw if ptol is None else dict(kw, parallel_tol=ptol)

    def fn():
        base = call(r, a, b, self, **almost_method(r, **kw))
        extra = call(r, a, b, self, **almost_method(r, remove_extra=True, **dict(kw, **ekw)))
        corr = call(r, a, b, self, **almost_method(r, correct_overlap=True, **pkw))
        both = call(r, a, b, self, **almost_method(r, correct_overlap=True, remove_extra=True, **dict(pkw, **ekw)))
        rb = [record(o, a, b, dict(kw, method='almost')) for o in base]
        keys = {(x['i'], x['j']): n + 1 for n, x in enumerate(rb)}
        ex = []
        for o in extra:
            x = record(o, a, b)
            n = keys.get((x['i'], x['j']), 0)
            ex.append(n if n and rb[n - 1]['seg'] == x['seg'] and rb[n - 1]['type'] == x['type'] else 0)
        return {'base': rb, 'extra': ex, 'corr': [record(o, a, b) for o in corr], 'both': [record(o, a, b) for o in both]}
    return {'op': 'acurves', 'prop': 'C22', 'a': operand(a), 'b': operand(b), 'self': self, 'tol': num(tol or 1e-5),
            'ptol': geom.tolrec(ptol), 'etol': num(etol or 1e-3), 'out': val(fn)}


def play(b, prop):
    """a call of InterMC"""
    r = random.Random(json.dumps(b))
    r.coin = lambda p=.5: r.random() < p

    def curve(rows):
        v = np.array([[float(z) for z in q] for q in rows])
        return Segment(Point(v[0]), Point(v[1])) if len(rows) == 2 and r.coin(.3) else Curve(v)
    a = curve(b['a'])
    o = a if b['self'] else curve(b['b'])
    if b['self'] and isinstance(a, Segment):
        a = o = Curve(np.array([x.data for x in a.to_curve()]))
    elif isinstance(a, Segment) and isinstance(o, Segment):
        a = a.to_curve()
    if prop == 'C21':
        return [curves_record(r, a, o, b['self'], r.choice([{}, {'method': 'exact'}]))]
    tol, etol = [float(Fraction(b[k])) if b[k] else None for k in ('tol', 'etol')]
    return [acurves_record(r, a, o, b['self'], tol, etol)]


def reject(r, prop):
    c = Curve(np.array([[0., 0.], [1., 1.], [2., 0.]]))
    c3 = Curve(np.array([[0., 0., 0.], [1., 1., 1.], [2., 0., 1.]]))
    s, s3 = c.segments[0], c3.segments[0]
    m = r.choice([{}, {'method': 'exact'}, {'method': 'almost'}])
    x, y = {'C20': (s, s3), 'C21': r.choice([(c, c3), (c, s3), (s3, c), (c3, s)]), 'C22': r.choice([(c, c3), (s, s3), (s, c3)])}[prop]
    return {'op': 'reject', 'prop': prop, 'expected': ['ValueError'], 'out': val(lambda: x.intersect(y, **m), lambda x: 0)}


def record_event(r):
    """a record built by hand, from a type and data that may not belong to it"""
    sp = Space(r, 'C20')
    s, o = sp.pair()
    cv = s.to_curve()
    p = r.choice([o.p2, cv[0], cv[1], s.p1])
    q = r.choice([s, o, Segment(s.p1, s.p1), cv.segments[0], s.reverse()])
    t = r.choice(list(IntersectionType))
    data, kind = r.choice([(None, 'none'), (p, 'point'), (q, 'segment'), (p, 'point'), (q, 'segment'),
                           (cv, 'other'), ([1., 2.], 'other'), (s.p1.data, 'other'), (0, 'other'), ('x', 'other')])
    seg = [enc.point(p)] * 2 if kind == 'point' else enc.segment(q) if kind == 'segment' else []

    def fn():
        i = t() if data is None and r.coin() else t(data)
        x = SegmentsIntersection(s, o, i)
        d = observed(x, x.segment1 is s and x.segment2 is o and x.intersect_info is i and i.data is data)
        return dict(d, other='' if x.intersect_info.type is t else 'type')
    return {'op': 'record', 'prop': 'C20', 'type': t.name, 'kind': kind, 'seg': seg, 'out': val(fn)}


def wrong_event(r, prop):
    """operands that are neither segments nor curves"""
    c = Curve(np.array([[0., 0.], [1., 1.], [2., 0.]]))
    m = r.choice([{}, {'method': 'exact'}, {'method': 'almost'}])
    x = c.segments[0] if prop == 'C20' else c if prop == 'C21' else r.choice([c, c.segments[0]])
    y = r.choice([c[0], Point([1., 2.]), [c], (c,), c.data, 'c', 1, 0., True] + ([None] if isinstance(x, Segment) else []))
    return {'op': 'reject', 'prop': prop, 'expected': ['Exception'], 'out': val(lambda: x.intersect(y, **m), lambda x: 0)}


def trace(r, prop):
    out = []
    for _ in range(4):
        if prop == 'C20':
            sp = Space(r, prop)
            for _ in range(4):
                s, o = sp.pair()
                out.append(segs_event(s, o, r.choice([None, 'exact'])))
        elif prop == 'C21':
            out += [curves_event(r), curves_event(r)]
        else:
            out.append(acurves_event(r))
            sp = Space(r, prop)
            s, o = sp.pair()
            out.append(asegs_event(r, s, o))
            if r.coin():
                out.append(asegs_event(r, o, s))
    if r.coin(.3):
        out.append(reject(r, prop))
    if r.coin(.3):
        out.append(wrong_event(r, prop))
    if prop == 'C20':
        out.append(record_event(r))
    return out
