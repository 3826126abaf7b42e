"""Histories of reads through curves, points, segments and copies, recorded for TraceCache.tla."""
import copy
import pickle
import warnings

import numpy as np

from skcurve import Curve, CurvePoint, CurveSegment

from . import enc
from .enc import num

POINTQ = ['data', 't', 'cumarclen', 'firstderiv', 'secondderiv', 'thirdderiv', 'speed', 'tangent', 'normal', 'binormal',
          'curvature', 'torsion', 'frenet1', 'frenet2', 'frenet3']
CURVEQ = POINTQ + ['chordlen', 'arclen']


def rows(v, point=False):
    """a value as a list of rows"""
    a = np.asarray(v)
    if point:
        if a.ndim == 0:
            return [[num(a[()])]]
        if a.ndim != 1:
            raise enc.Malformed('rank of a value at a point')
        return [enc.vec(a)]
    if a.ndim == 0:
        return [[num(a[()])]]
    if a.ndim == 1:
        return [[num(x)] for x in a]
    return enc.mat(a)


def get(o, q):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            return getattr(o, q)


def quantities(c):
    """the quantities of the dimension of a curve"""
    return [q for q in CURVEQ if not (c.ndim < 3 and q in ('torsion', 'binormal', 'frenet3', 'thirdderiv'))]


def table(c):
    """the quantities of a curve with these points, each read from a fresh curve"""
    out = {}
    for q in CURVEQ:
        twin = Curve(np.array(c.data), tdata=np.array(c.t) if c.isparametric else None)
        try:
            out[q] = rows(get(twin, q))
        except Exception:                             # noqa: B902 - not defined for this curve
            out[q] = []
    return out


class World:
    def __init__(self):
        self.objs, self.curves, self.events = [], [], []

    def cnum(self, c):
        for i, x in enumerate(self.curves):
            if x is c:
                return i + 1
        self.curves.append(c)
        return len(self.curves)

    def curve(self, c, ref=None):
        self.objs.append(c)
        self.cnum(c)
        self.events.append({'op': 'curve', 'ref': ref or table(c)})
        return len(self.objs)

    def desc(self, o):
        if isinstance(o, Curve):
            return {'k': 'curve', 'c': self.cnum(o), 'i': 0, 'pts': [], 'ends': []}
        if isinstance(o, CurvePoint):
            return {'k': 'point', 'c': self.cnum(o.curve), 'i': enc.integer(o.idx), 'pts': [enc.point(o)], 'ends': []}
        if isinstance(o, CurveSegment):
            return {'k': 'segment', 'c': self.cnum(o.curve), 'i': enc.integer(o.idx), 'pts': enc.segment(o),
                    'ends': [enc.integer(o.p1.idx), enc.integer(o.p2.idx)]}
        raise enc.Malformed(type(o).__name__)

    def read(self, h, q):
        o = self.objs[h - 1]
        out, _ = enc.outcome(lambda: rows(get(o, q), not isinstance(o, Curve)), 'val', lambda x: x)
        self.events.append({'op': 'read', 'h': h, 'q': q, 'out': out})

    def obtain(self, op, h, fn, **kw):
        o = self.objs[h - 1]
        made = []

        def go():
            made.append(fn(o))
            return made[0]
        n = len(self.curves)
        out, _ = enc.outcome(go, 'val', self.desc)
        ev = dict({'op': op, 'h': h, 'out': out}, **kw)
        if op == 'copy':
            ev['eq'] = out['k'] == 'val' and bool(made[0] == o) and type(made[0]) is type(o)
        self.events.append(ev)
        if out['k'] == 'val':
            self.objs.append(made[0])
            return len(self.objs)
        del self.curves[n:]
        return None


HOWS = {'copy': copy.copy, 'deepcopy': copy.deepcopy, 'pickle': lambda o: pickle.loads(pickle.dumps(o)),
        'new': lambda o: Curve(o)}

BASE = [Curve(np.array([[0., 0, 1], [1, 2, 0], [3, 1, 4], [4, 5, 4], [2, 7, 1], [0, 3, 3.5]])),
        Curve(np.array([[0, 0, 1], [1, 2, 0], [3, 1, 4], [4, 5, 4]]), tdata=[0, 1, 2, 4]),
        Curve(np.array([[0., 0, 0], [1, 1, 1], [2, 2, 2], [2, 2, 3], [2, 2, 4.]]))]
REFS = {}


def play(b, prop):
    k = sum(ord(x['q'][0]) + ord(x['o'][-1]) for x in b) % len(BASE)
    if k not in REFS:
        REFS[k] = table(BASE[k])
    src = BASE[k]
    w = World()
    c = Curve(np.array(src.data), tdata=np.array(src.t) if src.isparametric else None)
    h = {'curve': w.curve(c, REFS[k])}
    how = ['pickle', 'copy', 'pickle', 'deepcopy', 'new'][len(b[0]['q'] + b[-1]['q']) % 5]
    for s in b:
        o = s['o']
        if o == 'point' and o not in h:
            h[o] = w.obtain('point', h['curve'], lambda c: c[1], i=1, n=c.size)
        if o in ('copy', 'copypoint') and 'copy' not in h:
            h['copy'] = w.obtain('copy', h['curve'], HOWS[how], how=how)
        if o == 'copypoint' and o not in h:
            h[o] = w.obtain('point', h['copy'], lambda c: c[-2], i=-2, n=c.size)
        if h[o] is None:
            break
        w.read(h[o], s['q'])
    return w.events


def make(r):
    nd = r.weighted([(3, 2), (5, 3), (1, 4), (.3, 6)])
    n = r.weighted([(.3, 1), (.6, 2), (1, 3), (3, r.randint(4, 8)), (.15, r.randint(20, 50))])
    dt = r.weighted([(6, 'float64'), (1, 'float32'), (1, 'int64'), (.5, 'uint8')])
    if r.coin(.4):
        a = np.array([[r.randint(0, 9) for _ in range(nd)] for _ in range(n)], dtype=float)
    else:
        a = np.array([[r.gauss(0, 3) for _ in range(nd)] for _ in range(n)])
    if n > 3 and r.coin(.3):
        a[1] = a[0] + 1.
        a[2] = a[0] + 2.
    if n > 2 and r.coin(.1):
        a[1] = a[2]
    if dt == 'uint8':
        a = np.abs(a)
    kw = {'tdata': np.cumsum([r.choice([.5, 1, 2]) for _ in range(n)])} if r.coin(.4) else {}
    return Curve(a.astype(dt), **kw)


def trace(r, prop):
    w = World()
    w.curve(make(r))
    for _ in range(r.randint(12, 24)):
        h = r.randint(1, len(w.objs))
        o = w.objs[h - 1]
        op = r.weighted([(7, 'read'), (2, 'view'), (1.2, 'copy'), (.5, 'derive'), (.4, 'nsegs'), (.3, 'outside')])
        if isinstance(o, Curve):
            c = o
            if op == 'read':
                w.read(h, r.choice(quantities(c)))
            elif op == 'copy':
                how = r.choice(sorted(HOWS))
                w.obtain('copy', h, HOWS[how], how=how)
            elif op == 'nsegs':
                out, _ = enc.outcome(lambda: len(c.segments), 'val', enc.integer)
                w.events.append({'op': 'nsegs', 'h': h, 'n': c.size, 'out': out})
            elif op == 'outside':
                k = r.choice([0, 1, 4])
                m = max(c.size - 1, 0)
                fn, e = r.choice([(lambda: CurvePoint(c, c.size + k), 'IndexError'), (lambda: CurvePoint(c, -c.size - 1 - k), 'IndexError'),
                                  (lambda: CurveSegment(c, m + k), 'ValueError'), (lambda: CurveSegment(c, -m - 1 - k), 'ValueError'),
                                  (lambda: c.segments[m + k], 'IndexError')])
                w.events.append({'op': 'outside', 'h': h, 'e': [e], 'out': enc.outcome(fn, 'val', lambda x: 0)[0]})
            elif op == 'derive':
                if c.size > 3:
                    k = r.choice(['slice', 'reverse', 'concat', 'uniq'])
                    d = {'slice': lambda: c[1:], 'reverse': lambda: c.reverse(), 'concat': lambda: c[:2] + c[2:],
                         'uniq': lambda: c[::2]}[k]()
                    w.curve(d)
            elif r.coin(.6):
                if c.size:
                    i = r.randint(-c.size, c.size - 1)
                    if r.coin(.25):
                        w.obtain('point', h, lambda c: list(c)[i], i=i, n=c.size)
                    elif r.coin(.2):
                        w.obtain('point', h, lambda c: CurvePoint(c, i), i=i, n=c.size)
                    elif r.coin(.2):
                        w.obtain('point', h, lambda c: list(reversed(c))[-1 - i if i >= 0 else -1 - (i + c.size)], i=i, n=c.size)
                    else:
                        w.obtain('point', h, lambda c: c[i], i=i, n=c.size)
            elif c.size > 1:
                i = r.randint(0, c.size - 2)
                w.obtain('segment', h, r.choice([lambda c: c.segments[i], lambda c: list(c.segments)[i],
                                                 lambda c: CurveSegment(c, i), lambda c: CurveSegment(c, i - (c.size - 1)),
                                                 lambda c: c.segments[i - (c.size - 1)]]), i=i)
        elif isinstance(o, CurvePoint):
            if op == 'copy':
                how = r.choice(['copy', 'deepcopy', 'pickle'])
                w.obtain('copy', h, HOWS[how], how=how)
            elif op in ('view', 'derive', 'nsegs', 'outside'):
                w.obtain('owner', h, lambda p: p.curve)
            else:
                w.read(h, r.choice([q for q in quantities(o.curve) if q in POINTQ]))
        else:
            if op == 'read':
                w.read(h, 'chordlen')
            elif op == 'copy':
                how = r.choice(['pickle', 'copy'])
                w.obtain('copy', h, HOWS[how], how=how)
            elif op == 'view' or op == 'derive':
                e = r.choice([0, 1])
                w.obtain('point', h, lambda s: s.p2 if e else s.p1, i=e, n=0)
            else:
                w.obtain('owner', h, lambda s: s.curve)
    return w.events
