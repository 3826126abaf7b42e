"""Lengths, derivatives, frames, curvature and torsion of generated curves, recorded for TraceDiff.tla."""
import math
import warnings

import numpy as np

from skcurve import Curve, Point
from skcurve._diffgeom import DifferentialGeometryWarning

from . import enc
from .enc import num, outcome

PROPS = {'lengths': 'C09', 'deriv': 'C10', 'frame': 'C11', 'curv': 'C12'}


def shape_points(r, n, nd):
    """points of recognisable shapes, mostly well conditioned"""
    k = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 7, 8, 9, 10, 11, 11, 12, 13])
    t = np.arange(n, dtype=float)
    if k == 0:
        return np.array([[r.randint(-3, 3) for _ in range(nd)] for _ in range(n)], dtype=float).reshape(n, nd)
    if k == 1:
        return np.array([[r.gauss(0, 1) for _ in range(nd)] for _ in range(n)]).reshape(n, nd)
    if k == 2:                                        # helix-like
        w = r.uniform(.1, 1.)
        cols = [np.cos(w * t), np.sin(w * t)] + [t * r.uniform(-.5, .5) for _ in range(nd - 2)]
        return np.array(cols).T * r.choice([1, 5, .1])
    if k == 3:                                        # straight line
        d = np.array([r.randint(-2, 2) for _ in range(nd)], dtype=float)
        return np.array([r.randint(-3, 3) for _ in range(nd)]) + np.outer(t, d)
    if k == 4:                                        # parabola / twisted cubic
        cols = [t, t ** 2, t ** 3, t ** 2 - t][:nd]
        cols = [c / 4. for c in cols]
        return np.array(cols).T + r.randint(-2, 2)
    if k == 5:                                        # repeated points
        a = np.array([[r.randint(0, 2) for _ in range(nd)] for _ in range(n)], dtype=float).reshape(n, nd)
        for i in range(1, n):
            if r.coin(.35):
                a[i] = a[i - 1]
        return a
    if k == 6:                                        # random walk
        return np.cumsum(np.array([[r.gauss(.3, 1) for _ in range(nd)] for _ in range(n)]).reshape(n, nd), axis=0)
    if k == 7:                                        # scaled
        return np.array([[r.gauss(0, 1) for _ in range(nd)] for _ in range(n)]).reshape(n, nd) * \
            10. ** r.choice([-3, -5, 3, 5, -9, -9, -8.3])
    if k == 8:                                        # far from the origin
        return np.array([[r.gauss(0, 1) for _ in range(nd)] for _ in range(n)]).reshape(n, nd) + \
            r.choice([100., -1000.])
    if k == 9:                                        # plane curve in space
        a = np.array([[r.gauss(0, 1) for _ in range(nd)] for _ in range(n)]).reshape(n, nd)
        a[:, -1] = r.choice([0., 2.]) if nd > 2 else a[:, -1]
        return a
    if k == 11:                                       # scales mixed along the curve, small steps near the origin
        e = sorted(r.choice([-7, -4, -2, 0, 0, 3, 6, 9]) for _ in range(n))
        a = np.cumsum(np.array([[r.gauss(0, 1) * 10. ** e[i] for _ in range(nd)] for i in range(n)]).reshape(n, nd),
                      axis=0)
        return a if r.coin() else a[::-1]
    if k == 12:                                       # some coordinates constant
        a = np.array([[r.gauss(0, 1) for _ in range(nd)] for _ in range(n)]).reshape(n, nd)
        for j in range(nd):
            if r.coin():
                a[:, j] = r.choice([0., 1., -2.5])
        return a
    if k == 13:                                       # closed, or there and back
        a = np.array([[r.randint(-3, 3) for _ in range(nd)] for _ in range(n)], dtype=float).reshape(n, nd)
        if n > 1:
            if r.coin():
                a[-1] = a[0]
            else:
                a[n - n // 2:] = a[:n // 2][::-1]
        return a
    cols = [np.array([r.gauss(0, 1) * .3 + i for i in range(n)]) for _ in range(nd)]
    return np.array(cols).T.reshape(n, nd)


def make(r, prop, small=None):
    n = small if small is not None else r.weighted([(.5, 0), (.7, 1), (1, 2), (1.5, 3), (1.5, 4), (5, r.randint(5, 12)), (.25, r.randint(20, 60))])
    nd = r.weighted([(4, 2), (4, 3), (1, 4), (.5, 5), (.2, r.randint(6, 9))])
    a = shape_points(r, n, nd)
    dt = r.weighted([(6, 'float64'), (1.5, 'float32'), (1, 'int64'), (.5, 'int32')])
    if prop == 'C09' and r.coin(.25):
        dt = r.choice(['int8', 'int16', 'int32', 'uint8'])
        ii = np.iinfo(dt)
        a = np.array([[r.choice([ii.min, ii.max, r.randint(ii.min, ii.max), 0]) for _ in range(nd)]
                      for _ in range(n)], dtype=dt).reshape(n, nd)
    elif dt.startswith('int'):
        a = np.round(a)
    a = a.astype(dt)
    kw = {}
    if r.coin(.2) and n:
        kw['tdata'] = np.cumsum([r.uniform(.1, 2) for _ in range(n)])
    c = Curve(a, **kw)
    if n == 0:
        c = Curve(np.zeros((0, nd), dtype=dt), **kw)
    return c


def shp(*arrs):
    return [[int(x) for x in np.shape(a)] for a in arrs]


def warned(c, name):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        v = getattr(c, name)
    return v, any(issubclass(x.category, DifferentialGeometryWarning) for x in w)


def event(op, c, a):
    rec = {'nd': int(c.ndim), 'pts': enc.mat(c.data), 'par': bool(c.isparametric), 't': [], 'dt': c.dtype.name}
    kw = {'tdata': c.t} if c.isparametric else {}

    def fresh():
        return Curve(a, **kw)

    def fn():
        with np.errstate(all='ignore'):
            q = fresh()
            if op == 'lengths':
                return {'chord': enc.vec(q.chordlen), 'arc': num(q.arclen), 'cum': enc.vec(q.cumarclen),
                        't': enc.vec(q.t)}
            if op == 'deriv':
                return {'d1': enc.mat(q.firstderiv), 'd2': enc.mat(q.secondderiv), 'd3': enc.mat(q.thirdderiv),
                        'shapes': shp(q.firstderiv, q.secondderiv, q.thirdderiv)}
            if op == 'frame':
                e1, w1 = warned(fresh(), 'frenet1')
                e2, w2 = warned(fresh(), 'frenet2')
                e3, w3 = warned(fresh(), 'frenet3')
                return {'tangent': enc.mat(q.tangent), 'speed': enc.vec(q.speed), 'normal': enc.mat(q.normal),
                        'binormal': enc.mat(q.binormal), 'e1': enc.mat(e1), 'e2': enc.mat(e2), 'e3': enc.mat(e3),
                        'w1': w1, 'w2': w2, 'w3': w3,
                        'shapes': shp(q.tangent, q.normal, q.binormal, e1, e2, e3)}
            return {'k': enc.vec(q.curvature), 'tau': enc.vec(q.torsion)}

    def run():
        with warnings.catch_warnings():
            return fn()
    try:
        out = {'k': 'val', 'v': run()}
    except Exception as e:
        out = enc.err(e)
    return {'op': op, 'prop': PROPS[op], 'c': rec, 'out': out}


def trace(rng, prop):
    out = []
    ops = [o for o, p in PROPS.items() if p == prop] or list(PROPS)
    for _ in range(4):
        c = make(rng, prop)
        a = np.array(c.data)
        for op in ops:
            out.append(event(op, c, a))
    return out


def play(b, prop):
    """a curve of DiffMC, of some dtype"""
    rows = b['pts']
    a = np.array([[int(x) for x in p] for p in rows], dtype=float).reshape(len(rows), b['nd'])
    dt = ['float64', 'float64', 'int64', 'float32'][sum(map(int, np.ravel(a))) % 4] if prop != 'C12' else 'float64'
    a = a.astype(dt)
    c = Curve(a) if len(rows) else Curve(np.zeros((0, b['nd']), dtype=dt))
    return [event(op, c, np.array(c.data)) for op, p in PROPS.items() if p == prop]
