"""Interpolation grids and interpolated curves, recorded for TraceInterp.tla."""
import warnings
from fractions import Fraction

import numpy as np

import skcurve
from skcurve import (Curve, InterpolationGrid, InterpolationWarning, PreservedSpeedInterpolationGrid,
                     UniformExtrapolationGrid, UniformInterpolationGrid, get_interpolator)
from skcurve._interpolate import interpolate

from . import enc
from .enc import num

METHODS = ['linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps']


def crec(c):
    return {'nd': int(c.ndim), 'pts': enc.mat(c.data), 'par': bool(c.isparametric),
            't': enc.vec(c.t) if c.isparametric else [], 'dt': c.dtype.name}


def make(r, n=None, dt=None):
    """a curve without coincident neighbours"""
    n = n if n is not None else r.weighted([(2, 2), (3, 3), (2, 4), (2, 5), (3, r.randint(6, 9)), (.25, r.randint(12, 20))])
    nd = r.weighted([(5, 2), (3, 3), (1, 4)])
    dt = dt or r.weighted([(7, 'float64'), (1.2, 'float32'), (1, 'int64'), (.6, 'int32')])
    k = r.weighted([(3, 'int'), (3, 'gauss'), (2, 'walk'), (1, 'line'), (1, 'wave'), (.5, 'small'), (.6, 'flat')])
    if k == 'int':
        a = [[r.randint(-4, 4) for _ in range(nd)] for _ in range(n)]
    elif k == 'gauss':
        a = [[r.gauss(0, 2) for _ in range(nd)] for _ in range(n)]
    elif k == 'walk':
        a = np.cumsum([[r.gauss(.4, 1) for _ in range(nd)] for _ in range(n)], axis=0) if n else []
    elif k == 'line':
        d = [r.choice([-2, -1, 1, 2, .5]) for _ in range(nd)]
        s = np.cumsum([r.choice([.5, 1, 2]) for _ in range(n)]) if n else np.zeros(0)
        a = np.outer(s, d)
    elif k == 'small':
        a = np.array([[r.gauss(0, 1) for _ in range(nd)] for _ in range(n)]) * r.choice([1e-9, 1e-7, 1e5])
        dt = 'float64'
    elif k == 'flat':                                 # flat parts, for pchip and akima
        a = [[r.choice([0, 0, 0, 1, 1, 3]) for _ in range(nd)] for _ in range(n)]
        for i in range(n):
            a[i][r.randint(0, nd - 1)] = i
    else:
        a = [[(i * i if j == 0 else (-1) ** i * (i + j)) for j in range(nd)] for i in range(n)]
    a = np.array(a, dtype=float).reshape(n, nd)
    if dt.startswith('int'):
        a = np.round(a * (1 if k == 'int' else 3))
    a = a.astype(dt)
    for i in range(1, n):
        if np.all(a[i] == a[i - 1]):
            a[i, r.randint(0, nd - 1)] += r.choice([1, 2])
    if n > 2 and r.coin(.15) and np.any(a[0] != a[-2]):  # closed
        a[-1] = a[0]
    kw = {}
    if r.coin(.4) and n:
        j = r.randint(0, 3)
        if j == 0:
            kw['tdata'] = np.cumsum([r.choice([.25, .5, 1, 2]) for _ in range(n)]) - r.choice([0, 1, 3])
        elif j == 1:
            kw['tdata'] = np.cumsum([r.uniform(.2, 2) for _ in range(n)])
        elif j == 2:
            kw['tdata'] = np.arange(n, dtype=float) * r.choice([1, .1, 3])
        else:
            kw['tdata'] = np.linspace(r.choice([-1, 0, .5]), 2, n)
        if n > 3 and np.all(a[0] == a[-1]):
            kw['tdata'] = np.linspace(0, r.choice([1, 2, 5]), n)
    return Curve(a, **kw) if n else Curve(np.zeros((0, nd), dtype=dt))


class Listed(InterpolationGrid):
    """a user's grid"""
    def __init__(self, v):
        self.v = np.array(v, dtype=float)

    def __call__(self, curve):
        return self.v


def fill(v):
    if isinstance(v, bool):
        return {'ty': 'other', 'v': '0'}
    if isinstance(v, int):
        return {'ty': 'int', 'v': num(v)}
    if isinstance(v, float):
        return {'ty': 'float', 'v': num(v)}
    return {'ty': 'other', 'v': '0'}


def uniform(r, c, bad):
    kind = r.choice(['point', 'point', 'length'])
    if bad:
        kind, v = r.choice([('point', 1), ('point', 0), ('point', -3), ('point', 4.0), ('length', 'a'), ('length', None),
                            ('points', 4), ('', 3), ('point', '5'), ('point', None)])
    elif kind == 'point':
        v = r.choice([2, 3, 4, 5, 7, 10, 13] + [r.randint(50, 120)] * r.coin(.3))
    else:
        n = r.choice([1, 2, 3, 4, 7])
        v = c.arclen / n * r.choice([1, 1, .9, 1.2, r.uniform(.7, 1.3)]) if c.arclen else 1.0
        v = float(v)
        if r.coin(.2) and 2 < c.arclen < 50:
            v = r.choice([1, 2])
    return {'t': 'uniform', 'fill': fill(v), 'kind': kind}, lambda: UniformInterpolationGrid(v, kind) if r.coin() else \
        UniformInterpolationGrid(fill=v, kind=kind)


def speed(r, c, bad):
    n = r.choice([1, 0, -1]) if bad else r.choice([2, 3, 4, 5, 8, 11, max(2, c.size)] + [r.randint(40, 90)] * r.coin(.2))
    return {'t': 'speed', 'n': n}, lambda: PreservedSpeedInterpolationGrid(n)


def listed(r, c):
    v = values(r, c)
    return {'t': 'values', 'v': enc.vec(v), 'rank': 1}, lambda: Listed(v)


def extrap(r, c, bad):
    inner, mk = r.weighted([(4, uniform), (2, speed)])(r, c, bad and r.coin(.4))
    for _ in range(20):                               # a grid of one point has no spacing to go on with
        if inner.get('kind') != 'length' or bad or not c.arclen or c.arclen / float(Fraction(inner['fill']['v'])) > 1.4:
            break
        inner, mk = r.weighted([(4, uniform), (2, speed)])(r, c, False)
    kind = r.choice(['point', 'point', 'length'])
    if bad:
        kind, b, a = r.choice([('point', 1.5, 0), ('point', 0, '1'), ('length', 'x', 0), ('length', 0, None),
                               ('both', 1, 1), ('point', None, 2), ('point', 1, 2.0)])
    elif kind == 'point':
        b, a = r.choice([0, 0, 1, 2, 3]), r.choice([0, 0, 1, 2, 4])
    else:
        # some lengths in units of the mean spacing
        T = float(c.t[-1] - c.t[0]) / 4 if c.size > 1 else 1.0
        b, a = r.choice([0, .5, 1, r.uniform(0, 1.5)]) * T, r.choice([0, .5, 1, r.uniform(0, 1.5)]) * T
        if r.coin(.2) and 1 < T < 10 and c.arclen < 50:
            b, a = r.choice([0, 1]), r.choice([0, 1])
        else:
            b, a = float(b), float(a)
    g = {'t': 'extrap', 'inner': inner, 'before': fill(b), 'after': fill(a), 'kind': kind}
    return g, lambda: UniformExtrapolationGrid(mk(), before=b, after=a, kind=kind)


def values(r, c):
    """increasing parameter values"""
    t = np.array(c.t, dtype=float)
    if t.size < 2:
        return np.array([0., 1., 2.])
    T = t[-1] - t[0]
    k = r.weighted([(3, 'nodes'), (3, 'dense'), (2, 'some'), (3, 'inside'), (3, 'out'), (1, 'between'), (.5, 'one'), (.5, 'near')])
    if k == 'nodes':
        v = t
    elif k == 'dense':
        v = np.concatenate([t, (t[1:] + t[:-1]) / 2, t[:-1] + np.diff(t) * r.uniform(.1, .45)])
    elif k == 'some':
        v = [x for x in t if r.coin(.6)] + [t[0] + T * r.random() for _ in range(3)]
    elif k == 'inside':
        v = [t[0], t[-1]] + [t[0] + T * r.random() for _ in range(r.randint(1, 6))]
    elif k == 'between':
        v = [t[0] + T * r.uniform(.05, .95) for _ in range(r.randint(1, 4))]
    elif k == 'one':
        v = [t[r.randint(0, t.size - 1)]]
    elif k == 'near':
        i = r.randint(0, t.size - 1)
        v = [np.nextafter(t[i], -np.inf), t[i], np.nextafter(t[i], np.inf)]
    else:
        v = list(t) + [t[0] - T * r.uniform(.01, .6) for _ in range(r.randint(0, 2))] + \
            [t[-1] + T * r.uniform(.01, .6) for _ in range(r.randint(0, 2))]
    v = np.unique(np.array(v, dtype=float))
    return v


def value_grid(r, c, bad):
    if bad:
        k = r.randint(0, 4)
        v = values(r, c)
        if k == 0:
            v = v[::-1] if v.size > 1 else np.array([1., 0.])
        elif k == 1:
            v = np.concatenate([v, v[-1:]])
        elif k == 2:
            v = np.concatenate([v, [v[0] - 1]])
        elif k == 3:
            v = np.array([v, v + 1]) if r.coin() else v.reshape(1, -1)
            return {'t': 'values', 'v': enc.vec(v.ravel()), 'rank': 2}, (lambda: v) if r.coin() else (lambda: v.tolist())
        else:
            return {'t': 'values', 'v': [], 'rank': 1}, lambda: r.choice([[], (), np.zeros(0)])
        if r.coin(.3):
            return {'t': 'values', 'v': enc.vec(v), 'rank': 1}, lambda: v.tolist()
        return {'t': 'values', 'v': enc.vec(v), 'rank': 1}, lambda: v
    v = values(r, c)
    k = r.randint(0, 5)
    if k == 0:
        return {'t': 'values', 'v': enc.vec(v), 'rank': 1}, lambda: v.tolist()
    if k == 1:
        return {'t': 'values', 'v': enc.vec(v), 'rank': 1}, lambda: tuple(v.tolist())
    if k == 2 and v.size:
        w = np.unique(v.astype(np.float32))
        return {'t': 'values', 'v': enc.vec(w), 'rank': 1}, lambda: w
    if k == 3:
        lo, hi = int(np.floor(v[0])), int(np.ceil(v[-1]))
        if hi - lo < 12:
            w = np.arange(lo, hi + 1)
            return {'t': 'values', 'v': enc.vec(w), 'rank': 1}, (lambda: w) if r.coin() else (lambda: w.tolist())
    if k == 4:
        return {'t': 'values', 'v': enc.vec(v), 'rank': 1}, lambda: Listed(v)
    return {'t': 'values', 'v': enc.vec(v), 'rank': 1}, lambda: v


def int_grid(r, c, bad):
    n = r.choice([1, 0, -2]) if bad else r.choice([2, 3, 4, 5, 6, 9, 12])
    return {'t': 'int', 'n': n}, lambda: n


def invalid_grid(r, c, bad):
    v = r.choice([3.0, None, {1, 2}, {1: 2}, 2.5, 'abc'])
    return {'t': 'invalid'}, lambda: v


def any_grid(r, c, bad=False):
    if bad:
        return r.weighted([(2, uniform), (1, speed), (2, extrap), (4, value_grid), (2, int_grid), (2, invalid_grid)])(r, c, True)
    return r.weighted([(2, uniform), (2, speed), (3, extrap), (6, value_grid), (3, int_grid)])(r, c, False)


def grid_event(r):
    c = make(r, n=r.choice([0, 1]) if r.coin(.12) else None)
    g, mk = r.weighted([(3, uniform), (3, speed), (4, extrap)])(r, c, r.coin(.25))
    again = r.coin(.3) and c.size > 1

    def fn():
        o = mk()
        if again:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                o(Curve(c.data[::-1] * 2, tdata=c.t if c.isparametric else None))  # a grid object is not bound to one curve
        x = o(c)
        if not isinstance(x, np.ndarray) or x.dtype != np.float64:
            raise enc.Malformed('grid')
        return x
    out, _ = enc.outcome(fn, 'val', enc.vec)
    return {'op': 'grid', 'c': crec(c), 't': enc.vec(c.t), 'g': g, 'out': out}


NOBC = {'name': 'natural', 'o': 2, 'v': []}


def bc(r, c, closed):
    k = r.weighted([(3, 'natural'), (2, 'clamped'), (2, 'not-a-knot'), (3, 'deriv'), (.3, 'unknown')])
    if k == 'unknown':
        return {'name': 'foo', 'o': 0, 'v': []}, 'foo'
    if k == 'deriv':
        o = r.choice([1, 2])
        v = [r.choice([-1., 0., .5, 2.]) for _ in range(c.ndim)]
        if r.coin(.08):
            v = v + [1.0]
        return {'name': 'deriv', 'o': o, 'v': enc.vec(v)}, (o, v)
    return {'name': k, 'o': 0, 'v': []}, k


def params(r, c, method, bad):
    """(parameter record, keyword arguments)"""
    p = {'unknown': False, 'ex': 'default', 'bc0': NOBC, 'bc1': NOBC, 'k': 3, 'ext': 0, 'smooth': '0', 'auto': False,
         'w': {'h': False, 'v': []}}
    kw = {}
    n = c.size
    if bad and r.coin(.3):
        p['unknown'] = True
        kw['foo'] = 1
        return p, kw
    if method == 'linear':
        if r.coin(.4):
            e = r.coin()
            p['ex'] = 'yes' if e else 'no'
            kw['extrapolate'] = e
    elif method == 'cubic':
        closed = n > 2 and bool(np.all(c.data[0] == c.data[-1]))
        if closed and r.coin(.6) or bad and r.coin(.3):
            p['bc0'] = p['bc1'] = {'name': 'periodic', 'o': 0, 'v': []}
            kw['bc_type'] = 'periodic'
        elif r.coin(.7):
            a, x = bc(r, c, closed)
            b, y = bc(r, c, closed)
            if r.coin(.4) and a['name'] != 'deriv':
                b, y = a, x
                kw['bc_type'] = x
            else:
                kw['bc_type'] = (x, y)
            p['bc0'], p['bc1'] = a, b
        if r.coin(.4):
            e = r.choice([True, False, 'periodic', None])
            p['ex'] = {True: 'yes', False: 'no', 'periodic': 'periodic', None: 'default'}[e]
            kw['extrapolate'] = e
    elif method in ('hermite', 'pchip'):
        if r.coin(.5):
            e = r.choice([True, False, None] + (['periodic'] if method == 'hermite' else []))
            p['ex'] = {True: 'yes', False: 'no', 'periodic': 'periodic', None: 'default'}[e]
            kw['extrapolate'] = e
    elif method == 'spline':
        k = r.choice([x for x in range(1, 6) if x < n] or [1])
        if bad:
            k = r.choice([0, 6, n, 3])
        p['k'] = k
        if k != 3 or r.coin(.5):
            kw['k'] = k
        if r.coin(.4):
            e = r.choice([0, 1, 2, 3] + ([4, -1] if bad else []))
            p['ext'] = e if 0 <= e <= 3 else 9
            kw['extrapolate'] = r.choice([e, {0: 'extrapolate', 1: 'zeros', 2: 'raise', 3: 'const'}.get(e, e)])
        if r.coin(.3):
            w = [r.choice([1., 2., .5]) for _ in range(n + (1 if bad else 0))]
            p['w'] = {'h': True, 'v': enc.vec(w)}
            kw['weights'] = np.array(w)
        if r.coin(.3) and c.dtype.kind == 'f' and c.dtype.itemsize == 8:
            w = kw.get('weights', np.ones(n))
            s = r.choice([1e6, 100., 1., .3])
            if n > k and len(w) == n and 1 <= k <= 5:
                # in units of the residual of the polynomial fit
                V = np.vander(c.t - c.t[0], k + 1)
                fp = min(float(np.sum((w * (y - V @ np.linalg.lstsq(V * w[:, None], y * w, rcond=None)[0])) ** 2))
                         for y in c.values())
                scale = float(np.max(np.abs(c.data))) ** 2
                if n == k + 1 or fp < 1e-9 * scale:
                    s = 0.0
                else:
                    s = fp * r.choice([100., 1.5, .5, .2])
            p['smooth'] = num(s)
            kw['smooth'] = s
    elif method == 'csaps':
        p['smooth'] = '1'
        if r.coin(.7):
            s = r.choice([0., 1., .5, .9, .1, None, r.uniform(.05, .98)])
            p['auto'] = s is None
            p['smooth'] = num(s) if s is not None else '1'
            kw['smooth'] = s
        if r.coin(.35):
            w = [r.choice([1., 2., .5, 4.]) for _ in range(n + (1 if bad else 0))]
            p['w'] = {'h': True, 'v': enc.vec(w)}
            kw['weights'] = np.array(w) if r.coin() else w
    return p, kw


def interp_event(r, prop):
    method = r.choice(METHODS)
    bad = r.coin(.3) if prop == 'C25' else r.coin(.08)
    c = make(r, n=r.choice([0, 1]) if bad and r.coin(.2) else None)
    what = r.choice(['grid', 'par', 'method']) if bad else None
    if what == 'method':
        method = r.choice(['foo', '', 'Linear', 'cubic spline'])
    p, kw = params(r, c, method if what != 'method' else 'none', what == 'par')
    g, mk = any_grid(r, c, what == 'grid')
    how = r.choice(['curve', 'curve', 'function', 'instance', 'twice'])
    return interp_record(c, g, mk, method, p, kw, how, r.coin())


def chain_events(r):
    """one interpolator called several times, also with one array that changes in between"""
    method = r.choice(METHODS)
    c = make(r)
    p, kw = params(r, c, method, False)
    state = {}

    def get(grid):
        if 'it' not in state:
            state['it'] = get_interpolator(method, c, **kw)
        return state['it'](grid)
    out = []
    held = None
    for _ in range(r.randint(2, 4)):
        if held is not None and r.coin(.6):
            v = values(r, c)
            while v.size != held.size:
                v = np.unique(np.concatenate([v, [c.t[0] + (c.t[-1] - c.t[0]) * r.random()]]))[:held.size] \
                    if v.size < held.size else v[:held.size]
            held[:] = v
            g, mk = {'t': 'values', 'v': enc.vec(v), 'rank': 1}, lambda: held
        elif held is None and r.coin(.6):
            held = values(r, c).copy()
            g, mk = {'t': 'values', 'v': enc.vec(held), 'rank': 1}, lambda: held
        else:
            g, mk = any_grid(r, c, r.coin(.1))
        out.append(interp_record(c, g, mk, method, p, kw, 'again', False, get))
    return out


def interp_record(c, g, mk, method, p, kw, how, positional, get=None):
    state = {'warned': False}

    def call():
        if get:
            return get(mk())
        if how == 'curve':
            return c.interpolate(mk(), method, **kw) if positional else c.interpolate(grid_spec=mk(), method=method, **kw)
        if how == 'function':
            return interpolate(c, mk(), method, **kw)
        it = get_interpolator(method, c, **kw)
        if it.curve is not c:
            raise enc.Malformed('the curve of an interpolator')
        if how == 'twice':
            it(3)
        return it(mk())

    def fn():
        spec = mk                                     # noqa: F841
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            with np.errstate(all='ignore'):
                x = call()
        state['warned'] = any(issubclass(m.category, InterpolationWarning) for m in w)
        return x
    out, _ = enc.outcome(fn, 'curve', enc.curve)
    return {'op': 'interp', 'c': crec(c), 't': enc.vec(c.t), 'g': g, 'method': method, 'par': p, 'how': how, 'out': out,
            'warned': state['warned']}


def trace(rng, prop):
    if prop == 'C24':
        return [grid_event(rng) for _ in range(5)]
    return [interp_event(rng, prop) for _ in range(3)] if rng.coin(.8) else chain_events(rng)


# ------------------------------------------------------------- behaviours of InterpMC and GridMC

def kwargs(method, p):
    """the keyword arguments of a parameter record"""
    kw = {}
    ex = {'yes': True, 'no': False, 'periodic': 'periodic', 'default': None}[p['ex']]
    if p['unknown']:
        kw['foo'] = 1
    if p['ex'] != 'default':
        kw['extrapolate'] = ex

    def one(b):
        return (b['o'], [float(Fraction(v)) for v in b['v']]) if b['name'] == 'deriv' else b['name']
    if method == 'cubic':
        a, b = one(p['bc0']), one(p['bc1'])
        if (a, b) != ('natural', 'natural'):
            kw['bc_type'] = a if a == b and isinstance(a, str) else (a, b)
    elif method == 'spline':
        kw['k'] = p['k']
        if p['ext']:
            kw['extrapolate'] = p['ext'] if p['k'] % 2 else ['extrapolate', 'zeros', 'raise', 'const'][p['ext']]
    elif method == 'csaps':
        kw['smooth'] = None if p['auto'] else float(Fraction(p['smooth']))
    if p['w']['h']:
        kw['weights'] = [float(Fraction(v)) for v in p['w']['v']]
    return kw


def made(pts, t, k):
    """the curve of a behaviour, of some dtype"""
    a = np.array([[int(v) for v in q] for q in pts], dtype=float).reshape(len(pts), 2)
    a = a.astype(['float64', 'float64', 'float64', 'float32', 'int64'][k % 5])
    return Curve(a, tdata=[float(Fraction(v)) for v in t]) if t else Curve(a)


def play(b, prop):
    if 'method' not in b:
        return play_grid(b)
    h = sum(int(v) for q in b['pts'] for v in q) + len(b['method'])
    c = made(b['pts'], b['t'], h if prop == 'C25' else 0)
    t = np.array(c.t, dtype=float)
    T = t[-1] - t[0]
    kind = b['g']

    def given(v, make):
        v = np.array(v, dtype=float)
        return {'t': 'values', 'v': enc.vec(v.ravel()), 'rank': v.ndim}, lambda: make(v)
    if kind == 'probe':
        v = np.unique(np.concatenate([[t[0] - .75], t, t[:-1] + np.diff(t) / 4, t[:-1] + np.diff(t) * 2 / 3, [t[-1] + .5]]))
        if b['method'] in ('linear', 'spline') and (b['par']['ex'] == 'no' or b['par']['ext'] == 2) and h % 2:
            v = v[1:-1]                               # the other half is rejected
        g, mk = given(v, [lambda x: x, lambda x: x.tolist(), lambda x: tuple(x.tolist()), Listed][h % 4])
    elif kind == 'nodes':
        g, mk = given(t, lambda x: x)
    elif kind == 'list':
        g, mk = given(np.linspace(t[0], t[-1], 4), lambda x: x.tolist())
    elif kind == 'short':                             # begins late
        g, mk = given(np.linspace(t[0] + T / 8, t[-1], 3), tuple)
    elif kind == 'early':                             # ends early
        g, mk = given(np.linspace(t[0], t[-1] - T / 8, 3), Listed)
    elif kind == 'one':
        g, mk = given(t[:1], lambda x: x)
    elif kind == 'down':
        g, mk = given(t[::-1], lambda x: x)
    elif kind == 'twice':
        g, mk = given(np.concatenate([t, t[-1:]]), lambda x: x.tolist())
    elif kind == 'matrix':
        g, mk = given(np.array([t, t + 1]), lambda x: x)
    elif kind == 'none':
        g, mk = given([], lambda x: x)
    elif kind == 'int':
        g, mk = {'t': 'int', 'n': 4}, lambda: 4
    elif kind == 'int1':
        g, mk = {'t': 'int', 'n': 1}, lambda: 1
    elif kind == 'text':
        g, mk = {'t': 'invalid'}, lambda: 'abc'
    elif kind == 'speed':
        g, mk = {'t': 'speed', 'n': 5}, lambda: PreservedSpeedInterpolationGrid(5)
    elif kind == 'extrap':
        g = {'t': 'extrap', 'kind': 'point', 'before': fill(1), 'after': fill(2),
             'inner': {'t': 'uniform', 'kind': 'point', 'fill': fill(3)}}

        def mk():
            return UniformExtrapolationGrid(UniformInterpolationGrid(3), before=1, after=2)
    how = ['curve', 'function', 'instance', 'twice'][h % 4]
    return [interp_record(c, g, mk, b['method'], b['par'], kwargs(b['method'], b['par']), how, h % 2 == 0)]


def grid_object(g):
    def arg(f):
        if f['ty'] == 'other':
            return '3'
        v = Fraction(f['v'])
        return int(v) if f['ty'] == 'int' else float(v)
    if g['t'] == 'uniform':
        return UniformInterpolationGrid(arg(g['fill']), g['kind'])
    if g['t'] == 'speed':
        return PreservedSpeedInterpolationGrid(g['n'])
    return UniformExtrapolationGrid(grid_object(g['inner']), before=arg(g['before']), after=arg(g['after']), kind=g['kind'])


def play_grid(b):
    a = np.array([[int(v) for v in q] for q in b['pts']], dtype=float).reshape(len(b['pts']), 2)
    c = Curve(a, tdata=[float(Fraction(v)) for v in b['t']]) if b['t'] else Curve(a)

    def fn():
        x = grid_object(b['g'])(c)
        if not isinstance(x, np.ndarray) or x.dtype != np.float64:
            raise enc.Malformed('grid')
        return x
    out, _ = enc.outcome(fn, 'val', enc.vec)
    return [{'op': 'grid', 'c': crec(c), 't': enc.vec(c.t), 'g': b['g'], 'out': out}]
