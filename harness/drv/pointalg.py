"""Calls of points, recorded for TracePoint.tla."""
import copy
import json
import operator
import pickle
from fractions import Fraction

import numpy as np

from skcurve import Curve, Point, known_metrics, get_metric

from . import enc
from .enc import num, outcome, optint

OPS = ['add', 'sub', 'mul', 'truediv', 'floordiv']
METRICS = ['braycurtis', 'canberra', 'chebyshev', 'cityblock', 'correlation', 'cosine', 'euclidean', 'jensenshannon',
           'mahalanobis', 'minkowski', 'seuclidean', 'sqeuclidean', 'wminkowski']


def snap(p):
    return (p.data.tobytes(), str(p.dtype)) if isinstance(p, Point) else repr(p)


def value(r, dt, positive=False, nonzero=False):
    while True:
        if dt.startswith('uint'):
            v = r.choice([0, 1, 2, 7, 100, 200, 255])
        elif dt.startswith('int'):
            v = r.choice([r.randint(-9, 9), r.randint(-128, 127)])
        elif dt == 'float32':
            v = r.randint(-64, 64) / 8.
        else:
            v = r.choice([r.randint(-9, 9), r.randint(-640, 640) / 64., r.gauss(0, 10), r.gauss(0, 1e3)])
        if positive:
            v = abs(v) if dt != 'int8' else abs(v) % 128
        v = v + 0
        if v == 0:
            v = 0 if 'int' in dt else 0.
        if v or not nonzero:
            return v


def mk(r, n=None, dt=None, **kw):
    n = n or r.weighted([(1, 1), (4, 2), (4, 3), (1, 4), (.5, 6), (.3, r.randint(7, 16))])
    dt = dt or r.weighted([(6, 'float64'), (1.5, 'float32'), (1, 'int64'), (1, 'int32'), (1, 'int8'), (1, 'uint8')])
    vals = [value(r, dt, **kw) for _ in range(n)]
    if n >= 2 and r.coin(.25):
        # a point of a curve
        rows = [vals] + [[value(r, dt, **kw) for _ in range(n)] for _ in range(2)]
        k = r.randrange(3)
        rows[0], rows[k] = rows[k], rows[0]
        return Curve(np.array(rows, dtype=dt), dtype=dt)[k]
    return Point(np.array(vals, dtype=dt), dtype=dt)


def number(r, right, nonzero):
    while True:
        kinds = ['int', 'float', 'bool', 'float', 'int', 'frac'] + (['npf', 'npi', 'npf32'] if right else [])
        k = r.choice(kinds)
        v = {'int': lambda: r.randint(-5, 5), 'float': lambda: r.choice([r.gauss(0, 3), r.randint(-8, 8) / 4.]) + 0.,
             'bool': lambda: r.coin(), 'npf': lambda: np.float64(r.gauss(0, 3)), 'npi': lambda: np.int64(r.randint(-5, 5)),
             'npf32': lambda: np.float32(r.randint(-16, 16) / 4.), 'frac': lambda: Fraction(r.randint(-7, 7), 4)}[k]()
        if k == 'frac':
            continue
        if float(v) == 0 and str(float(v)).startswith('-'):
            continue
        if v or not nonzero:
            return v


def numrec(x):
    return num(int(x) if isinstance(x, bool) else x)


def operand(x):
    if isinstance(x, Point):
        return {'kind': 'point', 'v': enc.vec(x.data), 'dt': x.dtype.name}
    return {'kind': 'number', 'v': [numrec(x)], 'dt': type(x).__name__}


def f32(*xs):
    return any((isinstance(x, Point) and x.dtype == np.float32) or isinstance(x, np.float32) for x in xs)


def arith(r):
    f = r.choice(OPS)
    form = r.weighted([(4, 'PP'), (3, 'PN'), (3, 'NP')])
    div = f in ('floordiv', 'truediv')
    nz = f == 'floordiv' or r.coin(.8)
    if form == 'PP':
        a = mk(r)
        b = mk(r, n=a.ndim, nonzero=div and nz)
    elif form == 'PN':
        a, b = mk(r), number(r, True, div and nz)
    else:
        a, b = number(r, False, False), mk(r, nonzero=div and nz)
    return arith_record(f, a, b)


def arith_record(f, a, b):
    before = snap(a), snap(b)

    def res():
        with np.errstate(all='ignore'):
            o = getattr(operator, f)(a, b)
        return {'ispoint': isinstance(o, Point), 'v': enc.vec(o.data) if isinstance(o, Point) else []}
    ra, rb = operand(a), operand(b)
    out, _ = outcome(res, 'val', lambda x: x)
    return {'op': 'arith', 'f': f, 'l': ra, 'r': rb, 'f32': f32(a, b), 'out': out, 'same': before == (snap(a), snap(b))}


def product(r):
    a = mk(r)
    return product_record(a, mk(r, n=a.ndim))


def product_record(a, b):
    before = snap(a), snap(b)
    out, _ = outcome(lambda: {'dot': num(a @ b), 'norm': num(a.norm())}, 'val', lambda x: x)
    return {'op': 'product', 'u': enc.vec(a.data), 'v': enc.vec(b.data), 'f32': f32(a, b), 'out': out,
            'same': before == (snap(a), snap(b))}


def metric(r):
    name = r.choice(METRICS + ['callable:cheb2', 'callable:first'])
    pos = name == 'jensenshannon'
    a = mk(r, positive=pos, nonzero=pos)
    b = mk(r, n=a.ndim, positive=pos, nonzero=pos)
    n = a.ndim
    kw, rec = {}, {'p': 2, 'w': [], 'V': [], 'VI': []}
    if name in ('minkowski', 'wminkowski'):
        kw['p'] = rec['p'] = r.choice([1, 2, 4])
        if name == 'wminkowski' or (r.coin(.3) and kw['p'] != 1):
            w = [r.randint(1, 8) / 4. for _ in range(n)]
            kw['w'] = np.array(w)
            rec['w'] = [num(x) for x in w]
        elif name == 'minkowski' and r.coin(.3):
            kw, rec['p'] = {}, 2
    if name == 'seuclidean':
        V = [r.randint(1, 8) / 4. for _ in range(n)]
        kw['V'] = V
        rec['V'] = [num(x) for x in V]
    if name == 'mahalanobis':
        B = np.array([[r.randint(-2, 2) for _ in range(n)] for _ in range(n)], dtype=float)
        VI = B.T @ B + np.eye(n)
        kw['VI'] = VI
        rec['VI'] = enc.mat(VI)
    before = snap(a), snap(b)

    def res():
        with np.errstate(all='ignore'):
            if name == 'callable:cheb2':
                return a.distance(b, metric=lambda u, v: 2 * float(np.max(np.abs(np.asarray(u, float) - np.asarray(v, float)))))
            if name == 'callable:first':
                return a.distance(b, lambda u, v: float(u[0]) - float(v[0]))
            if name == 'euclidean' and r.coin():
                return a.distance(b)
            if r.coin(.2):
                return a.distance(b, get_metric(name, **kw))
            return a.distance(b, name, **kw)
    out, _ = outcome(res, 'val', num)
    return {'op': 'metric', 'name': name, 'u': enc.vec(a.data), 'v': enc.vec(b.data), 'kw': rec, 'f32': f32(a, b), 'out': out,
            'same': before == (snap(a), snap(b))}


def reject(r):
    a = mk(r)
    b = mk(r, n=a.ndim)
    k = r.choice(['name', 'name2', 'call', 'operand', 'roperand', 'matmul', 'getm', 'dim'])
    exp = ['TypeError']
    if k == 'name':
        nm = r.choice(['', 'Euclidean', 'euclid', 'foo', 'hamming', 'EUCLIDEAN'])
        fn, exp = (lambda: a.distance(b, nm)), ['NameError']
    elif k == 'name2':
        fn, exp = (lambda: a.distance(b, metric='x' + r.choice(METRICS), p=2)), ['NameError']
    elif k == 'getm':
        fn, exp = (lambda: get_metric(r.choice(METRICS).upper())), ['NameError']
    elif k == 'call':
        m = r.choice([1, 2.5, [1], object(), (1, 2), {}])
        fn = lambda: a.distance(b, m)
    elif k == 'matmul':
        o = r.choice([1, 2.5, 'x', None, [1.] * a.ndim])
        fn = lambda: a @ o
    elif k == 'dim':
        c = Point([1.] * (a.ndim + 2) if a.ndim > 1 else [1., 2., 3.])
        if a.ndim == 1:
            a = Point([1., 2.])
        fn, exp = (lambda: getattr(operator, r.choice(OPS))(a, c)), ['ValueError']
    else:
        o = r.choice(['x', None, [1.] * a.ndim, (1.,) * a.ndim, {}, object()])
        f = getattr(operator, r.choice(OPS))
        fn = (lambda: f(a, o)) if k == 'operand' else (lambda: f(o, a))
    out, _ = outcome(fn, 'val', lambda x: 0)
    return {'op': 'reject', 'what': k, 'expected': exp, 'out': out}


def copies(r):
    a = mk(r)
    k = r.choice(['copy', 'deepcopy', 'pickle', 'dtype', 'point'])
    dt = a.dtype.name

    def res():
        nonlocal dt
        if k == 'copy':
            o = copy.copy(a)
        elif k == 'deepcopy':
            o = copy.deepcopy(a)
        elif k == 'pickle':
            o = pickle.loads(pickle.dumps(a))
        elif k == 'dtype':
            o = Point(a, dtype=a.dtype)
        else:
            dt = 'float64'
            o = Point(a)
        return {'ispoint': isinstance(o, Point), 'v': enc.vec(o.data), 'dt': o.dtype.name, 'equal': bool(o == a)}
    out, _ = outcome(res, 'val', lambda x: x)
    return {'op': 'copy', 'how': k, 'v': enc.vec(a.data), 'dt': dt, 'out': out}


def coords(r):
    a = mk(r) if r.coin(.95) else Point([])
    v = enc.vec(a.data)
    n = a.ndim
    k = r.choice(['coord', 'slice', 'seq'])
    if k == 'coord':
        i = r.randint(-n - 2, n + 1)
        out, _ = outcome(lambda: a[i], 'val', num)
        return {'op': 'coord', 'v': v, 'i': i, 'out': out}
    if k == 'slice':
        s0, s1 = (r.weighted([(3, None), (7, r.randint(-n - 2, n + 2))]) for _ in range(2))
        st = r.choice([None, 1, 2, -1, -2, 3])
        out, _ = outcome(lambda: a[slice(s0, s1, st)], 'val',
                         lambda x: enc.vec(x.data if isinstance(x, Point) else x))
        return {'op': 'slice', 'v': v, 'a': optint(s0), 'b': optint(s1), 's': st or 1, 'out': out}
    out, _ = outcome(lambda: {'len': len(a), 'ndim': a.ndim, 'iter': [num(x) for x in a], 'truth': bool(a),
                              'rev': [num(x) for x in reversed(a)]}, 'val', lambda x: x)
    return {'op': 'seq', 'v': v, 'out': out}


def trace(r, prop):
    out = []
    for _ in range(6):
        out += [arith(r), arith(r), product(r), metric(r), metric(r)]
    out += [reject(r), reject(r), copies(r), copies(r), coords(r), coords(r), coords(r)]
    if r.coin(.1):
        o, _ = outcome(known_metrics, 'val', list)
        out.append({'op': 'names', 'out': o})
    return out


def play(b, prop):
    """a call of PointMC"""
    k = sum(map(len, json.dumps(b).split('"')))

    def pt(v, dt='float64'):
        w = [float(Fraction(z)) for z in v]
        if k % 3 == 0:                                # a point of a curve
            if len(w) > 1:
                return Curve(np.array([w, w[::-1]], dtype=dt), dtype=dt)[0]
        return Point(np.array(w, dtype=dt), dtype=dt)

    def op(o):
        if o['kind'] == 'point':
            return pt(o['v'], o['dt'])
        q = Fraction(o['v'][0])
        return {'int': int, 'float': float, 'bool': bool, 'npf': np.float64, 'npi': np.int64, 'npf32': np.float32}[o['dt']](
            float(q) if o['dt'] != 'int' else q)
    if b['op'] == 'arith':
        return [arith_record(b['f'], op(b['l']), op(b['r']))]
    if b['op'] == 'product':
        return [product_record(pt(b['u']), pt(b['v']))]
    if b['op'] == 'metric':
        u, v, kw = pt(b['u']), pt(b['v']), {}
        rec = b['kw']
        if b['name'] in ('minkowski', 'wminkowski'):
            kw['p'] = rec['p']
        if rec['w']:
            kw['w'] = np.array([float(Fraction(z)) for z in rec['w']])
        if rec['V']:
            kw['V'] = [float(Fraction(z)) for z in rec['V']]
        if rec['VI']:
            kw['VI'] = np.array([[float(Fraction(z)) for z in q] for q in rec['VI']])
        before = snap(u), snap(v)

        def res():
            with np.errstate(all='ignore'):
                return u.distance(v, b['name'], **kw) if k % 2 else u.distance(v, metric=get_metric(b['name'], **kw))
        out, _ = outcome(res, 'val', num)
        return [{'op': 'metric', 'name': b['name'], 'u': b['u'], 'v': b['v'], 'kw': rec, 'f32': False, 'out': out,
                 'same': before == (snap(u), snap(v))}]
    a = pt(b['v'])
    if b['op'] == 'coord':
        out, _ = outcome(lambda: a[b['i']], 'val', num)
        return [{'op': 'coord', 'v': b['v'], 'i': b['i'], 'out': out}]
    get = [b[z]['v'] if b[z]['h'] else None for z in 'ab']
    out, _ = outcome(lambda: a[slice(get[0], get[1], b['s'] or None)], 'val',
                     lambda z: enc.vec(z.data if isinstance(z, Point) else z))
    return [{'op': 'slice', 'v': b['v'], 'a': b['a'], 'b': b['b'], 's': b['s'] or 1, 'out': out}]
