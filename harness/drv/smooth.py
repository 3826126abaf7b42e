"""Smoothing, recorded for TraceSmooth.tla."""
from fractions import Fraction

import numpy as np

from skcurve import Curve, get_smooth_method
from skcurve._smooth import smooth

from . import enc
from .enc import num

NAMES = ['boxcar', 'hann', 'hamming', 'blackman', 'nuttall', 'blackmanharris', 'flattop', 'bartlett', 'triang', 'cosine',
         'bohman', 'barthann', 'parzen', 'gaussian', 'exponential', 'kaiser', 'kaiser#', 'hanning', 'ones']
MODES = ['reflect', 'constant', 'nearest', 'mirror', 'wrap']


def crec(c):
    return {'nd': int(c.ndim), 'pts': enc.mat(c.data), 'par': bool(c.isparametric),
            't': enc.vec(c.t) if c.isparametric else [], 'dt': c.dtype.name}


def make(r, n=None):
    n = n or r.weighted([(1, 1), (1, 2), (1, 3), (4, r.randint(4, 8)), (3, r.randint(9, 14)), (.4, r.randint(30, 80))])
    nd = r.weighted([(5, 2), (3, 3), (1, 4), (.5, 5)])
    dt = r.weighted([(5, 'float64'), (2, 'float32'), (2, 'int64'), (1, 'int32'), (1, 'int8'), (1, 'uint8'), (.5, 'uint64')])
    k = r.choice(['int', 'gauss', 'const', 'poly', 'big', 'impulse'])
    if k == 'int':
        a = [[r.randint(0, 9) for _ in range(nd)] for _ in range(n)]
    elif k == 'gauss':
        a = [[r.gauss(0, 3) for _ in range(nd)] for _ in range(n)]
    elif k == 'const':
        v = [r.randint(1, 120) for _ in range(nd)]
        a = [v] * n
    elif k == 'poly':
        q = [[r.randint(-2, 2) for _ in range(3)] for _ in range(nd)]
        a = [[q[j][0] + q[j][1] * i + q[j][2] * i * i for j in range(nd)] for i in range(n)]
    elif k == 'big':
        a = [[r.randint(0, 127) for _ in range(nd)] for _ in range(n)]
    else:
        a = np.zeros((n, nd))
        for j in range(nd):
            a[r.randint(0, n - 1), j] = r.choice([1, 100])
    a = np.array(a, dtype=float)
    if dt[0] in 'iu':
        a = np.round(a)
        if dt[0] == 'u':
            a = np.abs(a)
        lim = {'int8': 127, 'uint8': 255}.get(dt)
        if lim:
            a = np.clip(a, -lim, lim)
    a = a.astype(dt)
    kw = {}
    if r.coin(.3):
        kw['tdata'] = np.arange(n) * r.choice([1., .5])
    if r.coin(.2):
        return Curve([a[:, j].copy() for j in range(nd)], **kw)
    if r.coin(.2):
        return Curve(np.asfortranarray(a), **kw)
    return Curve(a, **kw)


def scale_window(name, M, a):
    from scipy.signal import windows
    return windows.get_window((name, a) if a else name, M, fftbins=False)


def window_args(r, bad):
    """window record, window_type argument and size"""
    size = r.weighted([(1, 1), (1, 2), (3, 3), (2, 4), (3, 5), (1, 6), (2, 7), (1, 9), (1, 12), (1, r.randint(13, 25))])
    if bad == 'window':
        k = r.choice(['name', 'raise', 'attr'])
        if k == 'name':
            n = r.choice(['foo', '', 'Hannn'])
            return {'k': 'name', 'name': n, 'a': '0'}, n, size, True
        e = {'raise': RuntimeError, 'attr': AttributeError}[k]

        def boom(n):
            raise e('no')
        return {'k': 'fails'}, boom, size, True
    if bad == 'size':
        return {'k': 'name', 'name': 'boxcar', 'a': '0'}, 'boxcar', r.choice([0, -1, -4]), True
    if r.coin(.35):
        k = r.choice(['sym', 'asym', 'ints', 'neg', 'shared', 'list'])
        if k in ('ints', 'shared'):
            w = np.array([r.randint(1, 4) for _ in range(size)])
        elif k == 'neg':
            w = np.array([r.choice([-1., 2., 1.]) for _ in range(size)])
            w[size // 2] += 2 * size
        else:
            w = np.array([r.uniform(.1, 1) for _ in range(size)])
            if k == 'sym':
                w = w + w[::-1]
        keep = w.copy()
        keep.setflags(write=r.coin())

        def f(n):
            if n != size:
                raise ValueError('size')
            return keep if k != 'list' else np.array(keep)
        return {'k': 'values', 'v': enc.vec(w)}, f, size, False
    name = r.choice(NAMES)
    a, arg = 0, name
    if name == 'gaussian':
        a = r.choice([.5, 1., 2., 3.5])
        arg = (name, a)
    elif name == 'kaiser':
        a = r.choice([0., 2., 5., 8.6])
        arg = (name, a)
    elif name == 'kaiser#':                           # a number alone is the parameter of the Kaiser window
        name, a = 'kaiser', r.choice([1., 4.])
        arg = a
    elif name == 'exponential':
        a = r.choice([1., 2., 3.])
        arg = (name, None, a)
    if name in ('hann', 'hanning', 'blackman', 'nuttall', 'blackmanharris', 'flattop', 'bartlett', 'bohman', 'barthann'):
        size = {2: 3}.get(size, size)                 # their window of two points vanishes
        if name == 'flattop' and size == 4:
            size = 5
    return {'k': 'name', 'name': name, 'a': num(a)}, arg, size, False


def event(r):
    method = r.choice(['window', 'window', 'savgol'])
    bad = r.choice(['window', 'size', 'mode', 'name', 'unknown', 'poly']) if r.coin(.2) else None
    c = make(r)
    ev = {'op': 'smooth', 'method': method, 'unknown': False, 'win': {'k': 'none'}, 'size': 1, 'k': 0, 'd': 0, 'delta': '1',
          'mode': '', 'cval': '0'}
    kw = {}
    if method == 'window':
        ev['win'], arg, size, isbad = window_args(r, bad)
        ev['size'] = size
        if r.coin(.15) and not isbad:
            arg, ev['win'] = None, {'k': 'name', 'name': 'hann', 'a': '0'}
            size = ev['size'] = {2: 3}.get(size, size)
        kw['window_size'] = size
        if arg is not None:
            kw['window_type'] = arg
        mode = r.choice(MODES)
        if r.coin(.2):
            mode = 'reflect'
        else:
            kw['mode'] = mode
        if bad == 'mode':
            kw['mode'] = mode = r.choice(['interp', 'foo', ''])
    else:
        n = c.size
        size = r.choice([1, 3, 3, 5, 5, 7, 9])
        if bad == 'size':
            size = r.choice([0, 2, 4, -1, 6])
        ev['size'] = size
        ev['k'] = r.randint(0, min(5, max(size - 1, 0)))
        if bad == 'poly':
            ev['k'] = size + r.choice([0, 0, 1])
        ev['d'] = r.choice([0, 0, 0, 1, 2, 3])
        dl = r.choice([1., .5, 2., 10.])
        ev['delta'] = num(dl)
        mode = r.choice(['mirror', 'constant', 'nearest', 'wrap', 'interp', 'interp'])
        if bad != 'size' and bad != 'poly' and mode == 'interp' and size > n and r.coin(.7):
            mode = 'nearest'
        if bad == 'mode':
            mode = r.choice(['reflect', 'foo'])
        kw.update(window_length=size, polyorder=ev['k'], mode=mode)
        if ev['d'] or r.coin():
            kw['deriv'] = ev['d']
        if dl != 1 or r.coin():
            kw['delta'] = dl
        if mode == 'interp' and r.coin():
            del kw['mode']
    ev['mode'] = mode
    if r.coin(.5):
        cv = r.choice([0., 1., -3.5, 50.])
        ev['cval'] = num(cv)
        kw['cval'] = cv
    if bad == 'unknown':
        ev['unknown'] = True
        kw['foo'] = 1
    if bad == 'name':
        ev['method'] = method = r.choice(['foo', '', 'hann', 'Window', 'savgol_filter'])
    before = crec(c)
    how = r.choice(['curve', 'curve', 'function'])

    def fn():
        with np.errstate(all='ignore'):
            if how == 'curve':
                return c.smooth(method, **kw)
            return smooth(c, method, **kw)
    if ev['method'] in ('window', 'savgol') and r.coin(.1):
        get_smooth_method(method)
    out, _ = enc.outcome(fn, 'curve', enc.curve)
    ev.update(c=before, out=out, same=crec(c) == before)
    return ev


def trace(rng, prop):
    return [event(rng) for _ in range(5)]


def play(b, prop):
    """a call of SmoothMC on a curve whose coordinates are the unit impulses"""
    n, m = b['n'], b['method']
    a = np.zeros((n, max(n, 2)))
    a[range(n), range(n)] = 1
    dt = ['float64', 'float64', 'int32', 'float32', 'uint8'][(n + b['size'] + b['d']) % 5]
    c = Curve(a.astype(dt))
    ev = {'op': 'smooth', 'method': m, 'unknown': False, 'win': {'k': 'none'}, 'size': b['size'], 'k': b['k'], 'd': b['d'],
          'delta': b['delta'], 'mode': b['mode'], 'cval': '0'}
    if m == 'window':
        ev['win'] = {'k': 'name', 'name': b['name'], 'a': b['a']}
        v = float(Fraction(b['a']))
        arg = {'gaussian': ('gaussian', v), 'kaiser': ('kaiser', v), 'exponential': ('exponential', None, v)}.get(
            b['name'], b['name'])
        if b['mode'] == 'constant' and n % 2:
            ev['cval'] = '2'
        kw = {'window_type': arg, 'window_size': b['size'], 'mode': b['mode']}
    else:
        kw = {'window_length': b['size'], 'polyorder': b['k'], 'deriv': b['d'], 'delta': float(Fraction(b['delta'])),
              'mode': b['mode']}
    if ev['cval'] != '0':
        kw['cval'] = 2.
    before = crec(c)
    out, _ = enc.outcome(lambda: c.smooth(m, **kw), 'curve', enc.curve)
    ev.update(c=before, out=out, same=crec(c) == before)
    return [ev]
