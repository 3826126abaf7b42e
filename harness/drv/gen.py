"""Curve generators, recorded for TraceGen.tla."""
import math
from fractions import Fraction

from skcurve import curves

from . import enc
from .enc import num

ORDER = {
    'arc': ['t_start', 't_stop', 'p_count', 'r', 'c'],
    'lemniscate_of_bernoulli': ['t_start', 't_stop', 'p_count', 'c'],
    'archimedean_spiral': ['t_start', 't_stop', 'p_count', 'a', 'b'],
    'euler_spiral': ['t_start', 't_stop', 'p_count'],
    'lissajous': ['t_start', 't_stop', 'p_count', 'a_ampl', 'b_ampl', 'a', 'b', 'd'],
    'helix': ['t_start', 't_stop', 'p_count', 'a', 'b'],
    'irregular_helix': ['t_start', 't_stop', 'z_start', 'z_stop', 'p_count'],
}


def value(r, name, k):
    if k == 'p_count':
        return r.weighted([(1, 0), (1, 1), (2, 2), (2, 3), (6, r.randint(4, 24)), (.3, r.randint(60, 150)), (.3, -1)])
    if k in ('t_start', 't_stop'):
        lim = 6 if name == 'euler_spiral' else 20
        return r.choice([0, 0., 1, -1, math.pi, 2 * math.pi, -math.pi / 2, r.uniform(-lim, lim), r.uniform(-lim, lim), 1e-6]
                        + ([100., -37.5, 1e4] if lim == 20 else []))
    return r.choice([0, 1, -1, 2, .5, -2.5, r.uniform(-4, 4), r.uniform(-4, 4), 3, 1e3])


def event(r):
    name = r.choice(list(ORDER))
    names = ORDER[name]
    mode = r.choice(['kw', 'kw', 'pos', 'some', 'default'] if r.coin(.5) else ['kw', 'pos', 'some'])
    args, kw = [], {}
    if mode == 'pos':
        m = r.randint(3 if 'p_count' != names[-1] else len(names), len(names))
        args = [value(r, name, k) for k in names[:m]]
        par = dict(zip(names, args))
    elif mode == 'default':
        par = {}
        if name in ('euler_spiral', 'archimedean_spiral') or r.coin(.8):
            kw = {'p_count': r.randint(2, 30)}
    elif mode == 'some':
        ks = [k for k in names if r.coin(.5)]
        kw = {k: value(r, name, k) for k in ks}
        if 'p_count' not in kw:
            kw['p_count'] = r.randint(1, 15)
    else:
        kw = {k: value(r, name, k) for k in names}
    return call(name, args, kw)


def call(name, args, kw):
    par = dict(zip(ORDER[name], args), **kw)
    out, _ = enc.outcome(lambda: getattr(curves, name)(*args, **kw), 'curve', enc.curve)
    return {'op': 'gen', 'name': name, 'par': {k: (v if k == 'p_count' else num(v)) for k, v in par.items()}, 'out': out}


def trace(rng, prop):
    return [event(rng) for _ in range(5)]


def trace_k(rng, prop, k):
    # the first traces: every generator with its default arguments
    names = list(ORDER)
    if k < len(names):
        name = names[k]
        out, _ = enc.outcome(lambda: getattr(curves, name)(), 'curve', enc.curve)
        return [{'op': 'gen', 'name': name, 'par': {}, 'out': out}]
    return trace(rng, prop)


def play(b, prop):
    """a call of GenMC"""
    names = ORDER[b['name']]
    k = sum(map(len, b['par']))
    par = {}
    for n, v in zip(names, b['par']):
        if n == 'p_count':
            par[n] = b['count']
        elif v:
            q = Fraction(v)
            par[n] = int(q) if q.denominator == 1 and k % 2 else float(q)
    if b['pos']:
        return [call(b['name'], [par[n] for n in names], {})]
    m = 0                                             # as many as possible by position
    while k % 3 and m < len(names) and names[m] in par:
        m += 1
    return [call(b['name'], [par.pop(n) for n in names[:m]], par)]
