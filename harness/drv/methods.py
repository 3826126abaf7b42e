"""Histories of the method registries, recorded for TraceRegistry.tla.  Every history runs in a process of its own, so
that it begins with the registries as they are after import."""
import json
import os
import signal
import warnings

import numpy as np

import skcurve
from skcurve import (Curve, InterpolatorBase, Point, Segment, default_intersect_method, get_interpolator,
                     get_intersect_method, get_smooth_method, interp_methods, intersect_methods, register_interpolator,
                     register_intersect_method, register_smooth_method, set_default_intersect_method, smooth_methods)
from skcurve._intersect import IntersectionMethodBase, IntersectionWarning, intersect

from . import enc

A = np.array([[0, 0, 0], [1, 2, 1], [3, 1, 0], [4, 4, 1], [6, 3, 5], [7, 0, 2.]])
S1 = Segment(Point([0., 0, 0]), Point([2., 0, 0]))
S2 = Segment(Point([.7, -1, 4e-6]), Point([.7, 1, 4e-6]))
LOG = []


def interp_class(tag):
    class C(InterpolatorBase):
        def __init__(self, curve, **kw):
            super().__init__(curve)
            self.kw = kw

        def _interpolate(self, grid):
            LOG.append((tag, self, self.kw))
            if tag == 'fails':
                raise RuntimeError('no')
            return np.zeros((len(grid), self.curve.ndim))
    return C


def intersect_class(tag):
    class C(IntersectionMethodBase):
        def __init__(self, **kw):
            self.kw = kw

        def _intersect_segments(self, segment1, segment2):
            LOG.append((tag, self, self.kw))
            if tag == 'fails':
                raise RuntimeError('no')
            return skcurve.NOT_INTERSECTED

        def _intersect_curves(self, curve1, curve2):
            LOG.append((tag, self, self.kw))
            if tag == 'fails':
                raise RuntimeError('no')
            return []
    return C


def smooth_fn(tag):
    def f(curve, **kw):
        LOG.append((tag, f, kw))
        if tag == 'fails':
            raise RuntimeError('no')
        return np.zeros((curve.size, curve.ndim))
    return f


SMOOTH_KW = {'savgol': {'window_length': 3, 'polyorder': 1}, 'window': {'window_size': 3}}
LISTS = {'interp': interp_methods, 'smooth': smooth_methods, 'intersect': intersect_methods}


C0 = Curve(A.copy())
# what the built-in methods are and give, before anything is registered
BUILT = {'interp': {n: type(get_interpolator(n, C0)) for n in interp_methods()},
         'smooth': {n: get_smooth_method(n) for n in smooth_methods()},
         'intersect': {n: type(get_intersect_method(n)) for n in intersect_methods()}}
PRINTS = {'interp': {n: c(C0)(9).data.tobytes() for n, c in BUILT['interp'].items()},
          'smooth': {n: np.asarray(f(C0, **SMOOTH_KW[n])).tobytes() for n, f in BUILT['smooth'].items()},
          'intersect': {n: bool(c()(S1, S2)) for n, c in BUILT['intersect'].items()}}


class World:
    def __init__(self):
        LOG.clear()
        self.c = C0
        mk = {'interp': interp_class, 'smooth': smooth_fn, 'intersect': intersect_class}
        self.objs = {r: {t: f(t) for t in ('A', 'B', 'fails')} for r, f in mk.items()}
        for r, wrong in (('interp', dict), ('intersect', InterpolatorBase)):
            self.objs[r]['class'] = wrong
            self.objs[r]['instance'] = 17
        self.built, self.prints = BUILT, PRINTS
        self.insts = {}
        self.events = []

    @staticmethod
    def cross(x):
        return bool(x)

    def who(self, r, obj):
        for d in (self.objs[r], self.built[r]):
            for k, v in d.items():
                if v is obj:
                    return k
        return 'something else'

    def did(self, r, value, mark):
        """which method did the work of a call"""
        if LOG:
            return LOG[-1][0] if len({k[0] for k in LOG}) == 1 else 'several'
        return next((k for k, v in self.prints[r].items() if v == mark(value)), 'something else')

    def op(self, o, r=None, variant=0):
        reg, name = o['reg'], o['name']
        LOG.clear()
        ev = dict(o, paramsok=True, warned=False)
        custom = {'p': 1} if o['params'] else {}

        def fn():
            if o['op'] == 'register':
                obj = self.objs[reg][o['obj']]
                if reg == 'interp':
                    return self.who(reg, register_interpolator(name)(obj))
                if reg == 'smooth':
                    return self.who(reg, register_smooth_method(name)(obj))
                if not o['default'] and variant % 2:
                    return self.who(reg, register_intersect_method(name)(obj))
                return self.who(reg, register_intersect_method(name, default=o['default'])(obj))
            if o['op'] == 'setdefault':
                set_default_intersect_method(name)
                return '-'
            if o['op'] == 'lookup':
                if reg == 'interp':
                    return self.who(reg, type(get_interpolator(name, self.c)))
                if reg == 'smooth':
                    return self.who(reg, get_smooth_method(name))
                return self.who(reg, type(get_intersect_method(name)))
            if o['op'] == 'use' and reg == 'interp':
                return self.did(reg, self.c.interpolate(9, name, **custom), lambda c: c.data.tobytes())
            if o['op'] == 'use' and reg == 'smooth':
                return self.did(reg, self.c.smooth(name, **SMOOTH_KW.get(name, custom)), lambda c: c.data.tobytes())
            if o['op'] in ('use', 'usedefault', 'useinstance'):
                if o['op'] == 'use':
                    m = {'method': name}
                elif o['op'] == 'usedefault':
                    m = {} if variant % 2 else {'method': None}
                else:
                    tag = o['obj']
                    if tag not in self.insts or variant % 3 == 0:
                        self.insts[tag] = self.objs['intersect'][tag]() if tag in self.objs['intersect'] else \
                            self.built['intersect'][tag]()
                    m = dict({'method': self.insts[tag]}, **custom)
                if variant % 3 == 1 and o['op'] != 'usedefault':
                    got = intersect(S1, S2, **m)
                elif variant % 3 == 2:
                    got = S1.to_curve().intersect(S2.to_curve(), **m)
                else:
                    got = S1.intersect(S2, **m)
                if o['op'] == 'useinstance' and LOG and LOG[-1][1] is not self.insts[tag]:
                    return 'another instance'
                return self.did('intersect', got, self.cross)
            if o['op'] == 'usewrong':
                S1.intersect(S2, method=[3.5, 17, ['exact'], IntersectionMethodBase][variant % 4])
                return '-'
            if o['op'] == 'list':
                for f in LISTS.values():               # the lists are the caller's own
                    x = f()
                    x.append('junk')
                    x.sort()
                return '-'
            raise AssertionError(o)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                ev['out'] = {'k': 'ok', 'v': fn()}
            except Exception as e:                     # noqa: B902
                ev['out'] = enc.err(e)
            ev['warned'] = any(issubclass(m.category, IntersectionWarning) for m in w)
        ev['lists'] = {k: list(f()) for k, f in LISTS.items()}
        ev['dflt'] = default_intersect_method()
        self.events.append(ev)


def apart(fn):
    """run in a child process"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.alarm(50)
            os.close(rd)
            with os.fdopen(wr, 'w') as f:
                json.dump(fn(), f)
            code = 0
        except Exception as e:                         # noqa: B902
            import traceback
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            del e
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd) as f:
        txt = f.read()
    _, st = os.waitpid(pid, 0)
    if st or not txt:
        raise RuntimeError('a history of the registries could not be recorded')
    return json.loads(txt)


def play(b, prop):
    def go():
        w = World()
        for i, o in enumerate(b):
            w.op(o, variant=i + len(b[0]['name']))
        return w.events
    return apart(go)


NAMES = ['m', 'n', 'M', 'linear', 'savgol', 'exact', 'almost', 'window', 'spline', '']


def trace(r, prop):
    def go():
        w = World()
        for _ in range(r.randint(6, 16)):
            op = r.weighted([(5, 'register'), (2, 'setdefault'), (2, 'lookup'), (4, 'use'), (3, 'usedefault'),
                             (1.5, 'useinstance'), (.4, 'usewrong'), (.6, 'list')])
            reg = r.weighted([(2, 'interp'), (2, 'smooth'), (3, 'intersect')])
            if op in ('setdefault', 'usedefault', 'useinstance', 'usewrong'):
                reg = 'intersect'
            names = LISTS[reg]()
            name = r.choice(NAMES) if r.coin(.4) else r.choice(names)
            if op == 'register' and r.coin(.75):
                name = r.choice([n for n in NAMES + ['k1', 'k2', 'k3'] if n not in names])
            obj, dflt, params = '-', False, False
            if op == 'register':
                obj = r.weighted([(4, 'A'), (4, 'B'), (1, 'fails'), (1, 'class'), (.6, 'instance')])
                if reg == 'smooth' and obj in ('class', 'instance'):
                    obj = 'A'
                dflt = reg == 'intersect' and r.coin(.4)
            elif op == 'useinstance':
                obj = r.choice(['A', 'B', 'fails', 'exact', 'almost'])
                params = r.coin(.4)
            w.op({'op': op, 'reg': reg, 'name': name, 'obj': obj, 'default': dflt, 'params': params}, variant=r.randint(0, 11))
        return w.events
    return apart(go)
