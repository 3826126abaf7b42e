"""Histories of curve operations: random walks over the public API, recorded for TraceHeap.tla."""
import copy
import json
import hashlib
import pickle
import warnings
from fractions import Fraction

import numpy as np

from skcurve import Curve, Point, Segment

from . import enc
from .enc import num, optint, outcome

EMPTY = {'nd': 2, 'pts': [], 'par': False, 't': [], 'dt': 'float64'}

# operations and the property they exercise
OPS = {
    'construct': 'C02', 'badconstruct': 'C02', 'copy': 'C02',
    'getint': 'C03', 'getcurve': 'C03', 'badindex': 'C03', 'iter': 'C03', 'subcurve': 'C03', 'badsubcurve': 'C03',
    'concat': 'C04', 'reverse': 'C04', 'insert': 'C04', 'append': 'C04', 'delete': 'C04', 'badedit': 'C04',
    'insertdelete': 'C04',
    'insertdim': 'C05', 'appenddim': 'C05', 'deletedim': 'C05', 'values': 'C05', 'allvalues': 'C05', 'badaxis': 'C05',
    'eq': 'C06', 'eqpoint': 'C06', 'haspoint': 'C06', 'hascurve': 'C06', 'hasother': 'C06', 'count': 'C06',
    'index': 'C06', 'eqother': 'C06',
    'unique': 'C07', 'drop': 'C07', 'baddrop': 'C07', 'nonsingular': 'C07', 'nonsingular2': 'C07',
    't': 'C08', 'smooth': 'C08', 'paramfree': 'C08',
    'coorient': 'C14', 'coorient2': 'C14',
    'repeat': 'C01', 'mutate': 'C01', 'mkpoint': 'C01', 'derivepoint': 'C01', 'mkseg': 'C01', 'read': 'C01',
}
BASE = {'construct': 2, 'getcurve': 2, 'concat': 1.5, 'reverse': 1, 'insert': 1.5, 'append': 0.7, 'delete': 1.5,
        'insertdim': 0.8, 'deletedim': 0.8, 'unique': 0.5, 'nonsingular': 0.5, 'coorient': 0.5, 'copy': 0.5,
        't': 0.5, 'iter': 0.3, 'drop': 0.5, 'subcurve': 0.3}


ENC = {'curve': enc.curve, 'point': enc.pcurve, 'segment': enc.pseg}


class Heap:
    def __init__(self, rng, prop):
        self.rng = rng
        self.prop = prop
        self.objs = []            # every object made: (kind, object)
        self.live = []            # ids (1-based) that may still be used
        self.events = []
        self.inputs = []          # arrays/lists handed to the library, for later mutation
        self.mode = rng.weighted([(3, 'int'), (4, 'grid'), (3, 'rand'), (2, 'special'), (1, 'close'), (.5, 'big')])
        if prop == 'C07':
            self.mode = rng.weighted([(2, 'int'), (3, 'grid'), (1, 'rand'), (4, 'special'), (3, 'close'), (.5, 'big')])
        self.maxn = rng.weighted([(3, 4), (4, 7), (1, 14), (.3, rng.choice([30, 40, 70]))])
        self.unsigned = rng.coin(.3)

    # ------------------------------------------------------------------ values
    def value(self):
        r = self.rng
        m = self.mode
        if m == 'int':
            return r.randint(0, 3) if r.coin(.7) else r.randint(-20, 20)
        if m == 'big':                                     # not representable in floating point
            return r.choice([2 ** 53 + 1, 2 ** 53 + 1, 2 ** 53 + 3, -2 ** 53 - 1, 2 ** 60 + 7, 2 ** 60 + 9, -2 ** 60 - 5, 0, 1])
        if m == 'grid':
            return r.choice([0., 1., 1., 2., -1., .5, -2.])
        if m == 'rand':
            return r.gauss(0, 1) * 10 ** r.choice([0, 0, 0, 3, -3])
        if m == 'special':
            return r.choice([0., 1., 2., float('nan'), float('inf'), -float('inf'), 1e6, -3.5, 1., 0., 2., 2.])
        b = r.choice([0., 1., 2.])
        return b + r.choice([0., 0., 0., 1e-12, 3e-9, 1e-7, 1e-5])

    def dtype(self):
        r = self.rng
        if self.mode == 'big':
            return r.choice(['int64', 'int64', 'int64', 'float64'])
        if self.mode == 'int' and self.unsigned:
            return r.choice(['uint8', 'uint16', 'uint32', 'uint64', 'int64', 'int32', 'int16', 'int8', 'float64', 'float32'])
        if self.mode == 'int':
            return r.choice(['int64', 'int64', 'int32', 'int16', 'int8', 'float64', 'float32'])
        return r.weighted([(6, 'float64'), (2, 'float32')])

    def castval(self, v, dt):
        return np.array(v).astype(dt)[()]

    def rows(self, n, nd, dt):
        """n points of dimension nd, with repetitions"""
        r = self.rng
        out = []
        for i in range(n):
            if out and r.coin(.25):
                out.append(list(out[r.randrange(len(out))] if r.coin(.5) else out[-1]))
            else:
                out.append([self.value() for _ in range(nd)])
        return np.array(out, dtype='int64' if self.mode in ('int', 'big') else dt).astype(dt).reshape(n, nd)

    def size(self):
        r = self.rng
        return r.weighted([(1, 0), (1, 1), (1.5, 2), (6, r.randint(3, self.maxn))])

    # ------------------------------------------------------------------ bookkeeping
    def curves(self):
        return [i for i in self.live if self.objs[i - 1][0] == 'curve']

    def pick(self):
        cs = self.curves()
        return self.rng.choice(cs) if cs else 0

    def obj(self, i):
        return self.objs[i - 1][1]

    def add(self, kind, o):
        self.objs.append((kind, o))
        i = len(self.objs)
        self.live.append(i)
        if len(self.live) > 6:
            self.live.pop(self.rng.randrange(len(self.live) - 1))
        return i

    def reread(self):
        r = self.rng
        ids = list(self.live)
        if self.prop not in ('C01', 'ALL') and ids:
            ids = [r.choice(ids)] if r.coin(.5) else []
        out = []
        for i in ids:
            kind, o = self.objs[i - 1]
            try:
                c = ENC[kind](o)
            except Exception as e:
                c = dict(EMPTY, dt='unreadable: %s' % type(e).__name__)
            out.append({'id': i, 'c': c})
        return out

    def emit(self, op, cid, fn, kind='curve', encf=None, args=(), keep=True, **fields):
        """Run fn, record the event.  args: objects handed to the library that must not change."""
        before = [snap(a) for a in args]
        out, res = outcome(fn, kind, encf)
        argsok = all(snap(a) == b for a, b in zip(args, before))
        nid = 0
        if keep and out['k'] == 'curve':
            nid = self.add({enc.pcurve: 'point', enc.pseg: 'segment'}.get(encf, 'curve'), res)
        ev = {'op': op, 'id': cid, 'out': out, 'nid': nid, 'argsok': argsok}
        ev.update(fields)
        ev['live'] = self.reread()
        self.events.append(ev)
        return res

    # ------------------------------------------------------------------ indexers
    def slice(self, n):
        r = self.rng

        def b():
            return r.weighted([(3, None), (7, r.randint(-n - 2, n + 2))])
        st = r.weighted([(6, None), (2, 1), (2, 2), (1, 3), (2, -1), (2, -2), (.5, -3)])
        a, e = b(), b()
        x = {'f': 'slice', 'a': optint(a), 'b': optint(e), 's': optint(st)}
        return x, slice(a, e, st)

    def intlist(self, n, oob=.08, neg=True, maxlen=5, empty=True):
        r = self.rng
        k = r.randint(0 if empty else 1, maxlen)
        lo = -n if neg else 0
        if n == 0:
            l = [] if not r.coin(oob) else [r.choice([0, -1])]
        else:
            l = [r.randint(lo, n - 1) for _ in range(k)]
            if r.coin(.3):
                l = sorted(l)
            if l and r.coin(oob):
                l[r.randrange(len(l))] = r.choice([n, n + 1, -n - 1, -n - 3])
        x = {'f': 'list', 'l': l}
        if not l:
            return x, np.array([], dtype=int)
        form = r.choice(['list', 'tuple', 'np', 'np32', 'list'])
        py = {'list': list(l), 'tuple': tuple(l), 'np': np.array(l), 'np32': np.array(l, dtype=np.int32)}[form]
        return x, py

    def mask(self, n):
        r = self.rng
        p = r.random()
        m = [r.coin(p) for _ in range(n)]
        return {'f': 'mask', 'm': m}, (np.array(m, dtype=bool) if r.coin() or not m else list(m))

    def operand(self, nd, dt=None):
        """a point or curve to insert: (object, record)"""
        r = self.rng
        bad = r.coin(.06)
        want = nd if not bad else nd + 1
        mine = [i for i in self.curves() if self.obj(i).ndim == want]
        k = r.random()
        if mine and k < .4:
            o = self.obj(r.choice(mine))
            if dt is not None and not compatible(o.dtype.name, dt, o.data):
                o = Curve(self.rows(1, want, dt))
        elif k < .7:
            d = self.odtype(dt)
            o = Curve(self.rows(r.randint(0, 3), want, d))
            if o.ndim != want:
                o = Curve(np.zeros((0, want), dtype=d))
        else:
            d = self.odtype(dt)
            o = Point(self.rows(1, want, d)[0], dtype=d)
        if isinstance(o, Point):
            return o, {'nd': int(o.ndim), 'pts': [enc.vec(o.data)], 'dt': o.dtype.name}
        return o, {'nd': int(o.ndim), 'pts': enc.mat(o.data), 'dt': o.dtype.name}

    def odtype(self, dt):
        r = self.rng
        if dt is None:
            return self.dtype()
        if self.mode == 'int' and not self.unsigned:
            return r.choice(['int64', 'int32', 'int16', 'int8', 'float64', dt])
        if self.mode in ('int', 'big'):
            return r.choice([self.dtype(), dt])
        return dt if r.coin() else 'float64'

    def searchpoint(self, c, nd):
        """a point to look for: (point object, record)"""
        r = self.rng
        d = self.dtype()
        if c.size and r.coin(.75):
            p = np.array(c.data[r.randrange(c.size)])
            k = r.random()
            if k < .5:
                d = c.dtype.name
            elif k < .7:
                p = p.astype('float64') * (1 + r.choice([1e-6, -1e-6, 1e-3, 3e-5, -3e-5])) + r.choice([0, 1e-9, 1e-7])
                d = 'float64'
            elif k < .8:
                p = p.copy()
                p[r.randrange(p.size)] = self.castval(self.value(), c.dtype)
                d = c.dtype.name
            else:
                d = 'float64'
            if nd != c.ndim:
                p = np.append(p, p[:1])
        else:
            p = self.rows(1, nd, d)[0]
        o = Point(p, dtype=d)
        if c.size and c.ndim == nd and r.coin(.15):
            o = c[r.randrange(c.size)]
        return o, {'v': enc.vec(o.data), 'dt': o.dtype.name}


def compatible(frm, to, data):
    """does storing the values in dtype `to` have a defined meaning"""
    if np.issubdtype(to, np.integer):
        if not np.all(np.isfinite(np.asarray(data, dtype=float))):
            return False
        ii = np.iinfo(to)
        a = np.asarray(data, dtype=float)
        return a.size == 0 or (a.min() >= ii.min and a.max() <= ii.max)
    return True


def snap(a):
    """a comparable copy of an argument"""
    if isinstance(a, np.ndarray):
        return ('arr', a.dtype.str, a.shape, a.tobytes())
    if isinstance(a, Curve):
        return ('curve', snap(a.data), snap(a.t) if a.isparametric else None)
    if isinstance(a, Point):
        return ('point', snap(a.data))
    if isinstance(a, Segment):
        return ('segment', snap(a.p1), snap(a.p2))
    if isinstance(a, (list, tuple)):
        return (type(a).__name__, [snap(x) for x in a])
    return repr(a)


# ---------------------------------------------------------------------- operations

def construct(data, kw):
    """a new curve, and the warnings"""
    seen = []

    def fn():
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            c = Curve(data, **kw)
        seen.extend(ws)
        return c
    return fn, seen


def op_construct(h):
    r = h.rng
    dt = h.dtype()
    n, nd = h.size(), r.weighted([(5, 2), (4, 3), (1, 4)])
    opt = {'axis': optint(None), 'ndmin': optint(None), 'dtype': {'h': False, 'v': ''}, 'num': True,
           'tdata': {'h': False, 'shape': [], 'flat': []}}
    kw = {}
    cid, form, shape, flat, args = 0, '', [], [], []
    k = r.random()
    if k < .15 and h.curves():
        form = 'curve'
        cid = h.pick()
        src = h.obj(cid)
        data, size = src, src.size
        args = [src]
        dt = src.dtype.name
        shape = [1]
        if r.coin(.3):                                     # ignored
            tn = r.choice([size, 1])
            kw['tdata'] = np.arange(tn) * 2.
            opt['tdata'] = {'h': True, 'shape': [tn], 'flat': enc.vec(kw['tdata'])}
        if r.coin(.3):
            kw['axis'] = r.choice([0, 1, 1, -1])
            opt['axis'] = optint(kw['axis'])
    elif k < .5:
        form = 'seq'
        rows = h.rows(n, nd, dt)
        cols = rows.T
        v = r.choice(['lists', 'tuples', 'arrays', 'points', 'rowlists'])
        if v == 'rowlists' or (v == 'points' and n == 0):
            data = [tuple(x) for x in rows.tolist()]
            kw['axis'] = 0
            opt['axis'] = optint(0)
            shape, flat = [n, nd], enc.vec(rows.ravel())
            if n == 0:
                shape = [0]
        elif v == 'points':
            data = [Point(x, dtype=dt) for x in cols]
            shape, flat = [nd, n], enc.vec(cols.ravel())
        else:
            data = [list(x) if v == 'lists' else tuple(x) if v == 'tuples' else np.array(x) for x in
                    (cols if v == 'arrays' else cols.tolist())]
            if v == 'tuples':
                data = tuple(data)
            shape, flat = [nd, n], enc.vec(cols.ravel())
        if n == 0 and r.coin(.3):
            data, shape = [], [0]
        size = n
    else:
        form = 'array'
        v = r.random()
        if v < .6:
            a = h.rows(n, nd, dt)
        elif v < .85:
            b = [r.randint(1, 3), r.randint(1, 4), r.randint(1, 3)]
            a = h.rows(b[0] * b[1], b[2], dt).reshape(b)
            ax = r.choice([0, 1, 2, -1, -2, -3, 1, None, 3, -4])
            if ax is not None:
                kw['axis'] = ax
                opt['axis'] = optint(ax)
        elif v < .95:
            a = h.rows(n, nd, dt)
            ax = r.choice([1, -1, 0, -2, 2, -3])
            kw['axis'] = ax
            opt['axis'] = optint(ax)
        else:
            a = h.rows(max(n, 1), 1, dt)
            if r.coin():
                a = a.ravel()
        shape = [int(x) for x in a.shape]
        flat = enc.vec(a.ravel())
        lay = r.randrange(7)
        if lay == 1:
            data = np.asfortranarray(a)
        elif lay == 2 and a.ndim >= 1:
            big = np.empty((a.shape[0] * 2,) + a.shape[1:], dtype=a.dtype)
            big[::2] = a
            big[1::2] = 7
            data = big[::2]
        elif lay == 3:
            data = np.array(a[::-1])[::-1]
        elif lay == 4:
            data = a.astype(a.dtype.newbyteorder('>'))
        elif lay == 5:
            data = a.copy()
            data.flags.writeable = False
        elif lay == 6:
            data = np.ascontiguousarray(a.T).T
        else:
            data = a.copy()
        ax = kw.get('axis', 0)
        size = a.shape[ax] if -a.ndim <= ax < a.ndim and a.size else (0 if a.size == 0 else 1)
    if form != 'curve':
        args = [data]
        if r.coin(.4):
            tn = size + (r.choice([1, -1]) if r.coin(.1) else 0)
            tn = max(tn, 0)
            t = np.cumsum([r.choice([.5, 1., 2.]) for _ in range(tn)])
            if r.coin(.2):
                t = t[::-1]
            sh = [int(tn)]
            if tn and r.coin(.08):
                t = t.reshape(1, tn)
                sh = [1, int(tn)]
            opt['tdata'] = {'h': True, 'shape': sh, 'flat': enc.vec(np.ravel(t))}
            tv = r.choice(['arr', 'list', 'int'])
            if tv == 'list':
                t = t.tolist()
            elif tv == 'int' and len(sh) == 1:
                t = np.array(t, dtype='int64')
                opt['tdata']['flat'] = enc.vec(t)
            kw['tdata'] = t
            args = args + [t]
    if r.coin(.25):
        nm = r.choice([2, 3, 4, 5, 1, 0] if r.coin(.3) else [2, 3, 4])
        kw['ndmin'] = nm
        opt['ndmin'] = optint(nm)
    if r.coin(.3):
        d = h.dtype()
        srcdata = data.data if form == 'curve' else (a if form == 'array' else np.array(rows))
        if compatible(None, d, srcdata):
            spell = {'int64': [int, 'int64', np.int64], 'float64': [float, 'float64', np.float64, 'f8'],
                     'float32': [np.float32, 'f4']}.get(d, [d, np.dtype(d)])
            kw['dtype'] = r.choice(spell)
            opt['dtype'] = {'h': True, 'v': d}
    fn, seen = construct(data, kw)
    h.emit('construct', cid, fn, args=args, form=form, shape=shape, flat=flat, dt=dt, opt=opt)
    h.events[-1]['warned'] = len(seen) > 0
    if form != 'curve':
        h.inputs.append(args)


def op_badconstruct(h):
    r = h.rng
    k = r.randrange(9)
    xs = h.rows(3, 2, 'float64')
    e = ['ValueError']
    if k == 0:
        fn = lambda: Curve(xs, dtype=r.choice([bool, 'U3', 'datetime64[s]', object, np.bool_]))
    elif k == 1:
        fn = lambda: Curve([1., 2., 3.])
    elif k == 2:
        fn = lambda: Curve(xs, ndmin=r.choice([1, 0, -1]))
    elif k == 3:
        fn = lambda: Curve(xs, tdata=[0., 1.])
    elif k == 4:
        fn = lambda: Curve(xs, tdata=[[0.], [1.], [2.]])
    elif k == 5:
        fn = lambda: Curve(xs, axis=r.choice([2, 5, -3, -7]))
    elif k == 6:
        fn = lambda: Point(xs)
    elif k == 7:
        fn = lambda: Point([1, 2], dtype=r.choice([bool, 'U3', object]))
    else:
        fn = lambda: Curve(np.array([True, False, True]).repeat(2).reshape(3, 2))
    h.emit('badconstruct', 0, fn, 'val', lambda x: 0, e=e)


def op_copy(h):
    i = h.pick()
    c = h.obj(i)
    how = h.rng.choice([copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x)), Curve])
    h.emit('copy', i, lambda: how(c), args=[c])


def op_getint(h):
    i = h.pick()
    c = h.obj(i)
    r = h.rng
    k = r.randint(-c.size - 2, c.size + 1) if r.coin(.4) or not c.size else r.randrange(-c.size, c.size)
    kk = r.choice([k, np.int64(k), np.int32(k)])

    def en(p):
        return {'p': enc.point(p), 'i': enc.integer(p.idx), 't': num(p.t)}
    h.emit('getint', i, lambda: c[kk], 'val', en, i=k)


def op_getcurve(h):
    i = h.pick()
    c = h.obj(i)
    x, py = h.rng.choice([h.slice, h.slice, h.intlist, h.mask])(c.size)
    h.emit('getcurve', i, lambda: c[py], args=[py], x=x)


def op_badindex(h):
    i = h.pick()
    c = h.obj(i)
    r = h.rng
    n = c.size
    idx, e = r.choice([
        (np.ones(n + 1, dtype=bool), 'IndexError'), (np.array([0., 0.5]), 'IndexError'), ('ab', 'IndexError'),
        (np.array([[0, 0]]), 'IndexError'), (None, 'TypeError'), (0.0, 'TypeError'), ({'a': 1}, 'TypeError'),
        (slice(None, None, 0), 'ValueError'), ([True] * (n + 2), 'IndexError'), (n, 'IndexError'),
        (-n - 1, 'IndexError'), ([0., .5], 'IndexError'), (np.array(['a', 'b']), 'IndexError'), (1j, 'TypeError')])
    h.emit('badindex', i, lambda: c[idx], 'val', lambda x: 0, e=[e])


def op_iter(h):
    i = h.pick()
    c = h.obj(i)

    def fn():
        return {'pts': [enc.point(p) for p in c], 'rev': [enc.point(p) for p in reversed(c)], 'len': len(c),
                'bool': bool(c), 'is2d': enc.boolean(c.is2d), 'is3d': enc.boolean(c.is3d),
                'sp': enc.boolean(c.isspatial)}
    h.emit('iter', i, fn, 'val', lambda v: v)


def op_subcurve(h):
    i = h.pick()
    c = h.obj(i)
    r = h.rng
    if not c.size:
        return
    a, b = r.randrange(-c.size, c.size), r.randrange(-c.size, c.size)
    ep = r.coin(.6)
    fn = (lambda: c[a].subcurve(c[b])) if ep and r.coin() else (lambda: c[a].subcurve(c[b], endpoint=ep))
    h.emit('subcurve', i, fn, i=a, j=b, ep=ep)


def op_badsubcurve(h):
    i = h.pick()
    c = h.obj(i)
    if not c.size:
        return
    k = h.rng.randrange(5)
    if k == 0:
        d = Curve(c)
        fn, e = (lambda: c[0].subcurve(d[0])), 'ValueError'
    elif k == 1:
        fn, e = (lambda: c[0].subcurve(Point(c.data[0]))), 'TypeError'
    elif k == 3:                                              # an equal point of an equal curve
        d = Curve(c)
        fn, e = (lambda: c[-1].subcurve(d[-1], endpoint=False)), 'ValueError'
    elif k == 4:                                              # of a part of the curve
        d = c[:1]
        fn, e = (lambda: c[0].subcurve(d[0])), 'ValueError'
    else:
        fn, e = (lambda: c[0].subcurve(0)), 'TypeError'
    h.emit('badsubcurve', i, fn, 'val', lambda x: 0, e=[e])


def op_concat(h):
    r = h.rng
    i = h.pick()
    c = h.obj(i)
    same = [j for j in h.curves() if h.obj(j).ndim == c.ndim]
    j = r.choice(same) if r.coin(.85) else h.pick()
    d = h.obj(j)
    if c.size + d.size > 120:
        return
    h.emit('concat', i, lambda: c + d, args=[c, d], id2=j)


def op_reverse(h):
    i = h.pick()
    c = h.obj(i)
    h.emit('reverse', i, c.reverse, args=[c])


def op_insert(h, back=False):
    r = h.rng
    i = h.pick()
    c = h.obj(i)
    if c.size > 80:
        return
    n = c.size
    o, rec = h.operand(c.ndim, c.dtype.name)
    if rec['nd'] == c.ndim and not compatible(rec['dt'], c.dtype.name, o.data):
        return
    k = r.random()
    m = len(rec['pts'])
    if k < .55:
        p = r.randint(-n, n) if r.coin(.85) else r.choice([n + 1, -n - 1, n + 5, -n - 3])
        x = {'f': 'int', 'i': p}
        py = r.choice([p, np.int64(p), p])
    elif k < .85:
        l = [r.randint(-n, n) if n else 0 for _ in range(m if r.coin(.85) else r.randint(0, 3))]
        x = {'f': 'list', 'l': l}
        py = list(l) if r.coin() else np.array(l, dtype=int)
    else:
        x, py = h.slice(n)
    if rec['nd'] != c.ndim and x['f'] != 'int':
        return
    if m == 0 and x['f'] != 'int':
        return
    res = h.emit('insert', i, lambda: c.insert(py, o), args=[c, o, py], x=x, o=rec)
    if res is not None and x['f'] == 'int' and m and (back or r.coin(.2)):
        # the inverse edit
        p = x['i'] + n if x['i'] < 0 else x['i']
        nid = h.events[-1]['nid']
        if nid and isinstance(res, Curve):
            xx = {'f': 'slice', 'a': optint(p), 'b': optint(p + m), 's': optint(None)}
            h.emit('delete', nid, lambda: res.delete(slice(p, p + m)), args=[res], x=xx)


def op_insertdelete(h):
    op_insert(h, back=True)


def op_append(h):
    i = h.pick()
    c = h.obj(i)
    if c.size > 80:
        return
    o, rec = h.operand(c.ndim, c.dtype.name)
    if rec['nd'] == c.ndim and not compatible(rec['dt'], c.dtype.name, o.data):
        return
    h.emit('append', i, lambda: c.append(o), args=[c, o], o=rec)


def op_delete(h):
    r = h.rng
    i = h.pick()
    c = h.obj(i)
    n = c.size
    k = r.random()
    if k < .4:
        p = r.randrange(-n, n) if n and r.coin(.85) else r.choice([n, -n - 1, n + 3])
        x, py = {'f': 'int', 'i': p}, r.choice([p, np.int64(p)])
    elif k < .7:
        x, py = h.intlist(n)
        if isinstance(py, tuple):
            py = list(py)
    elif k < .8 and n:
        x, py = h.mask(n)
        py = np.array(py, dtype=bool)
    else:
        x, py = h.slice(n)
    h.emit('delete', i, lambda: c.delete(py), args=[c, py], x=x)


def op_badedit(h):
    i = h.pick()
    c = h.obj(i)
    k = h.rng.randrange(9)
    wrong = Point([1.] * (c.ndim + 1))
    wc = Curve(np.ones((2, c.ndim + 1)))
    fn, e = [
        (lambda: c.insert(0, wrong), 'ValueError'), (lambda: c.append(wrong), 'ValueError'),
        (lambda: c.insert(0, wc), 'ValueError'), (lambda: c.append(wc), 'ValueError'),
        (lambda: c + wc, 'ValueError'), (lambda: c + 3, 'TypeError'), (lambda: c.delete(c.size), 'IndexError'),
        (lambda: c.insert(0, h.rng.choice([[1.] * c.ndim, 3, None, c.data])), 'Exception'),
        (lambda: c.append(h.rng.choice([[1.] * c.ndim, 3, 'x'])), 'Exception')][k]
    h.emit('badedit', i, fn, 'val', lambda x: 0, e=[e])


def op_insertdim(h, append=False):
    r = h.rng
    i = h.pick()
    c = h.obj(i)
    if c.ndim > 5:
        return
    axis = c.ndim if append else (r.randint(-c.ndim, c.ndim) if r.coin(.9) else r.choice([c.ndim + 1, -c.ndim - 1]))
    vals = {'h': False, 'v': []}
    args = [c]
    if r.coin(.7):
        n = c.size
        k = n if r.coin(.85) else r.choice([n + 1, max(n - 1, 0), 1])
        if n == 0 and k > 1:
            k = 0
        d = h.odtype(c.dtype.name)
        v = h.rows(k, 1, d).ravel()
        if not compatible(d, c.dtype.name, v):
            return
        vals = {'h': True, 'v': enc.vec(v)}
        form = r.choice(['arr', 'list', 'tuple'])
        pv = {'arr': v, 'list': v.tolist(), 'tuple': tuple(v.tolist())}[form]
        if c.size == 0 and k == 1:
            return
        args.append(pv)
        a = (axis, pv)
        b = (pv,)
    else:
        a, b = (axis,), ()
    if append:
        h.emit('appenddim', i, lambda: c.appenddim(*b), args=args, vals=vals)
    else:
        h.emit('insertdim', i, lambda: c.insertdim(*a), args=args, axis=axis, vals=vals)


def op_appenddim(h):
    op_insertdim(h, True)


def op_deletedim(h):
    r = h.rng
    i = h.pick()
    c = h.obj(i)
    if r.coin(.6):
        cs = [j for j in h.curves() if h.obj(j).ndim > 2]
        if cs:
            i = r.choice(cs)
            c = h.obj(i)
    n = c.ndim
    k = r.random()
    if k < .6:
        p = r.randrange(-n, n) if r.coin(.85) else r.choice([n, -n - 1])
        x, py = {'f': 'int', 'i': p}, p
    elif k < .8:
        x, py = h.intlist(n, maxlen=2)
        if isinstance(py, tuple):
            py = list(py)
    else:
        x, py = h.slice(n)
    h.emit('deletedim', i, lambda: c.deletedim(py), args=[c], x=x)


def op_values(h):
    i = h.pick()
    c = h.obj(i)
    a = h.rng.randint(-c.ndim - 1, c.ndim)
    h.emit('values', i, lambda: c.values(a), 'val', enc.vec, axis=a)


def op_allvalues(h):
    i = h.pick()
    c = h.obj(i)
    h.emit('allvalues', i, lambda: list(c.values()), 'val', lambda v: [enc.vec(x) for x in v])


def op_badaxis(h):
    i = h.pick()
    c = h.obj(i)
    k = h.rng.randrange(4)
    fn, e = [(lambda: c.values('x'), 'ValueError'), (lambda: c.values(c.ndim), 'ValueError'),
             (lambda: c.insertdim(c.ndim + 1), 'IndexError'),
             (lambda: c.appenddim([1.] * (c.size + 2)), 'ValueError')][k]
    h.emit('badaxis', i, fn, 'val', lambda x: 0, e=[e])


def variant(h, c):
    """a curve equal or nearly equal to c"""
    r = h.rng
    d = np.array(c.data)
    k = r.random()
    if k < .2:
        return Curve(d)
    if not np.issubdtype(d.dtype, np.floating):
        if k < .4 and d.size:
            d[r.randrange(d.shape[0]), r.randrange(d.shape[1])] += 1
            return Curve(d)
        if k < .5:
            return Curve(d.astype('float64'))
        k = r.random()
    d = d.astype('float64')
    if k < .6:
        return Curve(d * (1 + r.choice([1e-6, -2e-6, 1e-8])))
    if d.size:
        j = (r.randrange(d.shape[0]), r.randrange(d.shape[1]))
        d[j] = d[j] * (1 + r.choice([1e-3, 1e-6, 3e-5])) + r.choice([0, 1e-9, 1e-6])
    return Curve(d)


def op_eq(h):
    r = h.rng
    i = h.pick()
    c = h.obj(i)
    if r.coin(.5):
        d = variant(h, c)
        h.emit('getcurve', i, lambda: c[:], x={'f': 'slice', 'a': optint(None), 'b': optint(None), 's': optint(None)}) \
            if False else None
        j = h.addraw(d)
    else:
        j = h.pick()
    d = h.obj(j)
    h.emit('eq', i, lambda: (c == d, c != d), 'val', lambda v: {'eq': enc.boolean(v[0]), 'ne': enc.boolean(v[1])},
           args=[c, d], id2=j)


def addraw(self, d):
    """bring a curve made by the driver into the heap (as a construction from an array)"""
    a = np.array(d.data)
    opt = {'axis': optint(None), 'ndmin': optint(None), 'dtype': {'h': False, 'v': ''}, 'num': True,
           'tdata': {'h': False, 'shape': [], 'flat': []}}
    self.emit('construct', 0, lambda: Curve(a), form='array', shape=[int(x) for x in a.shape],
              flat=enc.vec(a.ravel()), dt=a.dtype.name, opt=opt)
    return self.events[-1]['nid'] or self.pick()


Heap.addraw = addraw


def op_eqpoint(h):
    r = h.rng
    i = h.pick()
    c = h.obj(i)
    p, pr = h.searchpoint(c, c.ndim)
    q, qr = h.searchpoint(c, c.ndim + (1 if r.coin(.15) else 0))
    h.emit('eqpoint', 0, lambda: (p == q, p != q), 'val',
           lambda v: {'eq': enc.boolean(v[0]), 'ne': enc.boolean(v[1])}, p=pr, q=qr)


def op_eqother(h):
    i = h.pick()
    c = h.obj(i)
    o = h.rng.choice([None, 1, 'a', [1, 2], Point([1., 2.])])
    h.emit('hasother', i, lambda: c == o, 'val', enc.boolean)


def op_haspoint(h):
    i = h.pick()
    c = h.obj(i)
    p, rec = h.searchpoint(c, c.ndim + (1 if h.rng.coin(.1) else 0))
    h.emit('haspoint', i, lambda: p in c, 'val', enc.boolean, p=rec)


def op_hascurve(h):
    r = h.rng
    i = h.pick()
    c = h.obj(i)
    k = r.random()
    if k < .7 and c.size:
        a = r.randrange(c.size)
        b = r.randint(a, c.size)
        d = np.array(c.data[a:b])
        if r.coin(.3) and len(d) > 1:
            d = d[::-1]
        if r.coin(.3) and d.size:
            d[-1] = h.rows(1, c.ndim, c.dtype)[0]
        if r.coin(.2):
            d = d.astype('float64') * (1 + r.choice([1e-6, 1e-3]))
        j = h.addraw(Curve(d) if d.size else Curve(np.zeros((0, c.ndim), dtype=c.dtype)))
    else:
        j = h.pick()
    d = h.obj(j)
    h.emit('hascurve', i, lambda: d in c, 'val', enc.boolean, id2=j)


def op_hasother(h):
    i = h.pick()
    c = h.obj(i)
    o = h.rng.choice([None, 1, 1.5, 'a', [1, 2], (0., 0.), np.array([1., 2.])])
    h.emit('hasother', i, lambda: o in c, 'val', enc.boolean)


def op_count(h):
    i = h.pick()
    c = h.obj(i)
    p, rec = h.searchpoint(c, c.ndim + (1 if h.rng.coin(.1) else 0))
    h.emit('count', i, lambda: c.count(p), 'val', enc.integer, p=rec)


def op_index(h):
    r = h.rng
    i = h.pick()
    c = h.obj(i)
    p, rec = h.searchpoint(c, c.ndim + (1 if r.coin(.1) else 0))
    n = c.size

    def b():
        return None if r.coin(.4) else r.randint(-n - 2, n + 2)
    a, e = b(), b()
    if a is None and e is None and r.coin():
        fn = lambda: c.index(p)
    else:
        fn = lambda: c.index(p, a, e)
    h.emit('index', i, fn, 'val', enc.integer, p=rec, a=optint(a), b=optint(e))


def op_unique(h):
    i = h.pick()
    c = h.obj(i)
    h.emit('unique', i, c.unique, args=[c])


def op_drop(h):
    r = h.rng
    i = h.pick()
    c = h.obj(i)
    n = c.size
    k = r.random()
    if k < .4:
        m = [r.coin(.4) for _ in range(n)]
        x = {'f': 'mask', 'm': m}
        ret = np.array(m, dtype=bool)
    elif k < .65:
        p = r.choice([.1, .3, .6])
        m = [[r.coin(p) for _ in range(c.ndim)] for _ in range(n)]
        x = {'f': 'mask2', 'm': m}
        ret = np.array(m, dtype=bool).reshape(n, c.ndim)
    elif k < .8 and n:
        x, ret = h.intlist(n, empty=False)
        ret = np.array(ret)
    elif k < .9 and n:
        v = c.data[r.randrange(n), 0]
        m = [bool(a == v) for a in c.data[:, 0]]
        x = {'f': 'mask', 'm': m}
        ret = None
    else:
        m = [[bool(a) for a in b] for b in ~np.isfinite(c.data)]
        x = {'f': 'mask2', 'm': m}
        ret = ~np.isfinite(c.data)
    seen = []

    def isa(d):
        seen.append(enc.mat(d))
        return (d[:, 0] == v) if ret is None else ret
    out, res = None, None
    # `seen` is known only after the call
    h.emit('drop', i, lambda: c.drop(isa), args=[c], x=x, seen=[])
    h.events[-1]['seen'] = seen[0] if len(seen) == 1 else [['called %d times' % len(seen)]]


def op_baddrop(h):
    i = h.pick()
    c = h.obj(i)
    k = h.rng.randrange(3)
    if k == 0:
        fn, e = (lambda: c.drop(3)), ['TypeError']
    elif k == 1:
        fn, e = (lambda: c.drop(lambda d: np.zeros((c.size, c.ndim), dtype=int))), ['ValueError']
    else:
        fn, e = (lambda: c.drop(lambda d: [c.size + 1])), ['IndexError']
    h.emit('baddrop', i, fn, 'val', lambda x: 0, e=e)


def op_nonsingular(h, twice=False):
    i = h.pick()
    c = h.obj(i)
    res = h.emit('nonsingular', i, c.nonsingular, args=[c])
    nid = h.events[-1]['nid']
    if nid and (twice or h.rng.coin(.2)):
        h.emit('nonsingular', nid, res.nonsingular, args=[res])


def op_nonsingular2(h):
    op_nonsingular(h, True)


def op_t(h):
    i = h.pick()
    c = h.obj(i)
    h.emit('t', i, lambda: c.t, 'val', enc.vec)


def op_smooth(h):
    i = h.pick()
    c = h.obj(i)
    if c.size < 7 or not np.all(np.isfinite(c.data)):
        return
    h.emit('smooth', i, lambda: c.smooth('savgol', window_length=3, polyorder=1) if h.rng.coin() else
           c.smooth('window', window_size=3), keep=True, args=[c])
    # its points are not specified here: it enters the heap with the observed value


def op_paramfree(h):
    """the same operation on a parametric curve and on its non-parametric twin gives the same points"""
    r = h.rng
    cs = [j for j in h.curves() if h.obj(j).isparametric]
    if not cs:
        return
    i = r.choice(cs)
    c = h.obj(i)
    d = Curve(c.data)
    n = c.size
    x, py = h.slice(n)
    k = r.randrange(7)
    f = [lambda q: q[py], lambda q: q.delete(py), lambda q: q.reverse(), lambda q: q.unique(),
         lambda q: q.nonsingular(), lambda q: q.coorientplane(), lambda q: q.insertdim(0)][k]

    def both():
        a = b = None
        try:
            a = enc.mat(f(c).data)
        except Exception as e:
            a = [[type(e).__name__]]
        try:
            b = enc.mat(f(d).data)
        except Exception as e:
            b = [[type(e).__name__]]
        return {'a': a, 'b': b}
    h.emit('paramfree', i, both, 'val', lambda v: v)


def op_coorient(h, twice=False):
    r = h.rng
    i = h.pick()
    c = h.obj(i)
    a1, a2 = 0, 1
    kw = {}
    if r.coin(.5):
        a1, a2 = r.randrange(-c.ndim, c.ndim), r.randrange(-c.ndim, c.ndim)
        kw = dict(axis1=a1, axis2=a2)
        if r.coin(.08):
            a1 = kw['axis1'] = c.ndim
    elif r.coin(.1):
        a1 = c.ndim - 1
        kw = dict(axis1=a1)
    res = h.emit('coorient', i, lambda: c.coorientplane(**kw), args=[c], a1=a1, a2=a2)
    nid = h.events[-1]['nid']
    if nid and (twice or r.coin(.2)):
        h.emit('coorient', nid, lambda: res.coorientplane(**kw), args=[res], a1=a1, a2=a2)


def op_coorient2(h):
    op_coorient(h, True)


# ---------------------------------------------------------------------- C01

DERIVED = ['t', 'chordlen', 'arclen', 'cumarclen', 'firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'normal',
           'binormal', 'speed', 'frenet1', 'frenet2', 'frenet3', 'curvature', 'torsion']


def dig(v):
    if isinstance(v, np.ndarray) and v.dtype == object:
        v = np.array([np.array(s.data) for s in v])
    a = np.ascontiguousarray(v)
    return hashlib.md5(a.tobytes() + str((a.shape, a.dtype.str)).encode()).hexdigest()[:12]


def digest(c, names):
    out = []
    for nm in names:
        try:
            v = getattr(c, nm)
            out.append(nm + ':' + dig(v))
        except Exception as e:
            out.append(nm + ':' + type(e).__name__)
    out.append('data:' + dig(c.data))
    out.append('seg:' + ','.join(dig(s.data) for s in c.segments))
    out.append('vals:' + ','.join(dig(v) for v in c.values()))
    out.append('iter:' + ','.join(dig(p.data) for p in c))
    return out


def attack(h, c, names):
    """write through everything the object hands out"""
    r = h.rng
    arrays = [lambda: c.data, lambda: c.t, lambda: c.values(0), lambda: c.values(-1), lambda: c[0].data,
              lambda: c.data[0], lambda: c.data.T, lambda: c.segments[0].p1.data, lambda: list(c.values())[1],
              lambda: c.segments, lambda: c.segments[0].data, lambda: c[:].data, lambda: c[0][:]
              .data, lambda: c.data.reshape(-1), lambda: c.data.ravel(), lambda: c[0].firstderiv,
              lambda: c.segments[0].direction.data]
    arrays += [lambda nm=nm: getattr(c, nm) for nm in names]
    r.shuffle(arrays)
    for f in arrays:
        try:
            a = f()
        except Exception:
            continue
        for w in (lambda: a.__setitem__(Ellipsis, 77), lambda: a.fill(5), lambda: a.sort(), lambda: a.resize((1,)),
                  lambda: a.__iadd__(1), lambda: np.copyto(a, 3)):
            try:
                w()
            except Exception:
                pass
    for w in (lambda: setattr(c, 'data', 1), lambda: setattr(c, 'size', 1), lambda: c.__setitem__(0, 1),
              lambda: c.__delitem__(0), lambda: setattr(c[0], 'data', 1), lambda: c[0].__setitem__(0, 3)):
        try:
            w()
        except Exception:
            pass


def op_repeat(h):
    """derived values, attack, derived values again - on the object and on a fresh copy"""
    r = h.rng
    i = h.pick()
    c = h.obj(i)
    names = r.sample(DERIVED, r.randint(1, 6))

    def fn():
        before = digest(c, names)
        attack(h, c, names)
        after = digest(c, r.sample(names, len(names)) and names)
        fresh = digest(Curve(c), names)
        return before, after, fresh
    with np.errstate(all='ignore'):
        out, res = outcome(fn, 'val', lambda v: 0)
    if res is None:
        before, after = ['fails'], ['raised'] + out['e'][:1]
    else:
        before, after = res[0] + res[0], res[1] + res[2]
    h.events.append({'op': 'repeat', 'id': i, 'out': {'k': 'val', 'v': 0}, 'nid': 0, 'argsok': True,
                     'before': before, 'after': after, 'live': h.reread()})


def scramble(o):
    if isinstance(o, np.ndarray):
        if o.flags.writeable:
            o[...] = 99
    elif isinstance(o, list):
        for x in o:
            scramble(x)
        if not o or not isinstance(o[0], (np.ndarray, list, tuple)):
            o[:] = [99] * len(o)
        elif o:
            o.pop()
    elif isinstance(o, tuple):
        for x in o:
            scramble(x)


def op_mutate(h):
    """change the arrays and lists that were handed to constructors earlier"""
    if not h.inputs:
        return
    for a in h.inputs:
        for x in a:
            scramble(x)
    h.inputs = []
    h.events.append({'op': 'nop', 'id': 0, 'out': {'k': 'val', 'v': 0}, 'nid': 0, 'argsok': True,
                     'live': h.reread()})


def op_mkpoint(h):
    r = h.rng
    k = r.random()
    i = h.pick()
    c = h.obj(i) if i else None
    if c is not None and c.size and k < .4:
        p = c[r.randrange(c.size)]
        h.emit('mkpoint', 0, lambda: p, encf=enc.pcurve, pt={'v': enc.vec(c.data[p.idx]), 'dt': 'float64'})
    elif c is not None and c.size and k < .6:
        src = c[r.randrange(c.size)]
        h.emit('mkpoint', 0, lambda: Point(src), encf=enc.pcurve, args=[src], pt={'v': enc.vec(src.data), 'dt': 'float64'})
    else:
        dt = h.dtype()
        a = h.rows(1, r.randint(2, 4), dt)[0]
        v = enc.vec(a)
        if r.coin(.3):
            a = a.tolist()
        h.emit('mkpoint', 0, lambda: Point(a, dtype=dt), encf=enc.pcurve, args=[a], pt={'v': v, 'dt': dt})
        h.inputs.append([a])
    # point operations leave the operands as they were
    ps = [j for j in h.live if h.objs[j - 1][0] == 'point']
    if len(ps) >= 2:
        p, q = h.obj(r.choice(ps)), h.obj(r.choice(ps))

        def ops():
            for f in (lambda: p + q, lambda: p - 1, lambda: p * q, lambda: 2 * p, lambda: p / 3, lambda: p // 2,
                      lambda: p @ q, p.norm, lambda: p.distance(q), lambda: copy.copy(p), lambda: p[0], lambda: p[:],
                      lambda: p[::-1], lambda: p.data.__setitem__(0, 9), lambda: p[1:].data.fill(3)):
                try:
                    f()
                except Exception:
                    pass
            return 0
        h.emit('read', 0, ops, 'val', lambda v: 0, args=[p, q])


def op_derivepoint(h):
    """a point made from a point that exists: copies, pickles, arithmetic, selections"""
    r = h.rng
    ps = [j for j in h.live if h.objs[j - 1][0] == 'point']
    ss = [j for j in h.live if h.objs[j - 1][0] == 'segment']
    if ss and r.coin(.3):
        s = h.obj(r.choice(ss))
        src = r.choice([s.p1, s.p2])
    elif ps:
        src = h.obj(r.choice(ps))
    else:
        i = h.pick()
        c = h.obj(i) if i else None
        if c is None or not c.size:
            return op_mkpoint(h)
        src = c[r.randrange(c.size)]
    v = enc.vec(src.data)
    dt = src.dtype.name
    how = r.choice(['copy', 'deepcopy', 'pickle', 'point', 'all', 'reversed', 'plus', 'dtype'])
    fn = {'copy': lambda: copy.copy(src), 'deepcopy': lambda: copy.deepcopy(src),
          'pickle': lambda: pickle.loads(pickle.dumps(src)), 'point': lambda: Point(src, dtype=src.dtype),
          'all': lambda: src[:], 'reversed': lambda: src[::-1], 'plus': lambda: src * 1,
          'dtype': lambda: Point(src.data, dtype=dt)}[how]
    if how == 'reversed':
        v = v[::-1]
    if how in ('pickle', 'copy', 'deepcopy', 'plus'):
        # only the coordinates are of interest here, the type of the copy is the business of C15
        try:
            dt = fn().dtype.name
        except Exception:
            pass
    h.emit('mkpoint', 0, fn, encf=enc.pcurve, args=[src], pt={'v': v, 'dt': dt})


def op_mkseg(h):
    r = h.rng
    ps = [j for j in h.live if h.objs[j - 1][0] == 'point']
    ss = [j for j in h.live if h.objs[j - 1][0] == 'segment']
    i = h.pick()
    c = h.obj(i) if i else None
    k = r.random()
    args = []
    if k < .35 and ss:
        s = h.obj(r.choice(ss))
        pts = [enc.vec(s.p1.data), enc.vec(s.p2.data)]
        how = r.choice(['copy', 'deepcopy', 'pickle', 'reverse'])
        fn = {'copy': lambda: copy.copy(s), 'deepcopy': lambda: copy.deepcopy(s),
              'pickle': lambda: pickle.loads(pickle.dumps(s)), 'reverse': s.reverse}[how]
        if how == 'reverse':
            pts = pts[::-1]
    elif k < .6 and len(ps) >= 2:
        p, q = h.obj(r.choice(ps)), h.obj(r.choice(ps))
        if p.ndim != q.ndim:
            return
        pts = [enc.vec(p.data), enc.vec(q.data)]
        args = [p, q]
        fn = lambda: Segment(p, q)
    elif c is not None and c.size > 1:
        j = r.randrange(c.size - 1)
        pts = [enc.vec(c.data[j]), enc.vec(c.data[j + 1])]
        if not all(enc.vec(np.float64(c.data[m])) == enc.vec(c.data[m]) for m in (j, j + 1)):
            return
        args = [c]
        fn = lambda: c.segments[j]
    else:
        return
    h.emit('mkseg', 0, fn, encf=enc.pseg, args=args, pts=pts, nd=len(pts[0]))
    # reading operations and attempts to write through what a segment hands out
    if not ss:
        return
    s = h.obj(r.choice(ss))
    o = h.obj(r.choice(ss))

    def ops():
        for f in (lambda: s.data.fill(7), lambda: s.p1.data.fill(7), lambda: s.p2.data.__setitem__(0, 9), lambda: s.to_curve(),
                  lambda: s.point(.25).data.fill(2), lambda: s.direction.data.fill(3), lambda: s.reverse().p1.data.fill(1),
                  lambda: s.to_curve().data.fill(4), lambda: setattr(s, 'p1', o.p1), lambda: setattr(s, 'p2', o.p2),
                  lambda: s.angle(o), lambda: s.overlap(o), lambda: s.shortest_segment(o), lambda: s.distance(o),
                  lambda: s.intersect(o), lambda: s.t(o.p1), lambda: s.collinear(o), lambda: s == o, lambda: repr(s)):
            try:
                f()
            except Exception:
                pass
        return 0
    with np.errstate(all='ignore'):
        h.emit('read', 0, ops, 'val', lambda v: 0, args=[s, o])


def op_read(h):
    """any other reading operation: nothing that exists may change"""
    r = h.rng
    i = h.pick()
    c = h.obj(i)
    d = h.obj(h.pick())
    grid = np.linspace(0., 1., 4)
    seq = [
        lambda: c.intersect(), lambda: c.intersect(d), lambda: c.intersect(method='almost'),
        lambda: c.isplane, lambda: c.interpolate(5, method='linear'), lambda: c.interpolate(grid, method='cubic'),
        lambda: c.smooth('savgol', window_length=5, polyorder=2), lambda: c.smooth('window', window_size=3),
        lambda: c.segments[0].overlap(c.segments[-1]), lambda: c.segments[0].shortest_segment(c.segments[-1]),
        lambda: c.segments[0].collinear(c.segments[-1]), lambda: c.segments[0].to_curve(),
        lambda: c.segments[0].reverse(), lambda: c.segments[0].t(c[0]), lambda: repr(c), lambda: c.curvature,
        lambda: c.torsion, lambda: c.interpolate(6, method='hermite'), lambda: c.interpolate(6, method='csaps'),
        lambda: c.interpolate(6, method='spline'), lambda: hash(c[0]) if False else 0, lambda: c == d, lambda: d in c]

    def fn():
        for f in r.sample(seq, 5):
            try:
                f()
            except Exception:
                pass
        return 0
    with np.errstate(all='ignore'):
        h.emit('read', i, fn, 'val', lambda v: 0, args=[c, d, grid])


OPFN = {name: globals()['op_' + name] for name in OPS}


def trace(rng, prop, steps=None):
    h = Heap(rng, prop)
    n = steps or rng.randint(8, 18)
    for _ in range(rng.randint(1, 2)):
        op_construct(h)
    mine = [o for o, p in OPS.items() if p == prop]
    base = list(BASE.items())
    while len(h.events) < n:
        if not h.curves():
            op_construct(h)
            if len(h.events) > 2 * n:
                break
            continue
        name = rng.choice(mine) if mine and rng.coin(.6) else rng.weighted([(w, o) for o, w in base])
        k = len(h.events)
        OPFN[name](h)
        if len(h.events) == k and rng.coin(.1):
            op_construct(h)
    return h.events


# ---------------------------------------------------------------------- behaviours of CurveHeapMC

def fl(s):
    return float(Fraction(s)) if s not in ('nan', 'inf', '-inf') else float(s)


def arr(rows, nd, dt):
    return np.array([[fl(v) for v in p] for p in rows], dtype='float64').reshape(len(rows), nd).astype(dt)


def pyindex(x, r):
    f = x['f']
    if f == 'int':
        return r.choice([x['i'], np.int64(x['i'])])
    if f == 'slice':
        g = [x[k]['v'] if x[k]['h'] else None for k in 'abs']
        return slice(*g)
    if f == 'mask':
        return np.array(x['m'], dtype=bool) if r.coin() or not x['m'] else list(x['m'])
    return np.array(x['l'], dtype=int) if r.coin() or not x['l'] else list(x['l'])


def pyoperand(ev):
    o = ev['o']
    if ev['how'] == 'point':
        p = Point(arr(o['pts'], o['nd'], o['dt'])[0], dtype=o['dt'])
        return p
    return Curve(arr(o['pts'], o['nd'], o['dt']))


NOOPT = {'axis': optint(None), 'ndmin': optint(None), 'dtype': {'h': False, 'v': ''}, 'num': True,
         'tdata': {'h': False, 'shape': [], 'flat': []}}


def play_start(h, b):
    c = b['c']
    a = arr(c['pts'], c['nd'], c['dt'])
    opt = dict(NOOPT)
    kw = {}
    if c['par']:
        kw['tdata'] = np.array([fl(v) for v in c['t']])
        opt['tdata'] = {'h': True, 'shape': [len(c['t'])], 'flat': enc.vec(kw['tdata'])}
    fn, seen = construct(a, kw)
    h.emit('construct', 0, fn, args=[a], form='array', shape=[int(x) for x in a.shape],
           flat=enc.vec(a.ravel()), dt=c['dt'], opt=opt)
    h.events[-1]['warned'] = len(seen) > 0


def play_construct(h, b):
    r = h.rng
    o = b['opt']
    kw = {}
    for k in ('axis', 'ndmin'):
        if o[k]['h']:
            kw[k] = o[k]['v']
    if o['dtype']['h']:
        kw['dtype'] = r.choice([o['dtype']['v'], np.dtype(o['dtype']['v'])])
    if o['tdata']['h']:
        kw['tdata'] = np.array([fl(v) for v in o['tdata']['flat']]).reshape(o['tdata']['shape'])
    cid = b['id']
    if b['form'] == 'curve':
        data = h.obj(cid)
    else:
        a = np.array([fl(v) for v in b['flat']], dtype=b['dt']).reshape(b['shape'])
        data = r.choice([a, np.asfortranarray(a), np.array(a[::-1])[::-1]])
        if b['form'] == 'seq':
            data = r.choice([a.tolist(), tuple(map(tuple, a.tolist())), list(a)])
    fn, seen = construct(data, kw)
    h.emit('construct', cid, fn, args=[data], form=b['form'], shape=b['shape'], flat=b['flat'], dt=b['dt'], opt=o)
    h.events[-1]['warned'] = len(seen) > 0


def play(beh, prop):
    from .enc import Rng
    r = Rng(json.dumps(beh))
    h = Heap(r, 'C01' if prop == 'C01' else prop)
    for b in beh:
        op = b['op']
        if op == 'start':
            play_start(h, b)
            continue
        if op == 'construct':
            play_construct(h, b)
            continue
        i = b['id']
        if i > len(h.objs) or b.get('id2', 1) > len(h.objs):
            break                                     # an earlier step gave no curve, which is reported there
        c = h.obj(i)
        if op == 'copy':
            how = r.choice([copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x)), Curve])
            h.emit('copy', i, lambda: how(c), args=[c])
        elif op == 'getcurve':
            py = pyindex(b['x'], r)
            h.emit('getcurve', i, lambda: c[py], args=[py], x=b['x'])
        elif op == 'getint':
            h.emit('getint', i, lambda: c[b['i']], 'val',
                   lambda p: {'p': enc.point(p), 'i': enc.integer(p.idx), 't': num(p.t)}, i=b['i'])
        elif op == 'subcurve':
            h.emit('subcurve', i, lambda: c[b['i']].subcurve(c[b['j']], endpoint=b['ep']), i=b['i'], j=b['j'], ep=b['ep'])
        elif op == 'concat':
            d = h.obj(b['id2'])
            h.emit('concat', i, lambda: c + d, args=[c, d], id2=b['id2'])
        elif op in ('reverse', 'unique', 'nonsingular'):
            h.emit(op, i, getattr(c, op), args=[c])
        elif op in ('insert', 'append'):
            o = pyoperand(b)
            if op == 'append':
                h.emit('append', i, lambda: c.append(o), args=[c, o], o=b['o'])
            else:
                py = pyindex(b['x'], r)
                h.emit('insert', i, lambda: c.insert(py, o), args=[c, o, py], x=b['x'], o=b['o'])
        elif op in ('delete', 'deletedim'):
            py = pyindex(b['x'], r)
            h.emit(op, i, lambda: getattr(c, op)(py), args=[c, py], x=b['x'])
        elif op in ('insertdim', 'appenddim'):
            v = b['vals']
            a = [np.array([fl(x) for x in v['v']])] if v['h'] else []
            if op == 'appenddim':
                h.emit(op, i, lambda: c.appenddim(*a), args=[c] + a, vals=v)
            else:
                h.emit(op, i, lambda: c.insertdim(b['axis'], *a), args=[c] + a, axis=b['axis'], vals=v)
        elif op == 'values':
            h.emit('values', i, lambda: c.values(b['axis']), 'val', enc.vec, axis=b['axis'])
        elif op == 'eq':
            d = h.obj(b['id2'])
            h.emit('eq', i, lambda: (c == d, c != d), 'val',
                   lambda v: {'eq': enc.boolean(v[0]), 'ne': enc.boolean(v[1])}, args=[c, d], id2=b['id2'])
        elif op == 'hascurve':
            d = h.obj(b['id2'])
            h.emit('hascurve', i, lambda: d in c, 'val', enc.boolean, id2=b['id2'])
        elif op in ('haspoint', 'count', 'index'):
            p = Point([fl(x) for x in b['p']['v']])
            if op == 'haspoint':
                h.emit(op, i, lambda: p in c, 'val', enc.boolean, p=b['p'])
            elif op == 'count':
                h.emit(op, i, lambda: c.count(p), 'val', enc.integer, p=b['p'])
            else:
                ab = [b[k]['v'] if b[k]['h'] else None for k in 'ab']
                h.emit(op, i, lambda: c.index(p, *ab), 'val', enc.integer, p=b['p'], a=b['a'], b=b['b'])
        elif op == 'drop':
            seen = []
            x = b['x']
            ret = np.array(x['m'], dtype=bool) if x['f'] == 'mask' else np.array(x['l'], dtype=int)

            def isa(d):
                seen.append(enc.mat(d))
                return ret
            h.emit('drop', i, lambda: c.drop(isa), args=[c], x=x, seen=[])
            h.events[-1]['seen'] = seen[0] if len(seen) == 1 else [['called %d times' % len(seen)]]
        elif op == 't':
            h.emit('t', i, lambda: c.t, 'val', enc.vec)
        elif op == 'coorient':
            h.emit('coorient', i, lambda: c.coorientplane(axis1=b['a1'], axis2=b['a2']), args=[c], a1=b['a1'], a2=b['a2'])
        elif op in ('repeat', 'read'):
            h.pick = lambda i=i: i
            OPFN[op](h)
            del h.pick
        else:
            raise RuntimeError('no operation ' + op)
    return h.events
