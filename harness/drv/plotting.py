"""Histories of plots, recorded for TracePlot.tla."""
import os

os.environ.setdefault('MPLCONFIGDIR', os.path.join(os.getcwd(), 'mpl-%d' % os.getpid()))

import matplotlib                                     # noqa: E402
matplotlib.use('Agg')
import matplotlib.pyplot as plt                       # noqa: E402
import numpy as np                                    # noqa: E402
from mpl_toolkits.mplot3d import Axes3D               # noqa: E402
from mpl_toolkits.mplot3d.art3d import Line3DCollection, Path3DCollection   # noqa: E402
from matplotlib.collections import LineCollection, PathCollection           # noqa: E402
from matplotlib.quiver import Quiver                  # noqa: E402

from skcurve import Curve                             # noqa: E402
from skcurve.plot import CurvePlot, curveplot         # noqa: E402

from . import enc                                     # noqa: E402
from .enc import num                                  # noqa: E402


def crec(c):
    return {'nd': int(c.ndim), 'pts': enc.mat(c.data), 'par': bool(c.isparametric),
            't': enc.vec(c.t) if c.isparametric else [], 'dt': c.dtype.name}


def plain(a):
    a = np.ma.getdata(a)
    return np.asarray(a, dtype=float)


def style(x, coll=False):
    if coll:
        return {'lw': num(float(np.ravel(x.get_linewidth())[0]))}
    return {'color': str(x.get_color()), 'lw': num(float(x.get_linewidth())), 'marker': str(x.get_marker()),
            'ls': str(x.get_linestyle()), 'label': str(x.get_label())}


LUT = {}


def places(rgba):
    name = 'plasma'
    out = []
    for c in rgba:
        hit = set()
        for name in ('plasma', 'viridis'):
            if name not in LUT:
                LUT[name] = matplotlib.cm.get_cmap(name)(np.arange(256))
            hit |= {int(i) for i in np.nonzero(np.all(np.abs(LUT[name] - c) < 1e-9, axis=1))[0]}
        out.append([str(i) for i in sorted(hit)])
    return out


def look(ax):
    """everything drawn on axes"""
    d3 = isinstance(ax, Axes3D)
    lines = []
    for x in ax.lines:
        v = x.get_data_3d() if d3 else x.get_data(orig=True)
        n = len(np.ravel(v[0]))
        v = [np.broadcast_to(plain(k), (n,)) for k in v]
        lines.append({'pts': enc.mat(np.stack(v, axis=1)) if n else [], 'style': style(x)})
    colls = []
    for x in ax.collections:
        if isinstance(x, (LineCollection, Line3DCollection)):
            segs = x._segments3d if d3 else x.get_segments()
            colls.append({'k': 'segs', 'segs': [enc.mat(plain(s)) for s in segs], 'vals': enc.vec(plain(x.get_array())),
                          'lim': [num(float(x.norm.vmin)), num(float(x.norm.vmax))], 'cmap': x.get_cmap().name,
                          'style': style(x, True)})
        elif isinstance(x, (PathCollection, Path3DCollection)):
            v = np.stack([plain(k) for k in x._offsets3d], axis=1) if d3 else plain(x.get_offsets())
            colls.append({'k': 'marks', 'pts': enc.mat(v), 'cols': places(x._facecolors)})
        elif isinstance(x, Quiver):
            colls.append({'k': 'arrows', 'pts': enc.mat(plain(x.get_offsets())),
                          'dirs': enc.mat(np.stack([plain(x.U), plain(x.V)], axis=1))})
        else:
            colls.append({'k': type(x).__name__})
    bars = [a.get_ylabel() for a in ax.figure.axes if a is not ax]
    return {'d3': d3, 'lines': lines, 'colls': colls, 'bars': bars}


class World:
    def __init__(self):
        plt.close('all')
        self.axes, self.plots, self.events = [], [], []

    def axs(self):
        return [look(a) for a in self.axes]

    def make_axes(self, d3):
        fig = plt.figure()
        self.axes.append(fig.add_subplot(1, 1, 1, projection='3d') if d3 else fig.add_subplot(1, 1, 1))
        self.events.append({'op': 'axes', 'axs': self.axs()})

    def plot(self, c, target, param='', marker=False, normals=False, cmap='plasma', args=(), kw=None, want=None, alias=None,
             draw=False):
        kw = dict(kw or {})
        twin = Curve(c.data.copy(), tdata=c.t.copy() if c.isparametric else None)
        o = {'param': param, 'marker': marker, 'cmap': cmap, 'normals': normals, 'style': want or {'none': ''},
             'vals': enc.vec(np.asarray(getattr(twin, param), dtype=float)) if param else [],
             'dirs': enc.mat(twin.frenet2) if normals and c.ndim == 2 else []}
        if param:
            kw['param'] = param
            if cmap != 'plasma':
                kw['param_cmap'] = cmap
            if marker:
                kw['marker'] = 'o'
        if normals:
            kw['show_normals'] = True
        before = crec(c)
        figs = set(plt.get_fignums())
        made = []

        def fn():
            if target['k'] == 'chain':
                p = self.plots[target['i'] - 1].curveplot(c, *args, **kw)
            elif target['k'] == 'given':
                p = (alias or curveplot)(c, *args, axes=self.axes[target['i'] - 1], **kw)
            else:
                p = (alias or curveplot)(c, *args, **kw)
            if not isinstance(p, CurvePlot):
                raise enc.Malformed('plot')
            made.append(p)
            return p

        def where(p):
            for i, a in enumerate(self.axes):
                if p.axes is a:
                    return i + 1
            self.axes.append(p.axes)
            return len(self.axes)
        out, _ = enc.outcome(fn, 'val', where)
        drawn = True
        if made and draw:
            try:
                made[0].axes.figure.canvas.draw()
            except Exception:                         # noqa: B902
                drawn = False
        if made:
            self.plots.append(made[0])
        del figs
        self.events.append({'op': 'plot', 'c': before, 'target': target, 'o': o, 'out': out, 'drawn': drawn,
                            'same': crec(c) == before, 'axs': self.axs()})


CURVES = {'A2': [[0, 0], [1, 2], [3, 1]], 'B2': [[2, 2], [0, 1], [-1, 0], [1, 5]], 'A3': [[0, 0, 1], [1, 2, 0], [3, 1, 4]],
          'A4': [[0, 0, 1, 1], [1, 2, 0, 3], [3, 1, 4, 4]]}


def play(b, prop):
    w = World()
    cs = {k: Curve(np.array(v, dtype=float)) for k, v in CURVES.items()}
    for i, s in enumerate(b):
        o = s['o']
        w.plot(cs[s['c']], s['t'], param='cumarclen' if o in ('param', 'mark') else '', marker=o == 'mark',
               normals=o == 'normals', draw=i == len(b) - 1 and (len({x['c'] for x in b}) > 1 or b[0]['o'] == 'mark'))
    plt.close('all')
    return w.events


def make(r):
    nd = r.weighted([(5, 2), (4, 3), (.6, 4)])
    n = r.weighted([(1, 3), (2, 4), (3, r.randint(5, 9)), (.2, r.randint(40, 70))])
    if r.coin(.5):
        a = np.array([[r.randint(-5, 5) for _ in range(nd)] for _ in range(n)], dtype=float)
    else:
        a = np.array([[r.gauss(0, 2) for _ in range(nd)] for _ in range(n)])
    for i in range(1, n):
        if np.all(a[i] == a[i - 1]):
            a[i, 0] += 1
    dt = r.weighted([(6, 'float64'), (1, 'float32'), (1, 'int64')])
    if dt == 'int64':
        a = np.round(a * 3)
        for i in range(1, n):
            if np.all(a[i] == a[i - 1]):
                a[i, 0] += 1
    t = None
    if r.coin(.4):
        t = np.cumsum([r.choice([.5, 1, 2]) for _ in range(n)])
        t = r.choice([t, t, t[::-1], t - 3, np.array(r.sample([float(v) for v in t], n))])
    return Curve(a.astype(dt), tdata=t)


def trace(r, prop):
    w = World()
    cs = [make(r) for _ in range(3)]
    for _ in range(r.choice([0, 1, 1, 2])):
        w.make_axes(r.coin(.4))
    for k in range(r.randint(2, 5)):
        c = r.choice(cs)
        ts = [{'k': 'new', 'i': 0}] + [{'k': 'given', 'i': i + 1} for i in range(len(w.axes))] + \
            [{'k': 'chain', 'i': i + 1} for i in range(len(w.plots))] * 2
        t = r.choice(ts)
        d3 = c.ndim == 3 if t['k'] == 'new' else \
            isinstance((w.axes[t['i'] - 1] if t['k'] == 'given' else w.plots[t['i'] - 1].axes), Axes3D)
        kw, args, want = {}, (), {}
        param = ''
        if r.coin(.45):
            param = r.choice(['curvature', 'cumarclen', 'speed', 't'] + (['torsion'] if c.ndim == 3 else []))
            v = np.asarray(getattr(c, param), dtype=float)
            if not np.all(np.isfinite(v)):
                param = 't'
        normals = r.coin(.2) and not (c.ndim == 2 and d3)
        if r.coin(.5):
            if param:
                kw['linewidth'] = r.choice([1., 2.5, 4.])
                want['lw'] = num(kw['linewidth'])
            else:
                for key, name, vals in (('color', 'color', ['red', '#00ff00', 'k']), ('linewidth', 'lw', [1., 2.5]),
                                        ('marker', 'marker', ['s', '.']), ('linestyle', 'ls', ['--', ':']),
                                        ('label', 'label', ['one', 'two'])):
                    if r.coin(.5):
                        kw[key] = v = r.choice(vals)
                        want[name] = num(v) if name == 'lw' else v
        elif not param and r.coin(.4):
            args = (r.choice(['ro--', 'gs:']),)
            want = {'color': args[0][0], 'marker': args[0][1], 'ls': args[0][2:]}
        w.plot(c, t, param=param, marker=bool(param) and r.coin(.5), normals=normals,
               cmap=r.choice(['plasma', 'viridis']) if param else 'plasma', args=args, kw=kw, want=want,
               alias=r.choice([curveplot, CurvePlot]), draw=r.coin(.2))
    plt.close('all')
    return w.events
