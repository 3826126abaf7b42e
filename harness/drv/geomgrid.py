"""Every pair of segments of two small grids, recorded for TraceGeom.tla / TraceInter.tla: trace k has the pairs of
segment k with the segments after it (the events read each pair in every order)."""
import itertools

import numpy as np

from skcurve import Point, Segment

from . import geom

G2 = [np.array(p, dtype=float) for p in itertools.product([0, 1, 2], repeat=2)]
G3 = [np.array(p, dtype=float) for p in itertools.product([0, 1], repeat=3)]
S2 = list(itertools.product(G2, G2))
S3 = list(itertools.product(G3, G3))
COUNT = len(S2) + len(S3)             # 145

SHIFTS = [0., 0., 100., -7., .5]


def mk(s, shift):
    return Segment(Point(s[0] + shift), Point(s[1] + shift))


def pairs(k):
    segs, i = (S2, k) if k < len(S2) else (S3, k - len(S2))
    shift = SHIFTS[k % len(SHIFTS)]
    s = mk(segs[i], shift)
    for o in segs[i:]:
        yield s, mk(o, shift)


def trace_k(r, prop, k):
    out = []
    for s, o in pairs(k):
        if prop == 'C17':
            out.append(geom.pair_event(s, o))
        elif prop == 'C18':
            out.append(geom.overlap_event(s, o, True))
            out.append(geom.overlap_event(s, o, False))
        elif prop == 'C19':
            out.append(geom.short_event(s, o))
            if (o.p1.data == o.p2.data).all():
                out.append(geom.short_event(s, o.p1))
        elif prop == 'C20':
            from . import inter
            out.append(inter.segs_event(s, o, 'exact'))
    return out
