"""What each check consists of."""

ASSUMPTIONS = [
    'TLC, the Java numbers of RatOverrides and the Python encoding of floats as exact fractions are trusted',
    'the code is observed through its public API only',
]


def heap(n=1000):
    return {'kind': 'trace', 'family': 'heap', 'module': 'TraceHeap', 'count': n, 'invariants': ['HeapWellFormed']}


def heapmc(p, depth, big, tdepth, tbig):
    return {'kind': 'mc', 'module': 'CurveHeapMC', 'invariants': ['Emit', 'LawsHold'], 'props': ['Immutable'],
            'constants': {'Prop': '"%s"' % p, 'Depth': str(depth), 'Big': str(big)},
            'thorough_constants': {'Depth': str(tdepth), 'Big': str(tbig)},
            'family': 'heap', 'validate': {'module': 'TraceHeap', 'invariants': ['HeapWellFormed']}}


CHECKS = {
    p: [heapmc(p, *a), heap()] for p, a in {
        'C01': (3, 2, 4, 2), 'C02': (1, 2, 2, 3), 'C03': (1, 4, 2, 3), 'C04': (2, 2, 3, 2), 'C05': (2, 2, 3, 2),
        'C06': (1, 3, 2, 4), 'C07': (2, 3, 3, 4), 'C08': (3, 2, 4, 2), 'C14': (2, 2, 3, 2)}.items()
}

def fn(family, module, fails, n, **kw):
    return dict({'kind': 'trace', 'family': family, 'module': module, 'count': n,
                 'constants': {'EvFails': '<- ' + fails}}, **kw)


def play(family, machine, invariants, module, fails, constants, thorough):
    """every input of a machine, played on the real code"""
    return {'kind': 'mc', 'module': machine, 'invariants': invariants, 'constants': constants,
            'thorough_constants': thorough, 'family': family,
            'validate': {'module': module, 'constants': {'EvFails': '<- ' + fails}}}


def LAWS(*inv):
    return {'kind': 'mc', 'module': 'GeomLaws', 'constants': {'Side': '2', 'Dim': '3'},
            'thorough_constants': {'Side': '4', 'Dim': '2'}, 'invariants': inv}


def GRID(module, fails):
    return fn('geomgrid', module, fails, 145, fixed=True)


def INTERP(grids, n, s, tn, ts, foo=''):
    return play('interp', 'InterpMC', ('InterpLaws', 'Emit'), 'TraceInterp', 'TrInterpFails',
                {'N': n, 'S': s, 'Times': '{"", "even", "uneven"}', 'Grids_': grids,
                 'Meths': '{"linear", "cubic", "hermite", "pchip", "akima", "spline", "csaps"%s}' % foo}, {'N': tn, 'S': ts})


def INTER(invs, na, nb, ns, tols, etols, **thorough):
    return play('inter', 'InterMC', invs, 'TraceInter', 'InterFails',
                {'Dim': '2', 'Side': '2', 'NA': na, 'NB': nb, 'NS': ns, 'Tols': tols, 'Etols': etols}, thorough)


def SEG(law, dim, side, off, kinds, ts='{"0", "1/2", "1"}', l='1', m='0', **thorough):
    return play('geom', 'SegMC', (law, 'Emit'), 'TraceGeom', 'GeomFails',
                {'Dim': dim, 'Side': side, 'Off': off, 'Ts': ts, 'L': l, 'M': m, 'Kinds': kinds}, thorough)


def DIFF(law, n2, s2, n3, *thorough):
    names = ('N2', 'S2', 'N3', 'S3')
    return {'kind': 'mc', 'module': 'DiffMC', 'invariants': [law, 'Emit'],
            'constants': dict(zip(names, (n2, s2, n3, '1'))), 'thorough_constants': dict(zip(names, thorough)),
            'family': 'diff', 'validate': {'module': 'TraceDiff', 'constants': {'EvFails': '<- DiffFails'}}}


CHECKS.update({
    'C09': [DIFF('LengthLaws', '4', '2', '4', '5', '2', '5', '1'), fn('diff', 'TraceDiff', 'DiffFails', 300)],
    'C10': [DIFF('DerivLaws', '5', '1', '4', '5', '2', '5', '1'), fn('diff', 'TraceDiff', 'DiffFails', 200)],
    'C11': [DIFF('FrameLaws', '5', '1', '3', '6', '1', '4', '1'), fn('diff', 'TraceDiff', 'DiffFails', 200)],
    'C12': [DIFF('CurvLaws', '5', '1', '3', '6', '1', '4', '1'), fn('diff', 'TraceDiff', 'DiffFails', 200)],
    'C16': [SEG('SegLaws', '2', '3', '1', '{"point", "t", "basic", "eq"}', '{"-1", "0", "1/4", "1", "3/2"}', '2', L='3'),
            SEG('SegLaws', '3', '2', '0', '{"point", "t", "basic", "eq"}', Side='3', Off='1'),
            SEG('SegLaws', '1', '4', '2', '{"point", "t", "eq"}', '{"-1", "0", "1/4", "1", "3/2"}', Side='7', Off='3'), fn('geom', 'TraceGeom', 'GeomFails', 300)],
    'C17': [LAWS('PredicateLaws', 'TriLaws'), SEG('PlaneLaws', '3', '2', '0', '{"isplane", "pointpred", "angle"}', m='2', M='3'),
            SEG('PlaneLaws', '2', '3', '1', '{"pointpred", "angle"}', Side='4'),
            fn('geom', 'TraceGeom', 'GeomFails', 300), GRID('TraceGeom', 'GeomFails')],
    'C18': [LAWS('OverlapLaws'), fn('geom', 'TraceGeom', 'GeomFails', 300), GRID('TraceGeom', 'GeomFails')],
    'C19': [LAWS('DistLaws'), SEG('ShortLaws', '2', '4', '1', '{"short"}', Side='5', Off='2'),
            SEG('ShortLaws', '3', '2', '0', '{"short"}', Side='3', Off='1'),
            fn('geom', 'TraceGeom', 'GeomFails', 300), GRID('TraceGeom', 'GeomFails')],
    'C20': [LAWS('InterLaws', 'OverlapLaws'), fn('inter', 'TraceInter', 'InterFails', 300), GRID('TraceInter', 'InterFails')],
    'C21': [INTER(('InterLaws', 'Emit'), '3', '3', '5', '{""}', '{""}', Dim='3', NS='4'), fn('inter', 'TraceInter', 'InterFails', 300)],
    'C22': [INTER(('InterLaws', 'Emit'), '2', '3', '4', '{"", "3/4", "6/5"}', '{"", "3/4"}', NA='3', NS='5'), fn('inter', 'TraceInter', 'InterFails', 300)],
    'C24': [play('interp', 'GridMC', ('GridLaws', 'Emit'), 'TraceInterp', 'TrInterpFails',
                 {'N': '3', 'K': '5', 'Times': '{"", "even", "uneven"}'}, {'N': '4', 'K': '7'}), fn('interp', 'TraceInterp', 'TrInterpFails', 300)],
    'C25': [INTERP('{"nodes", "list", "short", "early", "one", "down", "twice", "matrix", "none", "int", "int1", "text", "speed", "extrap"}',
                   '2', '1', '3', '1', foo=', "foo"'), fn('interp', 'TraceInterp', 'TrInterpFails', 300)],
    'C26': [INTERP('{"probe"}', '3', '1', '4', '1'), fn('interp', 'TraceInterp', 'TrInterpFails', 300)],
    'C29': [play('gen', 'GenMC', ('GenLaws', 'Emit'), 'TraceGen', 'GenFails',
                 {'Names': '{"arc", "lemniscate_of_bernoulli", "archimedean_spiral", "euler_spiral", "lissajous", "helix", '
                           '"irregular_helix"}', 'Cs': '{"-3/2", "2"}', 'Starts': '{"-1/2", "2"}', 'Stops': '{"2"}', 'Ns': '{0, 1, 4}'},
                 {'Cs': '{"-3/2", "0", "2"}', 'Stops': '{"2", "-7"}', 'Ns': '{0, 1, 2, 3, 5}'}), fn('gen', 'TraceGen', 'GenFails', 300)],
    'C23': [{'kind': 'mc', 'module': 'RegistryMC', 'invariants': ['Emit', 'Laws'], 'props': ['Stable'],
             'constants': {'Depth': '3', 'Which': '{"intersect"}', 'Names': '{"exact", "m"}', 'Objs': '{"A", "class"}'},
             'thorough_constants': {'Depth': '3', 'Names': '{"exact", "m", "n"}', 'Objs': '{"A", "B", "class"}'},
             'family': 'methods', 'validate': {'module': 'TraceRegistry', 'invariants': ['TypeOk']}},
            {'kind': 'mc', 'module': 'RegistryMC', 'invariants': ['Emit', 'Laws'], 'props': ['Stable'],
             'constants': {'Depth': '3', 'Which': '{"interp", "smooth"}', 'Names': '{"linear", "m"}', 'Objs': '{"A"}'},
             'family': 'methods', 'validate': {'module': 'TraceRegistry', 'invariants': ['TypeOk']}},
            {'kind': 'trace', 'family': 'methods', 'module': 'TraceRegistry', 'count': 400, 'invariants': ['TypeOk']}],
    'C28': [{'kind': 'mc', 'module': 'PlotMC', 'invariants': ['Emit', 'PlotsOk', 'DimOk', 'OneEach'], 'props': ['Grows'],
             'constants': {'Depth': '2', 'Curves': '{"A2", "A3", "A4"}', 'Opts': '{"plain", "param", "mark", "normals"}'},
             'thorough_constants': {'Depth': '3', 'Curves': '{"A2", "A3", "A4"}', 'Opts': '{"plain", "param"}'},
             'family': 'plotting', 'validate': {'module': 'TracePlot'}},
            {'kind': 'trace', 'family': 'plotting', 'module': 'TracePlot', 'count': 120}],
    'C13': [{'kind': 'mc', 'module': 'CacheMC', 'invariants': ['Emit', 'Closed'], 'props': ['Grows'],
             'constants': {'Depth': '3', 'Qs': '{"tangent", "frenet2", "curvature", "torsion", "cumarclen"}',
                           'Objs': '{"curve", "point", "copy", "copypoint"}'},
             'thorough_constants': {'Qs': '{"firstderiv", "tangent", "frenet2", "frenet3", "curvature", "torsion", '
                                          '"cumarclen", "t"}'},
             'family': 'cache', 'validate': {'module': 'TraceCache', 'invariants': ['TypeOk']}},
            {'kind': 'trace', 'family': 'cache', 'module': 'TraceCache', 'count': 300, 'invariants': ['TypeOk']}],
    'C27': [play('smooth', 'SmoothMC', ('WindowLaws', 'SavgolLaws', 'Emit'), 'TraceSmooth', 'SmoothFails',
                 dict(N='4', W='5', SgN='6', SgW='5'), dict(N='6', W='8', SgN='9', SgW='9')), fn('smooth', 'TraceSmooth', 'SmoothFails', 300)],
    'C15': [play('pointalg', 'PointMC', ('ArithLaws', 'MetricLaws', 'SliceLaws_', 'Emit'), 'TracePoint', 'PointFails',
                 {'V': '{"-2", "0", "1", "3"}', 'L': '2', 'Dts': '{"float64", "int8"}', 'Nums': '{"int", "float", "bool"}'},
                 {'V': '{"-2", "0", "1/2", "1", "3"}', 'Dts': '{"float64", "float32", "int8", "uint8", "int64"}',
                  'Nums': '{"int", "float", "bool", "npf", "npi", "npf32"}'}), fn('pointalg', 'TracePoint', 'PointFails', 400)],
})

TECHNIQUE = {
    '': 'TLA+ specification; TLC validates traces recorded from the real code against it',
}
LEVEL_NOTE = {
    '': 'Every recorded call of the real code is decided by TLC against the TLA+ specification over exact rationals; '
        'assurance is bounded by the generated inputs and histories. Trusts TLC, the Java number overrides and the '
        'exact encoding of observed floats.',
}
