"""Runs under the library's interpreter: records traces of the real code.

worker.py FAMILY PROP TIER SEED FIRST COUNT OUT      traces FIRST .. FIRST+COUNT-1, one per line of OUT
worker.py --replay FAMILY PROP BEHAVIOURS OUT        replay behaviours (one JSON per line), mismatches to OUT
"""
import importlib
import json
import os
import signal
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))


class Timeout(Exception):
    pass


def on_alarm(*a):
    raise Timeout()


def guarded(fn, *args):
    """the events of a trace; one crash event if the library fails where no failure is recorded"""
    signal.alarm(60)
    try:
        ev = fn(*args)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ev = [{'op': 'crash', 'id': 0, 'nid': 0, 'argsok': True, 'live': [],
               'out': {'k': 'val', 'v': 0},
               'what': '%s: %s at %s:%d' % (type(e).__name__, str(e)[:120],
                                            os.path.basename(tb.filename), tb.lineno)}]
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    signal.alarm(0)
    return ev


def main():
    signal.signal(signal.SIGALRM, on_alarm)
    a = sys.argv[1:]
    if a[0] == '--play':                              # record one trace per behaviour
        family, prop, src, out = a[1:5]
        mod = importlib.import_module('drv.' + family)
        with open(src) as f, open(out, 'w') as g:
            for line in f:
                if line.strip():
                    g.write(json.dumps(guarded(mod.play, json.loads(line), prop)) + '\n')
        return
    if a[0] == '--replay':
        family, prop, src, out = a[1:5]
        mod = importlib.import_module('drv.' + family)
        with open(src) as f, open(out, 'w') as g:
            for line in f:
                line = line.strip()
                if not line:
                    continue
                b = json.loads(line)
                signal.alarm(60)
                try:
                    bad = mod.replay(b, prop)
                except Exception as e:
                    bad = ['%s: replay failed: %s: %s' % (prop, type(e).__name__, e)]
                signal.alarm(0)
                if bad:
                    g.write(json.dumps({'behaviour': b, 'bad': bad}) + '\n')
        return
    family, prop, tier, seed, first, count, out = a
    mod = importlib.import_module('drv.' + family)
    from drv.enc import Rng
    os.environ['VERIF_TIER'] = tier
    with open(out, 'w') as f:
        for k in range(int(first), int(first) + int(count)):
            rng = Rng('%s/%s/%s/%d' % (seed, family, prop, k))
            ev = guarded(mod.trace_k, rng, prop, k) if hasattr(mod, 'trace_k') else guarded(mod.trace, rng, prop)
            f.write(json.dumps(ev) + '\n')


if __name__ == '__main__':
    main()
