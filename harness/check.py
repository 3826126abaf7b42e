#!/usr/bin/env python3
"""check.py PROPERTY      decide one property (VERIF_SEED, VERIF_TIER from the environment)
check.py --setup          build what the checks need
check.py --replay FILE    run the recorded violation again against the current tree
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
TLAJAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
WORK = os.path.join(ROOT, '.work')
NW = 8
LIMIT = 7200 if os.environ.get('VERIF_TIER') == 'thorough' else 800      # seconds for one program
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


class Broken(Exception):
    """the check itself could not run"""


# ------------------------------------------------------------------------- building

def classes():
    """compile the arithmetic overrides if they are not up to date"""
    src = os.path.join(ROOT, 'java', 'RatOverrides.java')
    dst = os.path.join(WORK, 'classes')
    mark = os.path.join(dst, 'RatOverrides.class')
    if os.path.exists(mark) and os.path.getmtime(mark) >= os.path.getmtime(src):
        return dst
    os.makedirs(WORK, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=WORK)
    r = subprocess.run(['javac', '-nowarn', '-cp', TLAJAR, '-d', tmp, src], capture_output=True, text=True)
    if r.returncode:
        raise Broken('javac: ' + r.stderr[-2000:])
    if os.path.isdir(dst):
        shutil.rmtree(dst)
    os.rename(tmp, dst)
    return dst


# ------------------------------------------------------------------------- running the code

def env(work):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(work, 'mpl'),
             OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0', VERIF_REPO=REPO,
             PYTHONWARNINGS='ignore')
    e.pop('PYTHONPATH', None)
    return e


def run_all(cmds, work, timeout):
    ps = []
    for i, c in enumerate(cmds):
        log = open(os.path.join(work, 'worker%d.log' % i), 'w')
        ps.append((subprocess.Popen(c, cwd=work, env=env(work), stdout=log, stderr=log), log))
    end = time.time() + timeout
    bad = []
    for i, (p, log) in enumerate(ps):
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            rc = 'timeout'
        log.close()
        if rc != 0:
            bad.append((i, rc))
    for p, _ in ps:
        if p.poll() is None:
            p.kill()
    if bad:
        i, rc = bad[0]
        with open(os.path.join(work, 'worker%d.log' % i)) as f:
            raise Broken('worker %d ended with %s: %s' % (i, rc, f.read()[-1500:]))


def record(family, prop, tier, seed, first, count, work, timeout=LIMIT):
    """record traces in parallel; returns the lines in order"""
    n = min(NW, count)
    cuts = [first + count * i // n for i in range(n + 1)]
    outs = [os.path.join(work, 'part%d.ndjson' % i) for i in range(n)]
    run_all([[PY, os.path.join(HERE, 'worker.py'), family, prop, tier, str(seed), str(cuts[i]),
              str(cuts[i + 1] - cuts[i]), outs[i]] for i in range(n)], work, timeout)
    lines = []
    for o in outs:
        with open(o) as f:
            lines += f.read().splitlines()
        os.remove(o)
    if len(lines) != count:
        raise Broken('%d traces for %d' % (len(lines), count))
    return lines


# ------------------------------------------------------------------------- TLC

def tlc(module, constants, work, trace_file=None, invariants=(), props=(), extra='', timeout=LIMIT, workers=NW,
        heap='10g', constraint=None, spec='Spec', depth=None, simulate=None, tlcseed=None, envs=None):
    cfg = os.path.join(work, module + '.cfg')
    with open(cfg, 'w') as f:
        f.write('SPECIFICATION %s\n' % spec)
        for k, v in constants.items():
            f.write('CONSTANT %s %s\n' % (k, v if v.startswith('<-') else '= ' + v))
        for i in invariants:
            f.write('INVARIANT %s\n' % i)
        for p in props:
            f.write('PROPERTY %s\n' % p)
        if constraint:
            f.write('CONSTRAINT %s\n' % constraint)
        f.write(extra)
    e = dict(os.environ)
    if trace_file:
        e['TRACE_FILE'] = trace_file
    e.update(envs or {})
    meta = tempfile.mkdtemp(dir=work, prefix='meta')
    cmd = ['java', '-XX:+UseParallelGC', '-Xss16m', '-Xmx' + heap,
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:RatOverrides',
           '-cp', TLAJAR + ':' + classes(), 'tlc2.TLC', '-deadlock', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-config', cfg]
    if simulate:
        cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str(tlcseed or 0)]
    cmd += [os.path.join(ROOT, 'spec', module + '.tla')]
    out = os.path.join(work, module + '.out')
    with open(out, 'w') as f:
        try:
            subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=work, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken('TLC did not finish in %d s' % timeout)
    shutil.rmtree(meta, ignore_errors=True)
    with open(out) as f:
        txt = f.read()
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', txt)
    gen, dist = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
    return {'txt': txt, 'ok': 'Model checking completed. No error has been found.' in txt, 'generated': gen,
            'distinct': dist}


VIOL = re.compile(r'<<\s*"VIOL",\s*(\d+),\s*(\d+),\s*"([^"]*)",\s*\{(.*?)\}\s*>>', re.S)


def violations(txt):
    out = []
    for m in VIOL.finditer(txt):
        out.append((int(m.group(1)), int(m.group(2)), m.group(3), sorted(set(re.findall(r'"([^"]*)"', m.group(4))))))
    return sorted(out)


def tlc_error(txt):
    """the text of an evaluation error and the trace being checked, if that is what ended TLC"""
    m = re.search(r'Error: (.*?)(?:\nFinished|\Z)', txt, re.S)
    t = re.findall(r'/\\ tr = (\d+)', txt) or re.findall(r'tr = (\d+)', txt)
    n = re.findall(r'/\\ l = (\d+)', txt)
    return (m.group(1)[:1500] if m else txt[-1500:]), (int(t[-1]) if t else None), (int(n[-1]) if n else None)


# ------------------------------------------------------------------------- a check

class Result:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.states = self.transitions = self.traces = 0
        self.stages, self.samples, self.viol = [], [], []
        self.t0 = time.time()

    def evidence(self, meta):
        return {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
                'coverage': {'states': self.states, 'transitions': self.transitions,
                             'traces_validated_against_impl': self.traces, 'samples': self.samples[:6],
                             'stages': self.stages},
                'assumptions': meta, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}


def shorten(x, n=1200):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + '...'


def stage_trace(res, st, work, first=0):
    """record traces of the real code and let TLC decide them"""
    t0 = time.time()
    lines = record(st['family'], res.prop, res.tier, res.seed, first, st['count'], work)
    t1 = time.time()
    res.stages.append({'kind': 'trace validation', 'module': st['module'], 'driver': st['family'], 'traces': st['count'],
                       'record_s': round(t1 - t0, 1)})
    validate(res, st, lines, work, res.stages[-1], first)


def origin(first, k, behs):
    """where the k-th recorded trace comes from"""
    return {'behaviour': json.loads(behs[k])} if behs else {'trace': first + k}


def validate(res, st, lines, work, info, first=0, behs=None):
    """let TLC decide recorded traces"""
    fam, module, count = st['family'], st['module'], len(lines)
    t1 = time.time()
    step = st.get('batch', 4000 if res.tier == 'quick' else 16000)
    events, opcount = 0, {}
    for b in range(0, count, step):
        part = lines[b:b + step]
        tf = os.path.join(work, 'traces.ndjson')
        with open(tf, 'w') as f:
            f.write('\n'.join(part) + '\n')
        consts = {'Prop': '"%s"' % res.prop}
        consts.update(st.get('constants', {}))
        r = tlc(module, consts, work, tf, invariants=st.get('invariants', ()))
        expected = 0
        for ln in part:
            ev = json.loads(ln)
            expected += len(ev) + 1
            events += len(ev)
            for e in ev:
                opcount[e['op']] = opcount.get(e['op'], 0) + 1
        for tr, l, op, clauses in violations(r['txt']):
            ev = json.loads(part[tr - 1])
            res.viol.append(dict(origin(first, b + tr - 1, behs), clauses=clauses, family=fam, module=module, step=l,
                                 event=ev[l - 1], history=ev[:l - 1]))
        res.states += r['distinct']
        res.transitions += max(0, r['generated'] - len(part))
        if not r['ok']:
            msg, tr, l = tlc_error(r['txt'])
            inv = re.search(r'Invariant (\w+) is violated', r['txt'])
            if tr is not None and (inv or 'ttempted' in msg or 'evaluat' in msg or 'TLC threw' in msg):
                ev = json.loads(part[tr - 1])
                k = min(l or 0, len(ev) - 1)
                clause = 'invariant ' + inv.group(1) if inv else 'the recorded outcome is not of the specified type'
                res.viol.append(dict(origin(first, b + tr - 1, behs), clauses=['%s: %s' % (res.prop, clause)],
                                     family=fam, module=module, step=k + 1, event=ev[k], history=ev[:k], tlc=msg))
            else:
                raise Broken('TLC: ' + msg)
        elif r['distinct'] != expected:
            raise Broken('TLC saw %d of %d states' % (r['distinct'], expected))
    res.traces += count
    info.update(events=events, ops=opcount, validation_s=round(time.time() - t1, 1))
    for ln in lines[:2]:
        ev = json.loads(ln)
        res.samples.append({'driver': fam, 'trace': shorten(ev[:3])})


def stage_mc(res, st, work):
    """model-check a machine; optionally replay its behaviours on the real code"""
    t0 = time.time()
    module = st['module']
    consts = dict(st.get('constants', {}))
    if res.tier == 'thorough':
        consts.update(st.get('thorough_constants', {}))
    r = tlc(module, consts, work, invariants=st.get('invariants', ()), props=st.get('props', ()),
            extra=st.get('extra', ''), constraint=st.get('constraint'), simulate=st.get('simulate'),
            depth=st.get('depth'), tlcseed=res.seed, workers=st.get('workers', NW))
    info = {'kind': 'model checking', 'module': module, 'constants': consts, 'states': r['distinct'],
            'invariants': list(st.get('invariants', ()))}
    res.stages.append(info)
    res.states += r['distinct'] or r['generated']
    res.transitions += r['generated']
    if not r['ok'] and not st.get('simulate'):
        raise Broken('the specification %s violates its own invariants: %s' % (module, tlc_error(r['txt'])[0]))
    if st.get('simulate') and 'Error:' in r['txt']:
        raise Broken('simulation of %s: %s' % (module, tlc_error(r['txt'])[0]))
    info['tlc_s'] = round(time.time() - t0, 1)
    if 'family' not in st:
        return
    t1 = time.time()
    beh = re.findall(r'^"BEH (.*)"$', r['txt'], re.M)
    beh = sorted({b.replace('\\"', '"').replace('\\\\', '\\') for b in beh})
    if len(beh) < st.get('min', 1):
        raise Broken('only %d behaviours' % len(beh))
    n = min(NW, len(beh))
    files = []
    for i in range(n):
        p = os.path.join(work, 'beh%d' % i)
        with open(p, 'w') as f:
            f.write('\n'.join(beh[i::n]) + '\n')
        files.append(p)
    mode = '--play' if 'validate' in st else '--replay'
    run_all([[PY, os.path.join(HERE, 'worker.py'), mode, st['family'], res.prop, p, p + '.out'] for p in files], work, LIMIT)
    if 'validate' in st:
        parts = []
        for p in files:
            with open(p + '.out') as f:
                parts.append(f.read().splitlines())
        lines = [x for q in parts for x in q]
        if len(lines) != len(beh):
            raise Broken('%d traces for %d behaviours' % (len(lines), len(beh)))
        info.update(behaviours_played=len(beh), play_s=round(time.time() - t1, 1))
        res.samples.append({'behaviour': shorten(json.loads(beh[len(beh) // 2]))})
        validate(res, dict(st['validate'], family=st['family']), lines, work, info,
                 behs=[x for i in range(n) for x in beh[i::n]])
        return
    for p in files:
        with open(p + '.out') as f:
            for ln in f:
                d = json.loads(ln)
                res.viol.append({'clauses': d['bad'], 'family': st['family'], 'module': module,
                                 'behaviour': d['behaviour']})
    res.traces += len(beh)
    info.update(behaviours_replayed=len(beh), replay_s=round(time.time() - t1, 1))
    res.samples.append({'behaviour': shorten(json.loads(beh[len(beh) // 2]))})


def known():
    """findings that are recorded and not repaired: {property: [regular expression on clause + event]}"""
    out = {}
    p = os.path.join(ROOT, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        with open(p) as f:
            for ln in f:
                m = re.match(r'finding: property=(\S+) match=/(.*)/ (.*)', ln)
                if m:
                    out.setdefault(m.group(1), []).append((re.compile(m.group(2)), m.group(3).strip()))
    return out


def run(prop, tier, seed):
    from registry import CHECKS, ASSUMPTIONS
    if prop not in CHECKS:
        raise Broken('no check for ' + prop)
    os.makedirs(WORK, exist_ok=True)
    work = tempfile.mkdtemp(dir=WORK, prefix=prop + '-')
    res = Result(prop, tier, seed)
    try:
        for st in CHECKS[prop]:
            st = dict(st)
            if st['kind'] == 'trace':
                stage_trace(res, st, work)
            else:
                stage_mc(res, st, work)
        if tier == 'thorough' and not res.viol:
            budget = float(os.environ.get('VERIF_BUDGET', '600'))
            k = 1
            while time.time() - res.t0 < budget and not res.viol:
                for st in CHECKS[prop]:
                    if st['kind'] == 'trace' and not st.get('fixed'):
                        stage_trace(res, dict(st), work, first=k * st['count'])
                if all(st['kind'] != 'trace' or st.get('fixed') for st in CHECKS[prop]):
                    break
                k += 1
        finds = known().get(prop, [])
        fresh, seen = [], {}
        for v in res.viol:
            txt = json.dumps(v)
            hit = [d for rx, d in finds if rx.search(txt)]
            if hit:
                seen[hit[0]] = seen.get(hit[0], 0) + 1
            else:
                fresh.append(v)
        for d in seen:
            print('KNOWN-FINDING: property=%s %s' % (prop, d))
        res.viol = fresh
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        ev = res.evidence(ASSUMPTIONS)
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if fresh:
            fresh.sort(key=lambda v: len(json.dumps(v)))
            path = os.path.join(ROOT, 'evidence', 'replay_%s.json' % prop)
            with open(path, 'w') as f:
                json.dump({'property': prop, 'tier': tier, 'seed': seed, 'count': len(fresh),
                           'violations': fresh[:20]}, f, indent=1)
            cl = sorted({c for v in fresh for c in v['clauses']})
            for c in cl[:12]:
                print('  ' + c)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        print('OK %s: %d states, %d transitions, %d traces, %.1f s' % (
            prop, res.states, res.transitions, res.traces, time.time() - res.t0))
        return 0
    finally:
        if os.environ.get('VERIF_KEEP'):
            print('work', work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def replay(path):
    """run the traces of a violation file again"""
    with open(path) as f:
        d = json.load(f)
    from registry import CHECKS
    os.makedirs(WORK, exist_ok=True)
    work = tempfile.mkdtemp(dir=WORK, prefix='replay-')
    res = Result(d['property'], d['tier'], d['seed'])
    try:
        for v in d['violations'][:5]:
            if 'trace' in v:
                st = [s for s in CHECKS[d['property']] if s.get('family') == v['family'] and s['kind'] == 'trace'][0]
                stage_trace(res, dict(st, count=1), work, first=v['trace'])
            else:
                p = os.path.join(work, 'b')
                with open(p, 'w') as f:
                    f.write(json.dumps(v['behaviour']) + '\n')
                st = [s for s in CHECKS[d['property']] if s.get('family') == v['family'] and 'validate' in s]
                if st:
                    run_all([[PY, os.path.join(HERE, 'worker.py'), '--play', v['family'], res.prop, p, p + '.out']],
                            work, 700)
                    with open(p + '.out') as f:
                        lines = f.read().splitlines()
                    validate(res, dict(st[0]['validate'], family=v['family']), lines, work, {},
                             behs=[json.dumps(v['behaviour'])])
                    continue
                run_all([[PY, os.path.join(HERE, 'worker.py'), '--replay', v['family'], res.prop, p, p + '.out']],
                        work, 700)
                with open(p + '.out') as f:
                    res.viol += [json.loads(x) for x in f]
        for v in res.viol:
            print(json.dumps(v)[:3000])
        return 1 if res.viol else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a[0] == '--setup':
            classes()
            return 0
        if a[0] == '--replay':
            return replay(a[1])
        return run(a[0], os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1')))
    except Broken as e:
        print('CHECK BROKEN: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
