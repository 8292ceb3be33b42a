"""Command line driver:  python3 -m pdsa.run <PROPERTY> [--tier quick|thorough] [--unit SUBSTR]"""
import argparse
import json
import multiprocessing
import os
import sys
import signal
import time

from . import scen as S
from .ob import Ob
from .nd import PyExc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def locs(loc):
    if loc is None:
        return 'unknown construct'
    if isinstance(loc, (tuple, list)):
        f = str(loc[0])
        i = f.find('PythonicDISORT')
        f = 'src/' + f[i:] if i >= 0 else f
        return '%s:%s%s' % (f, loc[1], (' in %s()' % loc[2]) if len(loc) > 2 and loc[2] else '')
    return str(loc)


class OutOfTime(BaseException):
    pass


def _alarm(*_):
    raise OutOfTime()


def run_unit(job):
    """Analyse one unit (scenario class) within the time that is left."""
    pid, tier, idx, end = job
    S.LIMIT[0] = end
    left = end + GRACE - time.time()
    from . import checks
    out = dict(unit=checks.units(pid, tier)[idx].name, total=0, ok=0, und=['not analysed: out of time'], bad=[], samples=[], functions=[], sites=[], lines=0, leaves=0)
    if left <= GRACE / 2:
        return out
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, left)
    try:
        r = _run_unit((pid, tier, idx))
        signal.setitimer(signal.ITIMER_REAL, 0)
        return r
    except OutOfTime:
        return out
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


SOFT, GRACE = {'quick': 600, 'thorough': 640}, 120     # seconds: stop following paths; stop everything


def _run_unit(job):
    """Analyse one unit (scenario class).  Returns a plain dict."""
    pid, tier, idx = job
    from . import checks
    unit = checks.units(pid, tier)[idx]
    t0 = time.time()

    def fn(w):
        ob = Ob()
        try:
            unit.fn(w, ob)
        except S.Bad as e:
            ob.total += 1
            ob._bad(str(e), e.loc)
        return ob
    res = dict(unit=unit.name, total=0, ok=0, und=[], bad=[], samples=[], functions=[], lines=0, leaves=0)
    leaves, und = S.explore(fn, unit.cap)
    res['und'] += und
    funs, sites = set(), set()
    for lf in leaves:
        res['leaves'] += 1
        cov = lf.world.it.covered
        funs |= set(cov[0])
        sites |= set(cov[1])
        ob = lf.result
        if lf.error is not None:
            e = lf.error
            res['total'] += 1
            if S.feasible(lf):
                res['bad'].append({'text': 'a valid use raises %s: %s' % (e.name, e.msg), 'loc': e.loc, 'witness': None})
            else:
                res['und'].append('%s: %s under unconfirmed path conditions' % (e.name, e.msg))
            continue
        ob.confirm(lf)
        res['total'] += ob.total
        res['ok'] += ob.ok
        res['und'] += ob.und
        if ob.bad:
            if any(b.get('witness') for b in ob.bad) or S.feasible(lf):
                res['bad'] += ob.bad
            else:
                res['und'] += ['%s (path conditions not confirmed)' % b['text'] for b in ob.bad]
        res['samples'] += ob.samples[:2]
    res['functions'] = sorted(funs)
    res['sites'] = sorted(sites)
    res['lines'] = len(sites)
    res['s'] = round(time.time() - t0, 3)
    return res


def known():
    """Findings listed in known_findings.txt as  KNOWN property=<id> key=<construct key> <text>."""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith('known: '):
                d = dict(x.split('=', 1) for x in ln[7:].split() if '=' in x)
                out.append((d.get('property'), d.get('key'), ln[7:].strip()))
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--unit')
    ap.add_argument('--every', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    from . import checks
    pid = a.property
    t0 = time.time()
    us = checks.units(pid, a.tier)
    end = t0 + float(os.environ.get('PDSA_SECONDS') or SOFT.get(a.tier, 600))
    jobs = [(pid, a.tier, i, end) for i, u in enumerate(us) if not a.unit or a.unit in u.name]
    if a.every > 1 and len(jobs) > a.every:                 # a sample of the units, for tools/mutate.py only
        jobs = jobs[::a.every]
    if a.jobs > 1 and len(jobs) > 1:
        with multiprocessing.get_context('fork').Pool(min(a.jobs, len(jobs))) as pool:
            rs = pool.map(run_unit, jobs, chunksize=1)
    else:
        rs = [run_unit(j) for j in jobs]
    total = sum(r['total'] for r in rs)
    ok = sum(r['ok'] for r in rs)
    und = [(r['unit'], u) for r in rs for u in r['und']]
    bad = [(r['unit'], b) for r in rs for b in r['bad']]
    funs = sorted(set(f for r in rs for f in r['functions']))
    sites = sorted(set(f for r in rs for f in map(tuple, r['sites'])))
    kn = known()
    viol, knownhits = [], []
    seen = {}
    for u, b in bad:
        key = (locs(b['loc']).split(':')[0] + ':' + (locs(b['loc']).split(' in ')[-1] if b['loc'] else ''), b['text'])
        hit = [k for k in kn if k[0] == pid and k[1] and k[1] in locs(b['loc']) + '|' + b['text']]
        if hit:
            knownhits.append(hit[0])
        else:
            viol.append((u, b))
    meta = checks.META[pid]
    ev = {
        'property': pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': meta['rule'] + ' Obligations are discharged by abstract interpretation of the current sources '
                           '(array expansion, trace partitioning, algebraic value numbering) for every value of the inputs '
                           'in each listed shape/option class; nothing is executed.',
            'units': len(rs), 'obligations': total, 'discharged': ok, 'violated': len(bad), 'undecided': len(und),
            'functions_analysed': funs, 'functions_count': len(funs), 'source_lines_covered': len(sites),
            'paths': sum(r['leaves'] for r in rs),
            'unit_names': [r['unit'] for r in rs],
            'undecided_examples': ['%s: %s' % x for x in und[:8]],
            'sample_obligations': [s for r in rs for s in r['samples']][:12],
        },
        'assumptions': checks.ASSUMPTIONS + meta.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': [{'unit': u, 'what': b['text'], 'construct': locs(b['loc']), 'witness': b.get('witness')} for u, b in viol[:40]],
    }
    EV = os.environ.get('PDSA_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, '%s.json' % pid), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s [%s]: %d units, %d paths, %d obligations, %d discharged, %d undecided, %d violated; %d functions, %d source lines; %.1f s'
          % (pid, a.tier, len(rs), ev['coverage']['paths'], total, ok, len(und), len(bad), len(funs), len(sites), time.time() - t0))
    for u, x in und[:(40 if a.v else 6)]:
        print('  undecided [%s] %s' % (u, x))
    for k in sorted(set(knownhits)):
        print('KNOWN-FINDING: ' + k[2])
    if viol:
        rp = os.path.join(EV, '%s.replay.json' % pid)
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'tier': a.tier, 'rerun': 'cd /verif && python3 -m pdsa.run %s --tier %s --unit %r' % (pid, a.tier, viol[0][0]),
                       'violations': ev['violations']}, f, indent=1, default=str)
        done = set()
        for u, b in viol:
            l = locs(b['loc'])
            if (l, b['text'].split(':')[0]) in done:
                continue
            done.add((l, b['text'].split(':')[0]))
            if len(done) > 12:
                break
            print('  %s: %s [%s]' % (l, b['text'], u))
            if b.get('witness'):
                print('      witness: got %s, expected %s' % (b['witness'].get('got'), b['witness'].get('expected')))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if not ok and not a.unit:
        print('ANALYSIS-BROKEN property=%s: no obligation could be decided' % pid)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
