"""Run checks against the planted changes, each in its own scratch copy of the source.
usage: python3 tools/seedcheck.py [--all] [id ...]     (--all: every check on every change)"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = '--all' in sys.argv
only = [a for a in sys.argv[1:] if a[0] != '-']
PIDS = [c['property'] for c in json.load(open(H + '/MANIFEST.json'))['checks']] if ALL else None


def one(b):
    w = tempfile.mkdtemp(prefix='pdsa_seed_')
    try:
        shutil.copytree('/repo/src', w + '/src')
        r = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + w, os.path.join(H, 'seeded', b, 'patch.diff')], cwd=w, capture_output=True, text=True)
        if r.returncode:
            r = subprocess.run('patch -p1 --binary < %s/seeded/%s/patch.diff' % (H, b), shell=True, cwd=w, capture_output=True, text=True)
            if r.returncode:
                return b, None, {'patch': r.stdout + r.stderr}
        prop = json.load(open(os.path.join(H, 'seeded', b, 'meta.json')))['property']
        out = {}
        for p in (PIDS or [prop]):
            r = subprocess.run(['python3', '-m', 'pdsa.run', p, '--jobs', '1'], cwd=H, env=dict(os.environ, PDSA_ROOT=w + '/src', PDSA_EVIDENCE=w + '/ev'), capture_output=True, text=True)
            out[p] = (r.returncode, '; '.join(x.strip() for x in r.stdout.splitlines() if x.startswith('  '))[:200])
        return b, prop, out
    finally:
        shutil.rmtree(w, ignore_errors=True)


bs = only or sorted(os.listdir(H + '/seeded'))
with cf.ThreadPoolExecutor(8) as ex:
    for b, prop, out in ex.map(one, bs):
        if prop is None:
            print(b, 'PATCH FAILS', out)
            continue
        own = out.get(prop)
        print('%-26s %s %s  %s  %s' % (b, prop, {1: 'caught', 0: 'MISSED'}.get(own[0], own[0]), ' '.join(p for p, v in out.items() if v[0] == 1 and p != prop), own[1][:150]), flush=True)
