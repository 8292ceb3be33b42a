"""Apply behaviour-preserving edits to a scratch copy and run the tests and every check: all must stay quiet.
usage: python3 tools/refac.py SPEC.py [ids]   (SPEC defines REF = [dict(id, edits=[(file, old, new)], count=1)])"""
import os, shutil, subprocess, sys, re
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
PIDS = ['P%02d' % i for i in range(1, 60)]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = [x for x in sys.argv[2:] if not x.startswith('-')]
    skiptests = '-n' in sys.argv
    sys.path.insert(0, H)
    from pdsa import checks
    pids = sorted(checks.META)
    for r in ns['REF']:
        if only and r['id'] not in only:
            continue
        W = '/tmp/rf_' + r['id']
        shutil.rmtree(W, ignore_errors=True)
        shutil.copytree('/repo', W)
        ok = True
        for e in r['edits']:
            f, old, new = e[:3]
            cnt = e[3] if len(e) > 3 else 1
            p = os.path.join(W, 'src/PythonicDISORT', f)
            s = re.sub(r'[ \t]+\r\n', '\r\n', open(p, newline='').read())
            old = re.sub(r'[ \t]+\n', '\n', old)
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != cnt:
                print(r['id'], 'PATTERN occurs', s.count(old), 'times in', f, repr(old[:60]))
                ok = False
                break
            open(p, 'w', newline='').write(s.replace(old, new))
        if ok and not skiptests:
            t = subprocess.run('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=300 .', shell=True, cwd=W + '/pydisotest', env=dict(ENV, PYTHONPATH=W + '/src'), capture_output=True, text=True)
            if t.returncode:
                print(r['id'], 'TESTS FAIL', t.stdout[-600:])
                ok = False
        if ok:
            def one(pid):
                ev = '/tmp/ev_%s_%s' % (r['id'], pid)
                os.makedirs(ev, exist_ok=True)
                x = subprocess.run('python3 -m pdsa.run %s' % pid, shell=True, cwd=H, env=dict(ENV, PDSA_ROOT=W + '/src', PDSA_EVIDENCE=ev), capture_output=True, text=True)
                shutil.rmtree(ev, ignore_errors=True)
                return pid, x
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(one, pids))
            bad = []
            for pid, x in res:
                m = re.search(r'(\d+) undecided, (\d+) violated', x.stdout)
                if x.returncode or not m or m.group(1) != '0':
                    bad.append((pid, x.returncode, m and m.groups(), [l for l in x.stdout.splitlines() if l.startswith('  ')][:2], x.stderr[-300:]))
            print(r['id'], 'QUIET' if not bad else 'NOISE', flush=True)
            for b in bad[:int(os.environ.get('NB', 4))]:
                print('    ', b)
            if len(bad) > 4:
                print('     ...', [(b[0], b[1], b[2]) for b in bad])
        shutil.rmtree(W, ignore_errors=True)


main()
