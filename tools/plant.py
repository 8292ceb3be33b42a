"""Confirm a planted change in a scratch copy and record it under seeded/.
usage: python3 tools/plant.py SPEC.py   (SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)])"""
import json, os, shutil, subprocess, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/pl'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(ENV, **env), capture_output=True, text=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        shutil.rmtree(W, ignore_errors=True)
        shutil.copytree('/repo', W)
        ok = True
        for f, old, new in b['edits']:
            p = os.path.join(W, 'src/PythonicDISORT', f)
            s = open(p, newline='').read()
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                print(b['id'], 'PATTERN occurs', s.count(old), 'times in', f, repr(old[:60]))
                ok = False
                break
            open(p, 'w', newline='').write(s.replace(old, new))
        if not ok:
            continue
        d = os.path.join(H, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(['git', 'diff'], cwd=W, capture_output=True).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# run in the repository: exit 0 when the property holds\nPYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        c = sh('bash %s/demo.sh' % d, '/repo')
        m = sh('bash %s/demo.sh' % d, W)
        t = sh('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=300 .', W + '/pydisotest', PYTHONPATH=W + '/src')
        tests = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
        good = c.returncode == 0 and m.returncode != 0 and t.returncode == 0
        print(b['id'], b['property'], 'OK' if good else 'BAD', '| demo clean %d, changed %d | %s' % (c.returncode, m.returncode, tests))
        if not good:
            print(c.stdout[-300:], c.stderr[-600:], '---', m.stdout[-300:], m.stderr[-300:])
            if c.returncode or not m.returncode or t.returncode:
                shutil.rmtree(d)
            continue
        r = sh('python3 -m pdsa.run %s' % b['property'], H, PDSA_ROOT=W + '/src')
        print('    check %s: exit %d  %s' % (b['property'], r.returncode, '; '.join(x for x in r.stdout.splitlines() if x.startswith('  ') or 'VIOL' in x)[:300]))
    shutil.rmtree(W, ignore_errors=True)


main()
