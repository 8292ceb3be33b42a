"""Mutation campaign: small syntactic changes of the sources; those that pass the tests are given to the checks.
usage: python3 tools/mutate.py OUT.json [--seed N] [--count N] [--jobs N] [--file F]"""
import argparse, ast, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor, as_completed
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
FILES = ['_solve_for_gen_and_part_sols.py', '_solve_for_coeffs.py', '_assemble_intensity_and_fluxes.py', 'pydisort.py', 'subroutines.py']


def mutants(f, src):
    """-> [(line, description, new source)]"""
    t = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def rep(a, b, new, n, d):
        out.append((n.lineno, d, src[:a] + new + src[b:]))

    def between(x, y, pat, new, n, d):
        a, b = pos(x)[1], pos(y)[0]
        m = re.search(pat, src[a:b])
        if m:
            rep(a + m.start(), a + m.end(), new, n, d)
    doc = set()
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0]))
            doc.add(id(n.body[0].value))
    skip = set()
    for n in ast.walk(t):
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Call) and 'warn' in ast.unparse(n.func)):
            for x in ast.walk(n):
                skip.add(id(x))
    CMP = {ast.Lt: ('<', '<='), ast.LtE: ('<=', '<'), ast.Gt: ('>', '>='), ast.GtE: ('>=', '>'), ast.Eq: ('==', '!='), ast.NotEq: ('!=', '==')}
    BIN = {ast.Add: (r'\+', '-'), ast.Sub: (r'-', '+'), ast.Mult: (r'\*', '/'), ast.Div: (r'/', '*')}
    for n in ast.walk(t):
        if id(n) in skip or id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP and len(n.ops) == 1:
            o, w = CMP[type(n.ops[0])]
            between(n.left, n.comparators[0], re.escape(o), w, n, '%s -> %s' % (o, w))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            o, w = BIN[type(n.op)]
            between(n.left, n.right, o, w, n, '%s -> %s' % (o, w))
        elif isinstance(n, ast.BoolOp):
            o, w = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            between(n.values[0], n.values[1], r'\b%s\b' % o, w, n, '%s -> %s' % (o, w))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            a, b = pos(n)
            rep(a, pos(n.operand)[0], '', n, 'drop unary')
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
            a, b = pos(n)
            v = n.value
            if v is True or v is False:
                rep(a, b, str(not v), n, 'flip bool')
            elif type(v) is int:
                rep(a, b, str(v + 1), n, '%s -> %s' % (v, v + 1))
                if v > 0:
                    rep(a, b, str(v - 1), n, '%s -> %s' % (v, v - 1))
            else:
                rep(a, b, '(%r * 1000)' % v, n, '%s * 1000' % v)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
            a, b = pos(n.func.value)
            rep(b, pos(n)[1], '', n, 'drop copy')
        elif isinstance(n, (ast.If, ast.IfExp)):
            a, b = pos(n.test)
            rep(a, b, 'True', n, 'if True')
            rep(a, b, 'False', n, 'if False')
        elif isinstance(n, ast.Slice):
            a, b = pos(n)
            if n.lower is None and n.upper is not None and n.step is None:
                rep(a, b, ast.unparse(n.upper) + ':', n, 'slice turned')
            elif n.upper is None and n.lower is not None and n.step is None:
                rep(a, b, ':' + ast.unparse(n.lower), n, 'slice turned')
        elif isinstance(n, (ast.AugAssign, ast.Expr)) and not isinstance(getattr(n, 'value', None), ast.Constant):
            a, b = pos(n)
            rep(a, b, 'pass', n, 'drop statement')
            if isinstance(n, ast.AugAssign):
                between(n.target, n.value, r'\+=|-=', '=', n, 'aug to plain')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.UnaryOp):
            a, b = pos(n.slice)
            rep(a, b, '0', n, 'last -> first')
    res = []
    for ln, d, s in out:
        try:
            if ast.dump(ast.parse(s)) != ast.dump(t):
                res.append((ln, d, s))
        except SyntaxError:
            pass
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--count', type=int, default=200)
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('--file')
    ap.add_argument('--every', type=int, default=1, help='use only every n-th unit of each check (triage)')
    ap.add_argument('--skip', type=int, default=0)
    ap.add_argument('--tests-only', action='store_true')
    ap.add_argument('--from', dest='frm', help='use the survivors of an earlier result')
    a = ap.parse_args()
    base = {f: open('/repo/src/PythonicDISORT/' + f, newline='').read().replace('\r\n', '\n') for f in FILES}
    allm = [(f, i) + m for f in FILES if not a.file or a.file == f for i, m in enumerate(mutants(f, base[f]))]
    print(len(allm), 'mutants', flush=True)
    random.Random(a.seed).shuffle(allm)
    if a.frm:
        keep = set((r['file'], r['line'], r['d'], r['text']) for r in json.load(open(a.frm)) if r['status'] in ('survives', 'MISSED'))
        allm = [m for m in allm if (m[0], m[2], m[3], m[4].split('\n')[m[2] - 1].strip()) in keep]
    sys.path.insert(0, H)
    from pdsa import checks
    order = 'P26 P27 P28 P29 P14 P33 P02 P12 P25 P19 P23 P16 P30 P04 P05 P24 P10 P03 P22 P09 P07 P18 P08 P01 P32 P20 P31 P15 P21 P17 P13 P06 P11'.split()
    order += [p for p in sorted(checks.META) if p not in order]
    res = []

    def one(m):
        f, i, ln, d, s = m
        W = '/tmp/mut_%s_%d' % (f.strip('_').split('.')[0][:12], i)
        os.makedirs(W + '/src')
        try:
            shutil.copytree('/repo/src/PythonicDISORT', W + '/src/PythonicDISORT', ignore=shutil.ignore_patterns('__pycache__'))
            shutil.copytree('/repo/pydisotest', W + '/pydisotest', ignore=shutil.ignore_patterns('__pycache__'))
            open(W + '/src/PythonicDISORT/' + f, 'w', newline='').write(s.replace('\n', '\r\n'))
            r = dict(file=f, i=i, line=ln, d=d, text=s.split('\n')[ln - 1].strip())
            if not a.frm:
                try:
                    t = subprocess.run('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=120 .', shell=True, cwd=W + '/pydisotest',
                                       env=dict(ENV, PYTHONPATH=W + '/src'), capture_output=True, text=True, timeout=200)
                    bad = t.returncode
                except subprocess.TimeoutExpired:
                    bad = 1
                if bad:
                    r['status'] = 'killed by tests'
                    return r
            if a.tests_only:
                r['status'] = 'survives'
                return r
            und = []
            for pid in order:
                x = subprocess.run('timeout 900 python3 -m pdsa.run %s --jobs 1 --every %d' % (pid, a.every), shell=True, cwd=H, env=dict(ENV, PDSA_ROOT=W + '/src', PDSA_EVIDENCE=W + '/ev'), capture_output=True, text=True)
                if x.returncode == 1:
                    r['status'] = 'caught'
                    r['by'] = pid
                    return r
                mm = re.search(r'(\d+) undecided', x.stdout)
                if x.returncode or (mm and mm.group(1) != '0'):
                    und.append((pid, x.returncode, mm and mm.group(1)))
            r['status'] = 'MISSED'
            r['und'] = und
            return r
        finally:
            shutil.rmtree(W, ignore_errors=True)
    with ThreadPoolExecutor(a.jobs) as ex:
        for ft in as_completed([ex.submit(one, m) for m in allm[a.skip:a.skip + a.count]]):
            r = ft.result()
            res.append(r)
            if r['status'] != 'killed by tests':
                print(r['status'], r.get('by', ''), r['file'], r['line'], r['d'], '|', r['text'], r.get('und', ''), flush=True)
            json.dump(res, open(a.out, 'w'))
    from collections import Counter
    print(Counter(r['status'] for r in res))


main()
