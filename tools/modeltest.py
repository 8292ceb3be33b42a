"""Development aid: compare the numpy/Python models of the analyser with the real libraries on constant data.
usage: /opt/venv/bin/python tools/modeltest.py SNIPPETS.txt   (one expression or ';'-separated statements ending in 'r = ...' per line)"""
import sys, os, math, shutil, tempfile, traceback
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import warnings
warnings.simplefilter('ignore')
import numpy as np
HEAD = '''import numpy as np
import scipy as sc
import scipy.linalg
import scipy.special
import math
import itertools
import functools
import operator
from math import pi
A = np.array([[1.5, -2., 3.], [0.5, 4., -1.]])
B = np.array([[2., 1., 0.], [1., 3., 1.], [0., 1., 4.]])
C = np.arange(24.).reshape(2, 3, 4)
v = np.array([0.5, 1.5, -2.5])
w = np.array([3., 1., 2., 2.])
i3 = np.array([2, 0, 1])
b3 = np.array([True, False, True])
n = 3
x = 1.25
L = [1, 2.5, 3]
'''


def norm(r):
    """-> nested description (kind, shape, dtype, values)"""
    if isinstance(r, (tuple, list)):
        return (type(r).__name__, [norm(y) for y in r])
    if isinstance(r, dict):
        return ('dict', [(k, norm(y)) for k, y in r.items()])
    if isinstance(r, (set, frozenset)):
        return ('set', sorted(r))
    if isinstance(r, np.ndarray):
        return ('arr', r.shape, {'f': 'f', 'i': 'i', 'b': 'b', 'u': 'i'}.get(r.dtype.kind, r.dtype.kind), [float(y) for y in r.ravel()])
    if isinstance(r, (bool, np.bool_)):
        return ('num', float(r))
    if isinstance(r, (int, float, np.number)):
        return ('num', float(r))
    if hasattr(r, 'toarray'):
        return norm(r.toarray())
    return ('obj', str(r) if isinstance(r, str) or r is None else type(r).__name__)


def anorm(r):
    from pdsa import nd, dom as D, npm, wit
    if isinstance(r, (tuple, list)):
        return (type(r).__name__, [anorm(y) for y in r])
    if isinstance(r, dict):
        return ('dict', [(k, anorm(y)) for k, y in r.items()])
    if isinstance(r, (set, frozenset)):
        return ('set', sorted(r))
    if isinstance(r, npm.Sparse):
        r = r.toarray()
    if isinstance(r, nd.Arr):
        return ('arr', tuple(r.shape), r.dtype, [val(y) for y in r.cells()])
    if isinstance(r, (bool, int, float)) or isinstance(r, D.V) or type(r).__name__ == 'UB':
        return ('num', val(r))
    return ('obj', str(r) if isinstance(r, str) or r is None else type(r).__name__)


def val(y):
    from pdsa import nd, dom as D, wit
    if isinstance(y, (bool, int, float)):
        return float(y)
    y = nd.tov(y)
    if y.kind == D.NAN:
        return float('nan')
    if y.k is not None:
        return float(y.k)
    if y.iv[0] == y.iv[2]:
        return y.iv[0]
    try:
        e = wit.Point({}, 0, {})
        return float(e.ev(y))
    except Exception as ex:
        return float((y.iv[0] + y.iv[2]) / 2)


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return (math.isnan(a) and math.isnan(b)) or a == b or abs(a - b) <= 1e-7 * (1 + abs(b))
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def main():
    from pdsa import scen as S, dom as D, nd
    lines = [l.rstrip() for l in open(sys.argv[1]) if l.strip() and not l.startswith('#')]
    t = tempfile.mkdtemp()
    src = HEAD
    for k, l in enumerate(lines):
        body = l.replace('\\n', '\n') if ('r =' in l or 'return' in l) else 'r = ' + l
        import textwrap
        if ';' in body and '\n' not in body:
            body = body.replace('; ', '\n')
        src += '\ndef f%d():\n' % k + textwrap.indent(body, '    ') + '\n    return r\n'
    os.makedirs(t + '/mt')
    open(t + '/mt/__init__.py', 'w').write(src)
    g = {}
    exec(compile(src, 'snip', 'exec'), g)
    bad = unsup = 0
    for k, l in enumerate(lines):
        try:
            want = norm(g['f%d' % k]())
        except Exception as e:
            want = ('raise', type(e).__name__)
        ctx = D.Ctx()
        D.set_ctx(ctx)
        wd = S.World(ctx, t)
        try:
            m = wd.it.load('mt')
            got = anorm(wd.it.call(m.attrs['f%d' % k], [], {}))
        except nd.PyExc as e:
            got = ('raise', e.name)
        except nd.Unsupported as e:
            print('UNSUP ', l, '::', e)
            unsup += 1
            continue
        except D.Fork as e:
            print('FORK  ', l, e.key[:1])
            unsup += 1
            continue
        except Exception as e:
            print('CRASH ', l, '::', type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1][1:3])
            bad += 1
            continue
        if not same(want, got):
            print('DIFF  ', l, '\n     want', str(want)[:300], '\n     got ', str(got)[:300])
            bad += 1
    print(len(lines), 'snippets', bad, 'wrong', unsup, 'unsupported')
    shutil.rmtree(t)


main()
