"""Transfer functions for the numpy / scipy / math operations used by the analysed program."""
import math
from fractions import Fraction
from . import dom as D
from . import field as F
from . import nd
from .dom import V, UB
from .nd import Arr, PyExc, Unsupported, asarr, ewise, tov, out, new, toint, norm_axis, prod


# ------------------------------------------------------------------ scalars
def num(x):
    return isinstance(x, (int, bool, V, UB))


def _i(x):
    """bool/UB -> int for python arithmetic"""
    if isinstance(x, UB):
        return int(D.truth(x))
    return int(x) if isinstance(x, bool) else x


def s_add(a, b):
    a, b = _i(a), _i(b)
    if type(a) is int and type(b) is int:
        return a + b
    return D.add(tov(a), tov(b))


def s_sub(a, b):
    a, b = _i(a), _i(b)
    if type(a) is int and type(b) is int:
        return a - b
    return D.sub(tov(a), tov(b))


def s_mul(a, b):
    a, b = _i(a), _i(b)
    if type(a) is int and type(b) is int:
        return a * b
    return D.mul(tov(a), tov(b))


def s_div(a, b):
    return D.div(tov(a), tov(b))


def s_py_div(a, b):
    if not isinstance(b, V) and _i(b) == 0 and not isinstance(a, V):
        raise PyExc('ZeroDivisionError', 'division by zero')
    return D.div(tov(a), tov(b))


def s_floordiv(a, b):
    a, b = _i(a), _i(b)
    if type(a) is int and type(b) is int:
        if b == 0:
            raise PyExc('ZeroDivisionError', 'integer division by zero')
        return a // b
    a, b = tov(a), tov(b)
    if a.k is not None and b.k is not None and b.k != 0:
        return D.c(a.k // b.k)
    return D.uf('floordiv', (a, b))


def s_mod(a, b):
    a, b = _i(a), _i(b)
    if type(a) is int and type(b) is int:
        if b == 0:
            raise PyExc('ZeroDivisionError', 'integer modulo by zero')
        return a % b
    a, b = tov(a), tov(b)
    if a.k is not None and b.k is not None and b.k != 0:
        return D.c(a.k % b.k)
    if D.truth(D.band([D.le(D.ZERO, a), D.lt(a, b)])) is True:
        return a
    return D.uf('mod', (a, b))


def s_pow(a, b):
    a, b = _i(a), _i(b)
    if type(a) is int and type(b) is int:
        if b >= 0:
            return a ** b
        return D.ipow(D.c(a), b)
    return D.vpow(tov(a), tov(b))


def np_pow(a, b):
    a, b = _i(a), _i(b)
    if type(a) is int and type(b) is int and b < 0:
        raise PyExc('ValueError', 'Integers to negative integer powers are not allowed.')
    return s_pow(a, b)


def s_neg(a):
    if isinstance(a, (bool, UB)):
        a = _i(a)
    return -a if type(a) is int else D.neg(a)


def s_abs(a):
    a = _i(a)
    return abs(a) if type(a) is int else D.absv(a)


def s_lt(a, b):
    a, b = _i(a), _i(b)
    if type(a) is int and type(b) is int:
        return a < b
    return D.lt(tov(a), tov(b))


def s_le(a, b):
    a, b = _i(a), _i(b)
    if type(a) is int and type(b) is int:
        return a <= b
    return D.le(tov(a), tov(b))


def s_eq(a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if isinstance(a, (bool, UB)) and isinstance(b, (bool, UB)):
        if isinstance(a, UB) or isinstance(b, UB):
            return _i(a) == _i(b)
        return a == b
    a, b = _i(a), _i(b)
    if type(a) is int and type(b) is int:
        return a == b
    return D.eq(tov(a), tov(b))


def s_gt(a, b):
    return s_lt(b, a)


def s_ge(a, b):
    return s_le(b, a)


def s_ne(a, b):
    return D.bnot(s_eq(a, b))


def b_and(a, b):
    if isinstance(a, (bool, UB)) and isinstance(b, (bool, UB)):
        return D.band([a, b])
    return toint(a) & toint(b)


def b_or(a, b):
    if isinstance(a, (bool, UB)) and isinstance(b, (bool, UB)):
        return D.bor([a, b])
    return toint(a) | toint(b)


def b_xor(a, b):
    if isinstance(a, (bool, UB)) and isinstance(b, (bool, UB)):
        return D.truth(a) != D.truth(b)
    return toint(a) ^ toint(b)


def b_not(a):
    if isinstance(a, (bool, UB)):
        return D.bnot(a)
    return ~toint(a)


UFUNC = {
    'add': (s_add, 2), 'subtract': (s_sub, 2), 'multiply': (s_mul, 2), 'divide': (s_div, 2),
    'true_divide': (s_div, 2), 'floor_divide': (s_floordiv, 2), 'mod': (s_mod, 2), 'remainder': (s_mod, 2),
    'power': (np_pow, 2), 'float_power': (lambda a, b: s_pow(tov(a), b), 2),
    'negative': (s_neg, 1), 'positive': (lambda a: a, 1), 'abs': (s_abs, 1), 'absolute': (s_abs, 1), 'fabs': (lambda a: D.absv(tov(a)), 1),
    'sqrt': (lambda a: D.sqrt(tov(a)), 1), 'exp': (lambda a: D.exp(tov(a)), 1),
    'expm1': (lambda a: D.sub(D.exp(tov(a)), D.ONE), 1), 'log': (lambda a: D.log(tov(a)), 1),
    'log1p': (lambda a: D.log(D.add(tov(a), D.ONE)), 1),
    'cos': (lambda a: D.cos(tov(a)), 1), 'sin': (lambda a: D.sin(tov(a)), 1),
    'tan': (lambda a: D.div(D.sin(tov(a)), D.cos(tov(a))), 1),
    'cosh': (lambda a: D.mul(D.c(Fraction(1, 2)), D.add(D.exp(tov(a)), D.exp(D.neg(tov(a))))), 1),
    'sinh': (lambda a: D.mul(D.c(Fraction(1, 2)), D.sub(D.exp(tov(a)), D.exp(D.neg(tov(a))))), 1),
    'square': (lambda a: s_mul(a, a), 1), 'reciprocal': (lambda a: D.inv(tov(a)), 1),
    'maximum': (lambda a, b: max(_i(a), _i(b)) if type(_i(a)) is int and type(_i(b)) is int else D.maximum(tov(a), tov(b)), 2),
    'minimum': (lambda a, b: min(_i(a), _i(b)) if type(_i(a)) is int and type(_i(b)) is int else D.minimum(tov(a), tov(b)), 2),
    'less': (s_lt, 2), 'less_equal': (s_le, 2), 'greater': (s_gt, 2), 'greater_equal': (s_ge, 2),
    'equal': (s_eq, 2), 'not_equal': (s_ne, 2),
    'logical_and': (lambda a, b: D.band([tobool(a), tobool(b)]), 2),
    'logical_or': (lambda a, b: D.bor([tobool(a), tobool(b)]), 2),
    'logical_not': (lambda a: D.bnot(tobool(a)), 1), 'invert': (b_not, 1), 'bitwise_not': (b_not, 1),
    'bitwise_and': (b_and, 2), 'bitwise_or': (b_or, 2), 'logical_xor': (b_xor, 2),
    'isnan': (lambda a: _isk(a, D.NAN), 1), 'isinf': (lambda a: _isk(a, D.INF), 1),
    'isfinite': (lambda a: D.band([D.bnot(_isk(a, D.NAN)), D.bnot(_isk(a, D.INF))]), 1),
    'sign': (lambda a: _sgn(a), 1), 'floor': (lambda a: _floor(a), 1), 'ceil': (lambda a: s_neg(_floor(s_neg(a))), 1),
    'conj': (lambda a: a, 1), 'real': (lambda a: a, 1), 'rint': (lambda a: _rint(a), 1), 'round': (lambda a: _rint(a), 1),
    'arccos': (lambda a: D.uf('arccos', (tov(a),)), 1), 'arctan2': (lambda a, b: D.uf('arctan2', (tov(a), tov(b))), 2),
    'deg2rad': (lambda a: D.div(D.mul(tov(a), D.PI), D.c(180)), 1), 'radians': (lambda a: D.div(D.mul(tov(a), D.PI), D.c(180)), 1),
    'hypot': (lambda a, b: D.sqrt(D.add(D.ipow(tov(a), 2), D.ipow(tov(b), 2))), 2),
}
UFUNC_KEEP_INT = set('add subtract multiply floor_divide mod remainder power negative positive abs absolute square maximum minimum sign conj real'.split())


def _rint(a):
    if type(_i(a)) is int:
        return a
    if a.k is not None:
        return D.c(round(a.k))
    return D.uf('rint', (a,))


def _floor(a):
    a = tov(a)
    if a.k is not None:
        return D.c(math.floor(a.k))
    lo, hi = a.iv[0], a.iv[2]
    if lo != -math.inf and hi != math.inf and math.floor(lo) == math.floor(hi) and lo != hi:
        return D.c(math.floor(lo))
    return D.uf('floor', (a,))


def _sgn(a):
    if type(_i(a)) is int:
        return (a > 0) - (a < 0)
    s = D.sign(a)
    if s in (1, -1, 0):
        return D.c(s)
    if a.kind:
        return a
    return D.ONE if D.truth(D.lt(D.ZERO, a)) else (D.ZERO if D.truth(D.eq(a, D.ZERO)) else D.c(-1))


def _isk(a, k):
    if not isinstance(a, V):
        return False
    if a.kind == D.TOP:
        return UB(('isk', k, a.note, repr(D.CTX.loc)))
    return a.kind == k


def tobool(x):
    if isinstance(x, (bool, UB)):
        return x
    if isinstance(x, int):
        return x != 0
    if isinstance(x, V):
        if x.kind in (D.NAN, D.INF):
            return True
        return D.bnot(D.eq(x, D.ZERO))
    if isinstance(x, Arr):
        if x.size == 1:
            return tobool(x.cells()[0])
        if x.size == 0:
            return False
        raise PyExc('ValueError', 'The truth value of an array with more than one element is ambiguous.')
    return bool(x)


def isarr(x):
    return isinstance(x, (Arr, list, tuple, range))


# ------------------------------------------------------------------ contraction
def vsum(xs):
    xs = list(xs)
    if not xs:
        return D.ZERO
    if all(type(_i(x)) is int for x in xs):
        return sum(int(_i(x)) for x in xs)
    acc = None
    for x in xs:
        x = tov(x)
        acc = x if acc is None else D.add(acc, x)
    return acc


def vprod(xs):
    acc = 1
    for x in xs:
        acc = s_mul(acc, x)
    return acc


def dotv(xs, ys):
    acc = 0
    for x, y in zip(xs, ys):
        acc = s_add(acc, s_mul(x, y))
    return acc if xs else D.ZERO


def matmul(a, b):
    if not isarr(a) or not isarr(b):
        raise PyExc('ValueError', 'matmul: input operand is a scalar')
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise PyExc('ValueError', 'matmul: input operand does not have enough dimensions')
    va, vb = a.ndim == 1, b.ndim == 1
    if va:
        a = Arr(a.buf, a.off, (1,) + a.shape, (0,) + a.strides)
    if vb:
        b = Arr(b.buf, b.off, b.shape + (1,), b.strides + (0,))
    if a.shape[-1] != b.shape[-2]:
        raise PyExc('ValueError', 'matmul: mismatch in core dimension, %s @ %s' % (a.shape, b.shape))
    bs = nd.bshape(a.shape[:-2], b.shape[:-2])
    A = nd.bto(a, bs + a.shape[-2:])
    B = nd.bto(b, bs + b.shape[-2:])
    n, k, m = a.shape[-2], a.shape[-1], b.shape[-1]
    ac, bc = A.cells(), B.cells()
    res = []
    for q in range(prod(bs)):
        ao, bo = q * n * k, q * k * m
        for i in range(n):
            row = ac[ao + i * k: ao + (i + 1) * k]
            for j in range(m):
                res.append(dotv(row, [bc[bo + l * m + j] for l in range(k)]))
    dt = 'f' if 'f' in (a.dtype, b.dtype) else 'i'
    res = [nd.coerce(r, dt) for r in res]
    r = new(res, bs + (n, m), dt)
    sh = r.shape
    if va and vb:
        return out(nd.reshape(r, sh[:-2]))
    if va:
        return nd.reshape(r, sh[:-2] + (sh[-1],))
    if vb:
        return nd.reshape(r, sh[:-1])
    return r


def dot(a, b):
    if num(a) or num(b):
        return mul(a, b)
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return mul(a, b)
    if b.ndim <= 2:
        if a.ndim <= 2:
            return matmul(a, b)
        return matmul(a, b)
    raise Unsupported('dot with nd operands')


def mul(a, b):
    return ewise(s_mul, (a, b))


def einsum(spec, *ops, **kw):
    if kw.get('out') is not None:
        raise Unsupported('einsum out=')
    if not isinstance(spec, str):
        al = 'abcdefghijklmnopqrstuvwxyz'
        xs = (spec,) + ops
        n = len(xs) // 2

        def sub(l):
            return ''.join('...' if t is Ellipsis else al[toint(t)] for t in l)
        sp = ','.join(sub(xs[2 * i + 1]) for i in range(n))
        if len(xs) % 2:
            sp += '->' + sub(xs[-1])
        return einsum(sp, *[xs[2 * i] for i in range(n)])
    spec = spec.replace(' ', '')
    if '...' in spec:
        return _einsum_ellipsis(spec, ops)
    if len(ops) == 1 and '->' in spec and isinstance(ops[0], Arr):
        s1, o1 = spec.split('->')
        a1 = ops[0]
        if len(s1) == a1.ndim and len(set(o1)) == len(o1) and set(o1) == set(s1):
            sh, st = {}, {}
            for ch, n, t in zip(s1, a1.shape, a1.strides):     # pure permutation / diagonal: a view
                if ch in sh and sh[ch] != n:
                    raise PyExc('ValueError', 'einsum: dimension mismatch')
                sh[ch] = n
                st[ch] = st.get(ch, 0) + t
            return Arr(a1.buf, a1.off, tuple(sh[ch] for ch in o1), tuple(st[ch] for ch in o1))
    if '->' in spec:
        ins, outs = spec.split('->')
    else:
        ins = spec
        letters = [ch for ch in ins if ch != ',']
        outs = ''.join(sorted(ch for ch in set(letters) if letters.count(ch) == 1))
    ins = ins.split(',')
    if len(ins) != len(ops):
        raise PyExc('ValueError', 'einsum: number of operands')
    ops = [asarr(o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise PyExc('ValueError', "einsum: operand has %d dims but subscripts '%s'" % (o.ndim, s))
        for ch, n in zip(s, o.shape):
            if ch in dims and dims[ch] != n and 1 not in (dims[ch], n):
                raise PyExc('ValueError', "einsum: dimension mismatch for '%s': %d vs %d" % (ch, dims[ch], n))
            dims[ch] = max(dims.get(ch, 1), n) if ch in dims else n
    for ch in outs:
        if ch not in dims:
            raise PyExc('ValueError', 'einsum: output subscript not in inputs')
    # contract pairwise, summing indices as soon as they are last used (keeps products small)
    cur_s, cur = ins[0], {}
    order = list(dims)

    def table(s, o):
        t = {}
        us = ''.join(dict.fromkeys(s))
        for idx, val in _enum(o):
            m = {}
            ok = True
            for ch, i in zip(s, idx):
                if ch in m and m[ch] != i:
                    ok = False
                m[ch] = i
            if ok:
                t[tuple(m[ch] for ch in us)] = val
        # broadcast unit dims
        for p, ch in enumerate(us):
            n = o.shape[s.index(ch)]
            if n == 1 and dims[ch] != 1:
                t = {k[:p] + (i,) + k[p + 1:]: v for k, v in t.items() for i in range(dims[ch])}
        return us, t
    cs, ct = table(ins[0], ops[0])
    rest = list(zip(ins[1:], ops[1:]))
    for j in range(len(rest) + 1):
        later = set(outs)
        for s, _ in rest[j:]:
            later |= set(s)
        if any(ch not in later for ch in cs):
            keep = [i for i, ch in enumerate(cs) if ch in later]
            g = {}
            for k, v in ct.items():
                kk = tuple(k[i] for i in keep)
                g[kk] = s_add(g[kk], v) if kk in g else v
            cs, ct = ''.join(cs[i] for i in keep), g
        if j == len(rest):
            break
        ns, nt = table(*rest[j])
        shared = [ch for ch in ns if ch in cs]
        lat2 = set(outs)
        for s, _ in rest[j + 1:]:
            lat2 |= set(s)
        us = cs + ''.join(ch for ch in ns if ch not in cs)
        keepi = [i for i, ch in enumerate(us) if ch in lat2]
        byk = {}
        pi = [ns.index(ch) for ch in shared]
        ri = [i for i, ch in enumerate(ns) if ch not in cs]
        for k, v in nt.items():
            byk.setdefault(tuple(k[i] for i in pi), []).append((tuple(k[i] for i in ri), v))
        ci = [cs.index(ch) for ch in shared]
        g = {}
        for k, v in ct.items():
            for rk, w in byk.get(tuple(k[i] for i in ci), ()):
                uk = k + rk
                kk = tuple(uk[i] for i in keepi)
                pv = s_mul(v, w)
                g[kk] = s_add(g[kk], pv) if kk in g else pv
        cs, ct = ''.join(us[i] for i in keepi), g
    perm = [cs.index(ch) for ch in outs]
    sh = tuple(dims[ch] for ch in outs)
    dt = nd.promote(*[o.dtype for o in ops])
    cells = [None] * prod(sh)
    st = nd.cstrides(sh)
    zero = 0 if dt in 'bi' else D.ZERO
    cells = [zero] * prod(sh)
    for k, v in ct.items():
        cells[sum(k[p] * s for p, s in zip(perm, st))] = nd.coerce(v, dt) if dt in 'fi' else v
    return out(new(cells, sh, dt))


def _enum(o):
    idx = [()]
    for n in o.shape:
        idx = [i + (j,) for i in idx for j in range(n)]
    return zip(idx, o.cells())


def _einsum_ellipsis(spec, ops):
    ins, outs = (spec.split('->') + [None])[:2]
    ins = ins.split(',')
    ops = [asarr(o) for o in ops]
    spare = [ch for ch in 'ABCDEFGHIJ' if ch not in spec]
    mx = max(o.ndim - len(s.replace('...', '')) for s, o in zip(ins, ops))
    full = ''.join(spare[:mx])
    ni = []
    for s, o in zip(ins, ops):
        k = o.ndim - len(s.replace('...', ''))
        ni.append(s.replace('...', full[mx - k:] if k else ''))
    if outs is None:
        letters = [ch for s in ins for ch in s.replace('...', '')]
        outs = '...' + ''.join(sorted(ch for ch in set(letters) if letters.count(ch) == 1))
    return einsum(','.join(ni) + '->' + outs.replace('...', full), *ops)


# ------------------------------------------------------------------ linear algebra
def _q(v):
    return v.sh


def _linfail(vs):
    t = None
    for v in vs:
        if v.kind == D.NAN:
            return D.nan('linear system contains %s' % v.note)
        if v.kind in (D.TOP, D.INF):
            t = D.top('linear system contains %s' % (v.note,), v.deps)
    return t


class SysRec:
    __slots__ = ('A', 'B', 'n', 'm')

    def __init__(self, A, B, n, m):
        self.A, self.B, self.n, self.m = A, B, n, m


class EigRec:
    __slots__ = ('M', 'n', 'first')

    def __init__(self, M, n):
        self.M, self.n, self.first = M, n, True


def solve_cells(A, B, n, m):
    """A: n*n cells, B: n*m cells -> n*m cells"""
    A = [tov(x) for x in A]
    B = [tov(x) for x in B]
    bad = _linfail(A + B)
    if bad is not None:
        return [bad] * (n * m)
    deps = 0
    for x in A + B:
        deps |= x.deps
    X = F.solve([[A[i * n + j].fp for j in range(n)] for i in range(n)],
                [[B[i * m + j].fp for j in range(m)] for i in range(n)])
    if X is None:
        raise PyExc('LinAlgError', 'Singular matrix')
    Y = F.solve([[A[i * n + j].sh for j in range(n)] for i in range(n)],
                [[B[i * m + j].sh for j in range(m)] for i in range(n)], F.Q)
    res = []
    rec = SysRec(A, B, n, m)
    for i in range(n):
        for j in range(m):
            fp = X[i][j]
            sh = Y[i][j] if Y is not None else F.hq('solve', fp)
            if fp == 0:
                res.append(D.ZERO)
            else:
                res.append(V(fp, sh, D.FULL, 'solved', (rec, i, j), deps))
    return res


def la_solve(a, b, **kw):
    a, b = asarr(a), asarr(b)
    if a.ndim < 2 or a.shape[-1] != a.shape[-2]:
        raise PyExc('LinAlgError', 'Last 2 dimensions of the array must be square')
    vec = b.ndim == 1
    if vec:
        b = Arr(b.buf, b.off, b.shape + (1,), b.strides + (0,))
    n = a.shape[-1]
    if b.shape[-2] != n:
        raise PyExc('ValueError', 'solve: mismatch %s %s' % (a.shape, b.shape))
    m = b.shape[-1]
    bs = nd.bshape(a.shape[:-2], b.shape[:-2])
    ac = nd.bto(a, bs + (n, n)).cells()
    bc = nd.bto(b, bs + (n, m)).cells()
    res = []
    for q in range(prod(bs)):
        res += solve_cells(ac[q * n * n:(q + 1) * n * n], bc[q * n * m:(q + 1) * n * m], n, m)
    r = new(res, bs + (n, m), 'f')
    return nd.reshape(r, bs + (n,)) if vec else r


def la_inv(a, **kw):
    a = asarr(a)
    if a.ndim < 2 or a.shape[-1] != a.shape[-2]:
        raise PyExc('LinAlgError', 'Last 2 dimensions of the array must be square')
    n = a.shape[-1]
    eye = [D.ONE if i == j else D.ZERO for i in range(n) for j in range(n)]
    ac = a.cells()
    res = []
    for q in range(prod(a.shape[:-2])):
        res += solve_cells(ac[q * n * n:(q + 1) * n * n], eye, n, n)
    return new(res, a.shape, 'f')


def la_eig(a, **kw):
    a = asarr(a)
    if a.ndim < 2 or a.shape[-1] != a.shape[-2]:
        raise PyExc('LinAlgError', 'Last 2 dimensions of the array must be square')
    n = a.shape[-1]
    ac = [tov(x) for x in a.cells()]
    w, vec = [], []
    for q in range(prod(a.shape[:-2])):
        M = ac[q * n * n:(q + 1) * n * n]
        wq, vq = _eig(M, n)
        w += wq
        vec += vq
    return (new(w, a.shape[:-1], 'f'), new(vec, a.shape, 'f'))


def _eig(M, n):
    bad = _linfail(M)
    if bad is None and (n > 4 or n > 2 and any(type(x.fp) is not int for x in M)):
        bad = D.top('eigenvalues of a %dx%d matrix' % (n, n))
    if bad is None and any(x.deps for x in M):
        bad = D.top('eigenvalues of a query-dependent matrix')
    if bad is not None:
        return [bad] * n, [bad] * (n * n)
    key = tuple(x.fp for x in M)

    rec = EigRec(list(M), n)

    def mk(fp, tag, i, j=0, iv=D.FULL):
        return V(fp, F.hq('eig', tag, fp), iv, 'eig', (rec, tag[0], i, j), 0)

    def scale(tag):
        return F.hp('eigvec-scale', tag, key)
    pos = (0.0, True, math.inf, True)
    if n == 0:
        return [], []
    if n == 1:
        return [M[0]], [mk(scale(0), 'v', 0, 0)]
    if n > 2:
        return _eig_n(rec, key, n, mk, scale, pos)
    a, b, c_, d = key
    half = F.HALF
    tr = F.add(a, d)
    det = F.sub(F.mul(a, d), F.mul(b, c_))
    disc = F.sub(F.mul(tr, tr), F.mul(4, det))
    r = F.sqrt(disc)
    if r is None:
        t = D.top('eigenvalues outside the hash field')
        return [t] * 2, [t] * 4
    l1 = F.mul(half, F.add(tr, r))
    l2 = F.mul(half, F.sub(tr, r))
    if repr(l1) > repr(l2):
        l1, l2 = l2, l1
    rec.first = l1 == a
    cols = []
    for i, l in enumerate((l1, l2)):
        if b != 0:
            v = (b, F.sub(l, a))
        elif c_ != 0:
            v = (F.sub(l, d), c_)
        else:
            v = (1, 0) if l == a else (0, 1)
            if a == d:
                v = (1, 0) if i == 0 else (0, 1)
        s = scale(i)
        cols.append((F.mul(s, v[0]), F.mul(s, v[1])))
    w = [mk(l1, 'w', 0, 0, pos), mk(l2, 'w', 1, 0, pos)]

    def z(fp, i, j):
        return mk(fp, 'v', i, j) if fp != 0 else D.ZERO
    return w, [z(cols[0][0], 0, 0), z(cols[1][0], 0, 1), z(cols[0][1], 1, 0), z(cols[1][1], 1, 1)]


def _eig_n(rec, key, n, mk, scale, pos):
    """3x3 and 4x4: the roots of the characteristic polynomial must lie in F_{p^2}; when they do
    not, the exploration restarts with other hash values for an input of this matrix."""
    rs = F.roots(F.charpoly(list(key), n))
    if rs is None:
        raise D.Resalt(D.atom_names(rec.M))
    cols, seen = [], {}
    for i, l in enumerate(rs):
        basis = seen.get(l)
        if basis is None:
            basis = seen[l] = F.nullvec(list(key), n, l)
        k = rs[:i].count(l)
        if k >= len(basis):
            t = D.top('defective matrix')
            return [t] * n, [t] * (n * n)
        cols.append([F.mul(scale(i), x) for x in basis[k]])
    if all(key[i * n + j] == 0 for i in range(n) for j in range(n) if i != j):
        left = list(range(n))
        rec.first = []
        for l in rs:
            j = next(j for j in left if key[j * n + j] == l)
            left.remove(j)
            rec.first.append(j)
    w = [mk(l, 'w', i, 0, pos) for i, l in enumerate(rs)]
    return w, [mk(cols[j][i], 'v', i, j) if cols[j][i] != 0 else D.ZERO for i in range(n) for j in range(n)]


def solve_banded(l_and_u, ab, b, overwrite_ab=False, overwrite_b=False, check_finite=True, **kw):
    l, u = [toint(x) for x in l_and_u]
    ab, b = asarr(ab), asarr(b)
    if ab.ndim != 2 or ab.shape[0] != l + u + 1:
        raise PyExc('ValueError', 'invalid values for the number of lower and upper diagonals: l+u+1 (%d) does not equal ab.shape[0] (%d)'
                    % (l + u + 1, ab.shape[0]))
    n = ab.shape[1]
    if b.shape[0] != n:
        raise PyExc('ValueError', 'shapes of ab and b are not compatible')
    cells = ab.cells()
    A = [D.ZERO] * (n * n)
    for i in range(n):
        for j in range(n):
            r = u + i - j
            if 0 <= r < l + u + 1:
                A[i * n + j] = cells[r * n + j]
    m = 1 if b.ndim == 1 else b.shape[1]
    x = solve_cells(A, b.cells(), n, m)
    if D.truth(tobool(overwrite_b)):
        havoc(b, 'solve_banded(overwrite_b)')
    if D.truth(tobool(overwrite_ab)):
        havoc(ab, 'solve_banded(overwrite_ab)')
    return new(x, b.shape, 'f')


def havoc(a, why):
    nd.store(a.buf, a.offs(), [D.nan('contents left indeterminate by ' + why)] * a.size, why)


# ------------------------------------------------------------------ special functions
def poly_eval(coefs, x):
    acc = D.ZERO
    for k in reversed(coefs):
        acc = D.add(D.mul(acc, x), k if isinstance(k, V) else D.c(k))
    return acc


_leg = {}


def legendre_poly(n):
    """Monomial coefficients (Fractions) of P_n."""
    if n not in _leg:
        if n == 0:
            _leg[n] = [Fraction(1)]
        elif n == 1:
            _leg[n] = [Fraction(0), Fraction(1)]
        else:
            a, b = legendre_poly(n - 1), legendre_poly(n - 2)
            r = [Fraction(0)] * (n + 1)
            for i, x in enumerate(a):
                r[i + 1] += x * Fraction(2 * n - 1, n)
            for i, x in enumerate(b):
                r[i] -= x * Fraction(n - 1, n)
            _leg[n] = r
    return _leg[n]


def legval_scalar(x, coefs):
    acc = D.ZERO
    for n, k in enumerate(coefs):
        k = tov(k)
        if k.kind == 0 and k.fp == 0:
            continue
        acc = D.add(acc, D.mul(k, poly_eval(legendre_poly(n), x)))
    return acc


def _intval(x, what):
    x = _i(x)
    if type(x) is int:
        return x
    if isinstance(x, V) and x.k is not None and x.k.denominator == 1:
        return int(x.k)
    return None


def lpmv_scalar(m, l, x):
    m, l = _intval(m, 'm'), _intval(l, 'l')
    x = tov(x)
    if m is None or l is None:
        return D.top('lpmv of symbolic order')
    if x.kind:
        return x
    if m < 0 or l < 0:
        return D.top('lpmv negative order')
    if m > l:
        return D.ZERO
    p = list(legendre_poly(l))
    for _ in range(m):
        p = [k * i for i, k in enumerate(p)][1:]
    v = poly_eval(p, x)
    s2 = D.sub(D.ONE, D.mul(x, x))
    f = D.ipow(s2, m // 2)
    if m % 2:
        f = D.mul(f, D.sqrt(s2))
    r = D.mul(f, v)
    return D.neg(r) if m % 2 else r


def poch_scalar(z, m):
    zi, mi = _intval(z, 'z'), _intval(m, 'm')
    if zi is None or mi is None:
        return D.uf('poch', (tov(z), tov(m)))
    r = Fraction(1)
    if mi >= 0:
        for i in range(mi):
            r *= zi + i
    else:
        for i in range(1, -mi + 1):
            if zi - i == 0:
                return D.nan('poch pole')
            r /= zi - i
    return D.c(r)


def factorial_scalar(n):
    k = _intval(n, 'n')
    if k is None:
        return D.uf('gamma', (D.add(tov(n), D.ONE),))
    return D.c(math.factorial(k)) if k >= 0 else D.ZERO


def gamma_scalar(n):
    k = _intval(n, 'n')
    if k is None:
        return D.uf('gamma', (tov(n),))
    return D.c(math.factorial(k - 1)) if k > 0 else D.nan('gamma pole')


def comb_scalar(n, k):
    a, b = _intval(n, 'n'), _intval(k, 'k')
    if a is None or b is None:
        return D.uf('comb', (tov(n), tov(k)))
    return D.c(math.comb(a, b)) if a >= b >= 0 else D.ZERO


def _odd_mu(name, lo, hi):
    """Atom mu with 1-mu^2 in the odd-order subgroup (so sqrt is multiplicative on such values)."""
    i = 0
    while True:
        fp = F.hp('atom', name, i)
        if F.in_odd((1 - fp * fp) % F.P):
            break
        i += 1
    return D.atom(name, lo, hi, fp=fp)


_MU = {}
EXACT = False      # use the Gauss nodes themselves instead of generic nodes (set per unit)


def _gauss01(n):
    """Approximate positions of the Gauss nodes on [0,1] (for interval facts only)."""
    out = []
    for k in range(n):
        x = math.cos(math.pi * (n - k - 0.25) / (n + 0.5))
        for _ in range(50):
            p0, p1 = 1.0, x
            for j in range(2, n + 1):
                p0, p1 = p1, ((2 * j - 1) * x * p1 - (j - 1) * p0) / j
            if n == 1:
                p0, p1 = 1.0, x
            dp = n * (x * p1 - p0) / (x * x - 1)
            x -= p1 / dp
        out.append((x + 1) / 2)
    return out


def gauss_mu(n):
    """Half-range nodes mu_k in (0,1), increasing, and weights; the quadrature is exact for
    constants and for mu^2 (all even degrees used by up to 4 streams), as Gauss nodes are."""
    key = (n, EXACT and n <= 3)
    if key[1] and key not in _MU:
        # the Gauss nodes themselves: 1/2, and (1 -+ 1/sqrt 3)/2 with equal weights
        if n == 1:
            mus, ws = [D.atom('mu0/1', 0.49, 0.51, fp=pow(2, -1, F.P), sh=pow(2, -1, F.Q))], [D.ONE]
        elif n == 3:
            # 1/2 and (1 -+ sqrt(3/5))/2 with weights 8/18 and 5/18; the exponent images only keep mu0 + mu2 = 1
            r = F.sqrt(3 * pow(5, -1, F.P) % F.P)
            h, hq, x = pow(2, -1, F.P), pow(2, -1, F.Q), _gauss01(3)
            e = F.hq('atom', 'mu0/3')
            mus = [D.atom('mu%d/3' % k, x[k] - 0.01, x[k] + 0.01, fp=a, sh=b) for k, (a, b) in enumerate((((1 - r) * h % F.P, e), (h, hq), ((1 + r) * h % F.P, (1 - e) % F.Q)))]
            ws = [D.c(Fraction(5, 18)), D.c(Fraction(8, 18)), D.c(Fraction(5, 18))]
        else:
            r3 = F.sqrt(pow(3, -1, F.P))
            h = pow(2, -1, F.P)
            q3, hq = pow(pow(3, -1, F.Q), (F.Q + 1) // 4, F.Q), pow(2, -1, F.Q)
            x0, x1 = _gauss01(2)
            mus = [D.atom('mu0/2', x0 - 0.01, x0 + 0.01, fp=(1 - r3) * h % F.P, sh=(1 - q3) * hq % F.Q), D.atom('mu1/2', x1 - 0.01, x1 + 0.01, fp=(1 + r3) * h % F.P, sh=(1 + q3) * hq % F.Q)]
            ws = [D.c(Fraction(1, 2)), D.c(Fraction(1, 2))]
        _MU[key] = (mus, ws)
    if key not in _MU:
        mus = []
        for k, x in enumerate(_gauss01(n)):
            d = 0.01 if n <= 4 else 0.1 / (n * n)
            lo, hi = x - d, x + d
            mus.append(_odd_mu('mu%d/%d' % (k, n), lo, hi))
        if n == 1:
            ws = [D.ONE]
        elif n == 2:
            # w0+w1=1 ; w0 mu0^2 + w1 mu1^2 = 1/3
            third = D.c(Fraction(1, 3))
            m0, m1 = D.ipow(mus[0], 2), D.ipow(mus[1], 2)
            w0 = D.div(D.sub(third, m1), D.sub(m0, m1))
            w1 = D.sub(D.ONE, w0)
            w0 = V(w0.fp, w0.sh, (0.01, True, 1.0, True), 'atom', ('w0/2',), 0)
            w1 = V(w1.fp, w1.sh, (0.01, True, 1.0, True), 'atom', ('w1/2',), 0)
            ws = [w0, w1]
        else:
            # exact for mu^0, mu^2, ..., mu^(2n-2)
            wp = F.solve([[pow(m.fp, 2 * j, F.P) for m in mus] for j in range(n)], [[pow(2 * j + 1, -1, F.P)] for j in range(n)], F.P)
            wq = F.solve([[pow(m.sh, 2 * j, F.Q) for m in mus] for j in range(n)], [[pow(2 * j + 1, -1, F.Q)] for j in range(n)], F.Q)
            ws = [V(a[0], b[0], (0.0, True, 1.0, True), 'atom', ('w%d/%d' % (k, n),), 0) for k, (a, b) in enumerate(zip(wp, wq))]
        _MU[key] = (mus, ws)
    return _MU[key]


def leggauss(n):
    n = _intval(n, 'n')
    if n is None:
        raise Unsupported('leggauss of symbolic degree')
    if n < 1:
        raise PyExc('ValueError', 'deg must be a positive integer')
    mus, ws = gauss_mu(n)
    x = [D.sub(D.mul(D.c(2), m), D.ONE) for m in mus]
    w = [D.mul(D.c(2), v) for v in ws]
    return (new(x, (n,), 'f'), new(w, (n,), 'f'))


# ------------------------------------------------------------------ model objects
class LegendreObj:
    def __init__(self, coef, domain=None, window=None, symbol='x'):
        self.coef = asarr(coef, 'f', copy=True)
        if self.coef.ndim != 1:
            raise PyExc('ValueError', 'Coefficient array is not 1-d')
        if domain is not None or window is not None:
            raise Unsupported('Legendre domain')

    def __call__(self, x):
        cs = self.coef.cells()
        return ewise(lambda t: legval_scalar(tov(t), cs), (x,))


class Bary:
    def __init__(self, xi, yi=None, axis=0, **kw):
        self.xi = [tov(v) for v in asarr(xi).cells()]
        self.yi = None
        if axis != 0:
            raise Unsupported('Barycentric axis')
        if yi is not None:
            self.set_yi(yi)

    def set_yi(self, yi, axis=None):
        if yi is None:
            self.yi = None
            return
        yi = asarr(yi)
        if yi.ndim == 0 or yi.shape[0] != len(self.xi):
            raise PyExc('ValueError', 'x and y arrays must be equal in length along interpolation axis.')
        self.yi = new(yi.cells(), yi.shape, yi.dtype)

    def __call__(self, x):
        xa = asarr(x)
        if self.yi is None:
            raise PyExc('TypeError', 'no y values set')
        n = len(self.xi)
        tail = self.yi.shape[1:]
        w = prod(tail)
        ys = self.yi.cells()
        res = []
        for xv in xa.cells():
            xv = tov(xv)
            ls = []
            for j in range(n):
                a, b = D.ONE, D.ONE
                for k in range(n):
                    if k != j:
                        a = D.mul(a, D.sub(xv, self.xi[k]))
                        b = D.mul(b, D.sub(self.xi[j], self.xi[k]))
                ls.append(D.div(a, b))
            for t in range(w):
                acc = D.ZERO
                for j in range(n):
                    acc = D.add(acc, D.mul(ls[j], tov(ys[j * w + t])))
                res.append(acc)
        r = new(res, xa.shape + tail, 'f')
        return r if r.ndim else r


class Sparse:
    """scipy.sparse matrix (dense abstract contents)."""
    def __init__(self, arr):
        self.a = arr
        self.shape = arr.shape

    def setdiag(self, vals, k=0):
        n, m = self.a.shape
        vs = asarr(vals)
        idx = [(i, i + k) for i in range(n) if 0 <= i + k < m]
        cs = vs.cells() if vs.ndim else [vs.cells()[0]] * len(idx)
        for (i, j), v in zip(idx, cs):
            nd.setitem(self.a, (i, j), v)

    def tocsr(self):
        return Sparse(nd.asarr(self.a, copy=True))
    tolil = tocsc = tocoo = copy = tocsr

    def toarray(self):
        return nd.asarr(self.a, copy=True)
    todense = toarray


def sp_diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if isinstance(offsets, int):
        offsets = [offsets]
        d = asarr(diagonals)
        diagonals = [d] if d.ndim == 1 else [nd.getitem(d, 0)]
    offsets = [toint(o) for o in (offsets.cells() if isinstance(offsets, Arr) else offsets)]
    ds = [asarr(d) for d in diagonals]
    if shape is None:
        n = ds[0].size + abs(offsets[0])
        shape = (n, n)
    n, m = [toint(s) for s in shape]
    cells = [D.ZERO] * (n * m)
    for d, k in zip(ds, offsets):
        cs = d.cells() if d.ndim else [d.cells()[0]]
        pos = [(i, i + k) for i in range(n) if 0 <= i + k < m]
        if len(cs) == 1:
            cs = cs * len(pos)
        if len(cs) != len(pos):
            raise PyExc('ValueError', 'Diagonal length does not agree with matrix size')
        for (i, j), v in zip(pos, cs):
            cells[i * m + j] = tov(v)
    return Sparse(new(cells, (n, m), 'f'))


def idct(x, type=2, n=None, axis=-1, norm=None, **kw):
    x = asarr(x)
    if type != 1 or n is not None or norm is not None or x.ndim != 1:
        raise Unsupported('idct variant')
    xs = [tov(v) for v in x.cells()]
    N = len(xs)
    if N < 2:
        raise PyExc('ValueError', 'DCT-I is not defined for size < 2')
    res = []
    for k in range(N):
        acc = D.add(xs[0], xs[-1] if k % 2 == 0 else D.neg(xs[-1]))
        for j in range(1, N - 1):
            acc = D.add(acc, D.mul(D.mul(D.c(2), xs[j]), D.cos(D.mul(D.PI, D.c(Fraction(k * j, N - 1))))))
        res.append(D.div(acc, D.c(2 * (N - 1))))
    return new(res, (N,), 'f')


# ------------------------------------------------------------------ numpy namespace
NP = {}


def reg(*names):
    def f(g):
        for n in names:
            NP[n] = g
        return g
    return f


def dtype_of(d):
    if d is None:
        return None
    if isinstance(d, str):
        return {'float': 'f', 'int': 'i', 'bool': 'b', 'f': 'f', 'i': 'i', 'd': 'f', 'float64': 'f', 'int64': 'i',
                'object': 'O', 'float32': 'f', 'b': 'b', 'O': 'O'}.get(d, 'f')
    n = getattr(d, 'dt', None)
    if n:
        return n
    if d is float:
        return 'f'
    if d is int:
        return 'i'
    if d is bool:
        return 'b'
    return 'f'


def shape_arg(s):
    if isinstance(s, Arr):
        return tuple(toint(x) for x in s.cells())
    if isinstance(s, (tuple, list)):
        r = tuple(toint(x) for x in s)
    else:
        r = (toint(s),)
    if any(x < 0 for x in r):
        raise PyExc('ValueError', 'negative dimensions are not allowed')
    return r


UNINIT = 'uninitialised memory'


@reg('empty')
def _(shape, dtype=None, order='C', **k):
    return nd.full(shape_arg(shape), D.nan(UNINIT), dtype_of(dtype) or 'f', order)


@reg('zeros')
def _(shape, dtype=None, order='C', **k):
    dt = dtype_of(dtype) or 'f'
    return nd.full(shape_arg(shape), nd.coerce(0, dt), dt, order)


@reg('ones')
def _(shape, dtype=None, order='C', **k):
    dt = dtype_of(dtype) or 'f'
    return nd.full(shape_arg(shape), nd.coerce(1, dt), dt, order)


@reg('full')
def _(shape, fill_value, dtype=None, order='C', **k):
    sh = shape_arg(shape)
    a = asarr(fill_value)
    dt = dtype_of(dtype) or a.dtype
    r = nd.full(sh, None, dt, order)
    nd.setitem(r, Ellipsis, a)
    return r


def _like(x):
    return asarr(x)


@reg('zeros_like')
def _(a, dtype=None, **k):
    a = asarr(a)
    dt = dtype_of(dtype) or a.dtype
    return nd.full(a.shape, nd.coerce(0, dt), dt)


@reg('ones_like')
def _(a, dtype=None, **k):
    a = asarr(a)
    dt = dtype_of(dtype) or a.dtype
    return nd.full(a.shape, nd.coerce(1, dt), dt)


@reg('empty_like')
def _(a, dtype=None, **k):
    a = asarr(a)
    return nd.full(a.shape, D.nan(UNINIT), dtype_of(dtype) or a.dtype)


@reg('full_like')
def _(a, fill_value, dtype=None, **k):
    a = asarr(a)
    dt = dtype_of(dtype) or a.dtype
    r = nd.full(a.shape, None, dt)
    nd.setitem(r, Ellipsis, fill_value)
    return r


@reg('array')
def _(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, (map, zip)) or type(x).__name__ == 'generator':
        raise Unsupported('np.array of an iterator')
    a = asarr(x, dtype_of(dtype), copy=bool(copy))
    while a.ndim < toint(ndmin):
        a = Arr(a.buf, a.off, (1,) + a.shape, (0,) + a.strides)
    return a


@reg('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'require')
def _(x, dtype=None, *a, **k):
    return asarr(x, dtype_of(dtype))


@reg('copy')
def _(x, **k):
    return asarr(x, copy=True)


@reg('asarray_chkfinite')
def _(x, dtype=None, order=None):
    a = asarr(x, dtype_of(dtype))
    if any(D.truth(D.bnot(UFUNC['isfinite'][0](v))) for v in a.cells()):
        raise PyExc('ValueError', 'array must not contain infs or NaNs')
    return a


def _atl(n):
    def f(*xs):
        res = []
        for x in xs:
            a = asarr(x)
            while a.ndim < n:
                a = Arr(a.buf, a.off, (1,) + a.shape, (0,) + a.strides)
            res.append(a)
        return res[0] if len(res) == 1 else tuple(res)
    return f


NP['atleast_1d'], NP['atleast_2d'] = _atl(1), _atl(2)


@reg('atleast_3d')
def _(x):
    a = asarr(x)
    if a.ndim == 0:
        return nd.reshape(a, (1, 1, 1))
    if a.ndim == 1:
        return nd.getitem(a, (None, slice(None), None))
    if a.ndim == 2:
        return nd.getitem(a, (slice(None), slice(None), None))
    return a


@reg('shape')
def _(x):
    return asarr(x).shape


@reg('ndim')
def _(x):
    return asarr(x).ndim


@reg('size')
def _(x, axis=None):
    a = asarr(x)
    return a.size if axis is None else a.shape[axis]


@reg('all')
def _(x, axis=None, out=None, keepdims=False, **k):
    return nd.reduce_axis(asarr(x), axis, lambda cs: D.band([tobool(v) for v in cs]), keepdims)


@reg('any')
def _(x, axis=None, out=None, keepdims=False, **k):
    return nd.reduce_axis(asarr(x), axis, lambda cs: D.bor([tobool(v) for v in cs]), keepdims)


def _noout(k, fn):
    if k.get('out') is not None:
        raise Unsupported('%s out=' % fn)


@reg('sum')
def _(x, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asarr(x)
    w = k.get('where')
    if w is not None:
        a = asarr(ewise(lambda v, c_: v if D.truth(tobool(c_)) else 0, (a, w)))
    z = 0 if a.dtype in 'bi' else D.ZERO
    r = nd.reduce_axis(a, axis, lambda cs: vsum(cs) if cs else z, keepdims)
    if k.get('initial') is not None:
        r = ewise(s_add, (r, k['initial']))
    return r


@reg('prod')
def _(x, axis=None, dtype=None, out=None, keepdims=False, **k):
    return nd.reduce_axis(asarr(x), axis, vprod, keepdims)


@reg('mean', 'average')
def _(x, axis=None, weights=None, keepdims=False, **k):
    a = asarr(x)
    if weights is not None:
        wt = asarr(weights)
        if wt.shape != a.shape:
            if axis is None:
                raise PyExc('TypeError', 'Axis must be specified when shapes of a and weights differ.')
            if wt.ndim != 1:
                raise PyExc('TypeError', '1D weights expected when shapes of a and weights differ.')
            ax = axis % a.ndim
            if wt.shape[0] != a.shape[ax]:
                raise PyExc('ValueError', 'Length of weights not compatible with specified axis.')
            wt = NP['reshape'](wt, tuple(wt.shape[0] if i == ax else 1 for i in range(a.ndim)))
        s = NP['sum'](ewise(s_mul, (a, wt)), axis, keepdims=keepdims)
        return ewise(s_div, (s, NP['sum'](NP['broadcast_to'](wt, a.shape), axis, keepdims=keepdims)))
    return nd.reduce_axis(a, axis, lambda cs: D.div(tov(vsum(cs)), D.c(len(cs))) if cs else D.nan('mean of empty'), keepdims)


def _mx(mx):
    def red(cs):
        if not cs:
            raise PyExc('ValueError', 'zero-size array to reduction operation maximum which has no identity')
        if all(type(_i(v)) is int for v in cs):
            return (max if mx else min)(int(_i(v)) for v in cs)
        return D._ext([tov(v) for v in cs], mx)

    def f(x, axis=None, out=None, keepdims=False, **k):
        a = asarr(x)
        if k.get('where') is not None:
            if k.get('initial') is None:
                raise PyExc('ValueError', 'reduction operation does not have an identity, so to use a where mask one has to specify initial')
            ini = k['initial']
            a = asarr(ewise(lambda v, c_: v if D.truth(tobool(c_)) else ini, (a, k['where'])))
        r = nd.reduce_axis(a, axis, red, keepdims)
        if k.get('initial') is not None:
            r = ewise(UFUNC['maximum' if mx else 'minimum'][0], (r, k['initial']))
        return r
    return f


NP['max'] = NP['amax'] = NP['nanmax'] = _mx(True)
NP['min'] = NP['amin'] = NP['nanmin'] = _mx(False)


@reg('ptp')
def _(x, axis=None):
    return ewise(s_sub, (NP['max'](x, axis), NP['min'](x, axis)))


@reg('diff')
def _(x, n=1, axis=-1, **k):
    a = asarr(x)
    if a.ndim == 0:
        raise PyExc('ValueError', 'diff requires input that is at least one dimensional')
    for kk in ('prepend', 'append'):
        if k.get(kk) is not None:
            v = asarr(k[kk])
            if v.ndim == 0:
                sh = list(a.shape)
                sh[norm_axis(axis, a.ndim)] = 1
                v = nd.bto(v, sh)
            a = nd.concat([v, a] if kk == 'prepend' else [a, v], axis)
    for _ in range(n):
        ax = norm_axis(axis, a.ndim)
        pre = (slice(None),) * ax
        a = asarr(ewise(s_sub, (nd.getitem(a, pre + (slice(1, None),)), nd.getitem(a, pre + (slice(None, -1),)))))
    return a


@reg('ediff1d')
def _(x, **k):
    return NP['diff'](nd.reshape(asarr(x), (-1,)))


@reg('arange')
def _(start, stop=None, step=1, dtype=None, **k):
    if stop is None:
        start, stop = 0, start
    args = [start, stop, step]
    ints = [_intval(a, 'arange') for a in args]
    if any(i is None for i in ints):
        raise Unsupported('arange with symbolic bounds')
    r = range(*ints)
    dt = dtype_of(dtype) or ('i' if all(not isinstance(a, V) for a in args) else 'f')
    return new([nd.coerce(i, dt) for i in r], (len(r),), dt)


@reg('linspace')
def _(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0, **k):
    n = toint(num)
    a, b = tov(start), tov(stop)
    dv = (n - 1) if endpoint else n
    step = D.div(D.sub(b, a), D.c(dv)) if dv > 0 else D.nan('step')
    r = new([D.add(a, D.mul(D.c(Fraction(i, dv)) if dv > 0 else D.ZERO, D.sub(b, a))) for i in range(n)], (n,), 'f')
    return (r, step) if retstep else r


@reg('concatenate')
def _(arrs, axis=0, out=None, dtype=None, **k):
    return nd.concat(list(arrs.cells_list() if hasattr(arrs, 'cells_list') else (iter_arr(arrs) if isinstance(arrs, Arr) else arrs)), axis)


def iter_arr(a):
    if a.ndim == 0:
        raise PyExc('TypeError', 'iteration over a 0-d array')
    return [nd.getitem(a, i) for i in range(a.shape[0])]


@reg('append')
def _(a, v, axis=None):
    if axis is None:
        return nd.concat([nd.reshape(asarr(a), (-1,)), nd.reshape(asarr(v), (-1,))], 0)
    return nd.concat([a, v], axis)


@reg('insert')
def _(a, obj, values, axis=None):
    a = asarr(a)
    if axis is None:
        a, axis = nd.reshape(a, (-1,)), 0
    ax = norm_axis(axis, a.ndim)
    n = a.shape[ax]
    pre = (slice(None),) * ax
    if not isinstance(obj, int):
        o = asarr(obj)
        if o.size != 1:
            raise Unsupported('insert at several positions')
        obj = toint(o)
    i = obj % n if obj < 0 else obj
    if i > n:
        raise PyExc('IndexError', 'insert index out of bounds')
    v = asarr(values, a.dtype if asarr(values).dtype != a.dtype else None)
    if a.ndim == 1:
        v = nd.reshape(v, (-1,))
    else:
        sh = list(a.shape)
        sh[ax] = 1
        v = nd.bto(v if v.ndim else v, sh)
    return nd.concat([nd.getitem(a, pre + (slice(None, i),)), v, nd.getitem(a, pre + (slice(i, None),))], ax)


@reg('delete')
def _(a, obj, axis=None):
    a = asarr(a)
    if axis is None:
        a, axis = nd.reshape(a, (-1,)), 0
    ax = norm_axis(axis, a.ndim)
    n = a.shape[ax]
    dl = {toint(x) % n for x in (asarr(obj).cells())}
    return nd.getitem(a, (slice(None),) * ax + ([i for i in range(n) if i not in dl],))


def seq(xs):
    return iter_arr(xs) if isinstance(xs, Arr) else list(xs)


@reg('hstack')
def _(xs, **k):
    xs = [NP['atleast_1d'](x) for x in seq(xs)]
    return nd.concat(xs, 0 if xs[0].ndim == 1 else 1)


@reg('vstack', 'row_stack')
def _(xs, **k):
    return nd.concat([NP['atleast_2d'](x) for x in seq(xs)], 0)


@reg('column_stack')
def _(xs):
    r = []
    for x in seq(xs):
        x = asarr(x)
        r.append(nd.transpose(NP['atleast_2d'](x), None) if x.ndim < 2 else x)
    return nd.concat(r, 1)


@reg('stack')
def _(xs, axis=0, **k):
    xs = [asarr(x) for x in seq(xs)]
    ax = axis % (xs[0].ndim + 1)
    return nd.concat([nd.getitem(x, (slice(None),) * ax + (None,)) for x in xs], ax)


@reg('dstack')
def _(xs):
    return nd.concat([NP['atleast_3d'](x) for x in seq(xs)], 2)


@reg('block')
def _(rows):
    def blk(x, d):
        if isinstance(x, list):
            return nd.concat([blk(y, d - 1) for y in x], -d)
        return NP['atleast_2d'](x)

    def depth(x):
        return 1 + depth(x[0]) if isinstance(x, list) else 0
    return blk(rows, depth(rows))


def _acc(fn):
    def f(x, axis=None, dtype=None, out=None):
        a = asarr(x)
        if axis is None:
            a, axis = nd.reshape(a, (-1,)), 0
        ax = norm_axis(toint(axis), a.ndim)
        t = nd.transpose(a, [i for i in range(a.ndim) if i != ax] + [ax])
        cs, n = t.cells(), a.shape[ax]
        res = []
        for q in range(len(cs) // n if n else 0):
            acc = None
            for v in cs[q * n:(q + 1) * n]:
                acc = v if acc is None else fn(acc, v)
                res.append(acc)
        dt = dtype_of(dtype) or ('i' if a.dtype == 'b' else a.dtype)
        r = new([nd.coerce(v, dt) for v in res], t.shape, dt)
        inv = list(range(ax)) + [a.ndim - 1] + list(range(ax, a.ndim - 1))
        rr = nd.transpose(r, inv)
        return new(rr.cells(), rr.shape, dt)
    return f


NP['cumsum'] = _acc(s_add)
NP['cumprod'] = _acc(s_mul)


def _ukey(u):
    return repr(u.key) if isinstance(u, UB) else None


@reg('where')
def _(cond, *xy):
    if not xy:
        return NP['nonzero'](cond)
    x, y = xy
    xa, ya = asarr(x), asarr(y)
    dt = nd.promote(xa.dtype, ya.dtype)

    def f(c_, a, b):
        c_ = D._res(tobool(c_))
        if isinstance(c_, UB):
            if not isinstance(a, (V, int, bool)) or not isinstance(b, (V, int, bool)):
                return a if D.truth(c_) else b
            if D.same(tov(a), tov(b)) is True:
                return a
            return a if D.truth(c_) else b
        return a if c_ else b
    # many undecided cells: a gated join per cell instead of partitioning the trace on each of them
    if isarr(cond) and not (xa.dtype == 'O' or ya.dtype == 'O'):
        cc = [D._res(tobool(q)) for q in asarr(cond).cells()]
        if len({q for q in map(_ukey, cc) if q is not None}) > 3:
            def g(c_, p, q):
                return p if c_ is True else q if c_ is False else _phi(c_, p, q)
            r = ewise(g, (new(cc, asarr(cond).shape, 'b'), xa, ya))
            return asarr(r, dt) if isinstance(r, Arr) else new([nd.coerce(r, dt)], (), dt)
    r = ewise(f, (cond, xa, ya))
    if not isinstance(r, Arr):
        return new([nd.coerce(r, dt)], (), dt)
    return asarr(r, dt)


@reg('select')
def _(conds, choices, default=0):
    r = default
    for c_, v in reversed(list(zip(conds, choices))):
        r = NP['where'](c_, v, r)
    return r


@reg('piecewise')
def _(*a, **k):
    raise Unsupported('piecewise')


@reg('nonzero')
def _(x):
    a = asarr(x)
    cs = a.cells()
    sel = [i for i, v in enumerate(cs) if D.truth(tobool(v))]
    st = nd.cstrides(a.shape)
    return tuple(new([(i // s) % n for i in sel], (len(sel),), 'i') for n, s in zip(a.shape, st))


@reg('flatnonzero')
def _(x):
    return NP['nonzero'](nd.reshape(asarr(x), (-1,)))[0]


@reg('argwhere')
def _(x):
    return nd.transpose(NP['stack'](list(NP['nonzero'](x))), None)


@reg('count_nonzero')
def _(x, axis=None, **k):
    return nd.reduce_axis(asarr(x), axis, lambda cs: sum(1 for v in cs if D.truth(tobool(v))))


@reg('take')
def _(a, indices, axis=None, out=None, mode='raise'):
    a = asarr(a)
    if axis is None:
        a, axis = nd.reshape(a, (-1,)), 0
    ax = norm_axis(toint(axis), a.ndim)
    ind = asarr(indices)
    if mode == 'wrap':
        ind = asarr(ewise(lambda i: i % a.shape[ax], (ind,)))
    elif mode == 'clip':
        ind = asarr(ewise(lambda i: min(max(i, 0), a.shape[ax] - 1), (ind,)))
    if ind.ndim == 0:
        return nd.getitem(a, (slice(None),) * ax + (toint(ind),))
    return nd.getitem(a, (slice(None),) * ax + (ind,))


@reg('take_along_axis')
def _(a, indices, axis):
    a, ind = asarr(a), asarr(indices)
    ax = norm_axis(axis, a.ndim)
    key = []
    for d in range(a.ndim):
        if d == ax:
            key.append(ind)
        else:
            sh = [1] * a.ndim
            sh[d] = a.shape[d]
            key.append(nd.reshape(NP['arange'](a.shape[d]), sh))
    return nd.getitem(a, tuple(key))


@reg('compress')
def _(cond, a, axis=None):
    a = asarr(a)
    if axis is None:
        a, axis = nd.reshape(a, (-1,)), 0
    return nd.getitem(a, (slice(None),) * axis + (asarr(cond),))


NP['einsum'] = einsum
NP['matmul'] = matmul
NP['dot'] = dot
NP['vdot'] = lambda a, b: dot(nd.reshape(asarr(a), (-1,)), nd.reshape(asarr(b), (-1,)))


@reg('inner')
def _(a, b):
    if not isarr(a) or not isarr(b):
        return mul(a, b)
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return matmul(a, b)
    return NP['tensordot'](a, b, (-1, -1))


@reg('outer')
def _(a, b, out=None):
    a, b = nd.reshape(asarr(a), (-1, 1)), nd.reshape(asarr(b), (1, -1))
    return ewise(s_mul, (a, b))


@reg('tensordot')
def _(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if isinstance(axes, int):
        aa, ba = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        aa, ba = axes
        aa = [aa] if isinstance(aa, int) else list(aa)
        ba = [ba] if isinstance(ba, int) else list(ba)
    L = 'abcdefghijklmnopqrstuvwxyz'
    sa = list(L[:a.ndim])
    sb = list(L[a.ndim:a.ndim + b.ndim])
    for x, y in zip(aa, ba):
        sb[y % b.ndim] = sa[x % a.ndim]
    con = {sa[x % a.ndim] for x in aa}
    o = [ch for ch in sa + sb if ch not in con]
    return einsum(''.join(sa) + ',' + ''.join(sb) + '->' + ''.join(o), a, b)


@reg('kron')
def _(a, b):
    raise Unsupported('kron')


@reg('trace')
def _(a, **k):
    return einsum('ii->', a)


@reg('transpose', 'permute_dims')
def _(a, axes=None):
    return nd.transpose(asarr(a), axes if axes is None else list(axes))


@reg('matrix_transpose')
def _(a):
    return NP['swapaxes'](a, -1, -2)


@reg('swapaxes')
def _(a, i, j):
    a = asarr(a)
    ax = list(range(a.ndim))
    i, j = norm_axis(i, a.ndim), norm_axis(j, a.ndim)
    ax[i], ax[j] = ax[j], ax[i]
    return nd.transpose(a, ax)


@reg('moveaxis')
def _(a, source, destination):
    a = asarr(a)
    s = [source] if isinstance(source, int) else list(source)
    d = [destination] if isinstance(destination, int) else list(destination)
    s = [norm_axis(x, a.ndim) for x in s]
    d = [norm_axis(x, a.ndim) for x in d]
    order = [i for i in range(a.ndim) if i not in s]
    for dd, ss in sorted(zip(d, s)):
        order.insert(dd, ss)
    return nd.transpose(a, order)


@reg('rollaxis')
def _(a, axis, start=0):
    a = asarr(a)
    axis = norm_axis(axis, a.ndim)
    if start < 0:
        start += a.ndim
    if axis < start:
        start -= 1
    order = [i for i in range(a.ndim) if i != axis]
    order.insert(start, axis)
    return nd.transpose(a, order)


@reg('reshape')
def _(a, shape, order='C', **k):
    return nd.reshape(asarr(a), shape if isinstance(shape, (tuple, list)) else (shape,), order)


@reg('ravel')
def _(a, order='C'):
    return nd.reshape(asarr(a), (-1,), 'F' if order == 'F' else 'C')


@reg('squeeze')
def _(a, axis=None):
    return nd.squeeze(asarr(a), axis)


@reg('expand_dims')
def _(a, axis):
    a = asarr(a)
    axs = [axis] if isinstance(axis, int) else list(axis)
    n = a.ndim + len(axs)
    axs = sorted(norm_axis(x, n) for x in axs)
    key = []
    for i in range(n):
        key.append(None if i in axs else slice(None))
    return nd.getitem(a, tuple(key))


@reg('broadcast_to')
def _(a, shape, **k):
    return nd.bto(asarr(a), shape_arg(shape))


@reg('broadcast_arrays')
def _(*xs, **k):
    xs = [asarr(x) for x in xs]
    sh = nd.bshape(*[x.shape for x in xs])
    return tuple(nd.bto(x, sh) for x in xs)


@reg('broadcast_shapes')
def _(*s):
    return nd.bshape(*[shape_arg(x) for x in s])


@reg('tile')
def _(a, reps):
    a = asarr(a)
    reps = [toint(x) for x in (reps if isinstance(reps, (tuple, list)) else (reps,))]
    while len(reps) < a.ndim:
        reps = [1] + reps
    while a.ndim < len(reps):
        a = Arr(a.buf, a.off, (1,) + a.shape, (0,) + a.strides)
    for ax, r in enumerate(reps):
        a = nd.concat([a] * r, ax) if r else nd.getitem(a, (slice(None),) * ax + (slice(0, 0),))
    return asarr(a, copy=True)


@reg('repeat')
def _(a, repeats, axis=None):
    a = asarr(a)
    if axis is None:
        a, axis = nd.reshape(a, (-1,)), 0
    ax = norm_axis(axis, a.ndim)
    n = a.shape[ax]
    rs = [toint(x) for x in asarr(repeats).cells()]
    if len(rs) == 1:
        rs = rs * n
    return nd.getitem(a, (slice(None),) * ax + ([i for i in range(n) for _ in range(rs[i])],))


@reg('flip')
def _(a, axis=None):
    a = asarr(a)
    axs = range(a.ndim) if axis is None else [norm_axis(x, a.ndim) for x in ([axis] if isinstance(axis, int) else axis)]
    return nd.getitem(a, tuple(slice(None, None, -1) if i in axs else slice(None) for i in range(a.ndim)))


NP['flipud'] = lambda a: NP['flip'](a, 0)
NP['fliplr'] = lambda a: NP['flip'](a, 1)


@reg('roll')
def _(a, shift, axis=None):
    a = asarr(a)
    if axis is None:
        return nd.reshape(NP['roll'](nd.reshape(a, (-1,)), shift, 0), a.shape)
    n = a.shape[axis]
    return nd.getitem(a, (slice(None),) * norm_axis(axis, a.ndim) + ([(i - shift) % n for i in range(n)],))


def _cmpkey():
    import functools

    def cmp(x, y):
        if D.truth(s_lt(x, y)):
            return -1
        if D.truth(s_lt(y, x)):
            return 1
        return 0
    return functools.cmp_to_key(cmp)


@reg('unique')
def _(x, return_index=False, return_inverse=False, return_counts=False, **k):
    a = asarr(x)
    cs = a.cells()
    key = _cmpkey()
    order = sorted(range(len(cs)), key=lambda i: key(cs[i]))
    uq, idx, inv, cnt = [], [], [0] * len(cs), []
    for i in order:
        if uq and D.truth(s_eq(uq[-1], cs[i])):
            cnt[-1] += 1
            idx[-1] = min(idx[-1], i)
        else:
            uq.append(cs[i])
            idx.append(i)
            cnt.append(1)
        inv[i] = len(uq) - 1
    res = [new(uq, (len(uq),), a.dtype)]
    if return_index:
        res.append(new(idx, (len(idx),), 'i'))
    if return_inverse:
        res.append(new(inv, a.shape, 'i'))
    if return_counts:
        res.append(new(cnt, (len(cnt),), 'i'))
    return res[0] if len(res) == 1 else tuple(res)


def _argext(mx):
    def red(cs):
        if not cs:
            raise PyExc('ValueError', 'attempt to get argmax of an empty sequence')
        best = 0
        for i in range(1, len(cs)):
            if isinstance(cs[i], (bool, UB)):
                a, b = D.truth(cs[i]), D.truth(cs[best])
                r = (a and not b) if mx else (b and not a)
            else:
                r = D.truth(s_lt(cs[best], cs[i]) if mx else s_lt(cs[i], cs[best]))
            if r:
                best = i
        return best

    def f(x, axis=None, out=None, keepdims=False):
        return nd.reduce_axis(asarr(x), axis, red, keepdims)
    return f


NP['argmax'], NP['argmin'] = _argext(True), _argext(False)


@reg('argsort')
def _(x, axis=-1, **k):
    a = asarr(x)
    if a.ndim != 1:
        raise Unsupported('argsort nd')
    cs, key = a.cells(), _cmpkey()
    return new(sorted(range(len(cs)), key=lambda i: key(cs[i])), (len(cs),), 'i')


@reg('sort')
def _(x, axis=-1, **k):
    a = asarr(x)
    if a.ndim != 1:
        raise Unsupported('sort nd')
    return new(sorted(a.cells(), key=_cmpkey()), a.shape, a.dtype)


@reg('searchsorted')
def _(a, v, side='left', sorter=None):
    cs = asarr(a).cells()

    def f(x):
        for i, y in enumerate(cs):
            if D.truth(s_le(x, y) if side == 'left' else s_lt(x, y)):
                return i
        return len(cs)
    return ewise(f, (v,))


@reg('digitize')
def _(x, bins, right=False):
    return NP['searchsorted'](bins, x, 'left' if right else 'right')


@reg('bincount')
def _(x, weights=None, minlength=0):
    xs = [toint(i) for i in asarr(x).cells()]
    n = max([minlength] + [i + 1 for i in xs])
    r = [0] * n
    ws = asarr(weights).cells() if weights is not None else [1] * len(xs)
    for i, w in zip(xs, ws):
        r[i] = s_add(r[i], w)
    return asarr(r)


@reg('isscalar')
def _(x):
    return isinstance(x, (int, bool, V, str, UB))


@reg('isclose')
def _(a, b, rtol=None, atol=None, equal_nan=False):
    rt = D.c(Fraction(1, 100000)) if rtol is None else tov(rtol)
    at = D.c(Fraction(1, 10 ** 8)) if atol is None else tov(atol)
    return ewise(lambda x, y: D.le(D.absv(D.sub(tov(x), tov(y))), D.add(at, D.mul(rt, D.absv(tov(y))))), (a, b))


@reg('allclose')
def _(a, b, rtol=None, atol=None, equal_nan=False):
    return NP['all'](NP['isclose'](a, b, rtol, atol))


@reg('array_equal')
def _(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    return D.band([s_eq(x, y) for x, y in zip(a.cells(), b.cells())])


@reg('clip')
def _(x, a_min=None, a_max=None, **k):
    if a_min is None:
        a_min = k.get('min')
    if a_max is None:
        a_max = k.get('max')
    r = x
    if a_min is not None:
        r = ewise(UFUNC['maximum'][0], (r, a_min))
    if a_max is not None:
        r = ewise(UFUNC['minimum'][0], (r, a_max))
    return r


@reg('nan_to_num')
def _(x, copy=True, nan=0, **k):
    def f(v):
        if isinstance(v, V) and v.kind == D.NAN:
            return tov(nan)
        return v
    return ewise(f, (x,))


@reg('eye', 'identity')
def _(n, M=None, k=0, dtype=None, **kw):
    n = toint(n)
    m = n if M is None else toint(M)
    dt = dtype_of(dtype) or 'f'
    return new([nd.coerce(1 if j - i == k else 0, dt) for i in range(n) for j in range(m)], (n, m), dt)


@reg('diag')
def _(v, k=0):
    v = asarr(v)
    if v.ndim == 1:
        n = v.size + abs(k)
        z = nd.coerce(0, v.dtype)
        cells = [z] * (n * n)
        for q, x in enumerate(v.cells()):
            i, j = (q, q + k) if k >= 0 else (q - k, q)
            cells[i * n + j] = x
        return new(cells, (n, n), v.dtype)
    return NP['diagonal'](v, k)


@reg('diagonal')
def _(a, offset=0, axis1=0, axis2=1):
    a = asarr(a)
    axis1, axis2 = norm_axis(axis1, a.ndim), norm_axis(axis2, a.ndim)
    n1, n2 = a.shape[axis1], a.shape[axis2]
    off = a.off
    if offset >= 0:
        ln = max(0, min(n1, n2 - offset))
        off += offset * a.strides[axis2]
    else:
        ln = max(0, min(n1 + offset, n2))
        off += -offset * a.strides[axis1]
    keep = [i for i in range(a.ndim) if i not in (axis1, axis2)]
    return Arr(a.buf, off, [a.shape[i] for i in keep] + [ln],
               [a.strides[i] for i in keep] + [a.strides[axis1] + a.strides[axis2]])


@reg('fill_diagonal')
def _(a, val, wrap=False):
    nd.setitem(NP['diagonal'](a), Ellipsis, val)


@reg('diag_indices')
def _(n, ndim=2):
    return tuple(NP['arange'](n) for _ in range(ndim))


@reg('tril_indices', 'triu_indices')
def _(n, k=0, m=None):
    raise Unsupported('tri indices')


def _tri(lower):
    def f(a, k=0):
        a = asarr(a)
        n, m = a.shape[-2:]
        z = nd.coerce(0, a.dtype)
        cs = a.cells()
        return new([v if ((((q // m) % n) - (q % m) >= -k) if lower else ((q % m) - ((q // m) % n) >= k)) else z
                    for q, v in enumerate(cs)], a.shape, a.dtype)
    return f


NP['tril'], NP['triu'] = _tri(True), _tri(False)


@reg('tri')
def _(n, M=None, k=0, dtype=None):
    return NP['tril'](NP['ones']((n, M or n), dtype), k)


@reg('vander')
def _(x, N=None, increasing=False):
    x = asarr(x)
    N = x.size if N is None else toint(N)
    ps = range(N) if increasing else range(N - 1, -1, -1)
    return new([nd.coerce(s_pow(v, p), x.dtype) for v in x.cells() for p in ps], (x.size, N), x.dtype)


@reg('polyval')
def _(p, x):
    cs = asarr(p).cells()

    def f(t):
        acc = 0
        for k in cs:
            acc = s_add(s_mul(acc, t), k)
        return acc
    return ewise(f, (x,))


@reg('meshgrid')
def _(*xs, indexing='xy', sparse=False, copy=True):
    xs = [nd.reshape(asarr(x), (-1,)) for x in xs]
    n = len(xs)
    res = []
    for i, x in enumerate(xs):
        sh = [1] * n
        p = i
        if indexing == 'xy' and n > 1 and i < 2:
            p = 1 - i
        sh[p] = x.size
        res.append(nd.reshape(x, sh))
    full = nd.bshape(*[r.shape for r in res])
    return [r if sparse else asarr(nd.bto(r, full), copy=True) for r in res]


@reg('ix_')
def _(*xs):
    n = len(xs)
    res = []
    for i, x in enumerate(xs):
        sh = [1] * n
        x = asarr(x)
        if x.dtype == 'b':
            x = NP['nonzero'](x)[0]
        sh[i] = x.size
        res.append(nd.reshape(x, sh))
    return tuple(res)


@reg('indices')
def _(dims, **k):
    dims = shape_arg(dims)
    return NP['stack']([nd.bto(nd.reshape(NP['arange'](n), [n if j == i else 1 for j in range(len(dims))]), dims)
                        for i, n in enumerate(dims)])


@reg('shares_memory', 'may_share_memory')
def _(a, b, **k):
    return isinstance(a, Arr) and isinstance(b, Arr) and a.buf is b.buf and bool(set(a.offs()) & set(b.offs()))


@reg('copyto')
def _(dst, src, where=True, **k):
    if where is True:
        nd.setitem(dst, Ellipsis, src)
    else:
        nd.setitem(dst, Ellipsis, NP['where'](where, src, dst))


@reg('put')
def _(a, ind, v, **k):
    nd.setitem(nd.reshape(a, (-1,)), asarr(ind), v)


@reg('array_split', 'split')
def _(a, sections, axis=0):
    a = asarr(a)
    ax = norm_axis(axis, a.ndim)
    n = a.shape[ax]
    if isinstance(sections, int):
        q, r = divmod(n, sections)
        pts, acc = [], 0
        for i in range(sections):
            acc += q + (1 if i < r else 0)
            pts.append(acc)
        pts = pts[:-1]
    else:
        pts = [toint(x) for x in seq(sections)]
    pts = [0] + pts + [n]
    return [nd.getitem(a, (slice(None),) * ax + (slice(i, j),)) for i, j in zip(pts, pts[1:])]


@reg('trapezoid', 'trapz')
def _(y, x=None, dx=1, axis=-1):
    y = asarr(y)
    if y.ndim != 1 or x is None:
        raise Unsupported('trapezoid')
    ys, xs = y.cells(), asarr(x).cells()
    acc = D.ZERO
    for i in range(len(ys) - 1):
        acc = D.add(acc, D.mul(D.c(Fraction(1, 2)), D.mul(D.sub(tov(xs[i + 1]), tov(xs[i])), D.add(tov(ys[i]), tov(ys[i + 1])))))
    return acc


@reg('interp')
def _(*a, **k):
    raise Unsupported('np.interp')


@reg('finfo')
def _(*a):
    class FI:
        eps = D.c(Fraction(1, 2 ** 52))
        tiny = D.c(Fraction(1, 10 ** 307))
        max = D.c(10 ** 308)
        min = D.c(-10 ** 308)
    return FI()


@reg('result_type', 'promote_types', 'common_type')
def _(*a):
    ds = [x.dtype if isinstance(x, Arr) else (nd.cell_dtype(x) if num(x) else dtype_of(x)) for x in a]
    return DType(nd.promote(*ds)) if ds else DType('f')


@reg('issubdtype')
def _(a, b):
    return dtype_of(a) == dtype_of(b)


@reg('iscomplexobj', 'iscomplex')
def _(a):
    return False


@reg('isrealobj')
def _(a):
    return True


@reg('set_printoptions', 'seterr')
def _(*a, **k):
    return {}


@reg('apply_along_axis')
def _(*a, **k):
    raise Unsupported('apply_along_axis')


@reg('fromiter')
def _(it, dtype=None, count=-1):
    return asarr(list(it), dtype_of(dtype))


class DType:
    def __init__(self, dt, low=0):
        self.dt = dt
        self.low = low
        self.name = {'f': 'float64', 'i': 'int64', 'b': 'bool', 'O': 'object', 'c': 'complex128'}[dt]
        self.kind = self.dt
        self.itemsize = 8

    def __eq__(self, o):
        return dtype_of(o) == self.dt

    def __hash__(self):
        return hash(self.dt)

    def __call__(self, x=0):
        if self.low:
            return lower(FLOAT(x), self.low)
        if isinstance(x, (Arr, list, tuple)):
            return asarr(x, self.dt)
        if isinstance(x, str):
            return D.from_float(float(x))
        return nd.coerce(x, self.dt)


FLOAT, INT, BOOL, OBJ = DType('f'), DType('i'), DType('b'), DType('O')
SINGLE, HALF = DType('f', 24), DType('f', 11)


def low_bits(d):
    """Significant bits of a floating type below double precision, else 0."""
    if isinstance(d, str):
        d = d.lstrip('<>=')
        return 24 if d in ('float32', 'single', 'f4', 'f') else 11 if d in ('float16', 'half', 'f2', 'e') else 0
    return getattr(d, 'low', 0) if isinstance(d, DType) else 0


def lower(x, bits):
    """The result of a library function which was asked for a lower-precision type."""
    if isinstance(x, Arr):
        if x.dtype == 'f':
            x = asarr(x, copy=True)
            x.buf.data[:] = [D.rounded(v, bits) for v in x.buf.data]
            x.buf.low = bits
        return x
    if isinstance(x, (tuple, list)):
        return type(x)(lower(y, bits) for y in x)
    return D.rounded(x, bits)


def ufunc_call(name, args, kw):
    fn, n = UFUNC[name]
    if len(args) > n:
        kw = dict(kw)
        kw['out'] = args[n]
        args = args[:n]
    args = list(args)
    if len(args) < n:
        for kk in ('x1', 'x2'):
            if kk in kw:
                args.append(kw[kk])
    if len(args) != n:
        raise PyExc('TypeError', '%s() takes %d arguments' % (name, n))
    o = kw.get('out')
    w = kw.get('where', True)
    if o is not None and isinstance(o, tuple):
        o = o[0]
    if o is None and w is True:
        for a in args:
            if isinstance(a, (list, tuple)) or isinstance(a, Arr) or num(a):
                continue
            raise PyExc('TypeError', 'ufunc %s not supported for %s' % (name, type(a).__name__))
        if name not in UFUNC_KEEP_INT:
            return ewise(fn, args)
        dts = [asarr(a).dtype if isarr(a) else nd.cell_dtype(a) for a in args]
        r = ewise(fn, args)
        dt = nd.promote(*dts)
        if isinstance(r, Arr) and dt in 'fi' and r.dtype != dt:
            r = asarr(r, dt)
        return r
    if o is None:
        sh = nd.bshape(*[asarr(a).shape for a in list(args) + [w]])
        o = nd.full(sh, D.nan(UNINIT), 'f')
    if w is True:
        r = ewise(fn, args)
        if isinstance(r, Arr) and r.shape != o.shape:
            nd.bto(r, o.shape)
        nd.setitem(o, Ellipsis, r)
        return o
    arrs = [nd.bto(asarr(a), o.shape).cells() for a in list(args) + [w]]
    old = o.cells()
    res = []
    for i, t in enumerate(zip(*arrs)):
        c_ = D._res(tobool(t[-1]))
        if isinstance(c_, UB):
            nv = fn(*t[:-1])
            res.append(_phi(c_, nv, old[i]))
        elif c_:
            res.append(fn(*t[:-1]))
        else:
            res.append(old[i])
    nd.setitem(o, Ellipsis, new(res, o.shape, o.dtype))
    return o


def _under(v, k, first, n=6):
    """v with inner joins on the same condition resolved (the value used where that condition is known)."""
    if n == 0 or not isinstance(v, V) or v.kind:
        return v
    if v.op == 'phi' and v.args[0] == k:
        return _under(v.args[1 if first else 2], k, first, n - 1)
    if v.op in ('mul', 'inv', 'neg', 'abs'):
        xs = [_under(x, k, first, n - 1) for x in v.args]
        if any(x is not y for x, y in zip(xs, v.args)):
            return {'mul': D.mul, 'inv': D.inv, 'neg': D.neg, 'abs': D.absv}[v.op](*xs)
    return v


def _phi(cond, a, b):
    """Gated join of two values under an undecided condition (gated SSA phi)."""
    a, b = tov(a), tov(b)
    if D.same(a, b) is True:
        return a
    if a.kind or b.kind:
        return D.top('join of %s and %s' % (a, b), a.deps | b.deps)
    k = (repr(cond.key), cond.neg)
    if cond.neg:
        a, b, k = b, a, (repr(cond.key), False)
    a, b = _under(a, k, True), _under(b, k, False)
    if D.same(a, b) is True:
        return a
    return V(F.hp('phi', k, a.fp, b.fp), F.hq('phi', k, a.fp, b.fp), D.ihull(a.iv, b.iv), 'phi', (k, a, b), a.deps | b.deps)
