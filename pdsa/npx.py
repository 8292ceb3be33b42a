"""Further numpy / scipy transfer functions (less common operations)."""
import math
from fractions import Fraction
from . import dom as D
from . import nd
from . import npm
from .dom import V, UB
from .nd import Arr, PyExc, Unsupported, asarr, ewise, tov, out, new, toint, norm_axis, prod
from .npm import NP, UFUNC, reg, s_add, s_sub, s_mul, s_div, num, isarr, tobool, shape_arg, dtype_of


# ------------------------------------------------------------------ ufuncs
def _heavi(a, h):
    a = tov(a)
    if D.truth(D.lt(a, D.ZERO)):
        return D.ZERO
    return tov(h) if D.truth(D.eq(a, D.ZERO)) else D.ONE


def _trunc(a):
    a = tov(a)
    if a.k is not None:
        return D.c(int(a.k))
    return npm._floor(a) if D.truth(D.le(D.ZERO, a)) else npm.s_neg(npm._floor(npm.s_neg(a)))


UFUNC.update({
    'fmax': UFUNC['maximum'], 'fmin': UFUNC['minimum'], 'heaviside': (_heavi, 2),
    'trunc': (_trunc, 1), 'fix': (_trunc, 1),
    'tanh': (lambda a: D.div(D.sub(D.ONE, D.exp(D.mul(D.c(-2), tov(a)))), D.add(D.ONE, D.exp(D.mul(D.c(-2), tov(a))))), 1),
    'cbrt': (lambda a: D.uf('cbrt', (tov(a),)), 1), 'exp2': (lambda a: D.exp(D.mul(tov(a), D.log(D.c(2)))), 1),
    'log2': (lambda a: D.div(D.log(tov(a)), D.log(D.c(2))), 1), 'log10': (lambda a: D.div(D.log(tov(a)), D.log(D.c(10))), 1),
    'rad2deg': (lambda a: D.div(D.mul(tov(a), D.c(180)), D.PI), 1), 'degrees': (lambda a: D.div(D.mul(tov(a), D.c(180)), D.PI), 1),
    'arcsin': (lambda a: D.uf('arcsin', (tov(a),)), 1), 'arctan': (lambda a: D.uf('arctan', (tov(a),)), 1),
    'signbit': (lambda a: npm.s_lt(a, 0), 1),
    'copysign': (lambda a, b: npm.s_neg(npm.s_abs(a)) if D.truth(npm.s_lt(b, 0)) else npm.s_abs(a), 2),
    'bitwise_xor': (npm.b_xor, 2),
    'fmod': (npm.s_mod, 2),
})
npm.UFUNC_KEEP_INT |= {'fmax', 'fmin'}


# ------------------------------------------------------------------ reductions
@reg('var')
def _var(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = asarr(x)
    m = NP['mean'](a, axis, None, True)
    d = ewise(s_sub, (a, m))
    s = NP['sum'](ewise(s_mul, (d, d)), axis, None, None, keepdims)
    n = a.size if axis is None else prod([a.shape[norm_axis(i, a.ndim)] for i in (axis if isinstance(axis, tuple) else (axis,))])
    return ewise(s_div, (s, n - toint(ddof)))


@reg('std')
def _std(x, *a, **k):
    return ewise(lambda v: D.sqrt(tov(v)), (_var(x, *a, **k),))


@reg('nansum')
def _nansum(x, axis=None, **k):
    return NP['sum'](NP['nan_to_num'](asarr(x)), axis, **k)


NP['nanmax'] = NP['max'] if 'max' in NP else None
NP['nanmin'] = NP['min'] if 'min' in NP else None
NP['nanmean'] = NP['mean']
for _k in ('nanmax', 'nanmin'):
    if NP[_k] is None:
        del NP[_k]


def _sort1(cs):
    return NP['sort'](new(cs, (len(cs),), 'f' if any(isinstance(c, V) for c in cs) else 'i')).cells()


@reg('median')
def _median(x, axis=None, **k):
    def f(cs):
        s = _sort1(cs)
        n = len(s)
        return tov(s[n // 2]) if n % 2 else D.mul(D.c(Fraction(1, 2)), D.add(tov(s[n // 2 - 1]), tov(s[n // 2])))
    return nd.reduce_axis(asarr(x), axis, f)


def along(a, axis, fn, dt=None):
    """apply fn(list)->list along an axis (same length or not)"""
    a = asarr(a)
    if axis is None:
        a, axis = nd.reshape(a, (-1,)), 0
    ax = norm_axis(toint(axis), a.ndim)
    rest = [i for i in range(a.ndim) if i != ax]
    t = nd.transpose(a, rest + [ax])
    n, cs = a.shape[ax], t.cells()
    res, m = [], None
    for q in range(prod(t.shape[:-1])):
        r = list(fn(cs[q * n:(q + 1) * n]))
        m = len(r)
        res += r
    if m is None:
        m = n
    dt = dt or (nd.promote(*[nd.cell_dtype(x) for x in res]) if res else a.dtype)
    r = new([nd.coerce(x, dt) for x in res], t.shape[:-1] + (m,), dt)
    inv = list(range(ax)) + [a.ndim - 1] + list(range(ax, a.ndim - 1))
    return asarr(nd.transpose(r, inv), copy=True)


_sort_1d, _argsort_1d = NP['sort'], NP['argsort']


@reg('sort')
def _sort(x, axis=-1, **k):
    a = asarr(x)
    if a.ndim <= 1 and axis in (-1, 0, None):
        return _sort_1d(a)
    return along(a, axis, lambda cs: _sort_1d(new(cs, (len(cs),), a.dtype)).cells(), a.dtype)


@reg('argsort')
def _argsort(x, axis=-1, **k):
    a = asarr(x)
    if a.ndim <= 1:
        return _argsort_1d(a)
    return along(a, axis, lambda cs: _argsort_1d(new(cs, (len(cs),), a.dtype)).cells(), 'i')


@reg('partition')
def _partition(x, kth, axis=-1, **k):
    return _sort(x, axis)


@reg('argpartition')
def _argpartition(x, kth, axis=-1, **k):
    return _argsort(x, axis)


@reg('lexsort')
def _lexsort(keys, axis=-1):
    keys = [asarr(k) for k in npm.seq(keys)]
    idx = list(range(keys[0].size))
    for k in keys:
        o = _argsort_1d(new([k.cells()[i] for i in idx], (len(idx),), k.dtype)).cells()
        idx = [idx[i] for i in o]
    return asarr(idx)


# ------------------------------------------------------------------ set operations
@reg('isin', 'in1d')
def _isin(x, test, assume_unique=False, invert=False, **k):
    ts = asarr(test).cells()
    r = ewise(lambda v: D.bor([npm.s_eq(v, t) for t in ts]) if ts else False, (x,), 'b')
    return NP_not(r) if invert else r


def NP_not(r):
    return ewise(lambda v: D.bnot(tobool(v)), (r,), 'b')


def _uniq(x):
    return NP['unique'](x)


@reg('setdiff1d')
def _setdiff1d(a, b, **k):
    u = _uniq(asarr(a))
    return nd.getitem(u, asarr(NP_not(_isin(u, b))))


@reg('intersect1d')
def _intersect1d(a, b, **k):
    u = _uniq(asarr(a))
    return nd.getitem(u, asarr(_isin(u, b)))


@reg('union1d')
def _union1d(a, b):
    return _uniq(nd.concat([asarr(a), asarr(b)], None))


@reg('extract')
def _extract(c_, a):
    return nd.getitem(nd.reshape(asarr(a), (-1,)), nd.reshape(asarr(asarr(c_), 'b'), (-1,)))


@reg('putmask', 'place')
def _putmask(a, mask, v):
    va = asarr(v)
    if va.size == 1:
        vs = va.cells() * a.size
    else:
        vs = [va.cells()[i % va.size] for i in range(a.size)]
    NP['copyto'](a, new(vs, a.shape, va.dtype), where=asarr(mask, 'b'))


@reg('choose')
def _choose(idx, choices, **k):
    cs = [asarr(c_) for c_ in npm.seq(choices)]
    return ewise(lambda i, *t: t[toint(i)], [idx] + cs)


# ------------------------------------------------------------------ shapes, splitting
def _split(ax):
    def f(a, s):
        a = asarr(a)
        return NP['split'](a, s, axis=ax if a.ndim > ax else 0)
    return f


NP['hsplit'], NP['vsplit'], NP['dsplit'] = _split(1), _split(0), _split(2)


@reg('ndindex')
def _ndindex(*sh):
    if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
        sh = sh[0]
    idx = [()]
    for n in sh:
        idx = [i + (j,) for i in idx for j in range(toint(n))]
    return idx


@reg('ndenumerate')
def _ndenum(a):
    return list(npm._enum(asarr(a)))


@reg('unravel_index')
def _unravel(i, shape, **k):
    sh = shape_arg(shape)
    st = nd.cstrides(sh)
    r = [ewise(lambda v, s=s, n=n: (toint(v) // s) % n, (i,)) for s, n in zip(st, sh)]
    return tuple(r)


@reg('ravel_multi_index')
def _ravelmi(mi, dims, **k):
    sh = shape_arg(dims)
    acc = 0
    for v, s in zip(npm.seq(mi), nd.cstrides(sh)):
        acc = ewise(s_add, (acc, ewise(s_mul, (v, s))))
    return acc


@reg('iterable')
def _iterable(x):
    return isinstance(x, (list, tuple, dict, str, set, range)) or isinstance(x, Arr) and x.ndim > 0


@reg('rot90')
def _rot90(m, k=1, axes=(0, 1)):
    a = asarr(m)
    for _ in range(toint(k) % 4):
        a = NP['flip'](NP['swapaxes'](a, axes[0], axes[1]), axes[0])
    return a


@reg('pad')
def _pad(a, pad_width, mode='constant', constant_values=0, **k):
    a = asarr(a)
    pw = asarr(pad_width)
    if pw.ndim == 0:
        ps = [(pw.cells()[0],) * 2] * a.ndim
    else:
        ps = [tuple(t) for t in zip(*[iter(nd.bto(pw if pw.ndim == 2 else nd.reshape(pw, (1, -1)), (a.ndim, 2)).cells())] * 2)]
    cv = asarr(constant_values)
    if cv.ndim:
        cv = nd.bto(cv if cv.ndim == 2 else nd.reshape(cv, (1, -1)), (a.ndim, 2)).cells()
        cvs = list(zip(cv[::2], cv[1::2]))
    else:
        cvs = [(cv.cells()[0],) * 2] * a.ndim
    for ax, ((p, q), (cl, cr)) in enumerate(zip(ps, cvs)):
        p, q = toint(p), toint(q)
        if mode == 'edge':
            n = a.shape[ax]
            idx = [0] * p + list(range(n)) + [n - 1] * q
            a = NP['take'](a, idx, ax)
        elif mode == 'constant':
            def blk(w, c_):
                sh = list(a.shape)
                sh[ax] = w
                return nd.full(sh, nd.coerce(c_, a.dtype), a.dtype)
            a = nd.concat([blk(p, cl), a, blk(q, cr)], ax)
        else:
            raise Unsupported('pad mode')
    return asarr(a, copy=True)


class RMaker:
    def __init__(self, col):
        self.col = col

    def get(self, key):
        ks = key if isinstance(key, tuple) else (key,)
        xs = []
        for k in ks:
            if isinstance(k, str):
                raise Unsupported('np.r_ directive')
            if isinstance(k, slice):
                xs.append(_sl_arr(k))
            else:
                xs.append(asarr(k))
        if self.col:
            xs = [nd.reshape(x, (-1, 1)) if x.ndim <= 1 else x for x in xs]
            return nd.concat(xs, -1)
        n = max(x.ndim for x in xs)
        if n == 0:
            n = 1
        xs = [nd.reshape(x, (1,) * (n - x.ndim) + x.shape) if x.ndim < n else x for x in xs]
        return nd.concat(xs, 0)


def _sl_arr(k):
    start = 0 if k.start is None else k.start
    if type(k.step).__name__ == 'Complex':
        return NP['linspace'](start, k.stop, k.step.im)
    return NP['arange'](start, k.stop, 1 if k.step is None else k.step)


class GridMaker:
    def __init__(self, dense):
        self.dense = dense

    def get(self, key):
        if isinstance(key, slice):
            return _sl_arr(key)
        xs = [_sl_arr(k) for k in key]
        n = len(xs)
        xs = [nd.reshape(x, [x.size if i == j else 1 for j in range(n)]) for i, x in enumerate(xs)]
        if not self.dense:
            return tuple(xs)
        sh = nd.bshape(*[x.shape for x in xs])
        return NP['stack']([nd.bto(x, sh) for x in xs])


@reg('block')
def _block(rows):
    def depth(x):
        return 1 + depth(x[0]) if isinstance(x, list) else 0
    dep = depth(rows)

    def leaves(x):
        return [z for y in x for z in leaves(y)] if isinstance(x, list) else [asarr(x)]
    n = max([dep] + [x.ndim for x in leaves(rows)])

    def blk(x, d):
        if isinstance(x, list):
            return nd.concat([blk(y, d + 1) for y in x], n - dep + d)
        a = asarr(x)
        return nd.reshape(a, (1,) * (n - a.ndim) + a.shape)
    return blk(rows, 0)


def _tri_idx(lower):
    def f(n, k=0, m=None):
        n, k = toint(n), toint(k)
        m = n if m is None else toint(m)
        ij = [(i, j) for i in range(n) for j in range(m) if (j - i <= k if lower else j - i >= k)]
        return (asarr([i for i, _ in ij], 'i'), asarr([j for _, j in ij], 'i'))
    return f


NP['tril_indices'], NP['triu_indices'] = _tri_idx(True), _tri_idx(False)
NP['tril_indices_from'] = lambda a, k=0: _tri_idx(True)(a.shape[-2], k, a.shape[-1])
NP['triu_indices_from'] = lambda a, k=0: _tri_idx(False)(a.shape[-2], k, a.shape[-1])
NP['diag_indices_from'] = lambda a: NP['diag_indices'](a.shape[0], a.ndim)

_arange_i = NP['arange']


@reg('arange')
def _arange(start, stop=None, step=1, dtype=None, **k):
    vs = [x for x in (start, stop, step) if isinstance(x, V)]
    if vs and all(x.k is not None for x in vs):
        if stop is None:
            start, stop = 0, start
        a, b, s = [tov(x).k for x in (start, stop, step)]
        n = max(0, math.ceil((b - a) / s))
        r = new([D.c(a + i * s) for i in range(n)], (n,), 'f')
        return asarr(r, dtype_of(dtype))
    return _arange_i(start, stop, step, dtype, **k)


@reg('logspace')
def _logspace(a, b, num=50, endpoint=True, base=10, **k):
    return ewise(lambda v: D.vpow(tov(base), tov(v)), (NP['linspace'](a, b, num, endpoint),))


@reg('geomspace')
def _geomspace(a, b, num=50, endpoint=True, **k):
    n = toint(num)
    q = D.div(tov(b), tov(a))
    m = n - 1 if endpoint else n
    return new([D.mul(tov(a), D.vpow(q, D.c(Fraction(i, m)))) for i in range(n)], (n,), 'f')


# ------------------------------------------------------------------ calculus-like
@reg('trapezoid', 'trapz')
def _trapz(y, x=None, dx=1, axis=-1):
    y = asarr(y)
    half = D.c(Fraction(1, 2))
    if x is not None:
        xa = asarr(x)
        if xa.ndim == 1:
            d = NP['diff'](xa)
            sh = [1] * y.ndim
            sh[norm_axis(axis, y.ndim)] = d.size
            d = nd.reshape(d, sh)
        else:
            d = NP['diff'](xa, axis=axis)
    else:
        d = dx
    ax = norm_axis(axis, y.ndim)
    pre = (slice(None),) * ax
    s = ewise(s_add, (nd.getitem(y, pre + (slice(1, None),)), nd.getitem(y, pre + (slice(None, -1),))))
    return NP['sum'](ewise(lambda a, b: D.mul(half, D.mul(tov(a), tov(b))), (d, s)), ax)


@reg('gradient')
def _gradient(f, *args, **k):
    a = asarr(f)
    if a.ndim != 1 or len(args) > 1 or k:
        raise Unsupported('gradient variant')
    h = args[0] if args else 1
    if isarr(h):
        raise Unsupported('gradient variant')
    cs, n = [tov(x) for x in a.cells()], a.size
    h = tov(h)
    r = [D.div(D.sub(cs[1], cs[0]), h)]
    r += [D.div(D.sub(cs[i + 1], cs[i - 1]), D.mul(D.c(2), h)) for i in range(1, n - 1)]
    r.append(D.div(D.sub(cs[-1], cs[-2]), h))
    return new(r, (n,), 'f')


@reg('interp')
def _interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('np.interp period')
    xs, ys = [tov(v) for v in asarr(xp).cells()], [tov(v) for v in asarr(fp).cells()]

    def f(v):
        v = tov(v)
        if D.truth(D.lt(v, xs[0])):
            return ys[0] if left is None else tov(left)
        if D.truth(D.lt(xs[-1], v)):
            return ys[-1] if right is None else tov(right)
        for i in range(len(xs) - 1):
            if i == len(xs) - 2 or D.truth(D.lt(v, xs[i + 1])):
                sl = D.div(D.sub(ys[i + 1], ys[i]), D.sub(xs[i + 1], xs[i]))
                return D.add(D.mul(sl, D.sub(v, xs[i])), ys[i])
        return ys[0]
    return ewise(f, (x,))


@reg('convolve')
def _convolve(a, v, mode='full'):
    x, y = asarr(a).cells(), asarr(v).cells()
    n, m = len(x), len(y)
    r = [npm.vsum([s_mul(x[j], y[i - j]) for j in range(n) if 0 <= i - j < m]) for i in range(n + m - 1)]
    if mode == 'valid':
        r = r[min(n, m) - 1: max(n, m)]
    elif mode == 'same':
        o = (min(n, m) - 1) // 2
        r = r[o:o + max(n, m)]
    return asarr(r)


@reg('cross')
def _cross(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.shape != (3,) or b.shape != (3,):
        raise Unsupported('cross nd')
    x, y = a.cells(), b.cells()
    return asarr([s_sub(s_mul(x[i], y[j]), s_mul(x[j], y[i])) for i, j in ((1, 2), (2, 0), (0, 1))])


@reg('kron')
def _kron(a, b):
    a, b = asarr(a), asarr(b)
    n = max(a.ndim, b.ndim)
    a = nd.reshape(a, (1,) * (n - a.ndim) + a.shape)
    b = nd.reshape(b, (1,) * (n - b.ndim) + b.shape)
    a2 = nd.reshape(a, [d for s in a.shape for d in (s, 1)])
    b2 = nd.reshape(b, [d for s in b.shape for d in (1, s)])
    return nd.reshape(asarr(ewise(s_mul, (a2, b2))), [s * t for s, t in zip(a.shape, b.shape)])


# ------------------------------------------------------------------ polynomials
def _tensor(x, c_, basis, tensor=True):
    """sum_k c[k] * basis(k, x)  (numpy.polynomial's tensor convention)"""
    c_ = asarr(c_)
    xa = asarr(x)
    if c_.ndim > 1 and tensor:
        c_ = nd.reshape(c_, c_.shape + (1,) * xa.ndim)
    acc = None
    for k in range(c_.shape[0]):
        t = ewise(s_mul, (nd.getitem(c_, k), ewise(lambda v, k=k: basis(k, tov(v)), (x,))))
        acc = t if acc is None else ewise(s_add, (acc, t))
    return acc


def pow_basis(k, x):
    return D.ipow(x, k)


def leg_basis(k, x):
    return npm.poly_eval(npm.legendre_poly(k), x)


def cheb_basis(k, x):
    a, b = [Fraction(1)], [Fraction(0), Fraction(1)]
    for _ in range(k):
        c_ = [Fraction(0)] + [2 * v for v in b]
        for i, v in enumerate(a):
            c_[i] -= v
        a, b = b, c_
    return npm.poly_eval(a, x)


def vander(basis):
    def f(x, deg):
        a = asarr(x)
        deg = toint(deg)
        return new([nd.coerce(basis(k, tov(v)), 'f') for v in a.cells() for k in range(deg + 1)], a.shape + (deg + 1,), 'f')
    return f


def polyval_new(basis):
    return lambda x, c, tensor=True: _tensor(x, c, basis, tensor)


class PolyObj:
    def __init__(self, coef, basis=pow_basis, **k):
        if k.get('domain') is not None or k.get('window') is not None:
            raise Unsupported('polynomial domain')
        self.coef, self.basis = asarr(coef), basis

    def __call__(self, x):
        return _tensor(x, self.coef, self.basis)

    def d(self, m=1):
        cs = self.coef.cells()
        for _ in range(toint(m)):
            cs = [s_mul(i, c_) for i, c_ in enumerate(cs)][1:] or [0]
        return PolyObj(asarr(cs))

    def integ(self, m=1):
        cs = self.coef.cells()
        for _ in range(toint(m)):
            cs = [D.ZERO] + [D.div(tov(c_), D.c(i + 1)) for i, c_ in enumerate(cs)]
        return PolyObj(asarr(cs))


def polyder(c, m=1, scl=1, axis=0):
    c = asarr(c)
    for _ in range(toint(m)):
        n = c.shape[0]
        if n == 1:
            return nd.full(c.shape, D.ZERO, 'f')
        k = nd.reshape(_arange_i(1, n), (n - 1,) + (1,) * (c.ndim - 1))
        c = ewise(s_mul, (nd.getitem(c, slice(1, None)), k))
    return c


def polyint(c, m=1, k=0, lbnd=0, scl=1, axis=0):
    c = asarr(c)
    if toint(m) != 1 or lbnd != 0 or scl != 1:
        raise Unsupported('polyint variant')
    n = c.shape[0]
    d = nd.reshape(_arange_i(1, n + 1), (n,) + (1,) * (c.ndim - 1))
    k0 = nd.bto(asarr(k), (1,) + c.shape[1:]) if not isinstance(k, (list, tuple)) else nd.bto(asarr(k[0]), (1,) + c.shape[1:])
    return nd.concat([k0, asarr(ewise(s_div, (c, d)))], 0)


# ------------------------------------------------------------------ linear algebra
def det(a):
    a = asarr(a)
    n = a.shape[-1]
    cs = a.cells()
    res = []

    def dt(M):
        m = len(M)
        if m == 0:
            return 1
        if m == 1:
            return M[0][0]
        acc = 0
        for j in range(m):
            t = s_mul(M[0][j], dt([r[:j] + r[j + 1:] for r in M[1:]]))
            acc = s_add(acc, t) if j % 2 == 0 else s_sub(acc, t)
        return acc
    if n > 6:
        raise Unsupported('det of a large matrix')
    for q in range(prod(a.shape[:-2])):
        c_ = cs[q * n * n:(q + 1) * n * n]
        res.append(tov(dt([c_[i * n:(i + 1) * n] for i in range(n)])))
    return out(new(res, a.shape[:-2], 'f'))


def norm(a, ord=None, axis=None, keepdims=False):
    a = asarr(a)
    inf = isinstance(ord, V) and ord.kind == D.INF
    vec = a.ndim == 1 or isinstance(axis, int)
    if ord is None or ord == 'fro' or (type(ord) is int and ord == 2 and vec):
        sq = ewise(s_mul, (a, a))
        return ewise(lambda v: D.sqrt(tov(v)), (NP['sum'](sq, axis, None, None, keepdims),))
    if vec and inf:
        return NP['max'](ewise(npm.s_abs, (a,)), axis, keepdims=keepdims)
    if vec and type(ord) is int and ord == 1:
        return NP['sum'](ewise(npm.s_abs, (a,)), axis, None, None, keepdims)
    raise Unsupported('norm ord')


def matrix_power(a, n):
    a, n = asarr(a), toint(n)
    if n < 0:
        a, n = npm.la_inv(a), -n
    r = NP['eye'](a.shape[-1])
    for _ in range(n):
        r = npm.matmul(r, a)
    return r


def toeplitz(c, r=None):
    c = asarr(c).cells()
    r = c if r is None else asarr(r).cells()
    return asarr([[c[i - j] if i >= j else r[j - i] for j in range(len(r))] for i in range(len(c))])


def exprel(x):
    def f(v):
        v = tov(v)
        return D.ONE if D.truth(D.eq(v, D.ZERO)) else D.div(D.sub(D.exp(v), D.ONE), v)
    return ewise(f, (x,))


def dct(x, type=2, n=None, axis=-1, norm=None, **kw):
    x = asarr(x)
    if type != 1 or n is not None or norm is not None or x.ndim != 1:
        raise Unsupported('dct variant')
    r = npm.idct(x, type=1)
    return ewise(s_mul, (r, 2 * (x.size - 1)))


def gammaln(x):
    return ewise(lambda v: D.log(tov(npm.gamma_scalar(v))), (x,))



# names that current numpy no longer provides
for _n in ('row_stack', 'trapz', 'in1d'):
    NP.pop(_n, None)


# ------------------------------------------------------------------ factorisations and triangular systems
_LU = {}


def lu_factor(a, *args, **k):
    """The factors are opaque cells; lu_solve knows the matrix they came from."""
    a = asarr(a, copy=True)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise PyExc('ValueError', 'expected square matrix')
    n = a.shape[0]
    lu = new([D.top('LU factor', tov(v).deps) for v in a.cells()], a.shape, 'f')
    piv = new(list(range(n)), (n,), 'i')
    if len(_LU) > 4096:
        _LU.clear()
    _LU[id(lu.buf)] = (lu.buf, a)
    return lu, piv


def lu_solve(lu_and_piv, b, trans=0, **k):
    lu = lu_and_piv[0]
    rec = _LU.get(id(lu.buf)) if isinstance(lu, Arr) else None
    if rec is None or rec[0] is not lu.buf:
        raise Unsupported('lu_solve with factors of unknown origin')
    a = rec[1]
    if toint(trans):
        a = nd.transpose(a, None)
    return npm.la_solve(a, b)


def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, **k):
    a = asarr(a)
    if a.ndim != 2:
        raise Unsupported('batched solve_triangular')
    n = a.shape[0]
    low = D.truth(tobool(lower))
    cs = [tov(v) for v in a.cells()]
    one = D.truth(tobool(unit_diagonal))
    t = [[(D.ONE if one and i == j else cs[i * n + j]) if (j <= i if low else j >= i) else D.ZERO for j in range(n)] for i in range(n)]
    m = new([x for r in t for x in r], (n, n), 'f')
    if trans in (1, 'T', 2, 'C'):
        m = nd.transpose(m, None)
    return npm.la_solve(m, b)


def lstsq(a, b, *args, **k):
    a = asarr(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise Unsupported('lstsq of a rectangular system')
    n = a.shape[0]
    return npm.la_solve(a, b), new([], (0,), 'f'), n, new([D.top('singular value')] * n, (n,), 'f')


def pinv(a, *args, **k):
    a = asarr(a)
    if a.ndim < 2 or a.shape[-1] != a.shape[-2]:
        raise Unsupported('pinv of a rectangular matrix')
    return npm.la_inv(a)


def dense(x):
    return x.a if isinstance(x, npm.Sparse) else x


def sp_spsolve(a, b, *args, **k):
    return npm.la_solve(dense(a), dense(b))


def sp_block_diag(mats, format=None, dtype=None):
    xs = [NP['atleast_2d'](dense(x)) for x in mats]
    n, m = sum(x.shape[0] for x in xs), sum(x.shape[1] for x in xs)
    r = nd.full((n, m), D.ZERO, 'f')
    i = j = 0
    for x in xs:
        nd.setitem(r, (slice(i, i + x.shape[0]), slice(j, j + x.shape[1])), x)
        i += x.shape[0]
        j += x.shape[1]
    return npm.Sparse(r)


def sp_triplet(data, ij, shape):
    """(data, (i, j)) constructor: duplicates are summed."""
    i, j = [[toint(v) for v in asarr(x).cells()] for x in ij]
    d = [tov(v) for v in asarr(data).cells()]
    if shape is None:
        shape = (max(i) + 1, max(j) + 1)
    n, m = [toint(s) for s in shape]
    cells = [D.ZERO] * (n * m)
    for v, a, b in zip(d, i, j):
        if not (0 <= a < n and 0 <= b < m):
            raise PyExc('ValueError', 'index exceeds matrix dimension')
        cells[a * m + b] = D.add(cells[a * m + b], v)
    return npm.Sparse(new(cells, (n, m), 'f'))


def sp_bmat(blocks, format=None, dtype=None):
    sizes_r, sizes_c = {}, {}
    for i, row in enumerate(blocks):
        for j, b in enumerate(row):
            if b is not None:
                s = asarr(dense(b)).shape
                sizes_r[i], sizes_c[j] = s
    rows = []
    for i, row in enumerate(blocks):
        rows.append(NP['hstack']([asarr(dense(b), 'f') if b is not None else nd.full((sizes_r[i], sizes_c[j]), D.ZERO, 'f') for j, b in enumerate(row)]))
    return npm.Sparse(NP['vstack'](rows))


def assoc_legendre_p(n, m, z, **k):
    """scipy.special.assoc_legendre_p: like lpmv (Condon-Shortley phase), order (degree, order, argument)."""
    if k.get('norm') or k.get('diff_n'):
        raise Unsupported('assoc_legendre_p variant')
    r = ewise(npm.lpmv_scalar, (m, n, z))
    r = asarr(r)
    return nd.reshape(r, (1,) + r.shape)


def lpmn(m, n, z):
    m, n = toint(m), toint(n)
    v = [npm.lpmv_scalar(i, j, z) for i in range(m + 1) for j in range(n + 1)]
    return new(v, (m + 1, n + 1), 'f'), new([D.top('derivative of a Legendre function')] * len(v), (m + 1, n + 1), 'f')


def roots_legendre(n, mu=False):
    x, w = npm.leggauss(n)
    return (x, w, D.c(2)) if mu else (x, w)


def perm(n, k, exact=False):
    return ewise(lambda a, b: npm.poch_scalar(npm.s_add(npm.s_sub(a, b), 1), b), (n, k))


def rgamma(n):
    return ewise(lambda v: D.inv(tov(npm.gamma_scalar(v))), (n,))


def eval_poly_obj(n):
    return npm.LegendreObj(new([D.ZERO] * toint(n) + [D.ONE], (toint(n) + 1,), 'f'))
