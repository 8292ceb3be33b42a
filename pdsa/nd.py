"""Array abstract domain: fully expanded arrays over shared buffers (views keep numpy's
offset/stride structure, so aliasing and in-place effects are tracked exactly)."""
from . import dom as D
from .dom import V, UB


class PyExc(Exception):
    """An abstract Python exception raised by the analysed program."""
    def __init__(self, name, msg='', value=None):
        Exception.__init__(self, name, msg)
        self.name = name
        self.msg = msg
        self.value = value
        self.loc = D.CTX.loc


class Unsupported(Exception):
    """A construct the analyser does not model (verdict becomes undecided)."""
    def __init__(self, msg):
        Exception.__init__(self, '%s at %s' % (msg, D.CTX.loc))


class Buf:
    __slots__ = ('data', 'dtype', 'owner', 'readonly', 'low')

    def __init__(self, data, dtype, owner=None):
        self.data = data
        self.dtype = dtype
        self.owner = owner
        self.readonly = False
        self.low = 0            # significant bits of a lower-precision buffer


def prod(t):
    r = 1
    for x in t:
        r *= x
    return r


def cstrides(shape):
    st, acc = [], 1
    for n in reversed(shape):
        st.append(acc)
        acc *= n
    return tuple(reversed(st))


def fstrides(shape):
    st, acc = [], 1
    for n in shape:
        st.append(acc)
        acc *= n
    return tuple(st)


def offsets(off, shape, strides):
    res = [off]
    for n, s in zip(shape, strides):
        if s == 0 and n != 1:
            res = [o for o in res for _ in range(n)]
        else:
            res = [o + s * i for o in res for i in range(n)]
    return res


class Arr:
    __slots__ = ('buf', 'off', 'shape', 'strides')

    def __init__(self, buf, off, shape, strides):
        self.buf = buf
        self.off = off
        self.shape = tuple(shape)
        self.strides = tuple(strides)

    dtype = property(lambda s: s.buf.dtype)
    ndim = property(lambda s: len(s.shape))
    size = property(lambda s: prod(s.shape))

    def offs(self):
        return offsets(self.off, self.shape, self.strides)

    def cells(self):
        d = self.buf.data
        return [d[o] for o in self.offs()]

    def __repr__(self):
        return 'Arr%s%s' % (self.shape, self.dtype)

    def traced(self):
        return any(type(x) is V and x.deps for x in self.cells())


RANK = {'b': 0, 'i': 1, 'f': 2, 'c': 3, 'O': 4}


def promote(*ts):
    return max(ts, key=lambda t: RANK[t])


def cell_dtype(x):
    if x is True or x is False or isinstance(x, UB):
        return 'b'
    if isinstance(x, int):
        return 'i'
    if isinstance(x, V):
        return 'f'
    return 'O'


def tov(x):
    """Scalar -> V."""
    if isinstance(x, V):
        return x
    if x is True:
        return D.ONE
    if x is False:
        return D.ZERO
    if isinstance(x, int):
        return D.c(x)
    if isinstance(x, UB):
        r = D._res(x)
        if isinstance(r, UB):
            # 0/1 value of an undecided condition: partition the trace
            return D.ONE if D.truth(x) else D.ZERO
        return D.ONE if r else D.ZERO
    if isinstance(x, Arr) and x.size == 1 and x.ndim == 0:
        return tov(x.cells()[0])
    if isinstance(x, str):
        raise PyExc('ValueError', 'string where a number is expected')
    raise PyExc('TypeError', 'cannot convert %r to a number' % (type(x).__name__,))


def coerce(x, dt):
    if dt == 'f' or dt == 'c':
        return tov(x)
    if dt == 'O':
        return x
    if dt == 'i':
        if type(x) is int:
            return x
        if x is True or x is False:
            return int(x)
        if isinstance(x, UB):
            return int(D.truth(x))
        if isinstance(x, V):
            if x.k is not None:
                return int(x.k)
            if x.kind:
                return x
            return D.uf('trunc', (x,))
        return x
    if dt == 'b':
        if isinstance(x, (bool, UB)):
            return x
        if isinstance(x, int):
            return x != 0
        if isinstance(x, V):
            return D.bnot(D.eq(x, D.ZERO))
    return x


def wrap64(x):
    return x if type(x) is not int or -2 ** 63 <= x < 2 ** 63 else (x + 2 ** 63) % 2 ** 64 - 2 ** 63


def new(cells, shape, dtype, order='C'):
    shape = tuple(shape)
    if dtype == 'i':
        cells = [wrap64(x) for x in cells]                 # integer arrays hold 64-bit integers
    if order == 'F' and len(shape) > 1:
        st = fstrides(shape)
        data = [None] * len(cells)
        for o, x in zip(offsets(0, shape, st), cells):
            data[o] = x
        return Arr(Buf(data, dtype), 0, shape, st)
    return Arr(Buf(list(cells), dtype), 0, shape, cstrides(shape))


def full(shape, x, dtype, order='C'):
    return new([x] * prod(shape), shape, dtype, order)


def is_seq(x):
    return isinstance(x, (list, tuple, range)) or type(x).__name__ in ('map', 'zip', 'generator')


def asarr(x, dtype=None, copy=False):
    if isinstance(x, Arr):
        if dtype is not None and dtype != x.dtype:
            return new([coerce(v, dtype) for v in x.cells()], x.shape, dtype)
        if copy:
            return new(x.cells(), x.shape, x.dtype)
        return x
    if isinstance(x, (list, tuple, range)):
        items = [asarr(y) if isinstance(y, (list, tuple, range, Arr)) else y for y in x]
        if any(isinstance(y, Arr) for y in items):
            items = [y if isinstance(y, Arr) else asarr(y) for y in items]
            sh = items[0].shape
            if any(y.shape != sh for y in items):
                raise PyExc('ValueError', 'inhomogeneous shape')
            dt = dtype or promote(*[y.dtype for y in items])
            cells = []
            for y in items:
                cells.extend(coerce(v, dt) for v in y.cells())
            return new(cells, (len(items),) + sh, dt)
        if not items:
            return new([], (0,), dtype or 'f')
        dt = dtype or promote(*[cell_dtype(y) for y in items])
        return new([coerce(y, dt) for y in items], (len(items),), dt)
    dt = dtype or cell_dtype(x)
    return new([coerce(x, dt)], (), dt)


def bshape(*shapes):
    n = max((len(s) for s in shapes), default=0)
    out = []
    for i in range(n):
        d = 1
        for s in shapes:
            k = i - (n - len(s))
            if k >= 0 and s[k] != 1:
                if d != 1 and d != s[k]:
                    raise PyExc('ValueError', 'operands could not be broadcast together with shapes '
                                + ' '.join(map(str, shapes)))
                d = s[k]
        out.append(d)
    return tuple(out)


def bto(a, shape):
    """Broadcast view."""
    shape = tuple(shape)
    n = len(shape)
    if a.ndim > n:
        raise PyExc('ValueError', 'could not broadcast input array from shape %s into shape %s' % (a.shape, shape))
    st = [0] * n
    for i in range(a.ndim):
        d, s = a.shape[a.ndim - 1 - i], a.strides[a.ndim - 1 - i]
        t = shape[n - 1 - i]
        if d == t:
            st[n - 1 - i] = s
        elif d != 1:
            raise PyExc('ValueError', 'could not broadcast input array from shape %s into shape %s' % (a.shape, shape))
    return Arr(a.buf, a.off, shape, st)


def out(a):
    """ufunc result: 0-d -> scalar"""
    if a.ndim == 0:
        return a.cells()[0]
    return a


def ewise(fn, args, dtype=None):
    """Element-wise map over broadcast operands; fn takes cells."""
    if not any(isinstance(a, (Arr, list, tuple, range)) for a in args):
        return fn(*args)
    arrs = [asarr(a) for a in args]
    sh = bshape(*[a.shape for a in arrs])
    cols = [bto(a, sh).cells() for a in arrs]
    res = [fn(*t) for t in zip(*cols)]
    if dtype is None:
        dtype = promote(*[cell_dtype(r) for r in res]) if res else promote(*[a.dtype for a in arrs])
    res = [coerce(r, dtype) for r in res] if dtype in 'fi' else res
    return out(new(res, sh, dtype))


def norm_axis(ax, n):
    if not isinstance(ax, int):
        raise Unsupported('axis %r' % (ax,))
    if ax < -n or ax >= n:
        raise PyExc('AxisError', 'axis %d is out of bounds for array of dimension %d' % (ax, n))
    return ax % n


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = [asarr(k) if isinstance(k, (list, range)) else k for k in key]
    n = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        n += k.ndim if isinstance(k, Arr) and k.dtype == 'b' else 1
    if sum(1 for k in key if k is Ellipsis) > 1:
        raise PyExc('IndexError', 'an index can only have a single ellipsis')
    if Ellipsis in [k for k in key if not isinstance(k, (Arr, V))]:
        i = next(i for i, k in enumerate(key) if k is Ellipsis)
        key[i:i + 1] = [slice(None)] * (a.ndim - n)
    else:
        key = key + [slice(None)] * (a.ndim - n)
    if n > a.ndim:
        raise PyExc('IndexError', 'too many indices for array')
    return key


def toint(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Arr) and x.size == 1 and x.dtype in 'ib':
        return int(x.cells()[0])
    if isinstance(x, V):
        raise PyExc('IndexError', 'only integers, slices, ellipsis, None and integer or boolean arrays are valid indices')
    raise PyExc('TypeError', 'integer expected, got %s' % type(x).__name__)


def sl_indices(k, n):
    def g(x):
        return None if x is None else toint(x)
    return range(n)[slice(g(k.start), g(k.stop), g(k.step))]


def resolve(a, key):
    """-> ('view', Arr) or ('adv', shape, offsets)."""
    key = expand_key(a, key)
    adv = any(isinstance(k, Arr) and not (k.ndim == 0 and k.dtype == 'i') for k in key)
    if not adv:
        off, shape, st, ax = a.off, [], [], 0
        for k in key:
            if k is None:
                shape.append(1)
                st.append(0)
                continue
            n, s = a.shape[ax], a.strides[ax]
            if isinstance(k, slice):
                r = sl_indices(k, n)
                off += (r.start * s) if len(r) else 0
                shape.append(len(r))
                st.append(s * r.step)
            elif isinstance(k, (bool, UB)):
                raise Unsupported('scalar boolean index')
            else:
                i = toint(k)
                if i < -n or i >= n:
                    raise PyExc('IndexError', 'index %d is out of bounds for axis %d with size %d' % (i, ax, n))
                off += (i % n) * s
            ax += 1
        return 'view', Arr(a.buf, off, shape, st)
    # advanced
    items = []           # (kind, payload)
    ax = 0
    for k in key:
        if k is None:
            items.append(('new', None))
        elif isinstance(k, slice):
            items.append(('sl', [i * a.strides[ax] for i in sl_indices(k, a.shape[ax])]))
            ax += 1
        elif isinstance(k, Arr) and k.dtype == 'b':
            if k.shape != a.shape[ax:ax + k.ndim]:
                raise PyExc('IndexError', 'boolean index did not match indexed array')
            msk = [D.truth(x) for x in k.cells()]
            sel = [i for i, m in enumerate(msk) if m]
            stv = cstrides(k.shape)
            for d in range(k.ndim):
                vals = [(i // stv[d]) % k.shape[d] for i in sel]
                items.append(('adv', ((len(sel),), [v * a.strides[ax + d] for v in vals])))
            ax += k.ndim
        else:
            n, s = a.shape[ax], a.strides[ax]
            ka = k if isinstance(k, Arr) else asarr(toint(k))
            vals = []
            if ka.dtype == 'f':
                if ka.size:
                    raise PyExc('IndexError', 'arrays used as indices must be of integer (or boolean) type')
            for i in ka.cells():
                if not isinstance(i, int):
                    raise Unsupported('symbolic index')
                if i < -n or i >= n:
                    raise PyExc('IndexError', 'index %d is out of bounds for axis %d with size %d' % (i, ax, n))
                vals.append((i % n) * s)
            items.append(('adv', (ka.shape, vals)))
            ax += 1
    apos = [i for i, it in enumerate(items) if it[0] == 'adv']
    bs = bshape(*[items[i][1][0] for i in apos])
    tot = [0] * prod(bs)
    for i in apos:
        sh, vals = items[i][1]
        tmp = bto(new(vals, sh, 'i'), bs).cells()
        tot = [x + y for x, y in zip(tot, tmp)]
    contiguous = apos == list(range(apos[0], apos[-1] + 1))
    dims = []            # list of (shape tuple, offset list)
    done = False
    if not contiguous:
        dims.append((bs, tot))
        done = True
    for it in items:
        if it[0] == 'new':
            dims.append(((1,), [0]))
        elif it[0] == 'sl':
            dims.append(((len(it[1]),), it[1]))
        elif not done:
            dims.append((bs, tot))
            done = True
    shape, offs = (), [a.off]
    for sh, os_ in dims:
        shape += tuple(sh)
        offs = [o + x for o in offs for x in os_]
    return 'adv', shape, offs


def getitem(a, key):
    r = resolve(a, key)
    if r[0] == 'view':
        v = r[1]
        if v.ndim == 0 and not _has_ellipsis(key):
            return v.cells()[0]
        return v
    d = a.buf.data
    return new([d[o] for o in r[2]], r[1], a.dtype)


def _has_ellipsis(key):
    ks = key if isinstance(key, tuple) else (key,)
    return any(k is Ellipsis for k in ks)


def store(buf, offs, vals, what='item assignment'):
    if buf.readonly:
        raise PyExc('ValueError', 'assignment destination is read-only')
    data, dt = buf.data, buf.dtype
    ctx = D.CTX
    tr = getattr(ctx, 'traced_mode', False)
    for o, v in zip(offs, vals):
        nv = coerce(v, dt)
        if buf.low:
            nv = D.rounded(nv, buf.low)
        if tr:
            old = data[o]
            if (type(nv) is V and nv.deps) or (type(old) is V and old.deps):
                ctx.events.append(('traced-store', what, ctx.loc))
                tr = False
        if buf.owner is not None:
            old = data[o]
            ch = True
            if isinstance(old, V) and isinstance(nv, V):
                ch = D.same(old, nv) is not True
            elif type(old) is type(nv):
                ch = old is not nv and old != nv
            if ch:
                ctx.events.append(('mutate', buf.owner, ctx.loc))
        data[o] = nv


def setitem(a, key, val):
    r = resolve(a, key)
    if r[0] == 'view':
        shape, offs = r[1].shape, r[1].offs()
    else:
        shape, offs = r[1], r[2]
    assign(a.buf, offs, shape, val)


def assign(buf, offs, shape, val):
    if isinstance(val, (Arr, list, tuple, range)):
        va = asarr(val)
        while va.ndim > len(shape) and va.shape[0] == 1:
            va = Arr(va.buf, va.off, va.shape[1:], va.strides[1:])
        vals = bto(va, shape).cells()
    else:
        vals = [val] * len(offs)
    store(buf, offs, vals)


def reshape(a, shape, order='C'):
    shape = [toint(s) for s in shape]
    if -1 in shape:
        i = shape.index(-1)
        rest = prod(shape[:i] + shape[i + 1:])
        if rest == 0 or a.size % rest:
            raise PyExc('ValueError', 'cannot reshape array of size %d into shape %s' % (a.size, tuple(shape)))
        shape[i] = a.size // rest
    if prod(shape) != a.size:
        raise PyExc('ValueError', 'cannot reshape array of size %d into shape %s' % (a.size, tuple(shape)))
    if order == 'F':
        t = transpose(a, None)
        return transpose(reshape(t, list(reversed(shape))), None)
    if a.size == 0:
        return Arr(a.buf, a.off, tuple(shape), cstrides(shape))
    # contiguous (after dropping unit axes) -> view
    offs = a.offs()
    st = _view_strides(offs, shape)
    if st is not None:
        return Arr(a.buf, a.off, tuple(shape), st)
    return new(a.cells(), shape, a.dtype)


def _view_strides(offs, shape):
    """Strides that realise `offs` (C order) with `shape`, or None."""
    cs = cstrides(shape)
    st = []
    for n, c_ in zip(shape, cs):
        st.append(offs[c_] - offs[0] if n > 1 else 0)
    return tuple(st) if offsets(offs[0], shape, st) == offs else None


def transpose(a, axes):
    n = a.ndim
    if axes is None:
        axes = range(n)[::-1]
    axes = [norm_axis(toint(x), n) for x in axes]
    if sorted(axes) != list(range(n)):
        raise PyExc('ValueError', "axes don't match array")
    return Arr(a.buf, a.off, [a.shape[i] for i in axes], [a.strides[i] for i in axes])


def squeeze(a, axis=None):
    if axis is None:
        keep = [i for i in range(a.ndim) if a.shape[i] != 1]
    else:
        axs = [norm_axis(toint(x), a.ndim) for x in (axis if isinstance(axis, (tuple, list)) else (axis,))]
        for x in axs:
            if a.shape[x] != 1:
                raise PyExc('ValueError', 'cannot select an axis to squeeze out which has size not equal to one')
        keep = [i for i in range(a.ndim) if i not in axs]
    return Arr(a.buf, a.off, [a.shape[i] for i in keep], [a.strides[i] for i in keep])


def concat(arrs, axis=0):
    arrs = [asarr(a) for a in arrs]
    if not arrs:
        raise PyExc('ValueError', 'need at least one array to concatenate')
    if axis is None:
        arrs = [reshape(a, (-1,)) for a in arrs]
        axis = 0
    n = arrs[0].ndim
    if n == 0:
        raise PyExc('ValueError', 'zero-dimensional arrays cannot be concatenated')
    axis = norm_axis(axis, n)
    for a in arrs:
        if a.ndim != n or any(a.shape[i] != arrs[0].shape[i] for i in range(n) if i != axis):
            raise PyExc('ValueError', 'all the input array dimensions except for the concatenation axis must match exactly, got %s'
                        % ([x.shape for x in arrs],))
    dt = promote(*[a.dtype for a in arrs])
    shape = list(arrs[0].shape)
    shape[axis] = sum(a.shape[axis] for a in arrs)
    outer = prod(shape[:axis])
    cells = []
    cols = [([coerce(x, dt) for x in a.cells()], prod(a.shape[axis:])) for a in arrs]
    for o in range(outer):
        for cs, w in cols:
            cells.extend(cs[o * w:(o + 1) * w])
    return new(cells, shape, dt)


def reduce_axis(a, axis, fn, keepdims=False):
    """fn: list of cells -> cell"""
    a = asarr(a)
    if axis is None:
        r = fn(a.cells())
        if keepdims:
            return new([r], (1,) * a.ndim, cell_dtype(r))
        return r
    axs = [norm_axis(x, a.ndim) for x in (axis if isinstance(axis, (tuple, list)) else (axis,))]
    rest = [i for i in range(a.ndim) if i not in axs]
    t = transpose(a, rest + axs)
    k = prod([a.shape[i] for i in axs])
    cs = t.cells()
    sh = [a.shape[i] for i in rest]
    res = [fn(cs[i * k:(i + 1) * k]) for i in range(prod(sh))]
    dt = promote(*[cell_dtype(r) for r in res]) if res else a.dtype
    if dt in 'fi':
        res = [coerce(r, dt) for r in res]
    if keepdims:
        sh = [1 if i in axs else a.shape[i] for i in range(a.ndim)]
    return out(new(res, sh, dt))
