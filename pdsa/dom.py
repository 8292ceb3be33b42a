"""Scalar abstract domain: value numbers x intervals x dependence sets.

A V stands for one real-valued expression over the analysed inputs.  Its
components are
  fp, sh   algebraic value number (see field.py) and its exponent shadow
  iv       interval (lo, lo_open, hi, hi_open)
  deps     bitmask of the tracked input atoms the expression depends on
  op,args  the expression DAG node, kept for differentiation / substitution
  loc      source construct that produced it
kind: NORM, TOP (analysis cannot represent it), NAN (undefined at run time), INF.
"""
from fractions import Fraction
from . import field as F

NORM, TOP, NAN, INF = 0, 1, 2, 3
inf = float('inf')
FULL = (-inf, True, inf, True)


class Ctx:
    """Per-analysis mutable context."""
    def __init__(self):
        self.facts = {}        # fp -> interval
        self.loc = None
        self.choices = {}      # UB key -> bool (trace partitioning)
        self.new_choices = []
        self.nbits = 0
        self.bits = {}
        self.atoms = {}
        self.events = []
        self.traced_mode = False
        self.owned_lists = {}
        self.conds = {}        # UB key -> (relation, V, V) for witness search
        self.guide = None      # resolves undecided conditions at a sample point of the class

    def fact(self, v, lo=-inf, hi=inf, lo_open=True, hi_open=True):
        iv = (lo, lo_open, hi, hi_open)
        self.facts[v.fp] = iv
        self.facts[F.neg(v.fp)] = ineg(iv)

    def positive(self, v):
        self.fact(v, 0, inf)


CTX = Ctx()


def set_ctx(c):
    global CTX
    CTX = c


# ---------------------------------------------------------------- intervals
def ineg(a):
    return (-a[2], a[3], -a[0], a[1])


def iadd(a, b):
    return (a[0] + b[0], a[1] or b[1], a[2] + b[2], a[3] or b[3])


def _m(x, xo, y, yo):
    if x == 0 or y == 0:
        # product endpoint 0 is attained iff a closed zero end meets anything attained
        if x == 0 and y == 0:
            return (0.0, xo and yo)
        return (0.0, xo if x == 0 else yo)
    return (x * y, xo or yo)


def imul(a, b):
    if a is FULL or b is FULL:
        if (a[0] == 0 == a[2]) or (b[0] == 0 == b[2]):
            return (0.0, False, 0.0, False)
        return FULL
    c = [_m(a[0], a[1], b[0], b[1]), _m(a[0], a[1], b[2], b[3]),
         _m(a[2], a[3], b[0], b[1]), _m(a[2], a[3], b[2], b[3])]
    lo = min(c, key=lambda t: (t[0], t[1]))
    hi = max(c, key=lambda t: (t[0], not t[1]))
    if hi[0] == 0 == lo[0] and not (a[0] == 0 == a[2]) and not (b[0] == 0 == b[2]):
        s = (1 if a[0] >= 0 else -1 if a[2] <= 0 else 0) * (1 if b[0] >= 0 else -1 if b[2] <= 0 else 0)
        return (0.0, lo[1] and hi[1], 5e-324, True) if s > 0 else (-5e-324, True, 0.0, lo[1] and hi[1]) if s < 0 else ULP   # underflow
    return (lo[0], lo[1], hi[0], hi[1])


ULP = (-5e-324, True, 5e-324, True)


def iinv(a):
    lo, lo_o, hi, hi_o = a
    if lo > 0 or (lo == 0 and lo_o):
        return ((1 / hi) if hi != inf else 0.0, hi_o or hi == inf, (1 / lo) if lo > 1e-308 else inf, lo_o or lo <= 1e-308)
    if hi < 0 or (hi == 0 and hi_o):
        return ineg(iinv(ineg(a)))
    return FULL


def isect(a, b):
    if a[0] > b[0] or (a[0] == b[0] and a[1]):
        lo, lo_o = a[0], a[1]
    else:
        lo, lo_o = b[0], b[1]
    if a[2] < b[2] or (a[2] == b[2] and a[3]):
        hi, hi_o = a[2], a[3]
    else:
        hi, hi_o = b[2], b[3]
    return (lo, lo_o, hi, hi_o)


def ihull(a, b):
    if a[0] < b[0] or (a[0] == b[0] and not a[1]):
        lo, lo_o = a[0], a[1]
    else:
        lo, lo_o = b[0], b[1]
    if a[2] > b[2] or (a[2] == b[2] and not a[3]):
        hi, hi_o = a[2], a[3]
    else:
        hi, hi_o = b[2], b[3]
    return (lo, lo_o, hi, hi_o)


# ---------------------------------------------------------------- values
class V:
    __slots__ = ('fp', 'sh', 'iv', 'k', 'op', 'args', 'deps', 'loc', 'kind', 'note')

    def __init__(self, fp, sh, iv, op, args, deps, k=None, kind=NORM, note=None):
        self.fp = fp
        self.sh = sh
        if kind == NORM and k is None:
            f = CTX.facts.get(fp)
            if f is not None:
                iv = isect(iv, f)
        self.iv = iv
        self.k = k
        self.op = op
        self.args = args
        self.deps = deps
        self.kind = kind
        self.note = note
        self.loc = CTX.loc

    def __repr__(self):
        if self.kind == TOP:
            return 'TOP(%s)' % (self.note,)
        if self.kind == NAN:
            return 'NAN(%s)' % (self.note,)
        if self.kind == INF:
            return 'INF'
        if self.k is not None:
            return str(self.k)
        return '<%s>' % self.op


def const(x):
    x = Fraction(x)
    v = V(x.numerator % F.P if x.denominator == 1 else F.frac_p(x.numerator, x.denominator),
          x.numerator % F.Q if x.denominator == 1 else F.frac_q(x.numerator, x.denominator),
          (float(x), False, float(x), False), 'const', (), 0, k=x)
    return v


ZERO = const(0)
ONE = const(1)
_cache = {}


def c(x):
    v = _cache.get(x)
    if v is None:
        v = _cache[x] = const(x)
    return v


def from_float(f):
    if f != f:
        return nan('literal nan')
    if f in (inf, -inf):
        return infv(f > 0)
    return c(Fraction(repr(f)))


def top(note, deps=0):
    return V(None, None, FULL, 'top', (), deps, kind=TOP, note=note)


def nan(note):
    return V(None, None, FULL, 'nan', (), 0, kind=NAN, note=note)


def infv(pos=True):
    e = inf if pos else -inf
    return V(None, None, (e, False, e, False), 'inf', (), 0, kind=INF, note=pos)


SALT = {}           # name -> number of times another hash value was drawn for this input


class Resalt(Exception):
    """The hash of a matrix has eigenvalues outside the hash field: draw again."""
    def __init__(self, names):
        Exception.__init__(self, names)
        self.names = names


def atom_names(vs):
    seen, out, st = set(), set(), list(vs)
    while st:
        v = st.pop()
        if id(v) in seen or not isinstance(v, V):
            continue
        seen.add(id(v))
        if v.op == 'atom':
            if '/' not in v.args[0]:
                out.add(v.args[0])
        else:
            st += [x for x in v.args if isinstance(x, V)]
            for x in v.args:
                if isinstance(x, tuple):
                    st += [y for y in x if isinstance(y, V)]
    return out


def atom(name, lo=-inf, hi=inf, lo_open=True, hi_open=True, track=False, fp=None, sh=None):
    deps = 0
    if track:
        deps = 1 << CTX.nbits
        CTX.bits[deps] = name
        CTX.nbits += 1
    nm = (name, SALT[name]) if name in SALT else name
    v = V(F.hp('atom', nm) if fp is None else fp, F.hq('atom', nm) if sh is None else sh,
          (lo, lo_open, hi, hi_open), 'atom', (name,), deps)
    if track:
        CTX.atoms[deps] = v
    return v


PI = V(F.hp('atom', 'pi'), F.hq('atom', 'pi'), (3.14159, True, 3.1416, True), 'atom', ('pi',), 0)


def rounded(v, bits):
    """v stored with fewer significant bits than a double has."""
    if not isinstance(v, V) or v.kind:
        return v
    if v.k is not None:
        n, d = abs(v.k.numerator), v.k.denominator
        while n and n % 2 == 0:
            n //= 2
        if d & (d - 1) == 0 and n < 2 ** bits:
            return v
    if v.op == 'uf' and v.args[0] == 'rounded' and v.args[2][0] <= bits:
        return v
    return uf('rounded', (v,), v.iv, (bits,))


def uf(name, args, iv=FULL, extra=()):
    """Uninterpreted function of value-numbered arguments."""
    deps = 0
    for a in args:
        deps |= a.deps
        if a.kind == TOP:
            return top('%s of %s' % (name, a.note), deps)
        if a.kind in (NAN, INF):
            return nan('%s of nan' % name)
    key = (name, tuple(a.fp for a in args), tuple(extra))
    return V(F.hp('uf', *key), F.hq('uf', *key), iv, 'uf', (name, tuple(args), tuple(extra)), deps)


def _bad(a, b=None):
    """Combine non-normal operands."""
    deps = a.deps | (b.deps if b is not None else 0)
    for x in (a, b):
        if x is not None and x.kind == NAN:
            return x
    for x in (a, b):
        if x is not None and x.kind == TOP:
            return top(x.note, deps)
    return None


def add(a, b):
    if a.kind or b.kind:
        r = _bad(a, b)
        if r is not None:
            return r
        if a.kind == INF and b.kind == INF:
            return a if a.note == b.note else nan('inf-inf')
        return a if a.kind == INF else b
    if a.k is not None:
        if b.k is not None:
            return c(a.k + b.k)
        if a.k == 0:
            return b
    elif b.k is not None and b.k == 0:
        return a
    return V(F.add(a.fp, b.fp), (a.sh + b.sh) % F.Q, iadd(a.iv, b.iv), 'add', (a, b), a.deps | b.deps)


def neg(a):
    if a.kind:
        if a.kind == INF:
            return infv(not a.note)
        return a
    if a.k is not None:
        return c(-a.k)
    return V(F.neg(a.fp), -a.sh % F.Q, ineg(a.iv), 'neg', (a,), a.deps)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.kind or b.kind:
        r = None
        for x, y in ((a, b), (b, a)):
            if x.kind == TOP and y.kind == NORM and y.fp == 0:
                return ZERO
        r = _bad(a, b)
        if r is not None:
            return r
        if a.kind == INF and b.kind == INF:
            return infv(a.note == b.note)
        x, y = (a, b) if a.kind == INF else (b, a)
        s = sign(y)
        if s == 1 or s == -1:
            return infv(x.note == (s == 1))
        return nan('inf*0') if s == 0 else top('inf*?')
    if a.k is not None:
        if b.k is not None:
            return c(a.k * b.k)
        if a.k == 0:
            return ZERO
        if a.k == 1:
            return b
    elif b.k is not None:
        if b.k == 0:
            return ZERO
        if b.k == 1:
            return a
    return V(F.mul(a.fp, b.fp), a.sh * b.sh % F.Q,
             imul(a.iv, b.iv) if a is not b else isq(a.iv), 'mul', (a, b), a.deps | b.deps)


def isq(a):
    r = imul(a, a)
    return isect(r, (0.0, False, inf, True))


def inv(a):
    if a.kind:
        if a.kind == INF:
            return ZERO
        return a
    if a.k is not None:
        if a.k == 0:
            return nan('division by zero')
        return c(1 / a.k)
    if a.fp == 0:
        return nan('division by an expression that is identically zero')
    return V(F.inv(a.fp), pow(a.sh, -1, F.Q) if a.sh else 0, iinv(a.iv), 'inv', (a,), a.deps)


def div(a, b):
    if a.kind == NORM and b.kind == NORM and b.fp == 0 and a.fp != 0:
        s = sign(a)
        if s in (1, -1):
            return infv(s == 1)
    return mul(a, inv(b))


def ipow(a, n):
    if n == 0:
        return ONE
    if a.kind:
        return a
    if n < 0:
        return inv(ipow(a, -n))
    if n == 1:
        return a
    if a.k is not None:
        return c(a.k ** n)
    lo, lo_o, hi, hi_o = a.iv
    iv = FULL
    if n % 2 == 0:
        iv = (0.0, not (lo < 0 < hi) and (lo > 0 or lo_o) , inf, True)
        m = max(abs(lo), abs(hi))
        if m != inf:
            iv = (0.0, iv[1] and (lo >= 0 or hi <= 0), m ** n, False)
        if lo >= 0:
            iv = (lo ** n, lo_o, hi ** n if hi != inf else inf, hi_o)
    elif lo >= 0:
        iv = (lo ** n, lo_o, hi ** n if hi != inf else inf, hi_o)
    return V(F.power(a.fp, n), pow(a.sh, n, F.Q), iv, 'ipow', (a, n), a.deps)


def vpow(a, b):
    """a ** b for two values."""
    if b.k is not None:
        if b.k.denominator == 1 and abs(b.k.numerator) < 4096:
            return ipow(a, b.k.numerator)
        if b.k == Fraction(1, 2):
            return sqrt(a)
        if b.k == Fraction(-1, 2):
            return inv(sqrt(a))
    if a.kind or b.kind:
        r = _bad(a, b)
        return r if r is not None else top('inf power')
    if a.op == 'exp':
        return exp(mul(a.args[0], b))
    return uf('pow', (a, b))


def sqrt(a):
    if a.kind:
        return a
    if a.k is not None and a.k >= 0:
        import math
        n, d = math.isqrt(a.k.numerator), math.isqrt(a.k.denominator)
        if n * n == a.k.numerator and d * d == a.k.denominator:
            return c(Fraction(n, d))
    if a.iv[2] < 0:
        return nan('sqrt of a negative value')
    r = F.sqrt(a.fp)
    if r is None:
        return top('sqrt outside the hash field', a.deps)
    lo, lo_o, hi, hi_o = a.iv
    iv = (max(lo, 0.0) ** 0.5, lo_o and lo >= 0, hi ** 0.5 if hi != inf else inf, hi_o)
    if a.op == 'ipow' and a.args[1] == 2 and a.args[0].iv[0] >= 0:
        return a.args[0]
    if a.op == 'mul' and a.args[0] is a.args[1] and a.args[0].iv[0] >= 0:
        return a.args[0]
    return V(r, F.hq('sqrt', r), iv, 'sqrt', (a,), a.deps)


def _terms(a, limit=12):
    """Signed summands of a small sum."""
    out, st, n = [], [(a, True)], 0
    while st:
        v, s = st.pop()
        n += 1
        if n > limit:
            return None
        if v.kind or v.k is not None:
            out.append((v, s))
        elif v.op == 'add':
            st += [(v.args[0], s), (v.args[1], s)]
        elif v.op == 'neg':
            st.append((v.args[0], not s))
        else:
            out.append((v, s))
    return out


def exp(a):
    if a.kind:
        if a.kind == INF:
            return a if a.note else ZERO
        return a
    if a.fp == 0:
        return ONE
    if a.op == 'log':
        return a.args[0]
    if a.op in ('add', 'neg'):                    # exp(log x - log y + z) = x / y * exp(z)
        terms = _terms(a)
        if terms and any(t.op == 'log' for t, _ in terms):
            r, rest = ONE, ZERO
            for t, s in terms:
                if t.op == 'log':
                    r = mul(r, t.args[0]) if s else div(r, t.args[0])
                else:
                    rest = add(rest, t) if s else sub(rest, t)
            return mul(r, exp(rest))
    lo, lo_o, hi, hi_o = a.iv
    import math

    def e(x):
        return 0.0 if x == -inf else inf if x > 700 else max(math.exp(x), 5e-324)
    return V(F.exp_q(a.sh), F.hq('exp', a.fp), (e(lo) if lo > -700 else 0.0, lo_o or lo < -700, e(hi), hi_o), 'exp', (a,), a.deps)


def log(a):
    if a.kind:
        return a
    if a.op == 'exp':
        return a.args[0]
    if a.k == 1:
        return ZERO
    key = ('log', a.fp)
    return V(F.hp(*key), F.hq(*key), FULL, 'log', (a,), a.deps)


def _pi_multiple(a):
    """Return rational r (denominator below 100) if a == r*pi, by value number (rational reconstruction)."""
    if not isinstance(a.fp, int):
        return None
    x = a.fp * pow(PI.fp, -1, F.P) % F.P
    r0, r1, t0, t1 = F.P, x, 0, 1
    while r1 > 20000:
        q = r0 // r1
        r0, r1, t0, t1 = r1, r0 - q * r1, t1, t0 - q * t1
    if not 0 < abs(t1) < 100:
        return None
    return Fraction(r1 if t1 > 0 else -r1, abs(t1))


TWO_PI = mul(c(2), PI)
_COSPI = {Fraction(0): 1, Fraction(1): -1, Fraction(1, 2): 0, Fraction(3, 2): 0,
          Fraction(1, 3): Fraction(1, 2), Fraction(2, 3): Fraction(-1, 2),
          Fraction(4, 3): Fraction(-1, 2), Fraction(5, 3): Fraction(1, 2)}
_PI_CONST = {}


def _unwrap(a):
    """An angle without reduction modulo 2 pi."""
    while a.op == 'uf' and a.args[0] == 'mod' and a.args[1][1].fp == TWO_PI.fp:
        a = a.args[1][0]
    return a


def _cos_pi(r):
    """cos(r pi) by its representative with r in (0, 1/2)."""
    r = r % 2
    if r in _COSPI:
        return c(_COSPI[r])
    if r > 1:
        r = 2 - r
    if 2 * r > 1:
        return neg(_cos_pi(1 - r))
    a = mul(c(r), PI)
    return V(F.cos_q(a.sh), F.hq('cos', a.fp), (0.0, True, 1.0, True), 'cos', (a,), 0)


def cos(a):
    if a.kind:
        return a if a.kind != INF else nan('cos(inf)')
    a = _unwrap(a)
    if a.fp == 0:
        return ONE
    if a.deps == 0 and a.iv[0] != -inf and a.iv[2] != inf:
        r = _PI_CONST.get(a.fp, 0)
        if r == 0:
            r = _PI_CONST[a.fp] = _pi_multiple(a)
        if r is not None:
            return _cos_pi(r)
    return V(F.cos_q(a.sh), F.hq('cos', min(a.fp, F.neg(a.fp), key=repr)), (-1.0, False, 1.0, False), 'cos', (a,), a.deps)


def sin(a):
    if a.kind:
        return a if a.kind != INF else nan('sin(inf)')
    a = _unwrap(a)
    if a.fp == 0:
        return ZERO
    if a.deps == 0:
        r = _pi_multiple(a)
        if r is not None:
            return _cos_pi(r - Fraction(1, 2))
    return V(F.sin_q(a.sh), F.hq('sin', a.fp), (-1.0, False, 1.0, False), 'sin', (a,), a.deps)


def sign(a):
    """1, -1, 0, or 'nn' (>=0), 'np' (<=0), None."""
    if a.kind == INF:
        return 1 if a.note else -1
    if a.kind:
        return None
    if a.fp == 0:
        return 0
    lo, lo_o, hi, hi_o = a.iv
    if lo > 0 or (lo == 0 and lo_o):
        return 1
    if hi < 0 or (hi == 0 and hi_o):
        return -1
    if lo == 0:
        return 'nn'
    if hi == 0:
        return 'np'
    # product of sign-known factors with unknown remainder is left undecided
    return None


def absv(a):
    if a.kind:
        return infv(True) if a.kind == INF else a
    s = sign(a)
    if s == 0:
        return ZERO
    if s in (1, 'nn'):
        return a
    if s in (-1, 'np'):
        return neg(a)
    if a.op == 'neg':
        return absv(a.args[0])
    if a.op == 'mul':
        for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
            if sign(x) in (1, -1, 'nn', 'np'):
                return mul(absv(x), absv(y))
    if a.op == 'inv':
        return inv(absv(a.args[0]))
    m = min(repr(a.fp), repr(F.neg(a.fp)))
    hi = max(abs(a.iv[0]), abs(a.iv[2]))
    return V(F.hp('abs', m), F.hq('abs', m), (0.0, False, hi, a.iv[1] and a.iv[3]), 'abs', (a,), a.deps)


class UB:
    """An undecided boolean, identified by a canonical key."""
    __slots__ = ('key', 'neg', 'loc')

    def __init__(self, key, neg=False):
        self.key = key
        self.neg = neg
        self.loc = CTX.loc

    def __repr__(self):
        return '%sUB%r' % ('~' if self.neg else '', self.key)


class Fork(Exception):
    def __init__(self, key, loc):
        self.key = key
        self.loc = loc


def truth(b):
    """Decide a boolean used for control flow; forks when undecided."""
    if isinstance(b, UB):
        if b.key in CTX.choices or _guided(b.key):
            return CTX.choices[b.key] != b.neg
        raise Fork(b.key, b.loc)
    return b


def _guided(key):
    """Follow one path only: the one a sample point of the class takes."""
    if CTX.guide is None or key[0] == 'top':
        return False
    b = CTX.guide(key)
    if b is None:
        return False
    CTX.choices[key] = b
    if key[0] == 'lt':
        d = F.sub(key[2], key[1])
        iv = (0.0, True, inf, True) if b else (-inf, True, 0.0, False)
        CTX.facts[d] = iv
        CTX.facts[F.neg(d)] = ineg(iv)
    return True


def bnot(b):
    if isinstance(b, UB):
        if b.key in CTX.choices:
            return CTX.choices[b.key] == b.neg
        return UB(b.key, not b.neg)
    return not b


def _res(b):
    if isinstance(b, UB) and (b.key in CTX.choices or CTX.guide is not None and _guided(b.key)):
        return CTX.choices[b.key] != b.neg
    return b


def band(xs):
    u = []
    for x in xs:
        x = _res(x)
        if isinstance(x, UB):
            u.append(x)
        elif not x:
            return False
    if not u:
        return True
    if len(u) == 1:
        return u[0]
    k = ('and',) + tuple(sorted({repr((x.key, x.neg)) for x in u}))
    CTX.conds[k] = ('and', [(x.key, x.neg) for x in u], None)
    return _res(UB(k))


def bor(xs):
    return bnot(band([bnot(x) for x in xs]))


def lt(a, b):
    """a < b"""
    if a.kind == NAN or b.kind == NAN:
        return False
    if a.kind == TOP or b.kind == TOP:
        return UB(('top', a.note or b.note, repr(CTX.loc)))
    if a.kind == INF or b.kind == INF:
        if a.kind == INF and b.kind == INF:
            return (not a.note) and b.note
        return b.note if b.kind == INF else not a.note
    a, b = (ZERO if a.fp == 0 else a), (ZERO if b.fp == 0 else b)
    s = sign(sub(b, a))
    if s == 1:
        return True
    if s in (0, -1, 'np'):
        return False
    r = _cmp_iv(a, b)
    if r is not None:
        return r
    k = ('lt', a.fp, b.fp)
    CTX.conds[k] = ('lt', a, b)
    return _res(UB(k))


def _cmp_iv(a, b):
    if a.iv[2] < b.iv[0] or (a.iv[2] == b.iv[0] and (a.iv[3] or b.iv[1])):
        return True
    if a.iv[0] >= b.iv[2]:
        return False
    return None


def le(a, b):
    if a.kind == NAN or b.kind == NAN:
        return False
    if a.kind == TOP or b.kind == TOP:
        return UB(('top', a.note or b.note, repr(CTX.loc)))
    return bnot(lt(b, a))


def eq(a, b):
    if a.kind == NAN or b.kind == NAN:
        return False
    if a.kind == TOP or b.kind == TOP:
        return UB(('top', a.note or b.note, repr(CTX.loc)))
    if a.kind == INF or b.kind == INF:
        return a.kind == b.kind and a.note == b.note
    if a.fp == b.fp:
        return True
    s = sign(sub(b, a))
    if s in (1, -1):
        return False
    if _cmp_iv(a, b) is True or _cmp_iv(b, a) is True:
        return False
    x, y = sorted([a.fp, b.fp], key=repr)
    k = ('eq', x, y)
    CTX.conds[k] = ('eq', a, b)
    return _res(UB(k))


def maximum(a, b):
    return _ext([a, b], True)


def minimum(a, b):
    return _ext([a, b], False)


def _ext(vs, mx):
    for v in vs:
        if v.kind == NAN:
            return v
    for v in vs:
        if v.kind == TOP:
            return top(v.note)
    out = []
    for v in vs:
        if v.op == ('max' if mx else 'min'):
            out.extend(v.args)
        else:
            out.append(v)
    keep = []
    for v in out:
        drop = False
        for w in list(keep):
            r = le(v, w) if mx else le(w, v)
            if r is True:
                drop = True
                break
            r = le(w, v) if mx else le(v, w)
            if r is True:
                keep.remove(w)
        if not drop:
            keep.append(v)
    if len(keep) == 1:
        return keep[0]
    keep.sort(key=lambda v: repr(v.fp))
    key = ('max' if mx else 'min', tuple(v.fp for v in keep))
    deps = 0
    for v in keep:
        deps |= v.deps
    if mx:
        lo = max(keep, key=lambda v: (v.iv[0], v.iv[1])).iv
        hi = max(keep, key=lambda v: (v.iv[2], not v.iv[3])).iv
    else:
        lo = min(keep, key=lambda v: (v.iv[0], v.iv[1])).iv
        hi = min(keep, key=lambda v: (v.iv[2], not v.iv[3])).iv
    return V(F.hp(*key), F.hq(*key), (lo[0], lo[1], hi[2], hi[3]), key[0], tuple(keep), deps)


def same(a, b):
    """True / False / None (undecided)."""
    if a.kind == NAN or b.kind == NAN:
        return None if TOP in (a.kind, b.kind) else (a.kind == b.kind)
    if a.kind == TOP or b.kind == TOP:
        return None
    if a.kind == INF or b.kind == INF:
        return a.kind == b.kind and a.note == b.note
    return a.fp == b.fp


# ---------------------------------------------------------------- DAG passes
def diff(v, bit, memo=None):
    """Derivative of v with respect to the tracked atom `bit`."""
    if memo is None:
        memo = {}
    r = memo.get(id(v))
    if r is not None:
        return r[1]
    if v.kind:
        d = v
    elif not v.deps & bit:
        d = ZERO
    else:
        op, a = v.op, v.args
        if op == 'atom':
            d = ONE
        elif op == 'add':
            d = add(diff(a[0], bit, memo), diff(a[1], bit, memo))
        elif op == 'neg':
            d = neg(diff(a[0], bit, memo))
        elif op == 'mul':
            d = add(mul(diff(a[0], bit, memo), a[1]), mul(a[0], diff(a[1], bit, memo)))
        elif op == 'inv':
            d = neg(mul(diff(a[0], bit, memo), mul(v, v)))
        elif op == 'ipow':
            d = mul(mul(c(a[1]), ipow(a[0], a[1] - 1)), diff(a[0], bit, memo))
        elif op == 'exp':
            d = mul(v, diff(a[0], bit, memo))
        elif op == 'cos':
            d = neg(mul(sin(a[0]), diff(a[0], bit, memo)))
        elif op == 'sin':
            d = mul(cos(a[0]), diff(a[0], bit, memo))
        elif op == 'log':
            d = div(diff(a[0], bit, memo), a[0])
        elif op == 'sqrt':
            d = div(diff(a[0], bit, memo), mul(c(2), v))
        else:
            d = top('derivative of %s' % op)
    memo[id(v)] = (v, d)
    return d


def subst(v, m, memo=None):
    """Replace tracked atoms (bit -> V) in v."""
    if memo is None:
        memo = {}
    mask = 0
    for b in m:
        mask |= b
    return _subst(v, m, mask, memo)


def _subst(v, m, mask, memo):
    if v.kind or not v.deps & mask:
        return v
    r = memo.get(id(v))
    if r is not None:
        return r[1]
    op, a = v.op, v.args

    def s(x):
        return _subst(x, m, mask, memo)
    if op == 'atom':
        d = m[v.deps]
    elif op == 'add':
        d = add(s(a[0]), s(a[1]))
    elif op == 'neg':
        d = neg(s(a[0]))
    elif op == 'mul':
        d = mul(s(a[0]), s(a[1]))
    elif op == 'inv':
        d = inv(s(a[0]))
    elif op == 'ipow':
        d = ipow(s(a[0]), a[1])
    elif op == 'exp':
        d = exp(s(a[0]))
    elif op == 'cos':
        d = cos(s(a[0]))
    elif op == 'sin':
        d = sin(s(a[0]))
    elif op == 'log':
        d = log(s(a[0]))
    elif op == 'sqrt':
        d = sqrt(s(a[0]))
    elif op == 'abs':
        d = absv(s(a[0]))
    elif op in ('max', 'min'):
        d = _ext([s(x) for x in a], op == 'max')
    elif op == 'uf':
        d = uf(a[0], [s(x) for x in a[1]], v.iv, a[2])
    else:
        d = top('substitution in %s' % op)
    memo[id(v)] = (v, d)
    return d


def lines(v, limit=4000):
    """Source constructs contributing to v, most recent first (for reports)."""
    seen, out, st, locs = set(), [], [v], []
    while st and len(seen) < limit:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.loc is not None and x.loc not in locs:
            locs.append(x.loc)
        for y in x.args:
            if isinstance(y, V):
                st.append(y)
            elif isinstance(y, tuple):
                st.extend(z for z in y if isinstance(z, V))
    return locs
