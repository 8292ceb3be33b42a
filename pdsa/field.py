"""Algebraic hash used for value numbering.

A value number must be equal for two expressions that are equal modulo the
theory of fields, exp(a+b)=exp(a)exp(b) and the trigonometric identities.  We
use a hash that is a homomorphism: numbers live in F_p (ints) or in the
extension F_{p^4} = F_p[x]/(x^4-NR) (4-tuples), exponents in F_q with q | p-1.
Equal expressions always get equal numbers; different ones collide with
probability about 2**-70 per comparison.  Atoms (program inputs) get numbers
derived from a digest of their names.
"""
import hashlib

P = 411463066643322344360641
Q = 2915696333923769447
TWO = 64                       # 2-part of P-1
ODD = (P - 1) // TWO           # odd part
assert (P - 1) % Q == 0


def _digest(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=24)
    return int.from_bytes(h.digest(), 'big')


def hp(*parts):
    return _digest('p', *parts) % P or 1


def hq(*parts):
    return _digest('q', *parts) % Q or 1


def _find_nr():
    n = 2
    while pow(n, (P - 1) // 2, P) == 1:
        n += 1
    return n


NR = _find_nr()
# generator of the order-Q subgroup (exp), and a primitive 4th root of unity (trig)
GEN = pow(NR, (P - 1) // Q, P)
assert GEN != 1 and pow(GEN, Q, P) == 1
I4 = pow(NR, (P - 1) // 4, P)
assert I4 * I4 % P == P - 1
TRIG = hq('trig-generator')


def norm(t):
    if t[1] == 0 and t[2] == 0 and t[3] == 0:
        return t[0]
    return t


def lift(a):
    return a if type(a) is tuple else (a, 0, 0, 0)


def add(a, b):
    if type(a) is int and type(b) is int:
        return (a + b) % P
    a = lift(a)
    b = lift(b)
    return norm(((a[0] + b[0]) % P, (a[1] + b[1]) % P, (a[2] + b[2]) % P, (a[3] + b[3]) % P))


def neg(a):
    if type(a) is int:
        return (-a) % P
    return (-a[0] % P, -a[1] % P, -a[2] % P, -a[3] % P)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if type(a) is int:
        if type(b) is int:
            return a * b % P
        if a == 0:
            return 0
        return (a * b[0] % P, a * b[1] % P, a * b[2] % P, a * b[3] % P)
    if type(b) is int:
        if b == 0:
            return 0
        return (b * a[0] % P, b * a[1] % P, b * a[2] % P, b * a[3] % P)
    a0, a1, a2, a3 = a
    b0, b1, b2, b3 = b
    return norm((
        (a0 * b0 + NR * (a1 * b3 + a2 * b2 + a3 * b1)) % P,
        (a0 * b1 + a1 * b0 + NR * (a2 * b3 + a3 * b2)) % P,
        (a0 * b2 + a1 * b1 + a2 * b0 + NR * (a3 * b3)) % P,
        (a0 * b3 + a1 * b2 + a2 * b1 + a3 * b0) % P))


def inv(a):
    if type(a) is int:
        if a == 0:
            raise ZeroDivisionError
        return pow(a, -1, P)
    # conj over x -> -x : a * abar in F_{p^2} = F_p[y], y = x^2
    a0, a1, a2, a3 = a
    bar = (a0, -a1 % P, a2, -a3 % P)
    n = lift(mul(a, bar))           # n0 + n2 y
    n0, n2 = n[0], n[2]
    d = (n0 * n0 - NR * n2 * n2) % P
    if d == 0:
        raise ZeroDivisionError
    di = pow(d, -1, P)
    return mul(bar, norm((n0 * di % P, 0, -n2 * di % P, 0)))


def div(a, b):
    return mul(a, inv(b))


def power(a, n):
    if n < 0:
        return power(inv(a), -n)
    if type(a) is int:
        return pow(a, n, P)
    r = 1
    while n:
        if n & 1:
            r = mul(r, a)
        a = mul(a, a)
        n >>= 1
    return r


def is_qr(a):
    return a == 0 or pow(a, (P - 1) // 2, P) == 1


def in_odd(a):
    return a == 0 or pow(a, ODD, P) == 1


def _tonelli(a):
    if a == 0:
        return 0
    if in_odd(a):
        return pow(a, (ODD + 1) // 2, P)
    z = pow(NR, ODD, P)
    m = 6
    c, t, r = z, pow(a, ODD, P), pow(a, (ODD + 1) // 2, P)
    while t != 1:
        i, s = 0, t
        while s != 1:
            s = s * s % P
            i += 1
        b = pow(c, 1 << (m - i - 1), P)
        m = i
        c = b * b % P
        t = t * c % P
        r = r * b % P
    return min(r, P - r)


HALF = pow(2, -1, P)


def sqrt(a):
    """A fixed square root, or None when it is outside the field."""
    if type(a) is int:
        if is_qr(a):
            return _tonelli(a)
        # a / NR is a square;  sqrt(NR) = y = x^2
        r = _tonelli(a * pow(NR, -1, P) % P)
        return norm((0, 0, r, 0))
    a0, a1, a2, a3 = a
    if a1 or a3:
        return None
    # a = a0 + a2 y in F_{p^2}, y^2 = NR
    s = _sqrt2(a0, a2)
    if s is not None:
        return norm((s[0], 0, s[1], 0))
    # a / y is a square in F_{p^2};  y = x^2, so sqrt(a) = sqrt(a/y) * x ;  1/y = y/NR
    ni = pow(NR, -1, P)
    s = _sqrt2(a2, a0 * ni % P)
    if s is None:
        return None
    return norm((0, s[0], 0, s[1]))


def _sqrt2(a, b):
    if b == 0:
        if is_qr(a):
            return (_tonelli(a), 0)
        return (0, _tonelli(a * pow(NR, -1, P) % P))
    n = (a * a - NR * b * b) % P
    if not is_qr(n):
        return None
    s = _tonelli(n)
    for sg in (s, P - s):
        h = (a + sg) * HALF % P
        if h and is_qr(h):
            u = _tonelli(h)
            v = b * pow(2 * u, -1, P) % P
            return (u, v)
    for sg in (s, P - s):
        h = (a + sg) * HALF % P
        if h == 0:
            # a = -s, so value = b*y + a with u=0 impossible unless b=0
            continue
    return None


def exp_q(s):
    """exp of an exponent number s in F_q."""
    return pow(GEN, s % Q, P)


def cos_q(s):
    e = pow(GEN, s * TRIG % Q, P)
    return (e + pow(e, -1, P)) * HALF % P


def sin_q(s):
    e = pow(GEN, s * TRIG % Q, P)
    return (e - pow(e, -1, P)) * HALF % P * pow(I4, -1, P) % P


def frac_p(num, den):
    return num % P * pow(den % P, -1, P) % P


def frac_q(num, den):
    return num % Q * pow(den % Q, -1, Q) % Q


def solve(A, B, mod=None):
    """Solve A X = B (lists of rows).  mod=None: extension field; else prime mod.
    Returns None when singular."""
    n = len(A)
    if mod is None:
        A = [list(r) + list(b) for r, b in zip(A, B)]
        w = len(A[0]) if n else 0
        for c in range(n):
            piv = next((r for r in range(c, n) if A[r][c] != 0), None)
            if piv is None:
                return None
            A[c], A[piv] = A[piv], A[c]
            iv = inv(A[c][c])
            rowc = A[c] = [mul(iv, x) if x != 0 else 0 for x in A[c]]
            for r in range(n):
                if r != c and A[r][c] != 0:
                    f = neg(A[r][c])
                    ar = A[r]
                    A[r] = [add(x, mul(f, y)) if y != 0 else x for x, y in zip(ar, rowc)]
        return [r[n:] for r in A]
    A = [list(r) + list(b) for r, b in zip(A, B)]
    for c in range(n):
        piv = next((r for r in range(c, n) if A[r][c] % mod), None)
        if piv is None:
            return None
        A[c], A[piv] = A[piv], A[c]
        iv = pow(A[c][c], -1, mod)
        rowc = A[c] = [x * iv % mod for x in A[c]]
        for r in range(n):
            if r != c and A[r][c]:
                f = A[r][c]
                A[r] = [(x - f * y) % mod for x, y in zip(A[r], rowc)]
    return [r[n:] for r in A]


# ------------------------------------------------------------------ roots of polynomials over F_p
def _pmod(a, f):
    """a mod f (monic f); little-endian coefficient lists over F_p."""
    a = list(a)
    n = len(f) - 1
    for i in range(len(a) - 1, n - 1, -1):
        k = a[i]
        if k:
            for j in range(n):
                a[i - n + j] = (a[i - n + j] - k * f[j]) % P
    a = a[:n]
    while a and a[-1] == 0:
        a.pop()
    return a


def _pmul(a, b, f):
    if not a or not b:
        return []
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] = (r[i + j] + x * y) % P
    return _pmod(r, f)


def _ppow(a, e, f):
    r = _pmod([1], f)
    while e:
        if e & 1:
            r = _pmul(r, a, f)
        a = _pmul(a, a, f)
        e >>= 1
    return r


def _monic(a):
    iv = pow(a[-1], -1, P)
    return [x * iv % P for x in a]


def _pgcd(a, b):
    while b:
        b = _monic(b)
        a, b = b, _pmod(a, b)
    return _monic(a) if a else a


def _pdiv(a, f):
    a, n = list(a), len(f) - 1
    q = [0] * (len(a) - n)
    for i in range(len(a) - 1, n - 1, -1):
        k = q[i - n] = a[i]
        if k:
            for j in range(n + 1):
                a[i - n + j] = (a[i - n + j] - k * f[j]) % P
    return q


def _psub(a, b):
    n = max(len(a), len(b))
    r = [((a[i] if i < len(a) else 0) - (b[i] if i < len(b) else 0)) % P for i in range(n)]
    while r and r[-1] == 0:
        r.pop()
    return r


def _edf(f, d):
    """Split a product of distinct irreducible factors of degree d."""
    if len(f) - 1 == d:
        return [f]
    e = (P ** d - 1) // 2
    s = 1
    while True:
        g = _ppow(_pmod([s, 1 if d == 1 else s * s % P] + ([1] if d > 1 else []), f), e, f)
        h = _pgcd(f, _psub(g, [1]))
        if 0 < len(h) - 1 < len(f) - 1:
            return _edf(h, d) + _edf(_pdiv(f, h), d)
        s += 1


def roots(coef):
    """All roots (with multiplicity) in F_{p^2} of a monic polynomial over F_p, or None."""
    f = list(coef)
    df = [i * x % P for i, x in enumerate(f)][1:]
    while df and df[-1] == 0:
        df.pop()
    sq = _pdiv(f, _pgcd(f, df)) if df else f
    sq = _monic(sq)
    out = []
    if len(sq) - 1 == 1:
        out = [(-sq[0]) % P]
    else:
        xp = _ppow([0, 1], P, sq)
        lin = _pgcd(sq, _psub(xp, [0, 1]))
        if len(lin) > 1:
            out = [(-g[0]) % P for g in _edf(lin, 1)]
            rest = _pdiv(sq, lin)
        else:
            rest = sq
        if len(rest) > 1:
            x2 = _ppow(_ppow([0, 1], P, rest), P, rest)
            if _psub(x2, _pmod([0, 1], rest)):
                return None
            for g in _edf(rest, 2):
                r = sqrt((g[1] * g[1] - 4 * g[0]) % P)
                out += [mul(HALF, sub(r, g[1])), mul(HALF, sub(neg(r), g[1]))]
    # multiplicities
    full = []
    n = len(f) - 1
    if len(out) == n:
        full = out
    else:
        for r in out:
            q = list(f)
            while True:
                acc, quo = 0, []
                for x in reversed(q):
                    acc = add(mul(acc, r), x)
                    quo.append(acc)
                if quo[-1] != 0 or len(q) == 1:
                    break
                full.append(r)
                q = quo[:-1][::-1]
    return sorted(full, key=repr)


def charpoly(M, n):
    """Monic characteristic polynomial (little endian) of an n x n matrix over F_p."""
    c = [0] * n + [1]
    B = [[0] * n for _ in range(n)]
    for k in range(1, n + 1):
        for i in range(n):
            B[i][i] = (B[i][i] + c[n - k + 1]) % P
        B = [[sum(M[i * n + t] * B[t][j] for t in range(n)) % P for j in range(n)] for i in range(n)]
        c[n - k] = -sum(B[i][i] for i in range(n)) * pow(k, -1, P) % P
    return c


def nullvec(M, n, lam):
    """A basis of the null space of M - lam (extension field)."""
    A = [[sub(M[i * n + j], lam) if i == j else M[i * n + j] for j in range(n)] for i in range(n)]
    piv, r = [], 0
    for c in range(n):
        p = next((i for i in range(r, n) if A[i][c] != 0), None)
        if p is None:
            continue
        A[r], A[p] = A[p], A[r]
        iv = inv(A[r][c])
        A[r] = [mul(iv, x) if x != 0 else 0 for x in A[r]]
        for i in range(n):
            if i != r and A[i][c] != 0:
                f = neg(A[i][c])
                A[i] = [add(x, mul(f, y)) for x, y in zip(A[i], A[r])]
        piv.append(c)
        r += 1
    out = []
    for fr in [c for c in range(n) if c not in piv]:
        v = [0] * n
        v[fr] = 1
        for i, c in enumerate(piv):
            v[c] = neg(A[i][fr])
        out.append(v)
    return out
