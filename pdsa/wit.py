"""Numeric witnesses for abstract values.

A report is only made when the two value numbers differ AND the two value graphs differ when
evaluated (in 60-digit arithmetic) at a sampled point of the declared input ranges that satisfies
the path conditions.  This turns an identity the value numbering does not know into 'undecided'
instead of an alarm.  Nothing of the analysed program is executed: only the analyser's own value
graphs are evaluated."""
import decimal
import math
import random
import time
from decimal import Decimal as Dc
from fractions import Fraction
from . import dom as D
from . import field as F
from .dom import V

CTXD = decimal.Context(prec=60, Emax=10 ** 9, Emin=-10 ** 9)
PI = Dc('3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803')


class NoValue(Exception):
    pass


def _sincos(x):
    with decimal.localcontext(CTXD):
        x = x % (2 * PI)
        n = 0
        # Taylor series of cos and sin
        def ser(start, k):
            term, s = start, start
            while True:
                term = -term * x * x / ((k + 1) * (k + 2))
                k += 2
                if s + term == s:
                    return s
                s += term
        return ser(x, 1), ser(Dc(1), 0)


_gcache = {}


def gauss(n):
    """High precision Gauss nodes/weights on [0,1]."""
    if n not in _gcache:
        with decimal.localcontext(CTXD):
            xs, ws = [], []
            for k in range(n):
                x = Dc(repr(math.cos(math.pi * (n - k - 0.25) / (n + 0.5))))
                for _ in range(30):
                    p0, p1 = Dc(1), x
                    for j in range(2, n + 1):
                        p0, p1 = p1, ((2 * j - 1) * x * p1 - (j - 1) * p0) / j
                    dp = n * (x * p1 - p0) / (x * x - 1)
                    dx = p1 / dp
                    x = x - dx
                    if abs(dx) < Dc(10) ** -45:
                        break
                p0, p1 = Dc(1), x
                for j in range(2, n + 1):
                    p0, p1 = p1, ((2 * j - 1) * x * p1 - (j - 1) * p0) / j
                dp = n * (x * p1 - p0) / (x * x - 1)
                xs.append((x + 1) / 2)
                ws.append(1 / ((1 - x * x) * dp * dp))
            _gcache[n] = (xs, ws)
    return _gcache[n]


def _dec(fr):
    return CTXD.divide(Dc(fr.numerator), Dc(fr.denominator))


class Point:
    """A sampled point of the input space; evaluates value graphs."""
    def __init__(self, base, seed, conds, mode=''):
        self.base = base
        self.rnd = random.Random(seed)
        self.seed = seed
        self.vals = {}
        self.memo = {}
        self.keep = []
        self.conds = conds
        self.byrepr = None
        self.mode = mode
        self.forced = set()          # equalities made true by the choice of an input

    def atom(self, v):
        n = v.args[0]
        r = self.vals.get(n)
        if r is not None:
            return r
        if n == 'pi':
            r = PI
        elif isinstance(n, str) and '/' in n and n[:2] == 'mu' and n[2:].replace('/', '').isdigit():
            k, m = n[2:].split('/')
            r = gauss(int(m))[0][int(k)]
        elif isinstance(n, str) and '/' in n and n[:1] == 'w' and n[1:].replace('/', '').isdigit():
            k, m = n[1:].split('/')
            r = gauss(int(m))[1][int(k)]
        else:
            lo, lo_o, hi, hi_o = self.base.get(n, v.iv)
            if self.mode == 'endpoint' and not lo_o and lo != -D.inf:
                r = Dc(repr(lo))
            else:
                if lo == -D.inf and hi == D.inf:
                    lo, hi = -4.0, 4.0
                elif lo == -D.inf:
                    lo = hi - 4.0
                elif hi == D.inf:
                    hi = lo + 4.0
                h = random.Random('%s|%s' % (self.seed, n))
                x = h.uniform(0.05, 0.95)
                if lo > 0 and hi > 1e3 * lo:           # many magnitudes: sample them all
                    r = Dc(repr(math.exp(math.log(lo) + (math.log(hi) - math.log(lo)) * x)))
                else:
                    r = Dc(repr(lo)) + (Dc(repr(hi)) - Dc(repr(lo))) * Dc(repr(x))
        self.vals[n] = r
        return r

    def cond(self, k):
        c = self.conds.get(k)
        if c is None:
            raise NoValue('condition')
        if k in self.forced:
            return True
        if c[0] == 'and':
            return all(self.cond(k2) != n2 for k2, n2 in c[1])
        x, y = self.ev(c[1]), self.ev(c[2])
        return x < y if c[0] == 'lt' else x == y

    def ev(self, v):
        with decimal.localcontext(CTXD):
            return self._ev(v)

    def _ev(self, root):
        memo = self.memo
        st = [root]
        while st:
            v = st[-1]
            if id(v) in memo:
                st.pop()
                continue
            need = [x for x in self.kids(v) if id(x) not in memo]
            if need:
                st.extend(need)
                if len(st) > 2000000:
                    raise NoValue('too deep')
                continue
            try:
                memo[id(v)] = self.one(v)
            except (decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow, ZeroDivisionError, ValueError):
                raise NoValue('undefined at the sample')
            self.keep.append(v)
            st.pop()
        return memo[id(root)]

    def kids(self, v):
        if v.kind:
            raise NoValue(str(v))
        if v.k is not None or v.op == 'atom':
            return ()
        op = v.op
        if op == 'ipow':
            return v.args[:1]
        if op == 'uf':
            return () if v.args[0] == 'integral' else v.args[1]
        if op == 'solved':
            return v.args[0].A + v.args[0].B
        if op == 'eig':
            return v.args[0].M
        if op == 'phi':
            return v.args[1:]
        return v.args

    def one(self, v):
        if v.k is not None:
            return _dec(v.k)
        op = v.op
        m = self.memo
        if op == 'atom':
            return self.atom(v)
        a = v.args
        if op == 'add':
            return m[id(a[0])] + m[id(a[1])]
        if op == 'neg':
            return -m[id(a[0])]
        if op == 'mul':
            return m[id(a[0])] * m[id(a[1])]
        if op == 'inv':
            return 1 / m[id(a[0])]
        if op == 'ipow':
            return m[id(a[0])] ** a[1]
        if op == 'exp':
            return m[id(a[0])].exp()
        if op == 'sqrt':
            return m[id(a[0])].sqrt()
        if op == 'log':
            return m[id(a[0])].ln()
        if op == 'cos':
            return _sincos(m[id(a[0])])[1]
        if op == 'sin':
            return _sincos(m[id(a[0])])[0]
        if op == 'abs':
            return abs(m[id(a[0])])
        if op == 'max':
            return max(m[id(x)] for x in a)
        if op == 'min':
            return min(m[id(x)] for x in a)
        if op == 'uf':
            return self.ufv(v)
        if op == 'phi':
            (k, neg), x, y = a
            if self.byrepr is None:
                self.byrepr = {repr(kk): kk for kk in self.conds}
            if k not in self.byrepr:
                raise NoValue('phi')
            t = self.cond(self.byrepr[k]) != neg
            return m[id(x)] if t else m[id(y)]
        if op == 'solved':
            rec, i, j = a
            key = ('sol', id(rec))
            if key not in m:
                m[key] = self.solve(rec)
                self.keep.append(rec)
            return m[key][i][j]
        if op == 'eig':
            rec, what, i, j = a
            key = ('eig', id(rec))
            if key not in m:
                m[key] = self.eig(rec)
                self.keep.append(rec)
            w, vec = m[key]
            return w[i] if what == 'w' else vec[i][j]
        raise NoValue(op)

    def ufv(self, v):
        name, args, extra = v.args
        m = self.memo
        if name == 'integral':
            # a fixed quadrature functional of the integrand
            lo, hi = self._ev(args[1]), self._ev(args[2])
            acc = Dc(0)
            for k, t in enumerate((Dc('0.13'), Dc('0.37'), Dc('0.71'))):
                p = Point(self.base, self.seed, self.conds, self.mode)
                p.vals = dict(self.vals)
                p.vals['integration-variable'] = lo + (hi - lo) * t
                acc += p.ev(args[0]) * (k + 1)
            return acc * (hi - lo) / 6
        xs = [m[id(x)] for x in args]
        if name == 'pow':
            return xs[0] ** xs[1]
        if name == 'floor':
            return xs[0].to_integral_value(decimal.ROUND_FLOOR)
        if name in ('mod', 'floordiv'):
            if xs[1] == 0:
                raise NoValue('modulo 0')
            q = (xs[0] / xs[1]).to_integral_value(decimal.ROUND_FLOOR)
            return q if name == 'floordiv' else xs[0] - q * xs[1]
        if name == 'rint':
            return xs[0].to_integral_value(decimal.ROUND_HALF_EVEN)
        if name == 'rounded':
            if not xs[0]:
                return xs[0]
            e = 0
            x = abs(xs[0])
            f = Fraction(x)
            e = f.numerator.bit_length() - f.denominator.bit_length() - extra[0]
            s = Dc(2) ** e
            return (xs[0] / s).to_integral_value(decimal.ROUND_HALF_EVEN) * s
        if name == 'trunc':
            return xs[0].to_integral_value(decimal.ROUND_DOWN)
        if name.startswith('rho') or name.startswith('user'):
            h = random.Random(name)
            acc = Dc(repr(h.uniform(0.1, 0.2)))
            for i, x in enumerate(xs):
                acc += x * Dc(repr(h.uniform(0.02, 0.1))) + x * x * Dc(repr(h.uniform(0.02, 0.06)))
            if len(xs) > 1:
                acc += xs[0] * xs[1] * Dc(repr(h.uniform(0.02, 0.08)))
            return acc
        raise NoValue(name)

    def solve(self, rec):
        n, mm = rec.n, rec.m
        g = self.memo
        M = [[g[id(rec.A[i * n + j])] for j in range(n)] + [g[id(rec.B[i * mm + j])] for j in range(mm)] for i in range(n)]
        for c in range(n):
            p = max(range(c, n), key=lambda r: abs(M[r][c]))
            if M[p][c] == 0:
                raise NoValue('singular at the sample')
            M[c], M[p] = M[p], M[c]
            iv = 1 / M[c][c]
            row = [x * iv for x in M[c]]
            M[c] = row
            for r in range(n):
                f = M[r][c]
                if r != c and f != 0:
                    M[r] = [x - f * y for x, y in zip(M[r], row)]
        return [r[n:] for r in M]

    def eig(self, rec):
        M = [self.memo[id(x)] for x in rec.M]
        if rec.n == 1:
            return [M[0]], [[Dc('1.37')]]
        if rec.n > 2:
            return self.eig_n(rec, M)
        a, b, c, d = M
        tr, det = a + d, a * d - b * c
        r = (tr * tr - 4 * det)
        if r < 0:
            raise NoValue('complex eigenvalues')
        r = r.sqrt()
        w = [(tr + r) / 2, (tr - r) / 2]
        cols = []
        fb, fc = rec.M[1].fp != 0, rec.M[2].fp != 0
        if not (fb and fc):
            w = [a, d] if rec.first else [d, a]
        for i, l in enumerate(w):
            if fb:
                v = (b, l - a)
            elif fc:
                v = (l - d, c)
            else:
                v = (Dc(1), Dc(0)) if (i == 0) == (rec.first or rec.M[0].fp == rec.M[3].fp) else (Dc(0), Dc(1))
            s = (Dc('1.37'), Dc('0.83'))[i]
            cols.append((v[0] * s, v[1] * s))
        return w, [[cols[0][0], cols[1][0]], [cols[0][1], cols[1][1]]]


    def eig_n(self, rec, M):
        n = rec.n
        if isinstance(rec.first, list):
            w = [M[j * n + j] for j in rec.first]
            return w, [[Dc('1.37') if i == j else Dc(0) for j in rec.first] for i in range(n)]
        # characteristic polynomial (Faddeev-LeVerrier), real roots from above, inverse iteration
        c = [Dc(0)] * n + [Dc(1)]
        B = [[Dc(0)] * n for _ in range(n)]
        for k in range(1, n + 1):
            for i in range(n):
                B[i][i] += c[n - k + 1]
            B = [[sum(M[i * n + t] * B[t][j] for t in range(n)) for j in range(n)] for i in range(n)]
            c[n - k] = -sum(B[i][i] for i in range(n)) / k
        w, f = [], c
        top = max(sum(abs(M[i * n + j]) for j in range(n)) for i in range(n)) + 1
        while len(f) > 1:
            x = top
            for _ in range(4000):
                p = d = Dc(0)
                for a in reversed(f):
                    d = d * x + p
                    p = p * x + a
                if d == 0:
                    break
                y = x - p / d
                if abs(y - x) <= abs(y) * Dc(10) ** -52:
                    x = y
                    break
                x = y
            else:
                raise NoValue('complex eigenvalues')
            w.append(x)
            q, acc = [], Dc(0)
            for a in reversed(f):
                acc = acc * x + a
                q.append(acc)
            f = q[:-1][::-1]
        w.sort()
        cols = []
        for i, l in enumerate(w):
            sh = l + abs(l) * Dc(10) ** -40
            v = [Dc(k + 1) / 3 + 1 for k in range(n)]
            for _ in range(3):
                A = [[M[r * n + s] - (sh if r == s else 0) for s in range(n)] + [v[r]] for r in range(n)]
                for cc in range(n):
                    p = max(range(cc, n), key=lambda r: abs(A[r][cc]))
                    if A[p][cc] == 0:
                        raise NoValue('singular at the sample')
                    A[cc], A[p] = A[p], A[cc]
                    for r in range(n):
                        if r != cc:
                            g = A[r][cc] / A[cc][cc]
                            if g:
                                A[r] = [x - g * y for x, y in zip(A[r], A[cc])]
                v = [A[r][n] / A[r][r] for r in range(n)]
                big = max(v, key=abs)
                v = [x / big for x in v]
            cols.append([x * (Dc('1.37') + i) for x in v])
        return w, [[cols[j][i] for j in range(n)] for i in range(n)]


def _atoms(vs, cap=4000):
    """Input quantities of a value graph (nodes and constants of the quadrature excluded)."""
    out, seen, st = [], set(), list(vs)
    p = Point({}, 0, {})
    while st and len(seen) < cap:
        v = st.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        if v.op == 'atom' and v.k is None:
            n = v.args[0]
            if isinstance(n, str) and n != 'pi' and not ('/' in n and n[:1] in 'mw') and v not in out:
                out.append(v)
            continue
        try:
            st.extend(p.kids(v))
        except NoValue:
            pass
    return out


def _solve(base, t, conds, k, vals, forced, want=0):
    """Choose one input so that the sides of the comparison k become equal (want 0), or just so that
    left - right has the sign `want`; the point's inputs, or None."""
    c = conds.get(k)
    if c is None or c[0] not in ('eq', 'lt'):
        return None

    # |x| against y: follow x against y and -y
    sides = [(c[1], c[2], 1)]
    for x, y in ((c[1], c[2]), (c[2], c[1])):
        if x.op == 'abs':
            sides += [(x.args[0], y, 1), (x.args[0], y, -1)]

    def at(extra, side=None):
        p = Point(base, t, conds)
        p.vals = dict(vals)
        p.vals.update(extra)
        p.forced = set(forced)
        x, y, sg = side or sides[0]
        with decimal.localcontext(CTXD):
            return p.ev(x) - sg * p.ev(y)
    try:
        now = at({})
        if now == 0 and not want or want and now != 0 and (now > 0) == (want > 0):
            return vals
    except NoValue:
        return None
    cands = [a for a in _atoms([c[1], c[2]]) if a.args[0] not in vals]
    random.Random('%s|%s' % (t, len(cands))).shuffle(cands)
    for a in cands[:6]:
        n = a.args[0]
        lo, _, hi, _ = base.get(n, a.iv)
        lo, hi = (Dc(repr(x)) if abs(x) != D.inf else None for x in (lo, hi))
        if lo is None:
            lo = Dc(-4) if hi is None else hi - 4
        if hi is None:
            hi = lo + 4
        with decimal.localcontext(CTXD):
            w = hi - lo
            xs = [lo, lo + w / 1000, lo + w / 3, lo + 2 * w / 3, hi - w / 1000, hi]
        for side in sides:
            r = _root(xs, lambda x: at({n: x}, side), want == 0)
            if r is None:
                continue
            z, h = r
            lo_, lo_o, hi_, hi_o = base.get(n, a.iv)
            inside = lambda z: not (lo_o and z <= Dc(repr(lo_)) or hi_o and z >= Dc(repr(hi_)) or z < lo or z > hi)
            if not want:
                z = z.normalize(CTXD)
                if abs(h) <= Dc(10) ** -45 and inside(z):
                    return dict(vals, **{n: z})
                continue
            steps = [Dc(repr(x)) for x in (0.2, 0.03, 1e-3, 1e-5, 1e-7)]
            if t % 2:
                steps.reverse()
            for d in steps:
                for sg in (1, -1):
                    with decimal.localcontext(CTXD):
                        y = z + sg * d * w
                    try:
                        if inside(y) and (at({n: y}) > 0) == (want > 0):
                            return dict(vals, **{n: y})
                    except NoValue:
                        pass
    return None


def _root(xs, f, exact):
    """A zero of f between two of the places xs: (place, value) or None."""
    fs = []
    for x in xs:
        try:
            fs.append((x, f(x)))
        except NoValue:
            pass
    for (x, p), (y, q) in zip(fs, fs[1:]):
        if (p > 0) == (q > 0) and p != 0 and q != 0:
            continue
        try:
            with decimal.localcontext(CTXD):
                for i in range(400 if exact else 40):
                    if p == 0 or q == 0 or abs(y - x) < Dc(10) ** -54:
                        break
                    # secant step, safeguarded by bisection
                    z = x - p * (y - x) / (q - p) if i % 3 else (x + y) / 2
                    if not min(x, y) < z < max(x, y):
                        z = (x + y) / 2
                    h = f(z)
                    if (h > 0) == (p > 0) and h != 0:
                        x, p = z, h
                    else:
                        y, q = z, h
            return (x, p) if abs(p) <= abs(q) else (y, q)
        except NoValue:
            continue
    return None


SPENT = [0.0]        # processor seconds of this process in repairs


def _repair(base, t, conds, choices, vals, forced):
    """Move one input after the other until the path conditions hold; the inputs, or None."""
    for _ in range(8):
        p = Point(base, t, conds)
        p.vals, p.forced = dict(vals), set(forced)
        wrong = None
        try:
            for k, b in choices.items():
                if p.cond(k) != b:
                    if k[0] != 'lt':
                        return None
                    wrong = (k, b)
                    break
        except NoValue:
            return None
        if wrong is None:
            return vals
        vals = _solve(base, t, conds, wrong[0], vals, forced, -1 if wrong[1] else 1)
        if vals is None:
            return None
    return None


def holds(p, k):
    """Are the sides of a solved equality still equal (to the precision that it was solved with)?"""
    c = p.conds.get(k)
    with decimal.localcontext(CTXD):
        x, y = p.ev(c[1]), p.ev(c[2])
        return abs(x - y) <= Dc(10) ** -40 * (1 + abs(x) + abs(y))


def points(base, conds, choices, n=4, tries=60, relevant=None, start=None):
    """Sampled points satisfying the path choices.  start: (seed, inputs) of a point known to follow the path."""
    out = []
    if start is not None:
        p = Point(base, start[0], conds)
        p.vals, p.forced = dict(start[1]), set(start[2])
        out.append(p)
        tries = min(tries, 8)
    eqs = []
    for k, b in choices.items():
        if k[0] == 'eq':
            if b:
                eqs.append(k)
            continue
        c = conds.get(k)
        if c is not None and c[0] == 'and':
            if b:                    # every part holds
                eqs += [k2 for k2, n2 in c[1] if k2[0] == 'eq' and not n2]
            else:                    # some part fails: make one stated inequality an equality
                e2 = [k2 for k2, n2 in c[1] if k2[0] == 'eq' and n2]
                if e2 and len(e2) == len(c[1]):
                    eqs.append(e2[0])
    eqs = list(dict.fromkeys(eqs))

    def sample(t, repair):
        p = Point(base, t, conds)
        vals = {}
        for k in eqs:
            vals = _solve(base, t, conds, k, vals, p.forced)
            if vals is None:
                return None
            p.forced.add(k)
        if repair:
            vals = _repair(base, t, conds, choices, vals, p.forced)
            if vals is None:
                return None
        p.vals = dict(vals)
        try:
            if all(holds(p, k) for k in eqs) and all(p.cond(k) == b for k, b in choices.items()):
                return p
        except NoValue:
            pass
        return None
    for repair in ((False, True) if choices and start is None else (False,)):
        if repair and (out or SPENT[0] > 40):
            break
        t0 = time.process_time()
        for t in range((6 if repair else tries) if choices else n):
            if eqs and t >= 12 and not out:
                break
            p = sample(t, repair)
            if p is not None:
                out.append(p)
            if len(out) >= n:
                break
        if repair:
            SPENT[0] += time.process_time() - t0
    return out


TOL = Dc(10) ** -22


def differ(p, a, b):
    """Do two values differ at the point p?  True/False; NoValue when not evaluable."""
    x, y = p.ev(a), p.ev(b)
    with decimal.localcontext(CTXD):
        d = abs(x - y)
        return d > TOL * (abs(x) + abs(y)) and d > Dc(10) ** -42, x, y


def nonzero(p, v, scale=None):
    x = p.ev(v)
    with decimal.localcontext(CTXD):
        return abs(x) > Dc(10) ** -25, x
