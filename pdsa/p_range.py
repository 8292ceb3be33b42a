"""Floating point range: the outputs stay defined however thick the layers are.

The value graph of every output is interpreted in the domain of (sign, mantissa, unbounded decimal
exponent): what double precision rounds to zero (below 1e-308) or to infinity (above 1e308) is
recognisable there.  Reported are
  * an exponential (or any value) that overflows,
  * a division by a value that underflows to zero,
  * a linear system that becomes singular once its underflowing entries are zero.
The graph comes from the abstract interpretation of the sources; the atoms take representative
values of each thickness class."""
import decimal
from decimal import Decimal as Dc
from . import dom as D
from . import nd
from . import wit
from .nd import Arr
from .scen import Problem
from .p_solver import phis, tau_sets, ask
from .p_api import outs

TINY, BIG = Dc('1e-308'), Dc('1e308')


class Range(wit.Point):
    """Evaluates value graphs and records range faults of the nodes."""
    def __init__(self, *a):
        wit.Point.__init__(self, *a)
        self.faults = {}

    def fault(self, v, text):
        if len(self.faults) < 50:
            self.faults.setdefault((text, v.loc), v)

    def one(self, v):
        r = wit.Point.one(self, v)
        if v.k is None and v.op != 'atom':
            if v.op == 'inv':
                x = self.memo[id(v.args[0])]
                if abs(x) < TINY:
                    self.fault(v, 'division by a value that underflows to zero')
                    return r
            if v.op not in ('solved', 'eig') and abs(r) > BIG:
                a = [self.memo[id(x)] for x in self.kids(v)]
                if not any(abs(x) > BIG for x in a):
                    self.fault(v, 'the exponential overflows' if v.op == 'exp' else 'the value overflows')
        return r

    def solve(self, rec):
        n = rec.n
        M = [[self.memo[id(rec.A[i * n + j])] for j in range(n)] for i in range(n)]
        M = [[x if abs(x) > TINY else Dc(0) for x in r] for r in M]
        for c in range(n):
            p = max(range(c, n), key=lambda r: abs(M[r][c]))
            if abs(M[p][c]) < Dc('1e-40'):
                loc = next((x.loc for x in rec.A if x.k is None), None)
                self.faults.setdefault(('the linear system becomes singular once transmissions underflow', loc), None)
                break
            M[c], M[p] = M[p], M[c]
            for r in range(c + 1, n):
                f = M[r][c] / M[c][c]
                if f != 0:
                    M[r] = [x - f * y for x, y in zip(M[r], M[c])]
        return wit.Point.solve(self, rec)


RNG = [dict(L=1, NF=2, f=True, bdrf=('func',)), dict(L=2, f=True, NF=2), dict(L=3, NF=2, f=True, iso=2, bdrf=('scalar',), bneg='scalar'),
       dict(L=3, NF=1, beam=False, iso=1, bpos='vector'), dict(L=4, NF=1, f=True, banded=3, bdrf=('func',)), dict(N=1, L=3, NLA=3, f=True, iso=3),
       dict(L=1, NF=2, f=True, nt=True, NLeg=3), dict(L=2, f=True, nt=True, NLeg=3, NF=2), dict(L=3, f=True, nt=True, NLeg=3, NF=2, iso=1),
       dict(N=1, L=4, f=True, nt=True, NLeg=2, NF=1, NLA=4), dict(N=1, L=3, f_layers=(1,), nt=True, NLeg=2, NF=1, NLA=4),
       dict(L=3, f=True, only_flux=True, iso=1), dict(L=3, NF=1, noscat=(1,), iso=1), dict(N=3, L=2, NF=1, NLA=7, f=True)]


def chk_range(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        res = []
        for si, (nm, pts) in enumerate(tau_sets(p)):
            taus = [t for t, _ in pts]
            for anti in (False, True):
                for k, a in outs(p, taus, anti).items():
                    res.append(('%s%s' % (k, ' antiderivative' if anti else ''), nm, a))
        ctx = w.ctx
        pts = []
        for t in range(60):
            q = Range(w.base, t, ctx.conds)
            try:
                if all(q.cond(k) == b for k, b in ctx.choices.items()):
                    pts.append(q)
            except wit.NoValue:
                pass
            if len(pts) == 2:
                break
        for k, nm, a in res:
            text = '%s stays within the floating point range (%s)' % (k, nm)
            cells = [nd.tov(x) for x in (a.cells() if isinstance(a, Arr) else [a])]
            und, bad = (None if pts else 'no sample satisfies the path conditions'), None
            for q in pts:
                before = set(q.faults)
                try:
                    with decimal.localcontext(wit.CTXD):
                        for c in cells:
                            q.ev(c)
                except wit.NoValue as e:
                    und = str(e)
                new = [f for f in q.faults if f not in before]
                if new:
                    bad = new[0]
                    break
            ob.total += 1
            if bad:
                ob._bad('%s: %s' % (text, bad[0]), bad[1])
            elif und:
                ob.und.append('%s: %s' % (text, und))
            else:
                ob._ok(text)
    return fn


def confs(tier):
    r = [dict(o, mag=m) for o in RNG for m in (('thick', 'steep') if o['L'] > 1 else ('thick',))]
    return r


# ------------------------------------------------------------------ poles inside the valid range
POLE = [dict(L=1, NF=2, iso=1, f=True), dict(L=2, NF=2, iso=2, bdrf=('scalar',)), dict(L=2, NF=2, f=True, bpos='scalar'), dict(L=2, f=True, nt=True, NLeg=3, NF=2), dict(L=3, f=True, nt=True, NLeg=3, NF=1, iso=1),
        dict(N=1, L=2, NLA=3, f=True, iso=2), dict(N=1, L=3, f=True, nt=True, NLeg=2, NF=1, NLA=4), dict(L=2, f=True, nt=True, NLeg=3, NF=2, mu0='hi'), dict(L=2, f=True, nt=True, NLeg=3, NF=2, mu0='low'),
        dict(L=3, beam=False, iso=3, NF=1, f=True), dict(L=2, mag='neg', f=True, NF=2, iso=1), dict(L=2, mag='wide', NF=1, iso=1, mu0='any'), dict(L=3, NF=1, noscat=(1,), iso=2), dict(L=2, only_flux=True, f=True, iso=1, bdrf=('func',)),
        dict(L=1, mag='full', f=True, NF=2, mu0='any'), dict(L=2, mag='full', NF=2, bdrf=('scalar',), iso=1), dict(L=2, mag='full', f=True, nt=True, NLeg=3, NF=1), dict(N=1, L=2, mag='full', NF=1, NLA=2, iso=2, f=True, mu0='any'),
        dict(N=1, L=1, mag='full', beam=False, bpos='scalar', bneg='scalar', NF=1, NLA=2, f=True), dict(L=2, mag='full', bpos='scalar', bneg='scalar', NF=1), dict(L=2, mag='full', f=True, iso=2, beam=False, NF=1, bdrf=('func',))]


def nodes(cells):
    """Division nodes of the value graphs, by source construct."""
    seen, st, out = set(), list(cells), {}
    while st:
        v = st.pop()
        if id(v) in seen or v.kind or v.k is not None or v.op == 'atom':
            continue
        seen.add(id(v))
        if v.op == 'inv':
            out.setdefault(v.loc, []).append(v)
        if v.op == 'ipow':
            st.append(v.args[0])
        elif v.op == 'uf':
            st += [x for x in v.args[1] if isinstance(x, D.V)]
        elif v.op == 'solved':
            st += v.args[0].A + v.args[0].B
        elif v.op == 'eig':
            st += v.args[0].M
        elif v.op == 'phi':
            continue                      # one side is a guarded alternative
        else:
            st += v.args
    return out


def smu0(p):
    """Documented scaled beam cosine of the second-order correction."""
    from .scen import vsum
    ot = [D.mul(p.om[l], p.T[l]) for l in range(p.L)]
    s2 = vsum([D.mul(p.f[l], ot[l]) for l in range(p.L)])
    return D.div(p.mu0, D.sub(D.ONE, D.div(s2, vsum(p.T))))


def excuses(p):
    """(key, text, V that vanishes on the singular set)"""
    out = []
    if p.o['nt'] and p.anyf:
        s = smu0(p)
        for m in p.mus:
            out.append(('scaled-beam-at-node', D.sub(m, s)))
    if p.o['beam']:
        r = D.inv(p.mu0)
        for i in range(p.L):
            for md in range(p.NF):
                d = p.Dmat(md, i)
                mu = p.mu_full()
                n = p.NQ
                W = list(p.ws) + list(p.ws)
                A = [[D.div(D.sub(D.mul(d[a][b], W[b]), D.ONE if a == b else D.ZERO), mu[a]) for b in range(n)] for a in range(n)]
                # du/dtau = -A u in the code's sign convention: poles where det(1/mu0 - A) det(1/mu0 + A) = 0
                out.append(('beam-resonance', [[D.add(A[a][b], r) if a == b else A[a][b] for b in range(n)] for a in range(n)]))
                out.append(('beam-resonance', [[D.sub(A[a][b], r) if a == b else A[a][b] for b in range(n)] for a in range(n)]))
    return out


def det(q, M):
    n = len(M)
    with decimal.localcontext(wit.CTXD):
        M = [[q.ev(x) for x in r] for r in M]
        d = Dc(1)
        for c in range(n):
            k = max(range(c, n), key=lambda r: abs(M[r][c]))
            if M[k][c] == 0:
                return Dc(0)
            M[c], M[k] = M[k], M[c]
            d *= M[c][c]
            for r in range(c + 1, n):
                f = M[r][c] / M[c][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
        return abs(d)


def chk_poles(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        taus = [t for t, _ in tau_sets(p)[1][1]]
        cells = []
        for anti in (False, True):
            for a in outs(p, taus, anti).values():
                cells += [nd.tov(x) for x in (a.cells() if isinstance(a, Arr) else [a])]
        ctx = w.ctx
        pts = wit.points(w.base, ctx.conds, ctx.choices, 12, 120)
        exc = excuses(p)
        known = set()
        for loc, vs in sorted(nodes(cells).items(), key=lambda t: str(t[0])):
            ob.total += 1
            text = 'no divisor vanishes for valid input'
            seen, verdict = set(), None
            for v in vs:
                a = v.args[0]
                if a.fp in seen or len(seen) > 40:
                    continue
                seen.add(a.fp)
                if a.iv[0] > 0 or a.iv[2] < 0 or (a.iv[0] == 0 and a.iv[1]) or (a.iv[2] == 0 and a.iv[3]):
                    continue                                   # the interval excludes zero
                pos = neg = None
                for q in pts:
                    try:
                        x = q.ev(a)
                    except wit.NoValue:
                        continue
                    if x > 0:
                        pos = pos or q
                    elif x < 0:
                        neg = neg or q
                if not (pos and neg):
                    continue
                r = root(w, a, pos, neg)
                if r is None:
                    continue
                try:
                    if not all(r.cond(k) == b for k, b in ctx.choices.items()):
                        continue                               # excluded by a check of the program
                except wit.NoValue:
                    continue
                for key, e in exc:
                    try:
                        z = det(r, e) if isinstance(e, list) else abs(r.ev(e))
                    except wit.NoValue:
                        continue
                    if z < Dc(10) ** -12:
                        known.add(key)
                        break
                else:
                    verdict = {'got': 'a divisor of zero', 'expected': 'a non-zero divisor', 'inputs': {k: float(x) for k, x in sorted(r.vals.items()) if k != 'pi'}}
                    break
            if verdict:
                ob._bad('%s: a divisor of this construct changes sign inside the range of valid inputs' % text, loc, verdict)
            else:
                ob._ok(text)
        for k in sorted(known):
            ob.total += 1
            ob._bad('division by zero for valid input [%s]' % k, None, {'got': k, 'expected': 'a defined value'})
    return fn


def root(w, a, p, q):
    """Bisection on the segment between two points of the (convex) class; None for a jump."""
    names = set(p.vals) | set(q.vals)
    for n in names:
        if n not in p.vals or n not in q.vals:
            return None
    def at(t):
        r = wit.Point(w.base, 0, w.ctx.conds)
        with decimal.localcontext(wit.CTXD):
            r.vals = {n: p.vals[n] * (1 - t) + q.vals[n] * t for n in names}
        return r
    lo, hi = Dc(0), Dc(1)
    scale = max(abs(p.ev(a)), abs(q.ev(a)))
    try:
        for _ in range(90):
            with decimal.localcontext(wit.CTXD):
                m = (lo + hi) / 2
            r = at(m)
            x = r.ev(a)
            if x == 0:
                return r
            if x > 0:
                lo = m
            else:
                hi = m
        return r if abs(x) < scale * Dc(10) ** -15 else None
    except wit.NoValue:
        return None
