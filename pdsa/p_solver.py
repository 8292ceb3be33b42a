"""Solver properties: the returned functions against the documented equations."""
from fractions import Fraction
import math
from . import dom as D
from . import field as F
from . import nd
from . import npm
from . import scen as S
from .scen import Problem, unsq, at, vsum
from .nd import Arr, PyExc, Unsupported

# ------------------------------------------------------------------ scenario classes
QUICK = [
    dict(),
    dict(L=1, scalars=True, f=True, bdrf=('func', 'scalar'), NF=2, bpos='scalar'),
    dict(L=2, f=True, bneg='scalar', NLeg=3),
    dict(L=3, f=True, banded=3, bdrf=('func', 'scalar', 'func'), bpos='vector', NF=3),
    dict(L=3, f=True, iso=2, bdrf=('scalar',), NF=2),
    dict(L=2, iso=1, beam=False, bpos='scalar', NF=1),
    dict(L=3, f=True, iso=3, bneg='matrix', bpos='matrix', NF=3, bdrf=('func',)),
    dict(L=3, iso=4, noscat=(1,), bdrf=('func', 'func'), NF=2, bneg='vector'),
    dict(N=1, L=2, f=True, iso=2, NLA=3),
    dict(L=2, beam=False, bneg='matrix', NF=2),
    dict(L=4, banded=4, f_layers=(1, 3), NF=2, isog=(2,)),
    dict(L=3, noscat=(0,), iso=2, NF=2, mu0='hi', bdrf=('scalar', 'scalar')),
    dict(L=2, noscat=(0, 1), iso=1, NF=2, mu0='low', bdrf=('func',)),
    dict(L=3, isog=(0, 2), NF=3, mu0='one', bpos='matrix'),
    dict(L=5, f=True, iso=1, NF=1, banded=3, beam=False, bdrf=('func',), bneg='vector'),
    dict(L=2, only_flux=True, f=True, iso=2, bdrf=('func', 'scalar'), bpos='vector'),
    dict(L=1, iso=2, beam=True, NF=2, f=False, mu0='low'),
]

THOROUGH = QUICK + [
    dict(L=L, f=f, iso=iso, beam=beam, bdrf=bdrf, bpos=bp, bneg=bn, NF=NF, banded=3, NLeg=nl)
    for (L, f, iso, beam, bdrf, bp, bn, NF, nl) in [
        (1, 0, 0, 1, (), 'vector', 'matrix', 4, 4), (1, 0, 1, 1, ('func',), 'matrix', 'zero', 2, 3),
        (1, 1, 2, 0, ('scalar', 'func'), 'zero', 'scalar', 3, 4), (1, 1, 3, 1, (), 'scalar', 'vector', 1, 2),
        (2, 0, 0, 1, ('func', 'func'), 'zero', 'zero', 3, 3), (2, 0, 3, 1, ('scalar',), 'vector', 'scalar', 2, 4),
        (2, 1, 1, 1, ('func', 'func', 'func', 'func'), 'matrix', 'matrix', 4, 4), (2, 1, 4, 0, (), 'vector', 'vector', 2, 2),
        (3, 0, 1, 0, ('func',), 'scalar', 'matrix', 2, 3), (3, 0, 2, 1, (), 'matrix', 'vector', 4, 4),
        (3, 1, 0, 1, ('scalar', 'scalar', 'scalar'), 'vector', 'scalar', 3, 4), (3, 1, 4, 1, ('func', 'scalar'), 'zero', 'zero', 2, 4),
        (4, 1, 2, 1, ('func',), 'scalar', 'scalar', 2, 4), (4, 0, 0, 0, ('func',), 'vector', 'vector', 2, 4),
        (5, 1, 3, 1, ('scalar',), 'matrix', 'zero', 2, 4), (6, 1, 1, 1, ('func', 'func'), 'zero', 'vector', 2, 4),
    ]
] + [
    dict(N=1, L=1, NLA=2, NLeg=2), dict(N=1, L=3, banded=3, NLA=4, f=True, iso=3, bdrf=('func', 'scalar')),
    dict(N=1, L=4, NLA=2, NLeg=1, iso=1, beam=False, bpos='scalar'),
    dict(L=3, f_layers=(0,), iso=2, noscat=(2,), NF=2), dict(L=3, f_layers=(2,), noscat=(0, 1), NF=2, iso=3),
    dict(L=3, noscat=(0, 1, 2), NF=2, bdrf=('func', 'func'), iso=4), dict(L=2, isog=(0, 1), NF=4, iso=2, bdrf=('scalar',)),
    dict(L=4, banded=3, isog=(1,), noscat=(3,), NF=3, iso=2, mu0='hi'), dict(L=2, NLeg=1, NF=1, iso=2, f=True),
    dict(L=2, NLeg=2, NF=2, f=True, mu0='one', NLA=8),
]


MAGS = [
    dict(L=2, mag='tiny', f=True, NF=2, iso=2, bdrf=('scalar',)), dict(L=1, mag='tiny', NF=4, bpos='scalar'), dict(L=3, mag='huge', f=True, NF=3, iso=2, bdrf=('func', 'scalar'), banded=3),
    dict(L=2, mag='huge', NF=2, bneg='vector', iso=1), dict(L=2, mag='faint', f=True, NF=2), dict(L=2, mag='faint', beam=False, iso=1, NF=1), dict(L=2, mag='faint', beam=False, bpos='scalar', NF=2, bdrf=('func',)),
    dict(L=2, mag='faint', beam=False, bneg='matrix', NF=2), dict(L=2, mag='neg', f=True, NF=3, iso=2), dict(L=1, mag='neg', NF=4, bdrf=('scalar', 'scalar')),
    dict(L=4, mag='mixed', f=True, NF=2, iso=1, bpos='vector'), dict(L=4, mag='mixed', NF=3, banded=3, bdrf=('func',), bneg='scalar'), dict(L=2, mu0='graze', NF=2, f=True), dict(N=1, L=4, mag='mixed', NF=2, NLA=3, iso=3, f=True),
]

MORE = [
    dict(L=2, beam=False, NF=2), dict(L=2, beam=False, only_flux=True), dict(L=10, f=True, NF=1, iso=1, bdrf=('func',)), dict(L=11, NF=1, f_layers=(3, 7), noscat=(5,)),
    dict(L=3, f=True, iso=5, NF=2, bdrf=('func',)), dict(L=2, f=True, iso=6, NF=1, beam=False), dict(N=1, L=2, NF=2, NLA=3, bpos='matrix', bneg='matrix', f=True),
    dict(N=1, L=2, NF=2, NLA=3, bpos='matrix', bdrf=('func', 'func')), dict(N=1, L=1, NF=1, NLA=2, bpos='vector', bneg='vector', bdrf=('scalar',)),
    dict(L=2, f=True, NF=1, bpos='matrix', bneg='vector'), dict(L=1, only_flux=True, bneg='matrix', f=True), dict(L=3, only_flux=True, banded=3, iso=3, bpos='matrix', bdrf=('func',)),
    dict(L=2, f_layers=(1,), noscat=(1,), NF=2, iso=2), dict(L=2, NF=3, bdrf=('func', 'scalar', 'func', 'func', 'scalar')), dict(L=2, NF=2, f=True, isog=(0,), iso=1, bdrf=('scalar', 'func')),
    dict(L=4, NF=4, f=True, banded=3, bpos='matrix', bneg='matrix', bdrf=('func', 'func', 'func')),
]

# every input over many magnitudes, interleaved with zero low-order phase moments
WIDE = [
    dict(L=2, mag='cloud', NF=1, bdrf=('scalar',)), dict(N=1, L=3, mag='cloud', NF=2, NLA=3, f=True, beam=False, bneg='scalar', iso=1), dict(N=1, L=3, mag='cloud', NF=1, NLA=3, banded=3, bpos='scalar'),
    dict(L=2, mag='edge', f=True, NF=2, iso=1, bdrf=('scalar',)), dict(L=1, mag='edge', NF=3, bneg='scalar'), dict(L=3, mag='edge', f=True, NF=1, banded=3, bdrf=('func',), bpos='vector', mu0='graze'),
    dict(L=2, mag='edge2', f=True, NF=3, iso=2, bdrf=('scalar', 'func')), dict(L=1, mag='edge2', NF=2, bpos='matrix'), dict(L=2, mag='edge2', beam=False, iso=1, NF=2),
    dict(L=2, mag='negb', beam=False, NF=2, bneg='vector', bdrf=('scalar',)), dict(L=1, mag='negb', beam=False, NF=2, bpos='matrix', iso=1), dict(L=3, mag='negb', f=True, NF=2, bpos='scalar', bneg='matrix'),
    dict(L=2, mag='wide', NF=2, bdrf=('scalar',), bpos='scalar', mu0='any'), dict(L=3, mag='wide', NF=2, iso=2, banded=3, bneg='vector'),
    dict(L=2, mag='wide', f=True, NF=3, iso=1), dict(L=2, mag='wide', beam=False, NF=2, iso=1, bdrf=('func',), bneg='scalar'), dict(N=1, L=3, mag='wide', NF=2, NLA=3, iso=2, mu0='any', bdrf=('func', 'scalar')),
    dict(L=2, gzero=(1,), NF=3, f=True), dict(L=1, gzero=(1, 2), NF=4, bdrf=('scalar', 'func')), dict(L=2, gzero=(2,), NF=4, iso=1, bpos='matrix'), dict(L=2, gzero=(1, 3), NF=3, mu0='any', NLeg=3),
]


# six and eight streams
STREAMS = [
    dict(N=3, L=1, NF=1), dict(N=3, L=2, NF=2, f=True, iso=2, bdrf=('func', 'scalar'), NLA=7, bpos='scalar'), dict(N=3, L=3, NF=1, banded=3, NLA=7, bneg='vector', noscat=(1,)),
    dict(N=4, L=2, NF=1, NLA=9, f=True, iso=1, bdrf=('func',)), dict(N=4, L=1, NF=3, NLA=9), dict(N=3, L=2, beam=False, iso=3, NF=2, bpos='matrix', isog=(1,), NLA=6),
    dict(N=3, L=1, NF=1, mag='wide', NLA=3), dict(N=3, L=2, NF=2, mag='tiny', NLA=4, iso=1, bneg='vector'), dict(N=3, L=1, NF=1, mag='edge2', NLA=3, f=True, bdrf=('func',)),
]


# inputs that are exactly zero in some places only, or equal in several places
PATTERN = [
    dict(L=2, iso=2, NF=1, zeros=('s0_1',), beam=False), dict(L=3, iso=3, NF=2, zeros=('s0_2', 's1_0', 's1_1', 's1_2'), f=True), dict(L=2, iso=2, NF=2, zeros=('s1_0', 's1_1'), bdrf=('func',)),
    dict(L=2, iso=3, NF=1, zeros=('s0_0', 's1_0', 's1_2'), beam=False, bpos='scalar'), dict(L=3, iso=1, NF=1, zeros=('s0_0', 's2_0'), f=True, bdrf=('scalar',)), dict(L=2, iso=4, NF=1, zeros=('s0_3', 's1_3', 's0_0', 's1_0'), f=True),
    dict(L=2, NF=3, bpos='matrix', bneg='matrix', zeros=('bp_0_0', 'bp_1_0', 'bn_0_1', 'bn_1_1'), beam=False), dict(L=2, NF=2, bpos='vector', bneg='vector', zeros=('bp_0', 'bn_1'), f=True),
    dict(L=1, NF=3, bpos='matrix', zeros=('bp_0_0', 'bp_1_0', 'bp_0_1', 'bp_1_1'), bdrf=('func',)), dict(L=2, NF=3, bdrf=('scalar', 'scalar', 'scalar'), zeros=('rho0', 'rho2'), bneg='matrix'), dict(L=1, NF=2, bdrf=('scalar', 'scalar'), zeros=('rho1',), f=True),
    dict(L=2, NF=4, zeros=('g0_1', 'g1_2'), f=True), dict(L=3, NF=4, zeros=('g0_3', 'g0_2', 'g1_1', 'g1_3', 'g2_1'), iso=1), dict(L=2, NF=3, zeros=('g0_1', 'g0_2', 'g0_3', 'g0_4', 'g1_3')),
    dict(L=3, NF=2, f=True, zeros=('f1', 'om2'), iso=2), dict(L=3, NF=2, f=True, zeros=('f0', 'f2', 'om0'), bdrf=('func', 'scalar')), dict(L=4, NF=2, zeros=('om1', 'om3'), iso=2, bneg='vector', banded=3),
    dict(L=3, NF=2, f=True, ties=('om1=om0', 'om2=om0'), iso=2), dict(L=3, NF=2, f=True, ties=('om2=om0', 'f2=f0', 'g2_1=g0_1', 'g2_2=g0_2', 'g2_3=g0_3', 'g2_4=g0_4')), dict(L=2, NF=3, f=True, ties=('g1_1=g0_1', 'g1_2=g0_2', 'g1_3=g0_3', 'g1_4=g0_4', 'f1=f0')),
    dict(L=3, NF=2, ties=('om1=om0', 'g1_1=g0_1', 'g1_2=g0_2', 'g1_3=g0_3', 'g1_4=g0_4'), iso=2, bdrf=('func',)), dict(L=2, NF=1, iso=2, beam=False, ties=('s1_0=s0_0', 's1_1=s0_1'), f=True), dict(L=2, NF=2, ties=('g0_2=g0_1', 'g0_3=g0_1', 'g1_2=g1_1'), bdrf=('scalar',)),
    dict(L=2, NF=2, bpos='scalar', bneg='scalar', ties=('bp=bn',), iso=1), dict(L=2, NF=2, bpos='vector', ties=('bp_1=bp_0',), f=True), dict(L=2, NF=2, bneg='matrix', bpos='matrix', ties=('bn_0_1=bn_0_0', 'bn_1_1=bn_1_0', 'bp_0_0=bn_0_0'), beam=False),
    dict(L=1, NF=3, bdrf=('scalar', 'scalar', 'scalar'), ties=('rho1=rho0', 'rho2=rho0')), dict(L=2, NF=3, bdrf=('func', 'func', 'func'), ties=('rho1=rho0', 'rho2=rho0'), f=True),
    dict(L=2, NF=3, bdrf=('func', 'func', 'func'), ties=('rho2=rho1',), iso=1, bneg='matrix', beam=False), dict(L=3, NF=2, banded=3, f=True, ties=('f1=f0', 'f2=f0', 'om1=om0', 'om2=om0', 'g1_1=g0_1', 'g1_2=g0_2', 'g1_3=g0_3', 'g1_4=g0_4', 'g2_1=g0_1', 'g2_2=g0_2', 'g2_3=g0_3', 'g2_4=g0_4'), iso=1),
]


def grid():
    """A deterministic covering of the option space (every pair of option values occurs)."""
    opts = [('L', (1, 2, 3, 4, 6)), ('f', (False, True)), ('iso', (0, 1, 2, 3, 4)), ('beam', (True, False)), ('bdrf', ((), ('func',), ('scalar',), ('func', 'scalar'), ('scalar', 'func', 'func'))),
            ('bpos', ('zero', 'scalar', 'vector', 'matrix')), ('bneg', ('zero', 'scalar', 'vector', 'matrix')), ('NF', (1, 2, 3, 4)), ('banded', (3, 4, None)),
            ('mu0', ('mid', 'low', 'hi', 'one')), ('noscat', ((), (0,), 'last')), ('only_flux', (False, False, True)), ('isog', ((), ('mid',)))]
    x = 12345
    out = []
    for i in range(90):
        d = {}
        for j, (k, vs) in enumerate(opts):
            x = (x * 6364136223846793005 + 1442695040888963407) % 2 ** 64
            d[k] = vs[(x >> 33) % len(vs)]
        if d['noscat'] == 'last':
            d['noscat'] = (d['L'] - 1,)
        if d['isog'] == ('mid',):
            d['isog'] = (d['L'] // 2,)
        if d['only_flux']:
            d.pop('NF')
        if d['banded'] is None:
            d.pop('banded')
        out.append(d)
    return out


# many layers, many source coefficients, many streams (those without scattering, whose eigenvalues are the reciprocal nodes)
BIG = [
    dict(N=1, L=17, NF=2, NLA=3, f=True, iso=1, bdrf=('scalar',)), dict(N=1, L=33, NF=1, NLA=2, f=True, bneg='scalar'), dict(N=1, L=2, NF=1, NLA=2, iso=11, bdrf=('func',)), dict(N=1, L=1, NF=1, NLA=2, iso=22, beam=False),
    dict(N=8, L=2, NF=2, NLA=3, noscat=(0, 1), f=True, iso=2, bdrf=('func', 'scalar'), bpos='vector'), dict(N=16, L=1, NF=1, NLA=3, noscat=(0,), iso=1, bdrf=('func',)), dict(N=2, L=1, NF=1, NLA=70, f=True),
]


def constants(top=64):
    """Integers from 3 to `top` that the sources compare a count with (or use as a default, a modulus or a cap)."""
    import ast, glob, os
    out = set()
    for fn in sorted(glob.glob(os.path.join(S.ROOT, S.PKG, '*.py'))):
        try:
            t = ast.parse(open(fn, encoding='utf-8').read())
        except (SyntaxError, OSError, ValueError):
            continue
        for n in ast.walk(t):
            xs = []
            if isinstance(n, ast.Compare) or isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv)):
                xs = [n]
            elif isinstance(n, ast.arguments):
                xs = n.defaults + n.kw_defaults
            elif isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and getattr(n.func, 'id', getattr(n.func, 'attr', '')) in ('min', 'max', 'minimum', 'maximum', 'clip', 'range', 'arange', 'islice'):
                xs = n.args
            elif isinstance(n, ast.Slice):
                xs = [n.lower, n.upper, n.step]
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
                xs = [n.value]
            elif isinstance(n, ast.MatchValue):
                xs = [n.value]
            for x in xs:
                for c in ast.walk(x) if x is not None else ():
                    if isinstance(c, ast.Constant) and type(c.value) in (int, float) and 3 <= c.value <= top and c.value == int(c.value):
                        out.add(int(c.value))
    return out


KNOWN = {3, 4, 5, 10, 64}       # those of the original sources; the fixed classes are on both sides of them


def adaptive():
    """Classes on both sides of every other count that the sources distinguish."""
    out = []
    for c in sorted(constants() - KNOWN)[:6]:
        for n in (c - 1, c, c + 1):
            out.append(dict(N=1, L=n, NF=1, NLA=2, f=True, iso=1, bdrf=('scalar',)))
            if n <= 24:
                out.append(dict(N=1, L=2, NF=1, NLA=2, iso=n, f=True))
            out.append(dict(N=2, L=1, NF=1, NLA=n, f=True))
            if n % 2 == 0 or n == c:
                out.append(dict(N=(n + 1) // 2, L=1, NF=1, NLA=3, noscat=(0,), iso=1, bdrf=('func',)))
    return out


def confs(tier):
    return THOROUGH + MORE + MAGS + WIDE + PATTERN + STREAMS + BIG + adaptive() + (grid() if tier == 'thorough' else [])


def name(o):
    return ','.join('%s=%s' % (k, '/'.join(map(str, v)) if isinstance(v, tuple) else v) for k, v in o.items()) or 'default'


# ------------------------------------------------------------------ query helpers
def tau_sets(p):
    """Query vectors: (label, [(tau, layer)])."""
    L = p.L
    qs = [p.tau_q(l, 'qa') for l in range(L)]
    full = [(qs[l], l) for l in range(L)]
    sets = [('all layers', full)]
    mixed = [(p.tau_q(l, 'qb', 0.8), l) for l in reversed(range(L))]
    mixed.insert(1, (D.ZERO, 0))
    mixed.insert(0, (p.T[0], 0))
    mixed.append((p.T[-1], L - 1))
    sets.append(('unsorted with boundaries', mixed))
    if L > 1:
        sets.append(('single deep layer', [(p.tau_q(L - 1, 'qc', 0.3), L - 1)]))
    if L > 2:
        sets.append(('skipping layers', [(p.tau_q(L - 1, 'qd', 0.1), L - 1), (p.tau_q(0, 'qd', 0.1), 0),
                                         (p.tau_q(L - 1, 'qe', 0.2), L - 1)]))
    return sets


def phis(p, n, nm='phi'):
    return [p.w.atom('%s%d' % (nm, k), 0.1 + 0.4 * k, 0.3 + 0.4 * k) for k in range(n)]


def ask(p, f, taus, *a, **k):
    return p.w.it.call(f, [p.w.vec(taus, 'tau query')] + list(a), k)


def full(text, x, shp):
    r = unsq(x, shp)
    if r is None:
        raise S.Bad('%s: result has shape %s, expected the axes %s' % (text, S.shape(x), shp), None, loc_of(x))
    return r


def loc_of(x):
    from .ob import arr_loc
    return arr_loc(x)


def u_modes(p, taus, **k):
    """Fourier modes of the intensity, recovered from its values at NF azimuths."""
    NF = p.NF
    ph = phis(p, NF)
    r = ask(p, p.u, taus, p.w.vec(ph, 'phi query'), **k)
    r = full('u(tau, phi)', r, (p.NQ, len(taus), NF))
    C = [[D.cos(D.mul(D.c(m), D.sub(p.phi0, ph[k_]))) for m in range(NF)] for k_ in range(NF)]
    # inverse of the (query independent) cosine matrix
    Ci = npm.solve_cells([x for row in C for x in row],
                         [D.ONE if i == j else D.ZERO for i in range(NF) for j in range(NF)], NF, NF)
    out = []
    for m in range(NF):
        out.append([[vsum([D.mul(Ci[m * NF + k_], at(r, i, t, k_)) for k_ in range(NF)])
                     for t in range(len(taus))] for i in range(p.NQ)])
    return out          # [m][mu][tau]


def u0_vals(p, taus, *a, **k):
    r = ask(p, p.u0, taus, *a, **k)
    r = full('u0(tau)', r, (p.NQ, len(taus)))
    return [[at(r, i, t) for t in range(len(taus))] for i in range(p.NQ)]


def all_modes(p, taus):
    """{label: [m][mu][tau]} for the functions the problem exposes."""
    d = {'u0': [u0_vals(p, taus)]}
    if p.u is not None:
        d['u'] = u_modes(p, taus)
    return d


# ------------------------------------------------------------------ RTE in every layer
def rte_residual(p, um, dum, q, l, m):
    mu, W = p.mu_full(), list(p.ws) * 2
    Dm = p.Dmat(m, l)
    Q = p.Qvec(m, l) if p.o['beam'] else None
    att = p.beam_att(p.scaled(q, l)) if p.o['beam'] else None
    res = []
    for i in range(p.NQ):
        r = D.sub(um[i], vsum([D.mul(D.mul(W[j], Dm[i][j]), um[j]) for j in range(p.NQ)]))
        if Q is not None:
            r = D.sub(r, D.mul(Q[i], att))
        r = D.mul(r, p.scale[l])
        if m == 0 and p.o['iso']:
            r = D.sub(r, p.src(l, q))
        res.append(D.sub(D.mul(mu[i], dum[i]), r))
    return res


def chk_rte(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        for label, pts in tau_sets(p):
            taus = [t for t, _ in pts]
            for fnm, modes in all_modes(p, taus).items():
                for m, vals in enumerate(modes):
                    for k, (q, l) in enumerate(pts):
                        if not q.deps:
                            continue
                        um = [vals[i][k] for i in range(p.NQ)]
                        memo = {}
                        dum = [D.diff(x, q.deps, memo) for x in um]
                        for i, r in enumerate(rte_residual(p, um, dum, q, l, m)):
                            ob.zero('%s: mode %d satisfies the transfer equation in layer %d at direction %d (%s)'
                                    % (fnm, m, l, i, label), r, um[i])
    return fn


# ------------------------------------------------------------------ boundary conditions
def chk_bc(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        N, NF = p.N, p.NF
        bot = p.T[-1]
        for order in ((D.ZERO, bot), (bot, D.ZERO)):
            d = all_modes(p, list(order))
            z, b = order.index(D.ZERO), order.index(bot)
            for fnm, modes in d.items():
                for m, vals in enumerate(modes):
                    for i in range(N):
                        ob.eq('%s: mode %d, top boundary condition, direction %d' % (fnm, m, i),
                              vals[N + i][z], p.bneg[m][i])
                    dn = [vals[N + j][b] for j in range(N)]
                    for i in range(N):
                        want = p.bpos[m][i]
                        if m < len(p.rho):
                            acc = vsum([D.mul(D.mul(D.mul(p.mus[j], p.ws[j]), p.rho[m](p.mus[i], p.mus[j])), dn[j])
                                        for j in range(N)])
                            want = D.add(want, D.mul(D.c(2 if m == 0 else 1), acc))
                            if o.get('beam', True):
                                want = D.add(want, D.mul(D.mul(D.div(D.mul(p.mu0, p.I0), D.PI),
                                                               p.rho[m](p.mus[i], p.mu0)),
                                                         p.beam_att(p.ts[-1])))
                        ob.eq('%s: mode %d, bottom boundary condition, direction %d' % (fnm, m, i), vals[i][b], want)
    return fn


# ------------------------------------------------------------------ continuity at interfaces
def chk_cont(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        if p.L < 2:
            return
        taus, meta = [], []
        for l in range(p.L - 1):
            q = p.tau_q(l + 1, 'qi')
            taus += [p.T[l], q]
            meta.append((l, q))
        d = all_modes(p, taus)
        for fnm, modes in d.items():
            for m, vals in enumerate(modes):
                for k, (l, q) in enumerate(meta):
                    memo = {}
                    for i in range(p.NQ):
                        above = vals[i][2 * k]
                        below = D.subst(vals[i][2 * k + 1], {q.deps: p.T[l]}, memo)
                        ob.eq('%s: mode %d continuous across the interface below layer %d, direction %d'
                              % (fnm, m, l, i), above, below)
        from .p_api import outs
        for anti in (False, True):
            lab = 'antiderivative of the ' if anti else ''
            for nm, r in outs(p, taus, anti).items():
                n, per = len(taus), 1
                if nm == 'intensity':
                    per = r.shape[2]
                cs = r.cells()
                memo = {}
                for idx, v in enumerate(cs):
                    t = (idx // per) % n
                    if t % 2:
                        continue
                    l, q = meta[t // 2]
                    ob.eq('%s%s continuous across the interface below layer %d (component %d)' % (lab, nm, l, idx), nd.tov(v),
                          D.subst(nd.tov(cs[idx + per]), {q.deps: p.T[l]}, memo.setdefault(q.deps, {})))
    return fn


# ------------------------------------------------------------------ fluxes
def expect_flux(p, vals, k, tau, l, tau_star):
    """(up, down diffuse, direct) from the zeroth mode vals[mu][k]."""
    N = p.N
    tp = D.mul(D.c(2), D.PI)
    up = D.mul(tp, vsum([D.mul(D.mul(p.mus[i], p.ws[i]), vals[i][k]) for i in range(N)]))
    dn = D.mul(tp, vsum([D.mul(D.mul(p.mus[i], p.ws[i]), vals[N + i][k]) for i in range(N)]))
    dr = D.ZERO
    if p.o['beam']:
        c_ = D.mul(p.I0, p.mu0)
        dr = D.mul(c_, p.beam_att(tau))
        dn = D.add(dn, D.sub(D.mul(c_, p.beam_att(tau_star)), dr))
    return up, dn, dr


def chk_flux(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        for label, pts in tau_sets(p):
            taus = [t for t, _ in pts]
            n = len(taus)
            vals = u0_vals(p, taus)
            fu = full('upward flux', ask(p, p.fu, taus), (n,))
            fd = ask(p, p.fd, taus)
            if not isinstance(fd, tuple) or len(fd) != 2:
                raise S.Bad('the downward flux is not a (diffuse, direct) pair')
            fdd = full('downward diffuse flux', fd[0], (n,))
            fdr = fd[1] if p.o['beam'] else None
            if fdr is not None:
                fdr = full('downward direct flux', fdr, (n,))
            for k, (tau, l) in enumerate(pts):
                up, dn, dr = expect_flux(p, vals, k, tau, l, p.scaled(tau, l))
                ob.eq('upward flux is the quadrature of the zeroth mode, layer %d (%s)' % (l, label), at(fu, k), up)
                ob.eq('downward diffuse flux is the quadrature of the zeroth mode with the delta-M part of the beam '
                      'moved to the diffuse field, layer %d (%s)' % (l, label), at(fdd, k), dn)
                if fdr is not None:
                    ob.eq('direct flux is the unscaled attenuated beam, layer %d (%s)' % (l, label), at(fdr, k), dr)
                else:
                    for c_ in S.cells(fd[1]):
                        ob.zero('no direct flux without a beam', c_)
    return fn


# ------------------------------------------------------------------ azimuth
def chk_azimuth(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        if p.u is None:
            return
        pts = tau_sets(p)[1][1]
        taus = [t for t, _ in pts]
        NF = p.NF
        ph = phis(p, NF + 1)
        r = full('u(tau, phi)', ask(p, p.u, taus, w.vec(ph, 'phi query')), (p.NQ, len(taus), NF + 1))
        C = [[D.cos(D.mul(D.c(m), D.sub(p.phi0, x))) for m in range(NF)] for x in ph]
        Ci = npm.solve_cells([x for row in C[:NF] for x in row],
                             [D.ONE if i == j else D.ZERO for i in range(NF) for j in range(NF)], NF, NF)
        z = u0_vals(p, taus)
        for i in range(p.NQ):
            for t in range(len(taus)):
                ms = [vsum([D.mul(Ci[m * NF + k], at(r, i, t, k)) for k in range(NF)]) for m in range(NF)]
                if p.NF > 0:
                    ob.eq('the intensity is the cosine series about phi0 (direction %d, point %d)' % (i, t),
                          at(r, i, t, NF), vsum([D.mul(C[NF][m], ms[m]) for m in range(NF)]))
                ob.eq('the azimuthal mean of the intensity is u0 (direction %d, point %d)' % (i, t), ms[0], z[i][t])
        # mirror symmetry about phi0 and 2*pi periodicity
        x = ph[0]
        mir = D.sub(D.mul(D.c(2), p.phi0), x)
        r2 = full('u(tau, phi)', ask(p, p.u, taus, w.vec([x, mir])), (p.NQ, len(taus), 2))
        for i in range(p.NQ):
            for t in range(len(taus)):
                ob.eq('the intensity is symmetric about the plane of incidence (direction %d, point %d)' % (i, t),
                      at(r2, i, t, 0), at(r2, i, t, 1))
        # azimuths given as integers, in and out of the principal range
        whole = [0, 3, 7, -2]
        ri = [full('u(tau, phi)', ask(p, p.u, taus, q), (p.NQ, len(taus), 4)) for q in (nd.new(whole, (4,), 'i'), w.vec([D.c(x) for x in whole]))]
        for i in range(p.NQ):
            for t in range(len(taus)):
                for k in range(4):
                    ob.eq('azimuths given as integers are the same angles (direction %d, point %d, azimuth %d)' % (i, t, k), at(ri[0], i, t, k), at(ri[1], i, t, k))
        # rotating beam and viewing azimuth together
        da = w.atom('rotation', 0.01, 0.05)
        q = Problem(w, **o)
        q.phi0 = D.add(p.phi0, da)
        w.ctx.positive(D.sub(D.mul(D.c(2), D.PI), q.phi0))
        q.solve()
        r3 = full('u(tau, phi)', ask(q, q.u, taus, w.vec([D.add(x, da)])), (p.NQ, len(taus), 1))
        for i in range(p.NQ):
            for t in range(len(taus)):
                ob.eq('rotating the beam and the viewing azimuth together changes nothing (direction %d, point %d)' % (i, t), at(r3, i, t, 0), at(r2, i, t, 0))
    return fn


# ------------------------------------------------------------------ antiderivatives
def act_funcs(p):
    g = p.w.fn('generate_diff_act_flux_funcs')
    r = p.w.call(g, p.u0)
    if not isinstance(r, tuple) or len(r) != 2:
        raise S.Bad('generate_diff_act_flux_funcs does not return two functions')
    return r


def chk_anti(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        au, ad = act_funcs(p)
        ph = phis(p, 2)
        for label, pts in tau_sets(p):
            taus = [t for t, _ in pts]
            n = len(taus)
            jobs = [('upward flux', lambda a: full('upward flux', ask(p, p.fu, taus, *a), (n,)), (n,)),
                    ('downward diffuse flux', lambda a: full('downward diffuse flux', ask(p, p.fd, taus, *a)[0], (n,)), (n,)),
                    ('u0', lambda a: full('u0', ask(p, p.u0, taus, *a), (p.NQ, n)), (p.NQ, n)),
                    ('upward actinic flux', lambda a: full('actinic flux', ask(p, au, taus, *a), (n,)), (n,)),
                    ('downward actinic flux', lambda a: full('actinic flux', ask(p, ad, taus, *a), (n,)), (n,))]
            if p.o['beam']:
                jobs.append(('downward direct flux', lambda a: full('direct flux', ask(p, p.fd, taus, *a)[1], (n,)), (n,)))
            if p.u is not None:
                jobs.append(('u', lambda a: full('u', ask(p, p.u, taus, w.vec(ph), *a), (p.NQ, n, 2)), (p.NQ, n, 2)))
            for nm, g, shp in jobs:
                v, a = g(()), g((True,))
                memo, memo0 = {}, {}
                for idx, (x, y) in enumerate(zip(v.cells(), a.cells())):
                    if len(shp) == 1:
                        k = idx
                    elif len(shp) == 2:
                        k = idx % n
                    else:
                        k = (idx // 2) % n
                    q, l = pts[k]
                    if not q.deps:
                        # the antiderivative of the layer, continued to its boundary
                        if nd.tov(y).kind == D.NAN:
                            ob.eq('%s: antiderivative defined at a layer boundary' % nm, y, D.ZERO)
                            continue
                        k0 = next((j for j, (t, ll) in enumerate(pts) if ll == l and t.deps), None)
                        if k0 is not None:
                            per = shp[-1] if len(shp) == 3 else 1
                            row, az = (0, 0) if len(shp) == 1 else (idx // n, 0) if len(shp) == 2 else (idx // (per * n), idx % per)
                            y0 = nd.tov(a.cells()[(row * n + k0) * per + az])
                            ob.eq('%s: the antiderivative at a layer boundary continues the one inside layer %d (component %d)' % (nm, l, idx),
                                  y, D.subst(y0, {pts[k0][0].deps: q}, memo0.setdefault((l, q.fp), {})))
                        continue
                    ob.zero('%s: d/dtau of the antiderivative equals the function in layer %d (component %d, %s)'
                            % (nm, l, idx, label), D.sub(D.diff(nd.tov(y), q.deps, memo), nd.tov(x)), nd.tov(y))
    return fn


# ------------------------------------------------------------------ NT corrections
NT_QUICK = [
    dict(L=1, f=True, nt=True, NLeg=3, NF=2),
    dict(L=2, f=True, nt=True, NLeg=4, NF=3, bdrf=('func',)),
    dict(L=3, f=True, nt=True, NLeg=3, NF=2, iso=2, bpos='scalar'),
    dict(L=3, f_layers=(0, 2), nt=True, NLeg=4, NF=2, mu0='hi'),
    dict(L=2, f=True, nt=True, NLeg=3, NF=1, mu0='low'),
    dict(N=1, L=3, f=True, nt=True, NLeg=2, NF=1, NLA=4),
]
NT_THOROUGH = NT_QUICK + [
    dict(L=4, f=True, nt=True, NLeg=4, NF=2, iso=3, NLA=6), dict(L=2, f=True, nt=True, NLeg=2, NF=2, iso=1, bneg='vector', NLA=7),
    dict(L=3, f_layers=(1,), noscat=(0,), nt=True, NLeg=3, NF=2), dict(L=1, f=True, nt=True, NLeg=4, NF=4, mu0='one', scalars=True),
    dict(L=5, f=True, nt=True, NLeg=4, NF=1, banded=3, bdrf=('scalar',)),
]


NT_MORE = [
    dict(L=2, mag='edge', f=True, nt=True, NLeg=3, NF=2, iso=1), dict(L=2, mag='edge2', f=True, nt=True, NLeg=3, NF=1), dict(N=1, L=3, mag='edge', f=True, nt=True, NLeg=2, NF=1, NLA=4, mu0='graze'),
    dict(N=3, L=2, f=True, nt=True, NLeg=4, NF=2, NLA=8), dict(N=3, L=3, f=True, nt=True, NLeg=6, NF=1, NLA=9, banded=3, bdrf=('scalar',)), dict(N=4, L=1, f=True, nt=True, NLeg=3, NF=1, NLA=9),
    dict(L=2, mag='tiny', f=True, nt=True, NLeg=3, NF=2), dict(L=2, mag='huge', f=True, nt=True, NLeg=3, NF=2), dict(L=4, mag='mixed', f=True, nt=True, NLeg=4, NF=2), dict(L=2, mag='neg', f=True, nt=True, NLeg=3, NF=1, iso=1), dict(L=2, mag='faint', f=True, nt=True, NLeg=3, NF=2),
    dict(L=3, f=True, nt=True, NLeg=3, NF=2, mu0='graze'),
    dict(L=3, f_layers=(2,), noscat=(1,), nt=True, NLeg=3, NF=2, mu0='hi'),
    dict(L=3, f=True, nt=True, NLeg=3, NF=3, isog=(1,), mu0='low'), dict(L=2, f=True, nt=True, NLeg=1, NF=1, NLA=3), dict(N=1, L=1, f=True, nt=True, NLeg=2, NF=2, NLA=3, iso=3),
    dict(L=10, f=True, nt=True, NLeg=2, NF=1, NLA=3), dict(L=4, f_layers=(0, 1), nt=True, NLeg=4, NF=2, NLA=9, iso=2, noscat=(3,)),
]


def nt_confs(tier):
    return NT_THOROUGH + NT_MORE + ([{**{k: v for k, v in d.items() if k != 'only_flux'}, 'beam': True, 'f': True, 'nt': True, 'NLeg': max(3, d.get('NF', 1))}
                                    for d in grid() if len(d['noscat']) < d['L']] if tier == 'thorough' else [])


def leg_series(cs, x):
    return npm.legval_scalar(x, cs)


def ims_expected(p, i, tau, ph):
    """Documented IMS correction (section 3.7.2) for downward direction i."""
    L = p.L
    ot = [D.mul(p.om[l], p.T[l]) for l in range(L)]
    s1 = vsum(ot)
    wavg = D.div(s1, vsum(p.T))
    s2 = vsum([D.mul(p.f[l], ot[l]) for l in range(L)])
    favg = D.div(s2, s1)
    res = []
    for k in range(p.o['NLA']):
        num = vsum([D.mul(p.f[l] if k < p.NLeg else p.g[l][k], ot[l]) for l in range(L)])
        res.append(D.div(num, s2))
    wf = D.mul(wavg, favg)
    mu0s = D.div(p.mu0, D.sub(D.ONE, wf))
    mu = p.mus[i]
    nu = nu_of(D.neg(mu), ph, D.neg(p.mu0), p.phi0)
    x = D.sub(D.inv(mu), D.inv(mu0s))
    chi = D.div(D.add(D.mul(D.sub(tau, D.inv(x)), D.exp(D.neg(D.div(tau, mu0s)))),
                      D.div(D.exp(D.neg(D.div(tau, mu))), x)), D.mul(D.mul(mu, mu0s), x))
    cs = [D.mul(D.c(2 * k + 1), D.sub(D.mul(D.c(2), r), D.mul(r, r))) for k, r in enumerate(res)]
    pre = D.mul(D.div(p.I0, D.mul(D.c(4), D.PI)), D.div(D.mul(wf, wf), D.sub(D.ONE, wf)))
    return D.mul(D.mul(pre, leg_series(cs, nu)), chi)


def nu_of(mu, ph, mup, php):
    s = D.mul(D.sqrt(D.sub(D.ONE, D.ipow(mup, 2))), D.sqrt(D.sub(D.ONE, D.ipow(mu, 2))))
    return D.add(D.mul(mup, mu), D.mul(s, D.cos(D.sub(php, ph))))


def tms_source(p, l, mu, ph):
    nu = nu_of(mu, ph, D.neg(p.mu0), p.phi0)
    tru = leg_series([D.mul(D.c(2 * k + 1), x) for k, x in enumerate(p.g[l])], nu)
    trn = leg_series([D.mul(D.c(2 * k + 1), x) for k, x in enumerate(p.gs[l])], nu)
    return D.mul(D.mul(p.oms[l], D.div(p.I0, D.mul(D.c(4), D.PI))),
                 D.sub(D.div(tru, D.sub(D.ONE, p.f[l])), trn))


def chk_nt(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        o2 = dict(o)
        o2['nt'] = False
        p2 = Problem(w, **o2).solve()
        mu = p.mu_full()
        N = p.N
        ph = phis(p, 2)
        sets = tau_sets(p)
        for label, pts in sets:
            taus = [t for t, _ in pts]
            n = len(taus)
            a = full('u', ask(p, p.u, taus, w.vec(ph)), (p.NQ, n, 2))
            b = full('u', ask(p2, p2.u, taus, w.vec(ph)), (p.NQ, n, 2))
            for i in range(p.NQ):
                for k, (q, l) in enumerate(pts):
                    for j in range(2):
                        got = at(a, i, k, j)
                        dl = D.sub(got, at(b, i, k, j))
                        if i >= N:
                            dl = D.sub(dl, ims_expected(p, i - N, q, ph[j]))
                        src = D.mul(tms_source(p, l, mu[i], ph[j]), p.beam_att(p.scaled(q, l)))
                        if q.deps:
                            d = D.diff(dl, q.deps)
                            ob.zero('the corrected minus the uncorrected intensity satisfies the single-scattering '
                                    'correction equation in layer %d, direction %d, azimuth %d (%s)' % (l, i, j, label),
                                    D.sub(D.mul(mu[i], d), D.mul(p.scale[l], D.sub(dl, src))), got)
                        elif i < N and q is p.T[-1]:
                            ob.zero('no correction enters from below, direction %d' % i, dl, got)
                        elif i >= N and q is D.ZERO:
                            ob.zero('no correction enters from above, direction %d' % i, dl, got)
        if p.L > 1:
            taus, meta = [], []
            for l in range(p.L - 1):
                q = p.tau_q(l + 1, 'qn')
                taus += [p.T[l], q]
                meta.append((l, q))
            a = full('u', ask(p, p.u, taus, w.vec(ph)), (p.NQ, len(taus), 2))
            for k, (l, q) in enumerate(meta):
                for i in range(p.NQ):
                    for j in range(2):
                        ob.eq('the corrected intensity is continuous across the interface below layer %d, direction %d'
                              % (l, i), at(a, i, 2 * k, j), D.subst(at(a, i, 2 * k + 1, j), {q.deps: p.T[l]}))
        taus = [t for t, _ in sets[1][1]]
        for nm, f1, f2 in (('upward flux', p.fu, p2.fu), ('u0', p.u0, p2.u0)):
            ob.arr_eq('%s is not affected by the intensity corrections' % nm, ask(p, f1, taus), ask(p2, f2, taus))
        x, y = ask(p, p.fd, taus), ask(p2, p2.fd, taus)
        ob.arr_eq('downward diffuse flux is not affected by the intensity corrections', x[0], y[0])
        ob.arr_eq('direct flux is not affected by the intensity corrections', x[1], y[1])
    return fn
