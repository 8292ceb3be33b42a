"""Input validation, accepted input forms, query domain."""
from fractions import Fraction
from . import dom as D
from . import nd
from . import npm
from . import interp as I
from . import scen as S
from .scen import Problem, unsq, at
from .nd import Arr, PyExc, Unsupported
from .p_solver import ask, full, phis, tau_sets, act_funcs, name, loc_of
from .p_api import outs, cmp, pts_of, tup_eq

NAN = lambda: D.nan('not a number supplied by the user')


def neg_half(w, nm, hi, hi_open=True):
    v = D.atom(nm, -D.inf, hi, True, hi_open)
    w.base[nm] = (-D.inf, True, hi, hi_open)
    return v


def pos_half(w, nm, lo, lo_open=True):
    v = D.atom(nm, lo, D.inf, lo_open, True)
    w.base[nm] = (lo, lo_open, D.inf, True)
    return v


def put(xs, i, v):
    ys = list(xs)
    ys[i] = v
    return ys


def put2(rows, i, j, v):
    ys = [list(r) for r in rows]
    ys[i][j] = v
    return ys


def invalid_table(w, p):
    """(label, overriding arguments) — every documented restriction, at every position."""
    L, N, NF, NLeg = p.L, p.N, p.NF, p.NLeg
    NLA = p.o['NLA']
    t = []
    A = lambda **k: k
    # optical depths
    for i in range(L):
        t.append(('optical depth of layer %d <= 0' % i, A(tau_arr=w.vec(put(p.T, i, neg_half(w, 'badtau%d' % i, 0.0, False))))))
        t.append(('optical depth of layer %d NaN' % i, A(tau_arr=w.vec(put(p.T, i, NAN())))))
        t.append(('zero optical depth of layer %d' % i, A(tau_arr=w.vec(put(p.T, i, D.ZERO)))))
    for i in range(1, L):
        t.append(('equal optical depths %d' % i, A(tau_arr=w.vec(put(p.T, i, p.T[i - 1])))))
        lo = w.atom('lowtau%d' % i, i - 0.5, i - 0.2)
        t.append(('decreasing optical depths %d' % i, A(tau_arr=w.vec(put(p.T, i, lo)))))
    # albedos
    for i in range(L):
        for lab, v in (('negative', neg_half(w, 'badom%d' % i, 0.0)), ('one', D.ONE), ('above one', pos_half(w, 'bigom%d' % i, 1.0)), ('NaN', NAN())):
            t.append(('albedo of layer %d %s' % (i, lab), A(omega_arr=w.vec(put(p.om, i, v)))))
    # phase function
    t.append(('no phase function coefficient to be used', A(NLeg=0)))
    t.append(('negative number of phase function coefficients', A(NLeg=-1, NFourier=None if p.o['only_flux'] else 1)))
    t.append(('more coefficients to be used than provided', A(NLeg=NLA + 1, NQuad=2 * (NLA + 2))))
    t.append(('more coefficients than streams', A(NLeg=2 * N + 1, Leg_coeffs_all=w.mat([[D.ONE] + [D.c(Fraction(1, 2))] * (2 * N + 1) for _ in range(L)]))))
    for i in range(L):
        for j in range(1, NLA):
            vals = (('one', D.ONE), ('minus one', D.c(-1)), ('above one', pos_half(w, 'bigg%d_%d' % (i, j), 1.0)),
                    ('below minus one', neg_half(w, 'lowg%d_%d' % (i, j), -1.0)), ('NaN', NAN()))
            for lab, v in vals if (j in (1, NLA - 1)) else vals[:1] + vals[-1:]:
                t.append(('coefficient %d of layer %d %s' % (j, i, lab), A(Leg_coeffs_all=w.mat(put2(p.g, i, j, v)))))
    # streams, modes
    for q in (0, 1, 3, -2, 5):
        t.append(('%d streams' % q, A(NQuad=q, NLeg=1, NFourier=1)))
    if not p.o['only_flux']:
        t.append(('no Fourier modes', A(NFourier=0)))
        t.append(('negative number of Fourier modes', A(NFourier=-2)))
        t.append(('more Fourier modes than coefficients', A(NFourier=NLeg + 1)))
    # beam
    t.append(('negative beam', A(I0=neg_half(w, 'badI0', 0.0))))
    t.append(('NaN beam', A(I0=NAN())))
    for lab, v in (('zero', D.ZERO), ('negative', neg_half(w, 'badmu0', 0.0)), ('above one', pos_half(w, 'bigmu0', 1.0)), ('NaN', NAN())):
        t.append(('beam cosine %s' % lab, A(mu0=v, I0=w.atom('I0ok', 0.5, 2.0))))
    for lab, v in (('negative', neg_half(w, 'badphi0', 0.0)), ('2 pi', D.mul(D.c(2), D.PI)), ('above 2 pi', pos_half(w, 'bigphi0', 6.2832)), ('NaN', NAN())):
        t.append(('beam azimuth %s' % lab, A(phi0=v, I0=w.atom('I0ok', 0.5, 2.0))))
    # boundary conditions
    at_ = lambda n: [w.atom('bc%d' % i, 0.1, 0.9) for i in range(n)]
    for nm in ('b_pos', 'b_neg'):
        t.append(('%s vector too long' % nm, A(**{nm: w.vec(at_(N + 1))})))
        if N > 2:
            t.append(('%s vector too short' % nm, A(**{nm: w.vec(at_(N - 1))})))
        t.append(('%s with too many columns' % nm, A(**{nm: w.mat([at_(NF + 1) for _ in range(N)])})))
        if NF > 2 or (NF == 2 and N > 1):
            t.append(('%s with too few columns' % nm, A(**{nm: w.mat([at_(NF - 1) for _ in range(N)])})))
        t.append(('%s with too many rows' % nm, A(**{nm: w.mat([at_(NF) for _ in range(N + 1)])})))
        if N != NF:
            t.append(('%s transposed' % nm, A(**{nm: w.mat([at_(N) for _ in range(NF)])})))
        t.append(('%s per stream of both hemispheres' % nm, A(**{nm: w.vec(at_(2 * N))})))
    # delta-M fractions
    for i in range(L):
        base = [D.ZERO] * L
        for lab, v in (('negative', neg_half(w, 'badf%d' % i, 0.0)), ('one', D.ONE), ('above one', pos_half(w, 'bigf%d' % i, 1.0)), ('NaN', NAN())):
            t.append(('delta-M fraction of layer %d %s' % (i, lab), A(f_arr=w.vec(put(base, i, v)))))
    # lengths
    short = lambda n: w.vec([w.atom('sh%d' % i, 0.2, 0.3) for i in range(n)])
    if L > 1:
        t.append(('albedos for too few layers', A(omega_arr=short(L - 1))))
        t.append(('delta-M fractions for too few layers', A(f_arr=short(L - 1))))
        t.append(('phase function for too few layers', A(Leg_coeffs_all=w.mat(p.g[:-1]))))
        t.append(('sources for too few layers', A(s_poly_coeffs=w.mat([at_(2)] * (L - 1)))))
    t.append(('albedos for too many layers', A(omega_arr=short(L + 1))))
    t.append(('delta-M fractions for too many layers', A(f_arr=short(L + 1))))
    t.append(('phase function for too many layers', A(Leg_coeffs_all=w.mat(p.g + p.g[:1]))))
    t.append(('sources for too many layers', A(s_poly_coeffs=w.mat([at_(2)] * (L + 1)))))
    # banded solver threshold
    for b in (2, 1, 0, -1):
        t.append(('banded solver threshold %d' % b, A(use_banded_solver_NLayers=b)))
    # corrections
    for i in range(N):
        t.append(('corrections with the beam along stream %d' % i, A(NT_cor=True, mu0=p.mus[i], I0=w.atom('I0ok', 0.5, 2.0))))
        for lab, f in (('above', D.add), ('below', D.sub)):
            near = f(p.mus[i], w.atom('rounding', 1e-13, 1e-12))
            w.ctx.fact(D.absv(D.sub(p.mus[i], near)), 1e-13, 1e-12)
            w.ctx.fact(D.absv(D.sub(near, p.mus[i])), 1e-13, 1e-12)
            t.append(('corrections with the beam a rounding error %s stream %d' % (lab, i), A(NT_cor=True, mu0=near, I0=w.atom('I0ok', 0.5, 2.0))))
    # values barely outside of the ranges
    e = w.atom('barely', 1e-9, 1e-8)
    neg, over = D.neg(e), D.add(D.ONE, e)
    round_ = D.mul(D.c(2), D.PI)
    w.ctx.positive(D.sub(D.add(round_, e), round_))
    last = L - 1
    for lab, k in (('negative albedo', A(omega_arr=w.vec(put(p.om, last, neg)))), ('albedo above one', A(omega_arr=w.vec(put(p.om, last, over)))),
                   ('coefficient above one', A(Leg_coeffs_all=w.mat(put2(p.g, last, NLA - 1, over)))), ('coefficient below minus one', A(Leg_coeffs_all=w.mat(put2(p.g, last, NLA - 1, D.neg(over))))),
                   ('negative beam', A(I0=neg)), ('beam cosine above one', A(mu0=over, I0=w.atom('I0ok', 0.5, 2.0))), ('negative beam cosine', A(mu0=neg, I0=w.atom('I0ok', 0.5, 2.0))),
                   ('negative beam azimuth', A(phi0=neg, I0=w.atom('I0ok', 0.5, 2.0))), ('beam azimuth above 2 pi', A(phi0=D.add(round_, e), I0=w.atom('I0ok', 0.5, 2.0))),
                   ('negative delta-M fraction', A(f_arr=w.vec([neg] * L))), ('delta-M fraction above one', A(f_arr=w.vec([over] * L))), ('negative optical depth', A(tau_arr=w.vec(put(p.T, 0, neg))))):
        t.append(('barely: ' + lab, k))
    if L > 1:
        t.append(('barely: decreasing optical depths', A(tau_arr=w.vec(put(p.T, last, D.sub(p.T[last - 1], e))))))
        t.append(('delta-M fractions that cancel', A(f_arr=w.vec([w.atom('fcancel', 0.1, 0.3), D.neg(w.atom('fcancel', 0.1, 0.3))] + [D.ZERO] * (L - 2)))))
        t.append(('a valid and a negative delta-M fraction', A(f_arr=w.vec([w.atom('fvalid', 0.1, 0.3)] * last + [neg_half(w, 'badf_last', 0.0)]))))
    return t


INV = [dict(L=1, NF=2), dict(L=2, NF=2, f=True, nt=True, NLeg=3), dict(L=3, NF=3, iso=2, bdrf=('func',)), dict(L=2, only_flux=True, f=True),
       dict(L=3, beam=False, bpos='scalar', NF=2, banded=3), dict(N=1, L=2, NF=1, NLA=3), dict(L=2, NF=2, autograd=True, iso=1)]


def inv_count(o):
    ctx = D.Ctx()
    D.set_ctx(ctx)
    w = S.World(ctx)
    return len(invalid_table(w, Problem(w, **o)))


def inv_units(tier):
    out = []
    from .checks import Unit
    for o in INV:
        n = inv_count(o)
        for lo in range(0, n, 24):
            out.append(Unit('%s: invalid inputs %d-%d' % (name(o), lo, min(lo + 24, n) - 1), chk_invalid(o, lo, lo + 24), 200))
    return out


def chk_invalid(o, lo, hi):
    def fn(w, ob):
        p = Problem(w, **o)
        for lab, over in invalid_table(w, p)[lo:hi]:
            st, r = w.attempt(w.pydisort(), **p.args(**over))
            if st == 'ok':
                ob.true('%s is rejected' % lab, False, entry_loc(w))
            else:
                ob.true('%s is rejected with a ValueError (got %s: %s)' % (lab, r.name, r.msg), r.name == 'ValueError', r.loc)
    return fn


def entry_loc(w):
    f = w.pydisort()
    return (f.file, f.node.lineno, 'pydisort')


# ------------------------------------------------------------------ valid boundary values are accepted
def edge_rows(w):
    full_om = w.atom('om_any', 0.0, 1.0)
    half = D.c(Fraction(1, 2))
    w.base['om_any'] = (0.0, True, 1.0, True)
    p = Problem(w, L=2, NF=2)
    any_g = [[D.ONE] + [w.atom('ga%d_%d' % (i, j), -1.0, 1.0) for j in range(1, 5)] for i in range(2)]
    I0 = w.atom('I0any', 0.0, D.inf)
    t = [('albedo 0 in one layer', dict(omega_arr=w.vec([D.ZERO, p.om[1]]))),
         ('albedo 0 in all layers', dict(omega_arr=w.vec([D.ZERO, D.ZERO]))),
         ('albedos anywhere in (0, 1)', dict(omega_arr=w.vec([full_om, w.atom('om_any2', 0.0, 1.0)]))),
         ('coefficients anywhere in (-1, 1)', dict(Leg_coeffs_all=w.mat(any_g))),
         ('coefficients equal to 0', dict(Leg_coeffs_all=w.mat([[D.ONE] + [D.ZERO] * 4] * 2))),
         ('beam cosine 1', dict(mu0=D.ONE)),
         ('beam cosine anywhere in (0, 1)', dict(mu0=npm._odd_mu('mu0any', 0.0, 1.0))),
         ('beam azimuth 0', dict(phi0=D.ZERO)), ('beam azimuth integer 0', dict(phi0=0)),
         ('beam azimuth anywhere in (0, 2 pi)', dict(phi0=w.atom('ph0any', 0.0, 6.2831))),
         ('any beam intensity', dict(I0=I0)), ('no beam', dict(I0=0, b_pos=1)),
         ('no beam ignores the beam direction', dict(I0=0, mu0=0, phi0=-1, b_pos=1)),
         ('no sources at all', dict(I0=0)),
         ('delta-M fractions 0', dict(f_arr=w.vec([D.ZERO, D.ZERO]))),
         ('delta-M fractions anywhere in (0, 1)', dict(f_arr=w.vec([w.atom('fa0', 0.0, 1.0), w.atom('fa1', 0.0, 1.0)]))),
         ('delta-M in one layer', dict(f_arr=w.vec([D.ZERO, half]))),
         ('as many coefficients as streams', dict(NLeg=4)), ('a single coefficient', dict(NLeg=1, NFourier=1)),
         ('as many modes as coefficients', dict(NLeg=3, NFourier=3)), ('a single mode', dict(NFourier=1)),
         ('threshold 3', dict(use_banded_solver_NLayers=3)), ('two streams', dict(NQuad=2, NLeg=2, NFourier=2)),
         ('scalar sources zero', dict(b_pos=0, b_neg=0)), ('no reflection', dict(BDRF_Fourier_modes=[])),
         ('more reflection modes than Fourier modes', dict(BDRF_Fourier_modes=[half, half, half], NFourier=1)),
         ('corrections requested without scaling', dict(NT_cor=True)),
         ('any optical depths in increasing order', dict(tau_arr=w.vec([w.atom('ta0', 0.0, 2.0), w.atom('ta1', 2.0, D.inf)]))),
         ('sources of degree 0 to 3', dict(s_poly_coeffs=w.mat([[D.ONE, half, half, half], [half, half, D.ONE, half]]))),
         ('negative source coefficients', dict(s_poly_coeffs=w.mat([[D.ONE, D.neg(half)], [half, D.neg(half)]]))),
         ('sources vanishing at both ends', dict(I0=0, s_poly_coeffs=w.mat([[D.ZERO, half], [D.ZERO, D.ZERO]]))),
         ('numpy-style 0-d arguments', dict(mu0=nd.new([p.mu0], (), 'f')))]
    return p, t


def edge_units():
    from .checks import Unit
    ctx = D.Ctx()
    D.set_ctx(ctx)
    return [Unit('accepted: %s' % lab, chk_edge(i), 40) for i, (lab, _) in enumerate(edge_rows(S.World(ctx))[1])]


def chk_edge(i):
    def fn(w, ob):
        p, t = edge_rows(w)
        lab, over = t[i]
        st, r = w.attempt(w.pydisort(), **p.args(**over))
        ob.true('%s is accepted%s' % (lab, '' if st == 'ok' else ' (got %s: %s)' % (r.name, r.msg)), st == 'ok', None if st == 'ok' else r.loc)
        if st == 'ok':
            ob.true('%s: documented outputs' % lab, isinstance(r, tuple) and len(r) == 5, entry_loc(w))
    return fn


# ------------------------------------------------------------------ equivalent ways of giving an input
def sol(w, p, k):
    out = w.it.call(w.pydisort(), [], k)
    if not isinstance(out, tuple) or len(out) != (4 if p.o['only_flux'] else 5):
        raise S.Bad('pydisort does not return the documented tuple')
    q = Problem.__new__(Problem)
    q.__dict__.update(p.__dict__)
    q.mu_arr, q.fu, q.fd, q.u0 = out[:4]
    q.u = out[4] if len(out) > 4 else None
    return q


def readonly(a):
    b = nd.new(list(S.cells(a)), a.shape, a.buf.dtype)
    b.buf.readonly = True
    return b


def strided(w, a):
    """The same array as every second entry of a larger one."""
    big = nd.new([y for x in S.cells(a) for y in (x, D.ONE)], a.shape[:-1] + (2 * a.shape[-1],), a.buf.dtype)
    return nd.getitem(big, (Ellipsis, slice(None, None, 2)))


def chk_forms(case):
    def fn(w, ob):
        half = D.c(Fraction(1, 2))
        g = {}
        if case == 'one layer':
            p = Problem(w, L=1, f=True, iso=2, NF=2, bpos='scalar')
            base = p.args()
            alts = [('scalars', dict(tau_arr=p.T[0], omega_arr=p.om[0], f_arr=p.f[0], Leg_coeffs_all=w.vec(p.g[0]), s_poly_coeffs=w.vec(p.s[0]))),
                    ('lists', dict(tau_arr=[p.T[0]], omega_arr=[p.om[0]], f_arr=[p.f[0]], Leg_coeffs_all=[list(p.g[0])], s_poly_coeffs=[list(p.s[0])])),
                    ('flat lists', dict(tau_arr=[p.T[0]], omega_arr=[p.om[0]], f_arr=p.f[0], Leg_coeffs_all=list(p.g[0]), s_poly_coeffs=list(p.s[0]))),
                    ('tuples', dict(tau_arr=(p.T[0],), omega_arr=(p.om[0],), f_arr=(p.f[0],)))]
        elif case == 'several layers':
            p = Problem(w, L=3, f=True, iso=2, NF=2)
            base = p.args()
            alts = [('lists', dict(tau_arr=list(p.T), omega_arr=list(p.om), f_arr=list(p.f), Leg_coeffs_all=[list(x) for x in p.g], s_poly_coeffs=[list(x) for x in p.s])),
                    ('Fortran-ordered matrices', dict(Leg_coeffs_all=nd.new([x for r in p.g for x in r], (3, 5), 'f', 'F'),
                                                     s_poly_coeffs=nd.new([x for r in p.s for x in r], (3, 2), 'f', 'F'))),
                    ('strided views', dict(tau_arr=nd.getitem(w.vec([y for x in p.T for y in (x, D.ONE)]), slice(None, None, 2)),
                                           omega_arr=nd.getitem(w.vec(p.om[::-1]), slice(None, None, -1))))]
        elif case == 'isotropic boundary conditions':
            p = Problem(w, L=2, NF=3, bpos='scalar', bneg='scalar', bdrf=('func',))
            base = p.args()
            bp, bn = p.bpos[0][0], p.bneg[0][0]
            Z = D.ZERO
            alts = [('vectors', dict(b_pos=w.vec([bp, bp]), b_neg=w.vec([bn, bn]))),
                    ('matrices', dict(b_pos=w.mat([[bp, Z, Z], [bp, Z, Z]]), b_neg=w.mat([[bn, Z, Z], [bn, Z, Z]]))),
                    ('one-element arrays', dict(b_pos=w.vec([bp]), b_neg=w.vec([bn]))),
                    ('mixed', dict(b_pos=w.mat([[bp, Z, Z], [bp, Z, Z]]), b_neg=bn))]
        elif case == 'vector boundary conditions':
            p = Problem(w, L=2, NF=2, bpos='vector', bneg='vector', iso=1)
            base = p.args()
            Z = D.ZERO
            alts = [('matrices', dict(b_pos=w.mat([[v, Z] for v in p.bpos[0]]), b_neg=w.mat([[v, Z] for v in p.bneg[0]])))]
        elif case == 'no sources given explicitly':
            p = Problem(w, L=2, NF=2)
            base = p.args()
            Z = D.ZERO
            alts = [('zeros', dict(b_pos=0, b_neg=0, f_arr=0, BDRF_Fourier_modes=[], NT_cor=False, only_flux=False)),
                    ('zero arrays', dict(b_pos=w.vec([Z, Z]), b_neg=w.mat([[Z, Z], [Z, Z]]), f_arr=w.vec([Z, Z]),
                                         s_poly_coeffs=w.mat([[Z, Z], [Z, Z]]))),
                    ('zero reflection', dict(BDRF_Fourier_modes=[D.ZERO, D.ZERO])),
                    ('threshold default', dict(use_banded_solver_NLayers=10))]
        elif case == 'constant reflection':
            p = Problem(w, L=2, NF=2, bdrf=('scalar', 'scalar'))
            base = p.args()

            def cf(v):
                return I.Native('rho', lambda a, b, v=v: nd.full((nd.asarr(a).shape[0], nd.asarr(b).shape[0]), v, 'f'), 'user')
            alts = [('constant functions', dict(BDRF_Fourier_modes=[cf(v) for v in p.rho_in])),
                    ('mixed', dict(BDRF_Fourier_modes=[cf(p.rho_in[0]), p.rho_in[1]]))]
        elif case == 'integers':
            p = Problem(w, L=2, NF=2, bpos='scalar')
            p.T = [D.c(1), D.c(2)]
            p.derive()
            g2 = [[D.ONE, D.ZERO, D.ZERO, D.ZERO], [D.ONE, D.ZERO, D.ZERO, D.ZERO]]
            fl = dict(tau_arr=w.vec(p.T), Leg_coeffs_all=w.mat(g2), b_pos=D.c(2), I0=D.c(3), phi0=D.ZERO, mu0=D.ONE,
                      s_poly_coeffs=w.mat([[D.c(2), D.c(3)], [D.c(1), D.c(1)]]), NLeg=4)
            base = p.args(**fl)
            iv = lambda xs: nd.new(xs, (len(xs),), 'i')
            alts = [('integer arrays', dict(fl, tau_arr=iv([1, 2]), b_pos=2, I0=3, phi0=0, mu0=1,
                                            Leg_coeffs_all=nd.new([1, 0, 0, 0] * 2, (2, 4), 'i'), s_poly_coeffs=nd.new([2, 3, 1, 1], (2, 2), 'i'))),
                    ('integer lists', dict(fl, tau_arr=[1, 2], b_pos=2, I0=3, phi0=0, mu0=1,
                                           Leg_coeffs_all=[[1, 0, 0, 0]] * 2, s_poly_coeffs=[[2, 3], [1, 1]]))]
        elif case == 'integers and delta-M scaling':
            p = Problem(w, L=2, NF=2, f=True)
            p.T = [D.c(1), D.c(2)]
            p.derive()
            fl = dict(tau_arr=w.vec(p.T), I0=D.c(3), s_poly_coeffs=w.mat([[D.c(2), D.c(3)], [D.c(1), D.c(1)]]), b_neg=w.vec([D.ONE, D.c(2)]))
            base = p.args(**fl)
            alts = [('integer arrays', dict(fl, tau_arr=nd.new([1, 2], (2,), 'i'), I0=3, s_poly_coeffs=nd.new([2, 3, 1, 1], (2, 2), 'i'),
                                            b_neg=nd.new([1, 2], (2,), 'i')))]
        elif case == 'defaults':
            p = Problem(w, L=2, NLA=4)
            base = p.args(NLeg=4, NFourier=4)
            alts = [('NLeg and NFourier default to the number of streams', dict(NLeg=None, NFourier=None))]
        elif case == 'zeroth coefficient':
            p = Problem(w, L=3, NF=2, f=True, iso=2)
            base = p.args()
            wrong = [w.atom('g00', 0.2, 0.9), w.atom('g10', 1.1, 5.0), w.atom('g20', 0.2, 0.9)]
            for om, g0 in zip(p.om, wrong):
                d = D.sub(D.ONE, g0)
                w.ctx.positive(D.mul(om, d if g0.iv[2] < 1 else D.neg(d)))
            alts = [('corrected to 1 in the layers %s' % ', '.join(map(str, ls)), dict(Leg_coeffs_all=w.mat([[wrong[i] if i in ls else D.ONE] + p.g[i][1:] for i in range(3)])))
                    for ls in ((0,), (1,), (2,), (0, 2), (0, 1, 2))]
        elif case == 'higher source terms zero':
            p = Problem(w, L=2, NF=2, iso=1, f=True)
            base = p.args()
            alts = [('padded with %d zeros' % n, dict(s_poly_coeffs=w.mat([r + [D.ZERO] * n for r in p.s]))) for n in (1, 2, 3)]
        elif case == 'corrections requested':
            p = Problem(w, L=2, f=True, nt=True, NLeg=3, NF=2, iso=1, bpos='scalar')
            base = p.args()
            alts = [('lists', dict(tau_arr=list(p.T), omega_arr=list(p.om), f_arr=list(p.f), Leg_coeffs_all=[list(x) for x in p.g], s_poly_coeffs=[list(x) for x in p.s])),
                    ('tuples', dict(tau_arr=tuple(p.T), omega_arr=tuple(p.om), f_arr=tuple(p.f), Leg_coeffs_all=tuple(tuple(x) for x in p.g),
                                    s_poly_coeffs=tuple(tuple(x) for x in p.s))),
                    ('Fortran-ordered matrices', dict(Leg_coeffs_all=nd.new([x for r in p.g for x in r], (2, 5), 'f', 'F'))),
                    ('strided views', {k: strided(w, base[k]) for k in ('tau_arr', 'omega_arr', 'f_arr', 'Leg_coeffs_all')}),
                    ('read-only arrays', {k: readonly(base[k]) for k in ('tau_arr', 'omega_arr', 'f_arr', 'Leg_coeffs_all', 's_poly_coeffs')})]
        elif case == 'read-only arrays':
            p = Problem(w, L=2, NF=2, f=True, iso=1, bpos='matrix', bneg='matrix', bdrf=('func', 'func'))
            base = p.args()
            ro = ('tau_arr', 'omega_arr', 'f_arr', 'Leg_coeffs_all', 's_poly_coeffs', 'b_pos', 'b_neg')
            alts = [('read-only arrays', {k: readonly(base[k]) for k in ro}),
                    ('strided views', {k: strided(w, base[k]) for k in ro}),
                    ('Fortran-ordered matrices', {k: nd.new(S.cells(base[k]), base[k].shape, 'f', 'F')
                                                  for k in ('Leg_coeffs_all', 's_poly_coeffs', 'b_pos', 'b_neg')}),
                    ('a tuple of reflection modes', dict(BDRF_Fourier_modes=tuple(base['BDRF_Fourier_modes'])))]
        elif case == 'positional arguments':
            p = Problem(w, L=2, NF=2, f=True, iso=1, NLeg=3, bpos='scalar', bneg='scalar', bdrf=('func',))
            base = p.args()
            order = ['tau_arr', 'omega_arr', 'NQuad', 'Leg_coeffs_all', 'mu0', 'I0', 'phi0', 'NLeg', 'NFourier', 'b_pos', 'b_neg']
            a = sol(w, p, base)
            rest = {k: v for k, v in base.items() if k not in order}
            out = w.it.call(w.pydisort(), [base[k] for k in order], rest)
            q = Problem.__new__(Problem)
            q.__dict__.update(p.__dict__)
            q.mu_arr, q.fu, q.fd, q.u0, q.u = out
            taus = pts_of(p)
            cmp(ob, 'documented argument order', outs(q, taus), outs(a, taus))
            return
        else:
            raise KeyError(case)
        a = sol(w, p, base)
        taus = pts_of(p)
        for anti in (False, True):
            r = outs(a, taus, anti)
            for lab, over in alts:
                k = dict(base)
                k.update(over)
                k = {x: y for x, y in k.items() if not (y is None and x in ('NLeg', 'NFourier'))}
                cmp(ob, '%s given as %s%s' % (case, lab, ' (antiderivative)' if anti else ''), outs(sol(w, p, k), taus, anti), r)
    return fn


FORMS = ['one layer', 'several layers', 'isotropic boundary conditions', 'vector boundary conditions', 'no sources given explicitly',
         'constant reflection', 'integers', 'integers and delta-M scaling', 'defaults', 'zeroth coefficient', 'higher source terms zero', 'positional arguments',
         'corrections requested', 'read-only arrays']


# ------------------------------------------------------------------ query domain
QRY = [dict(N=3, L=2, NF=1, NLA=6), dict(L=1, NF=2), dict(L=3, f=True, iso=2, NF=2), dict(L=2, f=True, nt=True, NLeg=3, NF=2), dict(L=2, only_flux=True, f=True),
       dict(L=2, beam=False, iso=1, NF=1, bpos='scalar'), dict(N=1, L=2, NF=1, NLA=3, f=True), dict(L=2, NF=2, autograd=True)]


def chk_query(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        au, ad = act_funcs(p)
        itp = w.fn('interpolate')
        i0 = w.call(itp, p.u0)
        ph = phis(p, 2)[0]
        mu = p.mus[0]
        fs = [('upward flux', p.fu, lambda t: [t]), ('downward flux', p.fd, lambda t: [t]), ('zeroth mode', p.u0, lambda t: [t]),
              ('upward actinic flux', au, lambda t: [t]), ('downward actinic flux', ad, lambda t: [t]),
              ('interpolated zeroth mode', i0, lambda t: [mu, t])]
        iu = None
        if p.u is not None:
            iu = w.call(itp, p.u)
            fs += [('intensity', p.u, lambda t: [t, ph]), ('interpolated intensity', iu, lambda t: [mu, t, ph])]
        below = neg_half(w, 'tau_below', 0.0)
        above = D.atom('tau_above', p.L - 0.1, D.inf)
        w.base['tau_above'] = (p.L + 0.1, True, D.inf, True)
        w.ctx.positive(D.sub(above, p.T[-1]))
        for j in range(p.L):
            w.ctx.positive(D.sub(above, p.T[j]))
        barely = D.mul(p.T[-1], D.add(D.ONE, w.atom('barely', 1e-9, 1e-8)))
        w.ctx.positive(D.sub(barely, p.T[-1]))
        barely_up, far = D.neg(w.atom('barely up', 1e-9, 1e-8)), D.mul(p.T[-1], w.atom('far', 1e6, 1e9))
        for t in p.T:
            w.ctx.positive(D.sub(far, t))
            w.ctx.positive(D.sub(barely, t))
        good = pts_of(p)
        for nm, f, mk in fs:
            kws = [{}, {'is_antiderivative_wrt_tau': True}, {'return_tau_arr': True}, {'is_antiderivative_wrt_tau': True, 'return_tau_arr': True}]
            if f is p.u or f is iu:
                kws += [{'return_Fourier_error': True}, {'return_Fourier_error': True, 'is_antiderivative_wrt_tau': True}, {'return_Fourier_error': True, 'return_tau_arr': True}]
            for kw in kws:
                for lab, t in (('a negative depth', below), ('a depth below the atmosphere', above),
                               ('an array starting with a negative depth', w.vec([below] + good[:2])),
                               ('an array ending with a negative depth', w.vec(good[:2] + [below])),
                               ('an array starting with a depth below the atmosphere', w.vec([above] + good[:2])),
                               ('an array ending with a depth below the atmosphere', w.vec(good[:2] + [above])),
                               ('a depth barely above the atmosphere', barely_up), ('an array with a depth barely below the atmosphere', w.vec([good[0], barely, good[1]])),
                               ('a depth barely below the atmosphere', barely), ('a depth far below the atmosphere', far),
                               ('a list containing a depth below the atmosphere', [good[0], above, good[1]])):
                    st, r = w.attempt(f, *mk(t), **kw)
                    if st == 'ok':
                        ob.true('%s rejects %s' % (nm, lab), False, func_loc(f))
                    else:
                        ob.true('%s rejects %s with a ValueError (got %s: %s)' % (nm, lab, r.name, r.msg), r.name == 'ValueError', r.loc)
                for lab, t in (('depth 0', D.ZERO), ('integer depth 0', 0), ('the bottom', p.T[-1]), ('both ends', w.vec([D.ZERO, p.T[-1]])),
                               ('every interface', w.vec(list(p.T))), ('an integer array', nd.new([0, 0], (2,), 'i'))):
                    st, r = w.attempt(f, *mk(t), **kw)
                    ob.true('%s accepts %s%s' % (nm, lab, '' if st == 'ok' else ' (got %s: %s)' % (r.name, r.msg)), st == 'ok', None if st == 'ok' else r.loc)
                    if st == 'ok':
                        while isinstance(r, tuple):
                            r = r[0]
                        for v in S.cells(r):
                            if v.kind == D.NAN:
                                ob.eq('%s is defined at %s' % (nm, lab), v, D.ZERO)
        # interpolation domain
        big, small = pos_half(w, 'mu_big', 1.0), neg_half(w, 'mu_small', -1.0)
        for nm, f, rest in [('interpolated zeroth mode', i0, [good[0]])] + ([('interpolated intensity', iu, [good[0], ph])] if iu is not None else []):
            for lab, m in (('mu barely above 1', D.add(D.ONE, w.atom('barely', 1e-9, 1e-8))), ('mu barely below -1', D.sub(D.c(-1), w.atom('barely', 1e-9, 1e-8))), ('mu above 1', big), ('mu below -1', small), ('an array with mu above 1', w.vec([mu, big])),
                           ('an array with mu below -1', w.vec([small, mu])), ('a list with mu above 1', [mu, big])):
                st, r = w.attempt(f, m, *rest)
                if st == 'ok':
                    ob.true('%s rejects %s' % (nm, lab), False, func_loc(f))
                else:
                    ob.true('%s rejects %s with a ValueError (got %s)' % (nm, lab, r.name), r.name == 'ValueError', r.loc)
            for lab, m in (('mu = 1', D.ONE), ('mu = -1', D.c(-1)), ('mu = 0', D.ZERO), ('integer mu', 1), ('an array of ends', w.vec([D.ONE, D.c(-1), D.ZERO])),
                           ('a list', [mu, D.neg(mu)])):
                st, r = w.attempt(f, m, *rest)
                ob.true('%s accepts %s%s' % (nm, lab, '' if st == 'ok' else ' (got %s: %s)' % (r.name, r.msg)), st == 'ok', None if st == 'ok' else r.loc)
    return fn


def func_loc(f):
    return (f.file, f.node.lineno, f.name) if isinstance(f, I.Func) else None


# ------------------------------------------------------------------ warnings
def warned(w, fn):
    """Does the call warn?  (True, False, or None where the analysis cannot tell)"""
    n = len(w.ctx.events)
    fn()
    ev = [e for e in w.ctx.events[n:] if e[0] in ('warn', 'undecided-warn')]
    if any(e[0] == 'warn' for e in ev):
        return True, ev
    return (None if ev else False), ev


WARN = [dict(), dict(f=True, NF=2), dict(L=1, iso=1, NF=1, beam=False), dict(L=3, f_layers=(1,), NF=2, bdrf=('func', 'scalar'), iso=2, bneg='vector'), dict(only_flux=True, f=True),
        dict(N=1, L=2, NLA=3, NF=2, f=True, banded=3)]


def chk_warn(o):
    def fn(w, ob):
        o2 = dict(o, L=o.get('L', 2))
        p = Problem(w, **o2)
        L, c = p.L, lambda x: D.c(Fraction(x))
        loc = entry_loc(w)

        def case(lab, want, **over):
            def run():
                st, r = w.attempt(w.pydisort(), **p.args(**over))
                if st != 'ok':
                    raise S.Bad('%s is not accepted (%s: %s)' % (lab, r.name, r.msg))
            got, ev = warned(w, run)
            if got is None:
                ob.undecided('%s: not decided whether a warning is issued' % lab)
            else:
                ob.true('%s: %s' % (lab, 'a warning is issued' if want else 'no warning is issued%s' % (' (got "%s")' % ev[0][1][:80] if ev else '')), got == want,
                        ev[0][2] if ev and isinstance(ev[0][2], tuple) else loc)
        hi = [w.atom('om_hi%d' % i, 0.99999995, 0.99999998) for i in range(L)]
        vec = lambda xs: w.vec(list(xs))
        zf = [c(0)] * L
        half = [c('1/2')] * L
        tame = [[D.ONE] + [c('1/4')] * (p.o['NLA'] - 1) for _ in range(L)]
        base = dict(f_arr=vec(half if p.anyf else zf), Leg_coeffs_all=w.mat(tame), omega_arr=vec([c('4/5')] * L))

        def at(xs, i, v):
            r = list(xs)
            r[i] = v
            return r
        case('ordinary input', False, **base)
        for i in range(L):
            for fv, flab in ((c(0), 'no'), (c('1/2'), 'half')):
                k = dict(base, f_arr=vec([fv] * L))
                case('albedo of layer %d within 1e-7 of 1, %s delta-M scaling' % (i, flab), True, **dict(k, omega_arr=vec(at([c('4/5')] * L, i, hi[i]))))
                case('albedo of layer %d at 0.999, %s delta-M scaling' % (i, flab), False, **dict(k, omega_arr=vec(at([c('4/5')] * L, i, c('999/1000')))))
            case('albedo of layer %d close to 1 but not after delta-M scaling' % i, False,
                 **dict(base, f_arr=vec([c('999/1000')] * L), Leg_coeffs_all=w.mat([[D.ONE] + [c('999/1000')] * (p.o['NLA'] - 1)] * L), omega_arr=vec(at([c('4/5')] * L, i, w.atom('om_nr', 1 - 5e-7, 1 - 4e-7)))))
            for l in range(1, p.NLeg):
                for s_ in (1, -1):
                    big = w.atom('g_big%s' % ('p' if s_ > 0 else 'n'), *((0.97, 0.99) if s_ > 0 else (-0.99, -0.97)))
                    if s_ > 0 or not p.anyf:
                        case('coefficient %d of layer %d beyond %s0.97, no scaling' % (l, i, '' if s_ > 0 else '-'), True, **dict(base, f_arr=vec(zf), Leg_coeffs_all=w.mat(at(tame, i, at(tame[i], l, big)))))
                if l == 1:
                    case('coefficient 1 of layer %d negative and strongly scaled' % i, True, **dict(base, f_arr=vec(half), Leg_coeffs_all=w.mat(at(tame, i, at(tame[i], l, c('-4/5'))))))
                    case('coefficient 1 of layer %d large but not after scaling' % i, False, **dict(base, f_arr=vec(half), Leg_coeffs_all=w.mat(at(tame, i, at(tame[i], l, c('24/25'))))))
            for l in range(p.NLeg, p.o['NLA']):
                case('unused coefficient %d of layer %d beyond 0.97' % (l, i), False, **dict(base, Leg_coeffs_all=w.mat(at(tame, i, at(tame[i], l, w.atom('g_unused', 0.97, 0.99))))))
            case('zeroth coefficient of layer %d not 1' % i, True, **dict(base, Leg_coeffs_all=w.mat(at(tame, i, at(tame[i], 0, w.atom('g_zero', 0.2, 0.9))))))
            case('zeroth coefficient of layer %d not 1 without scattering' % i, False, **dict(base, omega_arr=vec(at([c('4/5')] * L, i, D.ZERO)), Leg_coeffs_all=w.mat(at(tame, i, at(tame[i], 0, w.atom('g_zero', 0.2, 0.9))))))
        if p.N == 1:
            many = lambda n: w.mat([[c('1/2')] * n for _ in range(L)])
            case('ten source coefficients', False, **dict(base, s_poly_coeffs=many(10)))
            case('twelve source coefficients', True, **dict(base, s_poly_coeffs=many(12)))
    return fn


def chk_warn_cache(w, ob):
    f = w.fn('cache_BDRF_Fourier_modes')
    for lab, modes in (('numbers', [c_ for c_ in (w.atom('rho0', 0.1, 0.2), D.ZERO)]), ('functions', [I.Native('user', lambda a, b: nd.full((nd.asarr(a).shape[0], nd.asarr(b).shape[0]), D.ONE, 'f'), 'user')])):
        for mlab, args, want in (('no beam cosine', (), True), ('beam cosine 0', (0,), True), ('a beam cosine', (w.atom('mu0', 0.3, 0.5),), False), ('beam cosine 1', (D.ONE,), False)):
            got, ev = warned(w, lambda: w.call(f, 2, list(modes), *args))
            if got is None:
                ob.undecided('caching with %s: not decided whether a warning is issued' % mlab)
            else:
                ob.true('caching %s with %s: %s' % (lab, mlab, 'a warning is issued' if want else 'no warning is issued'), got == want, func_loc(f))
