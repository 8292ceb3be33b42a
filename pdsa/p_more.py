"""Modes of use, derived quantities and helper functions."""
import itertools
import math
from fractions import Fraction
from . import dom as D
from . import nd
from . import npm
from . import interp as I
from . import scen as S
from .scen import Problem, unsq, at, vsum
from .nd import Arr, PyExc, Unsupported
from .p_solver import (constants, ask, full, phis, tau_sets, act_funcs, u_modes, u0_vals, name, loc_of, nu_of)
from .p_api import outs, cmp, pts_of, tup_eq, deep, bdrf_fn
from .p_input import func_loc, entry_loc

TWO_PI = D.mul(D.c(2), D.PI)


# ------------------------------------------------------------------ P17 autograd mode
AG = [dict(L=2, NF=2, mag='edge', f=True, iso=1), dict(L=2, NF=1, mag='tiny', f=True, nt=True, NLeg=3), dict(N=3, L=2, NF=2, NLA=7, f=True, iso=1), dict(L=1, NF=2), dict(L=3, f=True, iso=2, NF=2, bdrf=('func',)), dict(L=2, f=True, iso=1, NF=1), dict(L=2, iso=3, NF=3, bpos='scalar'),
      dict(L=3, f=True, iso=4, NF=2, bneg='matrix'), dict(L=2, f=True, nt=True, NLeg=3, NF=2), dict(L=3, f=True, nt=True, NLeg=3, NF=2, iso=2),
      dict(L=1, f=True, nt=True, NLeg=3, NF=2, iso=1), dict(L=2, beam=False, iso=2, NF=2, f=True), dict(L=2, beam=False, bpos='scalar', NF=2),
      dict(N=1, L=2, f=True, iso=2, NLA=3, NF=2), dict(N=1, L=2, f=True, nt=True, NLeg=2, NLA=4, NF=1), dict(L=2, only_flux=True, f=True, iso=3),
      dict(L=2, f=True, nt=True, NLeg=3, NF=2, mu0='hi'), dict(L=3, f_layers=(2,), nt=True, NLeg=3, NF=1, iso=3, mu0='low')]


def traced(w):
    class T:
        def __enter__(s):
            w.ctx.traced_mode = True
            s.n = len(w.ctx.events)
            return s

        def __exit__(s, *a):
            w.ctx.traced_mode = False
            s.bad = [e for e in w.ctx.events[s.n:] if str(e[0]).startswith('traced')]
    return T()


def chk_autograd(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        q = Problem(w, **{**o, 'autograd': True}).solve()
        ob.arr_eq('autograd mode: the directions', q.mu_arr, p.mu_arr)
        for label, pts in tau_sets(p):
            taus = [t for t, _ in pts]
            for anti in (False, True):
                cmp(ob, 'autograd mode (%s)%s' % (label, ', antiderivative' if anti else ''), outs(q, taus, anti), outs(p, taus, anti))
        au, ad = act_funcs(q)
        ph = phis(p, 2)
        for sc in (False, True):
            pts = [t for t, _ in tau_sets(p)[0][1]]
            tq = pts[0] if sc else None
            jobs = {'upward flux': (q.fu, []), 'downward flux': (q.fd, []), 'zeroth mode': (q.u0, []), 'upward actinic flux': (au, []), 'downward actinic flux': (ad, [])}
            if q.u is not None:
                jobs['intensity'] = (q.u, [w.vec(ph)])
                jobs['intensity at one azimuth'] = (q.u, [ph[0]])
            for nm, (f, rest) in jobs.items():
                for kw in ({}, {'is_antiderivative_wrt_tau': True}, {'return_tau_arr': True}):
                    with traced(w) as t:
                        w.it.call(f, [tq if sc else w.vec(pts)] + rest, dict(kw))
                    loc = t.bad[0][2] if t.bad else None
                    ob.true('%s can be differentiated with respect to the optical depth%s' % (nm, (' (%s)' % (t.bad[0][1],)) if t.bad else ''), not t.bad, loc)
    return fn


# ------------------------------------------------------------------ P18 optional outputs
FLG = [dict(N=3, L=2, NF=1, NLA=6), dict(L=1, NF=2), dict(L=1, scalars=True, NF=1, iso=1), dict(L=3, f=True, iso=2, NF=2, bdrf=('func',)), dict(L=2, f=True, nt=True, NLeg=3, NF=2),
       dict(L=3, f=True, nt=True, NLeg=3, NF=2, iso=2), dict(L=2, beam=False, iso=1, NF=1), dict(L=2, beam=False, bpos='scalar', NF=2, f=True),
       dict(N=1, L=2, f=True, NLA=3, NF=2), dict(L=2, only_flux=True, f=True), dict(L=2, f=True, autograd=True, NF=2, iso=2), dict(L=1, f=True, nt=True, NLeg=3, NF=2, iso=2)]


def chk_flags(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        itp = w.fn('interpolate')
        au, ad = act_funcs(p)
        T = w.vec(p.T)
        ph = w.vec(phis(p, 2))
        mu = w.vec([p.mus[0], D.neg(p.mus[0])])
        i0 = w.call(itp, p.u0)
        iu = w.call(itp, p.u) if p.u is not None else None
        for taus in (w.vec(pts_of(p)), pts_of(p)[0]):
            for anti in (False, True):
                single = {'upward flux': (p.fu, [taus], 3), 'zeroth mode': (p.u0, [taus], 3), 'upward actinic flux': (au, [taus], 3),
                          'downward actinic flux': (ad, [taus], 3), 'interpolated zeroth mode': (i0, [mu, taus], None)}
                for nm, (f, a, npos) in single.items():
                    v = w.it.call(f, a, {'is_antiderivative_wrt_tau': anti})
                    if isinstance(v, tuple):
                        ob.true('%s: a single value without flags' % nm, False, func_loc(f))
                        continue
                    ob.arr_eq('%s: positional antiderivative flag' % nm, w.it.call(f, a + [anti], {}), v)
                    r = w.it.call(f, a, {'is_antiderivative_wrt_tau': anti, 'return_tau_arr': True})
                    pair(ob, nm, r, (v, T), f)
                    if npos:
                        pair(ob, nm + ' (positional)', w.it.call(f, a + [anti, True], {}), (v, T), f)
                v = w.it.call(p.fd, [taus], {'is_antiderivative_wrt_tau': anti})
                if isinstance(v, tuple) and len(v) == 2:
                    pair(ob, 'downward flux', w.it.call(p.fd, [taus, anti, True], {}), v + (T,), p.fd)
                else:
                    ob.true('downward flux: a (diffuse, direct) pair', False, func_loc(p.fd))
                if p.u is None:
                    continue
                for nm, f, a in (('intensity', p.u, [taus, ph]), ('interpolated intensity', iu, [mu, taus, ph])):
                    v = w.it.call(f, a, {'is_antiderivative_wrt_tau': anti})
                    if isinstance(v, tuple):
                        ob.true('%s: a single value without flags' % nm, False, func_loc(f))
                        continue
                    kw = {'is_antiderivative_wrt_tau': anti}
                    pair(ob, nm, w.it.call(f, a, dict(kw, return_tau_arr=True)), (v, T), f)
                    e = w.it.call(f, a, dict(kw, return_Fourier_error=True))
                    if not (isinstance(e, tuple) and len(e) == 2):
                        ob.true('%s: value and Fourier error' % nm, False, func_loc(f))
                        continue
                    ob.arr_eq('%s: the value does not depend on asking for the Fourier error' % nm, e[0], v)
                    ob.true('%s: the Fourier error is a number' % nm, S.shape(e[1]) == (), func_loc(f))
                    pair(ob, nm, w.it.call(f, a + [anti, True, True], {}), (v, e[1], T), f)
                    pair(ob, nm + ' (keywords)', w.it.call(f, a, dict(kw, return_tau_arr=True, return_Fourier_error=True)), (v, e[1], T), f)
                    pair(ob, nm + ' (flags off)', (w.it.call(f, a + [anti, False, False], {}),), (v,), f)
        # the returned depths are the caller's own copy (also covered by the snapshot property)
        st, r = w.attempt(i0, mu, pts_of(p)[0], return_Fourier_error=True)
        ob.true('the zeroth mode has no Fourier error: asking for it is an error', st != 'ok', func_loc(i0))
    return fn


def pair(ob, nm, r, want, f):
    if not isinstance(r, tuple) or len(r) != len(want):
        ob.true('%s: %d outputs in the documented order' % (nm, len(want)), False, func_loc(f))
        return
    for i, (x, y) in enumerate(zip(r, want)):
        ob.arr_eq('%s: optional outputs, position %d' % (nm, i), x, y)


# ------------------------------------------------------------------ P19 Fourier convergence estimate
FE = [dict(L=2, NF=2, mag='edge', f=True), dict(L=2, NF=2, mag='tiny', iso=1), dict(N=3, L=2, NF=2, NLA=6, f=True), dict(L=1, NF=2), dict(L=3, f=True, iso=2, NF=2, bdrf=('func',)), dict(L=2, beam=False, iso=1, NF=1, f=True), dict(L=2, beam=False, bpos='matrix', NF=3),
      dict(L=2, f=True, iso=2, NF=1), dict(N=1, L=2, f=True, NF=2, NLA=3), dict(L=2, f=True, nt=True, NLeg=3, NF=2), dict(L=3, NF=3, bneg='scalar'),
      dict(L=2, f=True, nt=True, NLeg=3, NF=2, iso=1), dict(L=2, f=True, NF=2, iso=3, autograd=True), dict(N=1, L=1, NF=1, beam=False, iso=2, NLA=2)]


def sq(v):
    """v*v with absolute values removed."""
    if v.op == 'abs':
        return D.mul(v.args[0], v.args[0])
    if v.op == 'mul':
        return D.mul(sq(v.args[0]), sq(v.args[1]))
    if v.op == 'inv':
        return D.inv(sq(v.args[0]))
    if v.op == 'neg':
        return sq(v.args[0])
    return D.mul(v, v)


def chk_fourier(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        base = p
        if o.get('nt'):
            base = Problem(w, **{**o, 'nt': False}).solve()
        NF = p.NF
        for label, pts in tau_sets(p)[:3]:
            taus = [t for t, _ in pts]
            for nph in (1, 2):
                ph = phis(p, NF + nph)[:nph]
                for anti in (False, True):
                    kw = {'is_antiderivative_wrt_tau': True} if anti else {}
                    e = ask(p, p.u, taus, w.vec(ph), return_Fourier_error=True, **kw)
                    if not (isinstance(e, tuple) and len(e) == 2):
                        raise S.Bad('asking for the Fourier error does not return it', None, func_loc(p.u))
                    err = nd.tov(e[1])
                    u = full('u', ask(base, base.u, taus, w.vec(ph), **kw), (p.NQ, len(taus), nph))
                    last = u_modes(base, taus, **kw)[NF - 1]
                    refs = []
                    for i in range(p.NQ):
                        for t in range(len(taus)):
                            for j in range(nph):
                                x = D.mul(last[i][t], D.cos(D.mul(D.c(NF - 1), D.sub(p.phi0, ph[j]))))
                                refs.append(D.div(D.absv(x), D.absv(at(u, i, t, j))))
                    text = 'the Fourier error is the largest ratio of the last Fourier term to the intensity (%s, %d azimuths%s)' % (label, nph, ', antiderivative' if anti else '')
                    if match_max(err, refs):
                        ob.total += 1
                        ob._ok(text)
                    elif not small_on_path():
                        r = D.ZERO
                        for y in refs:
                            r = D.maximum(r, D.ZERO if y.kind else y)
                        ob.eq(text, err, r)
        if p.o['beam'] and not p.o['iso'] and p.o['bpos'] == p.o['bneg'] == 'zero':
            # it is a ratio: the strength of the source does not matter
            taus, ph = [t for t, _ in tau_sets(p)[0][1]], phis(p, 2)
            for lab, lo, hi in (('weaker', 1e-13, 1e-11), ('stronger', 1e9, 1e11)):
                q = Problem(w, **o)
                q.solve(I0=D.mul(p.I0, w.atom('strength ' + lab, lo, hi)))
                for anti in (False, True):
                    kw = {'is_antiderivative_wrt_tau': True} if anti else {}
                    x, y = (nd.tov(ask(r_, r_.u, taus, w.vec(ph), return_Fourier_error=True, **kw)[1]) for r_ in (p, q))
                    ob.eq('a %s source has the same Fourier error%s' % (lab, ' (antiderivative)' if anti else ''), y, x)
    return fn


def small_on_path():
    """The path analysed assumes that some intensity is below a negligible threshold (it then has no ratio)."""
    for k, chosen in D.CTX.choices.items():
        c = D.CTX.conds.get(k)
        if not c or c[0] != 'lt' or not all(isinstance(x, D.V) for x in c[1:3]):
            continue
        for lim, small in ((c[2], chosen), (c[1], not chosen)):
            if small and not lim.deps and not lim.kind and 0 <= lim.iv[0] and lim.iv[2] <= 1e-6:
                return True
    return False


def match_max(err, refs):
    """Structural match: max over cells of (ratio where |u| is not negligible, else 0)."""
    cands = list(err.args) if err.op == 'max' else [err]
    got = set()
    for x in cands:
        while x.op == 'phi':
            a, b = x.args[1], x.args[2]
            if b.fp == 0:
                x = a
            elif a.fp == 0:
                x = b
            else:
                return False
        if x.kind:
            return False
        if x.fp == 0:
            continue
        got.add(sq(x).fp)
    want = {sq(x).fp for x in refs if x.kind == D.NORM}
    want.discard(0)
    return bool(want) and got == want


# ------------------------------------------------------------------ P21 interpolation in the polar angle
ITP = [dict(L=2, mag='edge', NF=2, f=True), dict(L=2, mag='edge2', NF=1, iso=1), dict(L=2, mag='faint', NF=1, beam=False, bneg='scalar'), dict(N=3, L=2, NF=1, NLA=7, f=True), dict(N=4, L=1, NF=1, NLA=8), dict(L=1, NF=2), dict(L=3, f=True, iso=2, NF=2), dict(L=2, f=True, nt=True, NLeg=3, NF=2), dict(N=1, L=2, f=True, NF=2, NLA=3), dict(L=2, beam=False, bneg='vector', NF=1),
       dict(L=2, only_flux=True, iso=1), dict(L=2, autograd=True, NF=2, f=True)]


def lagrange(xs, ys, x):
    acc = D.ZERO
    for j in range(len(xs)):
        t = ys[j]
        for k in range(len(xs)):
            if k != j:
                t = D.mul(t, D.div(D.sub(x, xs[k]), D.sub(xs[j], xs[k])))
        acc = D.add(acc, t)
    return acc


def chk_interp(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        N = p.N
        itp = w.fn('interpolate')
        up = w.atom('mu_up', 0.31, 0.39)
        dn = D.neg(w.atom('mu_dn', 0.41, 0.49))
        neg = [D.neg(x) for x in p.mus]
        taus = pts_of(p)
        ph = phis(p, 2)
        fs = [('zeroth mode', p.u0, w.call(itp, p.u0), [w.vec(taus)], (len(taus),)), ('zeroth mode at one depth', p.u0, w.call(itp, p.u0), [taus[1]], (1,))]
        if p.u is not None:
            iu = w.call(itp, p.u)
            fs += [('intensity', p.u, iu, [w.vec(taus), w.vec(ph)], (len(taus), 2)), ('intensity at one depth', p.u, iu, [taus[0], w.vec(ph)], (1, 2)),
                   ('intensity at one azimuth', p.u, iu, [w.vec(taus), ph[0]], (len(taus), 1)), ('intensity at a point', p.u, iu, [taus[0], ph[0]], (1, 1))]
        sets = [('upward', [up]), ('downward', [dn]), ('mixed', [dn, up, p.mus[0], neg[-1], up]), ('nodes', list(p.mus) + neg), ('poles', [D.ONE, D.c(-1)])]
        for nm, f, g, a, tail in fs:
            for kw in ({}, {'is_antiderivative_wrt_tau': True}):
                node = full(nm, w.it.call(f, a, dict(kw)), (p.NQ,) + tail)
                n = nd.prod(tail)
                cs = [nd.tov(x) for x in node.cells()]

                def want(m, t):
                    pos = D.sign(m) == 1
                    return lagrange(p.mus if pos else neg, [cs[(i if pos else N + i) * n + t] for i in range(N)], m)
                for lab, ms in sets:
                    r = full('interpolated ' + nm, w.it.call(g, [w.vec(ms)] + a, dict(kw)), (len(ms),) + tail)
                    for k, m in enumerate(ms):
                        for t in range(n):
                            ob.eq('interpolated %s: polynomial through the values of the hemisphere (%s, %d)' % (nm, lab, k), nd.tov(r.cells()[k * n + t]), want(m, t))
                for m in (up, dn, 1, -1):
                    r = w.it.call(g, [m] + a, dict(kw))
                    r = full('interpolated %s at a scalar angle' % nm, r, (1,) + tail)
                    for t in range(n):
                        ob.eq('interpolated %s: scalar angle' % nm, nd.tov(r.cells()[t]), want(nd.tov(m), t))
                # mu = 0: the polynomial of one of the hemispheres (the same one for every query)
                pz = [[lagrange(xs, [cs[(h + i) * n + t] for i in range(N)], D.ZERO) for t in range(n)] for h, xs in ((0, p.mus), (N, neg))]
                for lab, ms, k in (('scalar', D.ZERO, 0), ('one element', w.vec([D.ZERO]), 0), ('between the hemispheres', w.vec([dn, D.ZERO, up]), 1),
                                   ('with upward angles', w.vec([up, D.ZERO]), 1), ('with downward angles', w.vec([D.ZERO, dn]), 0), ('integer', 0, 0)):
                    cnt = S.shape(ms)[0] if isinstance(ms, Arr) else 1
                    r = full('interpolated ' + nm, w.it.call(g, [ms] + a, dict(kw)), (cnt,) + tail)
                    got = [nd.tov(r.cells()[k * n + t]) for t in range(n)]
                    ok = any(all(x.kind == y.kind == D.NORM and x.fp == y.fp for x, y in zip(got, z)) for z in pz)
                    ob.true('interpolated %s: mu = 0 uses the polynomial of one hemisphere (%s)' % (nm, lab), ok, func_loc(g))
                for i in range(N):
                    for half in (0, N):
                        r = full('interpolated ' + nm, w.it.call(g, [p.mus[i] if not half else neg[i]] + a, dict(kw)), (1,) + tail)
                        for t in range(n):
                            ob.eq('interpolated %s: reproduces the value at each direction' % nm, nd.tov(r.cells()[t]), cs[(half + i) * n + t])
        # several interpolants, used alternately, do not disturb each other
        g1, g2 = w.call(itp, p.u0), w.call(itp, p.u0)
        a = deep(w.call(g1, up, taus[0]))
        w.call(g2, up, taus[1])
        w.call(g1, dn, taus[1])
        ob.arr_eq('interpolants are independent of each other', w.call(g1, up, taus[0]), a)
    return fn


# ------------------------------------------------------------------ P22 actinic flux
def chk_actinic(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        au, ad = act_funcs(p)
        N = p.N
        for label, pts in tau_sets(p):
            taus = [t for t, _ in pts]
            n = len(taus)
            z = u0_vals(p, taus)
            a, b = full('upward actinic flux', ask(p, au, taus), (n,)), full('downward actinic flux', ask(p, ad, taus), (n,))
            for k, (t, l) in enumerate(pts):
                ob.eq('upward actinic flux is 2 pi times the quadrature of the zeroth mode, layer %d (%s)' % (l, label), at(a, k),
                      D.mul(TWO_PI, vsum([D.mul(p.ws[i], z[i][k]) for i in range(N)])))
                want = D.mul(TWO_PI, vsum([D.mul(p.ws[i], z[N + i][k]) for i in range(N)]))
                if p.o['beam']:
                    want = D.add(want, D.mul(p.I0, D.sub(p.beam_att(p.scaled(t, l)), p.beam_att(t))))
                ob.eq('downward actinic flux is the quadrature plus the reclassified part of the beam, layer %d (%s)' % (l, label), at(b, k), want)
            for nm, f, v in (('upward', au, a), ('downward', ad, b)):
                r = ask(p, f, taus, return_tau_arr=True)
                if isinstance(r, tuple) and len(r) == 2:
                    r = full('%s actinic flux' % nm, r[0], (n,))
                    for k in range(n):
                        ob.eq('%s actinic flux with the depth array (%s)' % (nm, label), at(r, k), at(v, k))
                for kw in ({}, {'return_tau_arr': True}):
                    r = ask(p, f, taus, **kw, is_antiderivative_wrt_tau=True)
                    if kw:
                        if not isinstance(r, tuple) or len(r) != 2:
                            ob.true('%s actinic flux with the depth array' % nm, False, func_loc(f))
                            continue
                        r = r[0]
                    r = full('antiderivative of the %s actinic flux' % nm, r, (n,))
                    for k, (t, l) in enumerate(pts):
                        if t.deps:
                            ob.zero('antiderivative of the %s actinic flux, layer %d (%s%s)' % (nm, l, label, ', with the depth array' if kw else ''),
                                    D.sub(D.diff(at(r, k), t.deps), at(v, k)), at(r, k))
    return fn


# ------------------------------------------------------------------ P25 energy balance
def chk_energy(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        au, ad = act_funcs(p)
        for label, pts in tau_sets(p):
            taus = [t for t, _ in pts]
            n = len(taus)
            fu = full('upward flux', ask(p, p.fu, taus), (n,))
            fd = ask(p, p.fd, taus)
            fdd, fdr = full('downward flux', fd[0], (n,)), full('direct flux', fd[1], (n,))
            a, b = full('actinic flux', ask(p, au, taus), (n,)), full('actinic flux', ask(p, ad, taus), (n,))
            for k, (q, l) in enumerate(pts):
                if not q.deps:
                    continue
                net = D.sub(at(fu, k), D.add(at(fdd, k), at(fdr, k)))
                act = D.add(at(a, k), at(b, k))
                if p.o['beam']:
                    act = D.add(act, D.mul(p.I0, p.beam_att(q)))
                rhs = D.mul(D.sub(D.ONE, p.om[l]), act)
                if p.o['iso']:
                    rhs = D.sub(rhs, D.mul(D.mul(D.c(4), D.PI), p.src(l, q)))
                ob.zero('the divergence of the net flux is absorption minus emission, layer %d (%s)' % (l, label), D.sub(D.diff(net, q.deps), rhs), at(fu, k))
    return fn


# ------------------------------------------------------------------ P23 cached BDRF
CB = [dict(L=2, mag='edge', NF=2, bdrf=('scalar', 'func')), dict(L=2, mag='tiny', NF=1, bdrf=('scalar',), mu0='graze'), dict(N=3, L=2, NF=2, NLA=6, bdrf=('func', 'func')), dict(L=1, NF=2, bdrf=('func', 'func')), dict(L=2, f=True, iso=1, NF=2, bdrf=('scalar', 'func')), dict(L=2, NF=2, bdrf=('func', 'scalar'), bpos='scalar'),
      dict(N=1, L=2, NF=2, bdrf=('func', 'func'), NLA=3), dict(N=1, L=1, NF=1, bdrf=('scalar',), NLA=3), dict(L=2, beam=False, bneg='scalar', NF=2, bdrf=('func', 'scalar')),
      dict(L=3, f=True, NF=3, bdrf=('func', 'func', 'func'), banded=3), dict(L=2, only_flux=True, bdrf=('func',)), dict(L=2, NF=2, bdrf=('scalar', 'scalar'), mu0='low'),
      dict(N=1, L=2, beam=False, NF=1, bdrf=('func',), NLA=3, bneg='scalar')]


def chk_cached(o):
    def fn(w, ob):
        p = Problem(w, **o)
        cache = w.fn('cache_BDRF_Fourier_modes')
        p.solve()
        taus = pts_of(p)
        r = outs(p, taus)
        cs = [('without', w.it.call(cache, [p.N, list(p.rho_in)], {}))]
        if o.get('beam', True):
            cs.append(('with', w.it.call(cache, [p.N, list(p.rho_in), p.mu0], {})))
            cs.append(('with (keyword)', w.it.call(cache, [p.N, tuple(p.rho_in)], {'mu0': p.mu0})))
        else:
            cs.append(('with an unused', w.it.call(cache, [p.N, list(p.rho_in), w.atom('mu0other', 0.31, 0.32)], {})))
        for lab, c_ in cs:
            if not isinstance(c_, list) or len(c_) != len(p.rho_in):
                ob.true('one cached mode per mode', False, func_loc(cache))
                continue
            q = Problem(w, **o).solve(BDRF_Fourier_modes=list(c_))
            cmp(ob, 'reflection modes cached %s beam angle' % lab, outs(q, taus), r)
            q = Problem(w, **o).solve(BDRF_Fourier_modes=list(c_))
            cmp(ob, 'reflection modes cached %s beam angle, used a second time' % lab, outs(q, taus), r)
        # the number of modes, beyond the Fourier modes used, does not matter
        if len(p.rho_in) > 1 and not o.get('only_flux'):
            q1 = Problem(w, **{**o, 'NF': 1}).solve(BDRF_Fourier_modes=list(cs[-1][1]))
            q2 = Problem(w, **{**o, 'NF': 1}).solve()
            cmp(ob, 'cached modes with a single Fourier mode', outs(q1, taus), outs(q2, taus))
    return fn


# ------------------------------------------------------------------ P24 emissivity and thermal equilibrium
EQ = [dict(L=2, mag='edge', NF=1, f=True, bdrf=('scalar',)), dict(L=2, mag='tiny', NF=1, bdrf=('func',)), dict(L=3, mag='mixed', NF=2, f=True, bdrf=('scalar', 'func')), dict(L=2, mag='wide', NF=1, bdrf=('scalar',)), dict(L=2, mag='faint', NF=1, bdrf=('func',), f=True), dict(N=3, L=2, NF=1, NLA=6, bdrf=('func',)), dict(L=1, NF=1), dict(L=3, f=True, NF=2), dict(L=2, NF=1, bdrf=('func',)), dict(L=2, f=True, NF=2, bdrf=('scalar',)), dict(L=3, banded=3, NF=1, bdrf=('func',), noscat=(1,)),
      dict(N=1, L=2, NF=1, bdrf=('func',), NLA=3), dict(N=1, L=2, NF=1, bdrf=('scalar',), NLA=3, f=True), dict(L=2, only_flux=True, bdrf=('func',), f=True), dict(L=2, NF=2, noscat=(0, 1), bdrf=('scalar', 'scalar'))]


def chk_equil(o):
    def fn(w, ob):
        p = Problem(w, **{**o, 'beam': False})
        em = w.fn('generate_emissivity_from_BDRF')
        B = w.atom('B', 0.5, 3.0)
        eps = D.ONE
        if p.rho_in:
            eps = w.call(em, p.N, p.rho_in[0])
            for i in range(p.N):
                got = at(eps, i) if isinstance(eps, Arr) and eps.ndim else nd.tov(eps)
                want = D.sub(D.ONE, D.mul(D.c(2), vsum([D.mul(D.mul(p.mus[j], p.ws[j]), p.rho[0](p.mus[i], p.mus[j])) for j in range(p.N)])))
                if o['bdrf'][0] == 'scalar':
                    want = D.sub(D.ONE, p.rho[0](None, None))
                ob.eq('the emissivity is one minus the directional reflectance (direction %d)' % i, got, want)
                w.ctx.positive(want)                   # a physical surface: reflectance below 1
                w.ctx.positive(D.mul(B, want))
                w.ctx.positive(D.sub(B, D.mul(B, want)))
        bpos = npm.binop('Mult', B, eps) if hasattr(npm, 'binop') else nd.ewise(lambda e: D.mul(B, nd.tov(e)), (eps,))
        for s in ([B], [B, D.ZERO], [B, D.ZERO, D.ZERO]):
            q = Problem(w, **{**o, 'beam': False}).solve(b_pos=bpos, b_neg=B, s_poly_coeffs=w.mat([list(s)] * p.L))
            taus = pts_of(p)
            z = u0_vals(q, taus)
            for i in range(p.NQ):
                for k in range(len(taus)):
                    ob.eq('in an isothermal enclosure the radiation is the emission everywhere (direction %d, point %d)' % (i, k), z[i][k], B)
            if q.u is not None:
                u = full('u', ask(q, q.u, taus, w.vec(phis(p, 2))), (p.NQ, len(taus), 2))
                for x in u.cells():
                    ob.eq('in an isothermal enclosure the intensity is isotropic', nd.tov(x), B)
            n = len(taus)
            piB = D.mul(D.PI, B)
            for k in range(n):
                ob.eq('isothermal enclosure: upward flux', at(full('flux', ask(q, q.fu, taus), (n,)), k), piB)
                ob.eq('isothermal enclosure: downward flux', at(full('flux', ask(q, q.fd, taus)[0], (n,)), k), piB)
            au, ad = act_funcs(q)
            for k in range(n):
                ob.eq('isothermal enclosure: actinic flux', D.add(at(full('actinic', ask(q, au, taus), (n,)), k), at(full('actinic', ask(q, ad, taus), (n,)), k)), D.mul(D.c(4), piB))
    return fn


# ------------------------------------------------------------------ P30 delta-M similarity
SIM = [dict(L=3, f_layers=(1,), NF=2, iso=1, bdrf=('scalar',)), dict(L=2, f_layers=(0,), NF=2, iso=2, bneg='vector'), dict(L=4, f_layers=(1, 2), noscat=(1,), NF=2, banded=3), dict(L=3, f_layers=(0, 2), NF=2, zeros=('om0',), iso=1), dict(L=2, mag='edge', f=True, NF=2, iso=1), dict(L=3, mag='mixed', f=True, NF=2, iso=2), dict(L=2, mag='wide', f=True, NF=2), dict(L=2, mag='huge', f=True, NF=2, iso=3, bdrf=('scalar',)), dict(L=2, mag='tiny', f=True, NF=2, bpos='matrix'), dict(N=3, L=2, f=True, NF=1, NLA=7, iso=1, bdrf=('func',)), dict(L=1, f=True, NF=2), dict(L=2, f=True, NF=2, bdrf=('func',), bpos='scalar'), dict(L=3, f=True, NF=2, iso=1), dict(L=2, f=True, NF=1, iso=2, beam=False),
       dict(L=2, f_layers=(1,), NF=3, bneg='matrix'), dict(L=2, f=True, NF=2, iso=3, bdrf=('scalar',)), dict(N=1, L=2, f=True, NF=2, NLA=3, iso=2), dict(L=3, f=True, NF=2, banded=3, noscat=(1,)),
       dict(L=2, only_flux=True, f=True, iso=1)]


def poly_affine(cs, a, b):
    """Coefficients in y = a x + b of the polynomial sum cs[k] x^k."""
    n = len(cs)
    out = [D.ZERO] * n
    for k, c_ in enumerate(cs):
        f = D.mul(c_, D.inv(D.ipow(a, k))) if k else c_
        for j in range(k + 1):
            out[j] = D.add(out[j], D.mul(f, D.mul(D.c(math.comb(k, j)), D.ipow(D.neg(b), k - j))))
    return out


def chk_similar(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        q = Problem(w, **o)
        for l in range(p.L):
            w.ctx.positive(p.scale[l])
            w.ctx.positive(p.oms[l]) if p.om[l].fp else None
            w.ctx.positive(D.sub(D.ONE, p.oms[l]))
            for x in p.gs[l][1:]:
                w.ctx.positive(x)
                w.ctx.positive(D.sub(D.ONE, x))
            for j in range(l + 1):
                w.ctx.positive(D.sub(p.ts[l + 1], p.ts[j]))
        over = dict(tau_arr=w.vec(p.ts[1:]), omega_arr=w.vec(p.oms), Leg_coeffs_all=w.mat([g[:p.NLeg] for g in p.gs]), NLeg=p.NLeg)
        k = q.args(**over)
        k.pop('f_arr', None)
        if o.get('iso'):
            rows = []
            for l in range(p.L):
                b = D.sub(p.ts[l], D.mul(p.scale[l], p.T0[l]))
                rows.append(poly_affine(p.s[l], p.scale[l], b))
            k['s_poly_coeffs'] = w.mat(rows)
        out = w.it.call(w.pydisort(), [], k)
        q.mu_arr, q.fu, q.fd, q.u0 = out[:4]
        q.u = out[4] if len(out) > 4 else None
        for label, pts in tau_sets(p):
            taus = [t for t, _ in pts]
            st = []
            for t, l in pts:
                s = p.scaled(t, l) if t.deps else (D.ZERO if t.fp == 0 else p.ts[l + 1])
                if t.deps:
                    for j in range(p.L + 1):
                        w.ctx.positive(D.sub(p.ts[j], s) if j > l else D.sub(s, p.ts[j]))
                st.append(s)
            a = outs(p, taus, act=False)
            b = outs(q, st, act=False)
            cmp(ob, 'delta-M scaled problem (%s)' % label, b, a, ('upward flux', 'zeroth mode', 'intensity'))
            for i in range(len(taus)):
                ob.eq('the total downward flux of the delta-M scaled problem (%s)' % label,
                      D.add(at(b['downward diffuse flux'], i), at(b['downward direct flux'], i)), D.add(at(a['downward diffuse flux'], i), at(a['downward direct flux'], i)))
    return fn


SIM2 = [dict(L=1, mag='wide', f=True, NF=2), dict(L=2, mag='wide', f=True, NF=1, iso=2, bdrf=('scalar',)), dict(L=2, mag='wide', f=True, NF=2, beam=False, bneg='vector'), dict(L=2, f=True, NF=2, iso=1, bpos='matrix'), dict(L=3, f=True, NF=2, iso=3, banded=3, bdrf=('func',)),
        dict(L=1, mag='over', f=True, NF=2), dict(L=2, mag='over', f=True, only_flux=True, iso=1), dict(N=1, L=2, mag='over', f=True, NF=1, NLA=2, iso=1),
        dict(L=2, mag='edge', f=True, NF=2), dict(N=1, L=3, mag='wide', f=True, NF=1, NLA=3, iso=2), dict(L=2, f=True, only_flux=True, iso=2, mag='tiny')]


def chk_equivalent(o):
    """Two problems with other fractions, but the same delta-M scaled problem."""
    def fn(w, ob):
        p = Problem(w, **o).solve()
        q = Problem(w, **o)
        pos = w.ctx.positive
        om2, f2, g2, sc2, T2 = [], [], [], [], [D.ZERO]
        def known(x):       # positive; the value is rebuilt so that its interval knows
            if x.fp not in (0, 1):
                pos(x)
            return D.add(x, D.ZERO) if x.fp in (0, 1) else D.V(x.fp, x.sh, (max(x.iv[0], 0.0), True, x.iv[2], x.iv[3]), x.op, x.args, x.deps)
        for l in range(p.L):
            # the scaled problems agree, so do their intervals
            for x in p.gs[l] + [p.oms[l], p.ts[l + 1]] + [D.mul(p.oms[l], y) for y in p.gs[l]]:
                if x.fp not in (0, 1):
                    w.ctx.fact(x, x.iv[0], x.iv[2], x.iv[1], x.iv[3])
            known(p.scale[l])
            f = known(D.add(p.f[l], D.mul(D.sub(D.ONE, p.f[l]), w.atom('y%d' % l, 0.05, 0.95))))
            f1 = known(D.sub(D.ONE, f))
            o1 = p.oms[l]
            om = known(D.div(o1, known(D.add(f1, D.mul(o1, f)))))
            known(D.sub(D.ONE, om))
            sc = known(D.sub(D.ONE, D.mul(om, f)))
            gg = [D.ONE] + [D.add(f, D.mul(x, f1)) for x in p.gs[l][1:p.NLeg]]
            for x in gg[1:]:
                known(D.sub(D.ONE, x))
                known(D.add(D.ONE, x))
            for j in range(l + 1):
                known(D.sub(p.ts[l + 1], p.ts[j]))
            t = D.div(known(D.sub(p.ts[l + 1], p.ts[l])), sc)
            T2.append(known(D.add(T2[-1], t)))
            for j in range(l + 1):
                known(D.sub(T2[l + 1], T2[j]))
            om2.append(om)
            f2.append(f)
            g2.append(gg)
            sc2.append(sc)
        k = q.args(tau_arr=w.vec(T2[1:]), omega_arr=w.vec(om2), Leg_coeffs_all=w.mat(g2), NLeg=p.NLeg, f_arr=w.vec(f2))
        there = lambda t, l: D.add(T2[l], D.div(D.mul(p.scale[l], D.sub(t, p.T0[l])), sc2[l]))      # the depth in the other problem
        if o.get('iso'):
            k['s_poly_coeffs'] = w.mat([poly_affine(p.s[l], D.div(p.scale[l], sc2[l]), there(D.ZERO, l)) for l in range(p.L)])
        out = w.it.call(w.pydisort(), [], k)
        q.mu_arr, q.fu, q.fd, q.u0 = out[:4]
        q.u = out[4] if len(out) > 4 else None
        for label, pts in tau_sets(p)[:2]:
            taus = [t for t, _ in pts]
            st = []
            for t, l in pts:
                s = there(t, l) if t.deps else (D.ZERO if t.fp == 0 else T2[l + 1])
                if t.deps:
                    for j in range(p.L + 1):
                        pos(D.sub(T2[j], s) if j > l else D.sub(s, T2[j]))
                st.append(s)
            a, b = outs(p, taus, act=False), outs(q, st, act=False)
            cmp(ob, 'other fractions, the same delta-M scaled problem (%s)' % label, b, a, ('upward flux', 'zeroth mode', 'intensity'))
    return fn


# ------------------------------------------------------------------ P26 polynomial sources
def chk_poly(w, ob):
    aff = w.fn('affine_transform_poly_coeffs')
    x = w.atom('x', 0.3, 0.7)
    for L, n in [*itertools.product((1, 2, 3), (1, 2, 3, 4, 5)), *itertools.product((1, 2), (6, 8, 11)), (1, 16), (2, 22)]:
        cs = [[w.atom('c%d_%d' % (i, j), 0.2, 0.9) for j in range(n)] for i in range(L)]
        a0 = [w.atom('a%d' % i, 0.2, 0.9) for i in range(L)]
        b = [w.atom('b%d' % i, 0.2, 0.9) for i in range(L)]
        for a, bz in ((a0, b), (a0, [D.ZERO] * L), (a0, [D.neg(v) for v in b]), ([D.neg(v) for v in a0], b), ([D.neg(v) if i % 2 else v for i, v in enumerate(a0)], [D.neg(v) for v in b]),
                      ([w.atom('al%d' % i, 30.0, 4e3) for i in range(L)], b), ([w.atom('as%d' % i, -1e-2, -1e-4) for i in range(L)], b), ([D.ONE] * L, b), (a0, [w.atom('bl%d' % i, 1e2, 1e6) for i in range(L)])):
            r = w.call(aff, w.mat(cs), w.vec(a), w.vec(bz))
            if S.shape(r) != (L, n):
                ob.true('transformed coefficients keep their shape', False, loc_of(r))
                continue
            for i in range(L):
                y = D.add(D.mul(a[i], x), bz[i])
                got = vsum([D.mul(at(r, i, j), D.ipow(y, j)) if j else at(r, i, 0) for j in range(n)])
                want = vsum([D.mul(cs[i][j], D.ipow(x, j)) if j else cs[i][0] for j in range(n)])
                ob.eq('the transformed polynomial takes the same values (%d coefficients, row %d of %d)' % (n, i, L), got, want, at(r, i, 0))
    for bad in (0, 1):
        a = [w.atom('a0', 0.2, 0.9), w.atom('a1', 0.2, 0.9)]
        a[bad] = D.ZERO
        st, e = w.attempt(aff, w.mat([[D.ONE, x], [x, D.ONE]]), w.vec(a), w.vec([x, x]))
        ob.true('a zero scale factor is rejected (row %d)' % bad, st != 'ok' and e.name == 'ValueError', func_loc(aff) if st == 'ok' else e.loc)
    lin = w.fn('linear_spline_coefficients')
    for n, base, ylo, yhi in itertools.product((2, 3, 4), (0, -2, 1000), (0.2, -0.9), (0.9,)):
        xs = [w.atom('x%d%+d' % (i, base), base + i + 0.1, base + i + 0.5) for i in range(n)]
        ys = [w.atom('y%d%+g' % (i, ylo), ylo, yhi) for i in range(n)]
        for kw in ({}, {'check_inputs': False}, {'check_inputs': True}):
            r = w.it.call(lin, [w.vec(xs), w.vec(ys)], kw)
            if S.shape(r) != (n - 1, 2):
                ob.true('one row per segment', False, loc_of(r))
                continue
            for i in range(n - 1):
                for k in (i, i + 1):
                    ob.eq('segment %d passes through point %d' % (i, k), D.add(at(r, i, 0), D.mul(at(r, i, 1), xs[k])), ys[k])
        for lab, (x2, y2) in {'too few ordinates': (xs, ys[:-1]), 'too many ordinates': (xs, ys + [ys[0]]), 'unsorted points': (xs[::-1], ys),
                              'repeated points': ([xs[0], xs[0]] + xs[2:], ys), 'a single point': (xs[:1], ys[:1])}.items():
            st, e = w.attempt(lin, w.vec(x2), w.vec(y2))
            ob.true('%s rejected' % lab, st != 'ok' and e.name == 'ValueError', func_loc(lin) if st == 'ok' else e.loc)


# ------------------------------------------------------------------ P28 thermal emission
def planck(T, wv):
    h, c_, k = (D.c(Fraction(x)) for x in ('6.62607015e-34', '299792458', '1.380649e-23'))
    x = D.div(D.mul(D.mul(D.c(100), h), D.mul(c_, wv)), D.mul(k, T))
    num = D.mul(D.mul(D.c(200000000), h), D.mul(D.mul(c_, c_), D.ipow(wv, 3)))
    return D.div(num, D.sub(D.exp(x), D.ONE))


def integral(w, fn, lo, hi):
    t = npm_var()
    return D.uf('integral', (fn(t), lo, hi), D.FULL)


def npm_var():
    return D.V(D.F.hp('atom', 'integration-variable'), D.F.hq('atom', 'integration-variable'), (0.0, True, math.inf, True), 'atom', ('integration-variable',), 0)


# temperatures and wavenumbers over all the magnitudes of use
PLK = {'terrestrial': ([(250.0, 300.0)] * 4, (500.0, 900.0)), 'cold': ([(0.1, 0.5), (1e-3, 2e-3), (2.7, 2.8), (20.0, 30.0)], (0.5, 0.9)),
       'stellar': ([(1500.0, 1600.0), (5000.0, 6000.0), (250.0, 300.0), (2e4, 3e4)], (1e4, 3e4)), 'any': ([(1e-2, 1e4)] * 4, (1e-2, 1e5)),
       'Rayleigh-Jeans': ([(250.0, 300.0), (1e4, 2e4), (100.0, 110.0), (3.0, 4.0)], (1e-4, 1e-3)), 'Wien': ([(20.0, 30.0), (5.0, 6.0), (50.0, 60.0), (1.0, 2.0)], (2e4, 4e4))}


def chk_planck(cls):
    return lambda w, ob: _planck(w, ob, *PLK[cls])


def _planck(w, ob, temps, waves):
    P, bb, gen = w.fn('Planck'), w.fn('blackbody_contrib_to_BCs'), w.fn('generate_s_poly_coeffs')
    T = [w.atom('T%d' % i, *r) for i, r in enumerate(temps)]
    wv = w.atom('wv', *waves)
    for Ti in T[:1]:
        r = w.call(P, Ti, wv)
        if S.shape(r) != ():
            ob.true('the emission of a single temperature is a number', False, loc_of(r))
        else:
            ob.eq('Planck function', nd.tov(r), planck(Ti, wv))
    cases = [T[:2], T, [D.ZERO] + T[:2], T[:2] + [D.ZERO], [D.ZERO, T[0], D.ZERO, T[1]], [D.ZERO, D.ZERO], T[:1]]
    for Ts in cases:
        r = full('Planck', w.call(P, w.vec(Ts), wv), (len(Ts),))
        for i, t in enumerate(Ts):
            want = D.ZERO if t.fp == 0 else planck(t, wv)
            ob.eq('Planck function, temperature %d of %d' % (i, len(Ts)), at(r, i), want)
    r = w.call(P, D.ZERO, wv)
    ob.eq('a body at absolute zero does not emit', S.cells(r)[0], D.ZERO)
    lo, hi = w.atom('lo', waves[0] / 2, waves[0] / 1.5), w.atom('hi', waves[1] * 1.2, waves[1] * 2)
    I_ = lambda t: D.ZERO if t.fp == 0 else integral(w, lambda v: planck(t, v), lo, hi)
    for kw in ({}, {'epsabs': D.c(Fraction(1, 1000)), 'epsrel': D.c(Fraction(1, 1000))}):
        r = w.it.call(bb, [T[0], lo, hi], kw)
        ob.true('the emission of one boundary is a number', S.shape(r) == (), func_loc(bb))
        ob.eq('boundary emission is the integral of the Planck function', S.cells(r)[0], I_(T[0]))
        for Ts in (T[:2], [D.ZERO, T[1], T[2]]):
            r = full('emission', w.it.call(bb, [w.vec(Ts), lo, hi], kw), (len(Ts),))
            for i, t in enumerate(Ts):
                ob.eq('boundary emission is the integral of the Planck function (temperature %d)' % i, at(r, i), I_(t))
        for L in (1, 2, 3):
            tau = [w.atom('tau%d' % i, i + 0.9, i + 1.1) for i in range(L)]
            for i in range(L):
                for j in range(i):
                    w.ctx.positive(D.sub(tau[i], tau[j]))
            for lab, ta in (('array', w.vec(tau)), ('list', list(tau))) + ((('scalar', tau[0]),) if L == 1 else ()):
                r = w.it.call(gen, [ta, w.vec(T[:L + 1]), lo, hi], kw)
                if S.shape(r) != (L, 2):
                    ob.true('one row of coefficients per layer', False, func_loc(gen))
                    continue
                for i in range(L):
                    for k in (0, 1):
                        x = ([D.ZERO] + tau)[i + k]
                        ob.eq('the source of layer %d of %d takes the emission of its %s' % (i, L, ('top', 'bottom')[k]), D.add(at(r, i, 0), D.mul(at(r, i, 1), x)), I_(T[i + k]))
            for n in (L, L + 2):
                st, e = w.attempt(gen, w.vec(tau), w.vec((T * 2)[:n]), lo, hi)
                ob.true('%d temperatures for %d layers are rejected' % (n, L), st != 'ok' and e.name == 'ValueError', func_loc(gen) if st == 'ok' else e.loc)
    # the accuracy options reach the quadrature as they were given, and no coarser ones are put in their place
    def options(f, a, kw):
        n0 = len(w.ctx.events)
        w.it.call(f, a, dict(kw))
        return [dict(e[1]) for e in w.ctx.events[n0:] if e[0] == 'quad-kwargs']

    def num(x):
        try:
            x = nd.tov(x).k
        except Exception:
            return None
        return None if x is None else float(x)

    tau1 = w.vec([w.atom('tau0', 0.9, 1.1)])
    for f, a in ((bb, [T[0], lo, hi]), (bb, [w.vec(T[:2]), lo, hi]), (gen, [tau1, w.vec(T[:2]), lo, hi])):
        for kw in ({'epsrel': D.c(Fraction(1, 1000)), 'limit': 7}, {'epsabs': D.c(Fraction(1, 2 ** 40)), 'quadrature': 'gk15'}, {'epsrel': D.c(Fraction(1, 2 ** 45)), 'norm': 'max'}):
            for got in options(f, a, kw):
                for k, x in kw.items():
                    same = k in got and (got[k] == x if isinstance(x, (str, int)) else num(got[k]) == num(x))
                    ob.true('keyword arguments reach the quadrature routine as given', same, func_loc(f))
        for got in options(f, a, {}):
            for k, top in (('epsrel', 1e-5), ('epsabs', 1e-5)):
                x = num(got[k]) if k in got else None
                ob.true('the default tolerance of the quadrature stays tight', x is None or x <= top, func_loc(f))
            ob.true('the quadrature is not restricted to few intervals', not isinstance(got.get('limit'), int) or got['limit'] >= 50, func_loc(f))


# ------------------------------------------------------------------ P27 quadratures
def chk_quad_many(w, ob):
    """Any number of nodes (generic node symbols): the rule mapped affinely to the interval, in the documented order."""
    gl = w.fn('Gauss_Legendre_quad')
    c_, d = w.atom('c', 0.2, 0.4), w.atom('d', 1.2, 1.6)
    counts = set(range(3, 17)) | {20, 24, 32, 40, 48, 64} | {n for k in constants() for n in (k - 1, k, k + 1) if 3 <= n <= 65}
    for N in sorted(counts):
        mus, ws = npm.gauss_mu(N)
        for args, lo, hi in (([], D.ZERO, D.ONE), ([c_, d], c_, d), ([-1, 1], D.c(-1), D.ONE), ([d, c_], d, c_)):
            r = w.it.call(gl, [N] + args, {})
            if not (isinstance(r, tuple) and len(r) == 2 and S.shape(r[0]) == (N,) and S.shape(r[1]) == (N,)):
                ob.true('Gauss quadrature: nodes and weights', False, func_loc(gl))
                continue
            h = D.sub(hi, lo)
            for i in range(N):
                ob.eq('Gauss quadrature with %d nodes: node %d' % (N, i), at(r[0], i), D.add(lo, D.mul(h, mus[i])))
                ob.eq('Gauss quadrature with %d nodes: weight %d' % (N, i), at(r[1], i), D.mul(h, ws[i]))


CCN = (3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 25, 33)


def chk_quad(w, ob):
    gl, cc = w.fn('Gauss_Legendre_quad'), w.fn('Clenshaw_Curtis_quad')
    c_, d = w.atom('c', 0.2, 0.4), w.atom('d', 1.2, 1.6)

    def moments(nm, x, ws, lo, hi, deg, f):
        x, ws = [nd.tov(v) for v in x.cells()], [nd.tov(v) for v in ws.cells()]
        for m in range(deg + 1):
            got = vsum([D.mul(a, D.ipow(b, m)) if m else a for a, b in zip(ws, x)])
            want = D.div(D.sub(D.ipow(hi, m + 1), D.ipow(lo, m + 1)), D.c(m + 1))
            ob.eq('%s integrates x^%d exactly' % (nm, m), got, want)
    for N in (1, 2):
        for args, lo, hi in (([], D.ZERO, D.ONE), ([c_, d], c_, d), ([-1, 1], D.c(-1), D.ONE), ([d, c_], d, c_), ([D.ZERO, d], D.ZERO, d), ([c_], c_, D.ONE)):
            r = w.it.call(gl, [N] + args, {})
            if not (isinstance(r, tuple) and len(r) == 2 and S.shape(r[0]) == (N,) and S.shape(r[1]) == (N,)):
                ob.true('Gauss quadrature: nodes and weights', False, func_loc(gl))
                continue
            moments('Gauss quadrature with %d nodes' % N, r[0], r[1], lo, hi, 2 * N - 1, gl)
        r, s = w.it.call(gl, [N], {'d': d, 'c': c_}), w.it.call(gl, [N, c_, d], {})
        tup_eq(ob, 'Gauss quadrature: keyword bounds', r, s)
        tup_eq(ob, 'Gauss quadrature: the number of nodes is converted to an integer', w.it.call(gl, [D.c(N)], {}), w.it.call(gl, [N], {}))
        p = Problem(w, N=N, L=1, NF=1, NLA=3).solve()
        if S.shape(p.mu_arr) != (2 * N,):
            ob.true('one direction per stream', False, loc_of(p.mu_arr))
        else:
            for i in range(N):
                ob.eq('returned directions: upward half is the Gauss quadrature on (0, 1)', at(p.mu_arr, i), p.mus[i])
                ob.eq('returned directions: downward half mirrors the upward half', at(p.mu_arr, N + i), D.neg(p.mus[i]))
    for n in CCN:
        for args, lo, hi in (([], D.ZERO, TWO_PI), ([c_, d], c_, d), ([-1, 1], D.c(-1), D.ONE)):
            r = w.it.call(cc, [n] + args, {})
            if not (isinstance(r, tuple) and len(r) == 2 and S.shape(r[0]) == (n,) and S.shape(r[1]) == (n,)):
                ob.true('Clenshaw-Curtis quadrature: nodes and weights', False, func_loc(cc))
                continue
            xs = r[0].cells()
            ob.eq('Clenshaw-Curtis: first node', nd.tov(xs[0]), lo)
            ob.eq('Clenshaw-Curtis: last node', nd.tov(xs[-1]), hi)
            for m in range(0, min(n, 3)):
                pass
            clenshaw(ob, n, r, lo, hi)
    for n in (2, 1, 0, -1, 4, 6):
        st, e = w.attempt(cc, n)
        ob.true('Clenshaw-Curtis quadrature rejects %d nodes' % n, st != 'ok' and e.name == 'ValueError', func_loc(cc) if st == 'ok' else e.loc)
    chk_intervals(w, ob)


def chk_intervals(w, ob):
    c_, d = w.atom('c', 0.2, 0.4), w.atom('d', 1.2, 1.6)
    ti, tw = w.fn('transform_interval'), w.fn('transform_weights')
    al, bl, ah, bh = w.atom('a', 2.0, 2.2), w.atom('b', 3.0, 3.3), w.atom('ah', 1e3, 2e3), w.atom('bh', 1e4, 2e4)
    x = w.atom('x', 2.3, 2.9)
    e, f = w.atom('e', -9.0, -5.0), w.atom('f', -0.3, -0.1)
    for a, b, c1, d1 in ((al, bl, c_, d), (al, bl, d, c_), (bl, al, c_, d), (bl, al, d, c_), (e, f, c_, d), (f, e, d, c_), (al, bl, e, f), (al, bl, f, e), (e, bl, f, d),
                         (ah, bh, c_, d), (al, bl, ah, bh), (al, bl, D.ZERO, D.ONE), (D.ZERO, D.ONE, al, bl), (D.neg(D.ONE), D.ONE, f, bl), (D.c(1e-9), D.c(2e-9), al, bl)):
        r = w.call(ti, w.vec([a, b, x]), c1, d1, a, b)
        ob.eq('interval transformation: lower end', at(r, 0), c1)
        ob.eq('interval transformation: upper end', at(r, 1), d1)
        ob.eq('interval transformation: affine', at(r, 2), D.add(c1, D.mul(D.sub(x, a), D.div(D.sub(d1, c1), D.sub(b, a)))))
        r = w.call(tw, w.vec([x, a]), c1, d1, a, b)
        for i, v in enumerate((x, a)):
            ob.eq('weight transformation', at(r, i), D.div(D.mul(v, D.sub(d1, c1)), D.sub(b, a)))


def clenshaw(ob, n, r, lo, hi):
    """Nodes cos(pi k/(n-1)) and weights against the closed formula."""
    M = n - 1
    half = D.div(D.sub(hi, lo), D.c(2))
    mid = D.div(D.add(hi, lo), D.c(2))
    cosk = lambda k: D.cos(D.mul(D.PI, D.c(Fraction(k, M))))
    for i in range(n):
        x = D.neg(cosk(i)) if i <= M // 2 else cosk(M - i)
        if i == M // 2 and M % 2 == 0:
            x = D.ZERO
        ob.eq('Clenshaw-Curtis with %d nodes: node %d' % (n, i), nd.tov(r[0].cells()[i]), D.add(mid, D.mul(half, x)))
        # w_i = c_i/M (1 - sum_{j=1}^{M/2} b_j/(4j^2-1) cos(2 pi j i/M))
        acc = D.ONE
        ii = i if i <= M // 2 else M - i
        for j in range(1, M // 2 + 1):
            bj = 1 if 2 * j == M else 2
            acc = D.sub(acc, D.mul(D.c(Fraction(bj, 4 * j * j - 1)), D.cos(D.mul(D.PI, D.c(Fraction(2 * j * ii, M))))))
        ci = 1 if i in (0, M) else 2
        ob.eq('Clenshaw-Curtis with %d nodes: weight %d' % (n, i), nd.tov(r[1].cells()[i]), D.mul(half, D.mul(D.c(Fraction(ci, M)), acc)))


# ------------------------------------------------------------------ P29 numerical utilities
def chk_utils(w, ob):
    fd = w.fn('generate_FD_mat')
    a, b = w.atom('a', 0.1, 0.2), w.atom('b', 2.0, 3.0)
    for n in (3, 4, 5, 7):
        r = w.call(fd, n, a, b)
        if not (isinstance(r, tuple) and len(r) == 2):
            ob.true('grid and matrix', False, func_loc(fd))
            continue
        grid, M = r
        A = M.toarray() if isinstance(M, npm.Sparse) else nd.asarr(M)
        if S.shape(grid) != (n,) or A.shape != (n, n):
            ob.true('grid and matrix have %d points' % n, False, func_loc(fd))
            continue
        h = D.div(D.sub(b, a), D.c(n - 1))
        xs = [at(grid, i) for i in range(n)]
        for i in range(n):
            ob.eq('grid point %d of %d' % (i, n), xs[i], D.add(a, D.mul(D.c(i), h)))
            for deg in (0, 1, 2):
                got = vsum([D.mul(at(A, i, j), D.ipow(xs[j], deg)) if deg else at(A, i, j) for j in range(n)])
                want = [D.ZERO, D.ONE, D.mul(D.c(2), xs[i])][deg]
                ob.eq('row %d of %d differentiates x^%d exactly' % (i, n, deg), got, want)
            for j in range(n):
                inside = abs(i - j) == 1 if 0 < i < n - 1 else (j < 3 if i == 0 else j >= n - 3)
                if not inside:
                    ob.zero('row %d of %d uses neighbouring points only' % (i, n), at(A, i, j))
    dg = w.fn('to_diag_ordered_form')
    for n, up, lo in ((3, 1, 1), (4, 1, 1), (4, 2, 1), (5, 1, 2), (5, 2, 2), (6, 3, 2), (4, 0, 1), (4, 1, 0), (6, 3, 3)):
        cells = [[w.atom('A%d_%d' % (i, j), 0.1, 0.9) if -lo <= j - i <= up else D.ZERO for j in range(n)] for i in range(n)]
        r = w.call(dg, w.mat(cells), up, lo)
        if S.shape(r) != (up + lo + 1, n):
            ob.true('diagonal ordered form has one row per diagonal (%d, %d)' % (up, lo), False, func_loc(dg))
            continue
        for i in range(n):
            for j in range(n):
                if -lo <= j - i <= up:
                    ob.eq('diagonal ordered form, element (%d, %d) of %d with %d/%d diagonals' % (i, j, n, up, lo), at(r, up + i - j, j), cells[i][j])
    nu = w.fn('calculate_nu')
    mu = [w.atom('mu%d' % i, 0.2 + 0.2 * i, 0.3 + 0.2 * i) for i in range(2)]
    mu[1] = D.neg(mu[1])
    mp = [D.neg(w.atom('mp0', 0.5, 0.6)), w.atom('mp1', 0.61, 0.7), w.atom('mp2', 0.75, 0.8)]
    ph, pp = [w.atom('p%d' % i, 0.2 + i, 0.3 + i) for i in range(4)], [w.atom('q%d' % i, 0.5 + i, 0.6 + i) for i in range(5)]
    for ms, hs, ns, qs in ((mu, ph, mp, pp), (mu, ph[:1], mp, pp), (mu, ph, mp[:1], pp[:1]), (mu[:1], ph[:1], mp[:1], pp[:1]), (mu[:1], ph, mp, pp[:1])):
        for sc in (False, True):
            args = [x[0] if sc and len(x) == 1 else w.vec(x) for x in (ms, hs, ns, qs)]
            r = full('scattering angles', w.call(nu, *args), (len(ms), len(hs), len(ns), len(qs)))
            for i, j, k, l in itertools.product(range(len(ms)), range(len(hs)), range(len(ns)), range(len(qs))):
                ob.eq('cosine of the scattering angle', at(r, i, j, k, l), nu_of(ms[i], hs[j], ns[k], qs[l]))
    pre = w.fn('prepend')
    for n in (1, 3):
        xs = [w.atom('x%d' % i, 0.1, 0.9) for i in range(n)]
        v = w.atom('v', 0.1, 0.9)
        r = w.call(pre, w.vec(xs), n, v)
        ob.true('prepending gives one more element', S.shape(r) == (n + 1,), func_loc(pre))
        for i, y in enumerate([v] + xs):
            if S.shape(r) == (n + 1,):
                ob.eq('prepended array, element %d' % i, at(r, i), y)
        r = w.call(pre, nd.new([3] * n, (n,), 'i'), n, v)
        ob.eq('prepending a real number to an integer array', at(r, 0), v)
    a2 = w.fn('atleast_2d_append')
    x = w.atom('x', 0.1, 0.9)
    v = w.vec([x, D.ONE, D.ZERO])
    m = w.mat([[x, D.ONE], [D.ZERO, x]])
    t3 = nd.new([x] * 8, (2, 2, 2), 'f')
    for arg, shp in ((x, (1, 1)), (v, (3, 1)), (m, (2, 2)), (t3, (2, 2, 2)), ([x, D.ONE], (2, 1)), (2, (1, 1))):
        r = w.call(a2, arg)
        ob.true('trailing axes are added', S.shape(r) == shp, func_loc(a2))
        if S.shape(r) == shp:
            for y, z in zip(r.cells(), S.cells(arg) if not isinstance(arg, list) else arg):
                ob.eq('contents are kept', nd.tov(y), nd.tov(z))
    r = w.call(a2, v, m)
    ob.true('one result per argument', isinstance(r, list) and len(r) == 2 and S.shape(r[0]) == (3, 1) and S.shape(r[1]) == (2, 2), func_loc(a2))


# ------------------------------------------------------------------ P31 interleaved calls
ILV = [dict(N=3, L=2, f=True, NF=1, NLA=7), dict(L=2, f=True, NF=2, iso=2), dict(L=1, NF=2), dict(L=2, f=True, nt=True, NLeg=3, NF=2), dict(L=2, f=True, nt=True, NLeg=3, NF=1, iso=1), dict(N=1, L=2, f=True, iso=3, NLA=3, NF=1),
       dict(L=2, beam=False, bpos='scalar', NF=1), dict(L=2, autograd=True, f=True, iso=2, NF=2), dict(L=2, only_flux=True, iso=1)]


def state_print(roots):
    """Identity and contents of everything reachable from the roots (closure cells, default
    arguments, module globals, containers, arrays, objects): equal prints, same shared state."""
    out, seen, work = [], set(), list(roots)
    while work:
        x = work.pop()
        if x is None or isinstance(x, (bool, int, float, str, complex, bytes, Fraction)):
            out.append(x)
            continue
        if isinstance(x, D.V):
            out.append((x.fp, x.kind))
            continue
        out.append(id(x))
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, (list, tuple)):
            out.append(len(x))
            work.extend(x)
        elif isinstance(x, (set, frozenset)):
            out.append(frozenset(id(y) if not isinstance(y, (int, float, str, bool)) else y for y in x))
        elif isinstance(x, dict):
            out.append(len(x))
            for k, v in x.items():
                work.append(k)
                work.append(v)
        elif isinstance(x, I.Native):
            pass
        elif isinstance(x, I.Module):
            if x.getter is None:
                work.append(x.attrs)
        elif isinstance(x, I.Func):
            work += [x.env, x.defaults, x.kwdefaults, x.attrs]
        elif isinstance(x, I.Env):
            work += [x.vars, x.parent, x.globs]
        elif isinstance(x, I.Interp):
            pass
        elif type(x).__module__.startswith('pdsa'):
            names = list(getattr(x, '__dict__', ())) + [n for c in type(x).__mro__ for n in getattr(c, '__slots__', ())]
            for n in names:
                try:
                    v = getattr(x, n)
                except AttributeError:
                    continue
                if not callable(v) or type(v).__module__.startswith('pdsa'):
                    work.append(v)
    return out


def ilv_jobs(w, o):
    """The query functions of one freshly solved problem: name -> (function, arguments(first depths?, variant))."""
    p = Problem(w, **o).solve()
    au, ad = act_funcs(p)
    itp = w.fn('interpolate')
    ta, tb = pts_of(p, 0), [p.tau_q(l, 'qx', 0.9) for l in reversed(range(p.L))]
    ph = phis(p, 2)
    up, dn = w.atom('mu_up', 0.31, 0.39), D.neg(w.atom('mu_dn', 0.41, 0.49))
    one = lambda k: [w.vec(tb if k else ta)]
    fs = {'upward flux': (p.fu, one), 'downward flux': (p.fd, one), 'zeroth mode': (p.u0, one), 'upward actinic flux': (au, one), 'downward actinic flux': (ad, one),
          'interpolated zeroth mode': (w.call(itp, p.u0), lambda k: [w.vec([dn, up] if k else [up, dn])] + one(k))}
    if p.u is not None:
        az = lambda k: [w.vec(ph[::-1] if k else ph)]
        fs['intensity'] = (p.u, lambda k: one(k) + az(k))
        fs['interpolated intensity'] = (w.call(itp, p.u), lambda k: [w.vec([dn, up] if k else [up, dn])] + one(k) + az(k))
    return fs


def chk_interleave(o):
    def fn(w, ob):
        it = w.it
        for nm in list(ilv_jobs(w, o)):
            for anti in (False, True):
                kw = {'is_antiderivative_wrt_tau': anti}
                f, mk = ilv_jobs(w, o)[nm]
                roots = [f] + [m for k, m in it.modules.items() if k.startswith(S.PKG)]
                start = state_print(roots)
                marks, changed = [], []

                def watch(st, file, fn_):
                    at_ = (file, st.lineno, fn_ if isinstance(fn_, str) else getattr(fn_, 'name', None))
                    if not changed and state_print(roots) != start:
                        changed.append(marks[-1] if marks else at_)
                    marks.append(at_)
                it.hook = watch
                try:
                    ref = deep(it.call(f, mk(0), dict(kw)))
                finally:
                    it.hook = None
                if not changed and state_print(roots) != start:
                    changed.append(marks[-1] if marks else None)
                if not changed:
                    # no statement of a call writes to anything another call can reach
                    ob.true('%s: the result does not change when another call runs in the middle of it (no shared state is written, %d statements)' % (nm, len(marks)), True)
                    continue
                # shared state is written: preempt before every statement by a complete second call
                for k in range(len(marks)):
                    for other in (False, True):
                        f, mk = ilv_jobs(w, o)[nm]
                        cnt, where_ = [0], [changed[0]]

                        def pre(st, file, fn_):
                            if cnt[0] == k:
                                it.hook = None
                                try:
                                    it.call(f, mk(1), {'is_antiderivative_wrt_tau': other})
                                finally:
                                    it.hook = pre
                            cnt[0] += 1
                        it.hook = pre
                        try:
                            r = it.call(f, mk(0), dict(kw))
                        except PyExc as e:
                            ob.true('%s interrupted by another call raises %s' % (nm, e.name), False, where_[0])
                            continue
                        finally:
                            it.hook = None
                        ob.true('%s: the result does not change when another call runs in the middle of it' % nm, equal(r, ref), where_[0])
    return fn


def equal(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if S.shape(a) != S.shape(b):
        return False
    for x, y in zip(S.cells(a), S.cells(b)):
        if x.kind or y.kind:
            if x.kind != y.kind:
                return False
            continue
        if x.fp != y.fp:
            return False
    return True
