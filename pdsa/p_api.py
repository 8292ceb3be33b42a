"""Interface properties: equivalences between ways of posing or querying the same problem."""
import random
from . import dom as D
from . import nd
from . import npm
from . import interp as I
from . import scen as S
from .scen import Problem, unsq, at, vsum
from .nd import Arr, PyExc, Unsupported
from .p_solver import (ask, full, phis, tau_sets, act_funcs, u_modes, u0_vals, name, loc_of, confs, nt_confs)


# ------------------------------------------------------------------ all outputs of a solved problem
def outs(p, taus, anti=False, ph=None, direct=True, act=True, keep_u=True):
    """name -> abstract array with full axes."""
    n = len(taus)
    k = {'is_antiderivative_wrt_tau': True} if anti else {}
    r = {}
    r['upward flux'] = full('upward flux', ask(p, p.fu, taus, **k), (n,))
    fd = ask(p, p.fd, taus, **k)
    if not isinstance(fd, tuple) or len(fd) != 2:
        raise S.Bad('the downward flux is not a (diffuse, direct) pair')
    r['downward diffuse flux'] = full('downward diffuse flux', fd[0], (n,))
    if direct:
        r['downward direct flux'] = full('downward direct flux', fd[1], (n,))
    r['zeroth mode'] = full('u0', ask(p, p.u0, taus, **k), (p.NQ, n))
    if act:
        au, ad = act_funcs(p)
        r['upward actinic flux'] = full('actinic flux', ask(p, au, taus, **k), (n,))
        r['downward actinic flux'] = full('actinic flux', ask(p, ad, taus, **k), (n,))
    if p.u is not None and keep_u:
        ph = ph or phis(p, 2)
        r['intensity'] = full('u', ask(p, p.u, taus, p.w.vec(ph), **k), (p.NQ, n, len(ph)))
    return r


def cmp(ob, text, a, b, only=None):
    for k in a:
        if k in b and (only is None or k in only):
            ob.arr_eq('%s: %s' % (text, k), a[k], b[k])


def pts_of(p, which=1):
    s = tau_sets(p)
    return [t for t, _ in s[min(which, len(s) - 1)][1]]


# ------------------------------------------------------------------ linearity in the sources
LIN = [dict(A=dict(L=2, f=True, beam=True, NF=2, mag='edge', iso=1), B=dict(L=2, f=True, beam=False, NF=2, mag='edge', bneg='vector')), 
    dict(A=dict(N=3, L=2, NF=1, NLA=7, f=True, beam=True), B=dict(N=3, L=2, NF=1, NLA=7, f=True, beam=False, bneg='vector', iso=1)),
    dict(A=dict(L=1, beam=True), B=dict(L=1, beam=False, bpos='scalar')),
    dict(A=dict(L=2, f=True, beam=True, NLeg=3, NF=2), B=dict(L=2, f=True, beam=False, bneg='vector', NLeg=3, NF=2)),
    dict(A=dict(L=3, f=True, beam=True, bdrf=('func', 'scalar'), NF=2), B=dict(L=3, f=True, beam=False, iso=2, bdrf=('func', 'scalar'), NF=2)),
    dict(A=dict(L=2, beam=False, iso=3, NF=2), B=dict(L=2, beam=False, bpos='matrix', bneg='matrix', NF=2)),
    dict(A=dict(L=3, f=True, beam=True, iso=2, bpos='scalar', NF=2, banded=3), B=dict(L=3, f=True, beam=True, iso=2, bneg='scalar', NF=2, banded=3)),
    dict(A=dict(L=2, f=True, beam=True, nt=True, NLeg=3, NF=2, iso=1), B=dict(L=2, f=True, beam=True, nt=True, NLeg=3, NF=2, bpos='vector')),
    dict(A=dict(N=1, L=2, f=True, iso=1, beam=False), B=dict(N=1, L=2, f=True, beam=True, bdrf=(), bpos='scalar')),
    dict(A=dict(L=2, f=True, only_flux=True, beam=True, bdrf=('func',)), B=dict(L=2, f=True, only_flux=True, beam=False, iso=1, bdrf=('func',))),
    # sources of very different strength, and extreme media
    dict(A=dict(L=2, f=True, beam=True, NF=2, mag='faint', bdrf=('func',)), B=dict(L=2, f=True, beam=False, NF=2, iso=2, bpos='matrix', bdrf=('func',))),
    dict(A=dict(L=2, beam=False, NF=2, mag='faint', iso=2, bneg='matrix'), B=dict(L=2, beam=True, NF=2)),
    dict(A=dict(L=2, f=True, beam=True, NF=2, mag='faint', iso=1), B=dict(L=2, f=True, beam=True, NF=2, mag='faint', bpos='scalar')),
    dict(A=dict(L=2, f=True, beam=True, nt=True, NLeg=3, NF=2, mag='faint'), B=dict(L=2, f=True, beam=True, nt=True, NLeg=3, NF=2, iso=1)),
    dict(A=dict(L=2, f=True, beam=True, NF=2, mag='huge', bneg='vector'), B=dict(L=2, f=True, beam=False, NF=2, mag='huge', iso=3)),
    dict(A=dict(L=2, f=True, beam=True, NF=2, mag='tiny', bneg='scalar'), B=dict(L=2, f=True, beam=False, NF=2, mag='tiny', iso=1, bpos='matrix')),
    dict(A=dict(L=2, beam=False, NF=2, mag='negb', bpos='vector'), B=dict(L=2, beam=True, NF=2, f=False)),
    dict(A=dict(L=2, f=True, beam=False, NF=2, mag='negb', bneg='matrix', bpos='matrix', bdrf=('scalar',)), B=dict(L=2, f=True, beam=False, NF=2, iso=2, bdrf=('scalar',))),
    dict(A=dict(L=1, beam=False, NF=1, mag='negb', bneg='scalar', iso=1), B=dict(L=1, beam=False, NF=1, bpos='scalar')),
    dict(A=dict(N=1, L=2, f=True, beam=False, NF=1, NLA=3, mag='negb', bneg='scalar'), B=dict(N=1, L=2, f=True, NLA=3, beam=True, NF=1, nt=False)),
    dict(A=dict(L=2, beam=False, NF=2, mag='wide', bpos='scalar', iso=1), B=dict(L=2, beam=True, NF=2, mag='wide')),
    dict(A=dict(L=2, beam=True, NF=2, mag='wide', bneg='vector', bdrf=('scalar',)), B=dict(L=2, beam=False, NF=2, mag='wide', iso=2, bdrf=('scalar',))),
    dict(A=dict(L=4, f=True, beam=True, NF=1, mag='mixed', bneg='scalar', banded=3), B=dict(L=4, f=True, beam=False, NF=1, mag='mixed', iso=1, banded=3)),
]


def chk_linear(c):
    def fn(w, ob):
        A, B = dict(c['A']), dict(c['B'])
        pa, pb = Problem(w, **A), Problem(w, **B)
        x, y = w.atom('coef_x', 0.2, 3.0), w.atom('coef_y', 0.2, 3.0)
        # the second problem's sources get their own values
        o = {**A}
        nb = {}
        if B.get('beam', True):
            ib = w.atom('I0b', 0.5, 50.0)
            nb['I0'] = ib
            pb.I0 = ib
        else:
            ib = D.ZERO
        if B.get('iso'):
            pb.s = [[w.atom('sb%d_%d' % (i, k), 0.1, 5.0) for k in range(B['iso'])] for i in range(pb.L)]
        pa.solve()
        pb.solve(**nb)
        # combination
        C = dict(A)
        C['beam'] = A.get('beam', True) or B.get('beam', True)
        C['iso'] = max(A.get('iso', 0), B.get('iso', 0))
        pc = Problem(w, **{**C, 'bpos': 'zero', 'bneg': 'zero'})
        over = {}
        ia = pa.I0 if A.get('beam', True) else D.ZERO
        over['I0'] = D.add(D.mul(x, ia), D.mul(y, ib)) if C['beam'] else 0
        pc.I0 = nd.tov(over['I0'])
        if C['iso']:
            def co(s, i, k):
                return s[i][k] if i < len(s) and k < len(s[i]) else D.ZERO
            over['s_poly_coeffs'] = w.mat([[D.add(D.mul(x, co(pa.s, i, k)), D.mul(y, co(pb.s, i, k)))
                                            for k in range(C['iso'])] for i in range(pc.L)])
        for nm, va, vb in (('b_pos', pa.bpos, pb.bpos), ('b_neg', pa.bneg, pb.bneg)):
            rows = [[D.add(D.mul(x, va[m][i]), D.mul(y, vb[m][i])) for m in range(pc.NF)] for i in range(pc.N)]
            if any(v.fp for r in rows for v in r):
                if all(v.fp == 0 for r in rows for v in r[1:]):
                    over[nm] = w.vec([r[0] for r in rows]) if pc.N > 1 else rows[0][0]
                else:
                    over[nm] = w.mat(rows)
        pc.solve(**over)
        taus = pts_of(pc)
        for anti in (False, True):
            ra, rb, rc = outs(pa, taus, anti), outs(pb, taus, anti), outs(pc, taus, anti)
            for k in rc:
                for i, (u_, v_, z_) in enumerate(zip(ra[k].cells(), rb[k].cells(), rc[k].cells())):
                    ob.eq('%s%s is linear in the sources (component %d)' % (k, ' antiderivative' if anti else '', i),
                          z_, D.add(D.mul(x, nd.tov(u_)), D.mul(y, nd.tov(v_))))
    return fn


def lin_name(c):
    return 'x*[%s] + y*[%s]' % (name(c['A']), name(c['B']))


# ------------------------------------------------------------------ dense and banded solvers agree
BAND = [dict(L=3, NF=2, mag='edge', f=True, bdrf=('scalar',), bpos='scalar'), dict(L=4, NF=1, mag='mixed', f=True, iso=2), dict(N=3, L=3, NLA=7, NF=1, f=True, iso=1, bdrf=('func',)), dict(L=10, NF=1, f=True), dict(L=10, NF=1, iso=2, bdrf=('scalar',), bneg='scalar'), dict(L=3, f=True, iso=2, bdrf=('func', 'scalar'), NF=2, bpos='vector'), dict(L=4, NF=3, bneg='matrix'),
        dict(L=5, f=True, beam=False, iso=1, NF=1, bpos='scalar', noscat=(2,)), dict(N=1, L=3, iso=3, NLA=3),
        dict(N=1, L=4, f=True, NLA=3, bdrf=('func', 'func')), dict(L=3, f=True, nt=True, NLeg=3, NF=2),
        dict(L=3, only_flux=True, iso=1, bdrf=('func',)), dict(L=6, NF=1, iso=4, f_layers=(2, 4))]


def chk_banded(o):
    def fn(w, ob):
        a = Problem(w, **{**o, 'banded': 3}).solve()
        b = Problem(w, **{**o, 'banded': 1000}).solve()
        c = Problem(w, **{**o, 'banded': o.get('L', 1)}).solve()
        d = Problem(w, **{**o, 'banded': o.get('L', 1) + 1}).solve()
        taus = pts_of(a)
        ra = outs(a, taus)
        cmp(ob, 'dense and banded solution', ra, outs(b, taus))
        cmp(ob, 'threshold equal to the number of layers', ra, outs(c, taus))
        cmp(ob, 'threshold above the number of layers', ra, outs(d, taus))
    return fn


# ------------------------------------------------------------------ splitting a layer changes nothing
SPLIT = [dict(o=dict(L=1, mag='edge', f=True, NF=2, iso=1), at=0), dict(o=dict(L=2, mag='edge2', f=True, NF=2), at=1), dict(o=dict(N=3, L=1, NF=1, NLA=7, f=True, bdrf=('func',)), at=0), dict(o=dict(L=2, mag='mixed', f=True, NF=2, iso=1), at=1), dict(o=dict(L=1, mag='tiny', f=True, NF=2, iso=2), at=0),
         dict(o=dict(L=2, mag='faint', NF=2, bneg='vector', iso=1), at=0), dict(o=dict(L=1, mag='huge', NF=2, f=True, bdrf=('scalar',)), at=0), dict(o=dict(L=9, NF=1, f=True), at=4), dict(o=dict(L=1, NF=2), at=0), dict(o=dict(L=1, f=True, iso=2, bdrf=('func',), NF=2), at=0),
         dict(o=dict(L=2, f=True, iso=3, NF=2, bpos='vector'), at=0), dict(o=dict(L=2, f=True, iso=1, NF=2, bneg='scalar', bdrf=('scalar',)), at=1),
         dict(o=dict(L=2, noscat=(0,), iso=2, NF=2), at=0), dict(o=dict(L=3, f_layers=(1,), NF=2, banded=4), at=1),
         dict(o=dict(N=1, L=2, f=True, iso=2, NLA=3, NF=1), at=1), dict(o=dict(L=1, beam=False, iso=4, f=True, NF=1, bneg='scalar'), at=0)]


def chk_split(c):
    def fn(w, ob):
        o, l = c['o'], c['at']
        for lo in (0.2, 0.75):
            p = Problem(w, **o).solve()
            q = Problem(w, **o)
            u = q.unit
            sp = w.atom('split%s' % lo, u * (l + lo), u * (l + lo + 0.03))

            def dup(xs, first=None):
                ys = list(xs)
                ys.insert(l, ys[l] if first is None else first)
                return ys
            over = dict(tau_arr=w.vec(dup(q.T, sp)), omega_arr=w.vec(dup(q.om)), Leg_coeffs_all=w.mat(dup(q.g)))
            if q.anyf:
                over['f_arr'] = w.vec(dup(q.f))
            if o.get('iso'):
                over['s_poly_coeffs'] = w.mat(dup(q.s))
            q.solve(**over)
            taus = pts_of(p)
            cmp(ob, 'solution after splitting layer %d at an arbitrary depth' % l, outs(q, taus), outs(p, taus))
            i0 = taus.index(D.ZERO) if D.ZERO in taus else 0
            A, B = outs(q, taus, True), outs(p, taus, True)
            for nm in A:
                per = A[nm].shape[2] if nm == 'intensity' else 1
                ca, cb = A[nm].cells(), B[nm].cells()
                n = len(taus)
                for idx in range(len(ca)):
                    ref = idx + (i0 - (idx // per) % n) * per
                    ob.eq('integral of the %s from the top after splitting layer %d (component %d)' % (nm, l, idx),
                          D.sub(nd.tov(ca[idx]), nd.tov(ca[ref])), D.sub(nd.tov(cb[idx]), nd.tov(cb[ref])))
    return fn


# ------------------------------------------------------------------ vectorisation
VEC = [dict(L=2, mag='edge', f=True, NF=2, iso=1), dict(L=2, mag='edge2', f=True, NF=1, beam=False, iso=2), dict(L=3, mag='mixed', f=True, nt=True, NLeg=3, NF=1), dict(N=3, L=2, NF=2, NLA=7, f=True, iso=1), dict(L=1, NF=2), dict(L=3, f=True, iso=2, NF=2, bdrf=('func',)), dict(L=2, beam=False, iso=1, NF=1, bpos='scalar'),
       dict(L=2, beam=False, bneg='scalar', NF=2, f=True), dict(N=1, L=2, f=True, NF=2, NLA=3), dict(N=1, L=1, NF=1, iso=3, beam=False, NLA=3),
       dict(L=3, f=True, nt=True, NLeg=3, NF=2), dict(N=1, L=2, f=True, nt=True, NLeg=2, NF=1, NLA=4), dict(L=2, f=True, nt=True, NLeg=3, NF=2, iso=2),
       dict(L=3, only_flux=True, iso=2), dict(L=2, beam=False, NF=1, only_flux=True, bpos='scalar', f=True), dict(L=4, iso=2, NF=1, f=True),
       dict(N=1, L=4, f=True, nt=True, NLeg=2, NF=1, NLA=4, iso=1), dict(L=2, f_layers=(1,), NF=2, iso=1), dict(L=3, f_layers=(0,), NF=2, noscat=(0,)),
       dict(L=3, f_layers=(2,), nt=True, NLeg=3, NF=2), dict(N=1, L=2, f_layers=(0,), nt=True, NLeg=2, NF=1, NLA=4)]


def chk_long(o, n, m):
    """Long query arrays (n depths, m azimuths): every entry equals the value at that point alone."""
    def fn(w, ob):
        p = Problem(w, **o).solve()
        base = [p.tau_q(l, 'ql%d' % i, 0.2 + 0.25 * i) for i in range(3) for l in range(p.L)] + [D.ZERO, p.T[-1]]
        bph = phis(p, 3)
        # an irregular arrangement, so that no block length is one of its periods
        rnd = random.Random(n)
        ti = [rnd.randrange(len(base)) for i in range(n)]
        pi = [rnd.randrange(3) for i in range(m)]
        taus, ph = [base[i] for i in ti], [bph[i] for i in pi]
        au, ad = act_funcs(p)
        for anti in (False, True):
            k = {'is_antiderivative_wrt_tau': True} if anti else {}
            sfx = ' antiderivative' if anti else ''
            for nm, g in [('upward flux', lambda t: w.it.call(p.fu, [t], k)), ('downward diffuse flux', lambda t: w.it.call(p.fd, [t], k)[0]), ('downward direct flux', lambda t: w.it.call(p.fd, [t], k)[1]),
                          ('upward actinic flux', lambda t: w.it.call(au, [t], k)), ('downward actinic flux', lambda t: w.it.call(ad, [t], k))]:
                one = [nd.tov(g(t)) for t in base]
                r = full(nm, g(w.vec(taus)), (n,))
                for i in range(n):
                    ob.eq('%s%s in an array of %d depths' % (nm, sfx, n), at(r, i), one[ti[i]])
            one = [full('u0', w.it.call(p.u0, [w.vec([t])], k), (p.NQ, 1)) for t in base]
            r = full('u0', w.it.call(p.u0, [w.vec(taus)], k), (p.NQ, n))
            for i in range(n):
                for d in range(p.NQ):
                    ob.eq('zeroth mode%s in an array of %d depths' % (sfx, n), at(r, d, i), at(one[ti[i]], d, 0))
            if p.u is None:
                continue
            one = full('u', w.it.call(p.u, [w.vec(base), w.vec(bph)], k), (p.NQ, len(base), 3))
            r = full('u', w.it.call(p.u, [w.vec(taus), w.vec(bph[:1])], k), (p.NQ, n, 1))
            for i in range(n):
                for d in range(p.NQ):
                    ob.eq('intensity%s in an array of %d depths' % (sfx, n), at(r, d, i, 0), at(one, d, ti[i], 0))
            r = full('u', w.it.call(p.u, [w.vec(base[:2]), w.vec(ph)], k), (p.NQ, 2, m))
            for i in range(m):
                for j in (0, 1):
                    for d in range(p.NQ):
                        ob.eq('intensity%s in an array of %d azimuths' % (sfx, m), at(r, d, j, i), at(one, d, j, pi[i]))
    return fn


LONG = [(dict(N=1, L=2, NF=2, NLA=3, f=True, iso=1), 130, 66), (dict(N=1, L=2, NF=1, NLA=4, NLeg=2, f=True, nt=True), 66, 66), (dict(N=1, L=3, NF=2, NLA=2, beam=False, bpos='scalar'), 530, 40)]


def long_units():
    from .p_solver import constants, KNOWN
    cs = sorted(constants(2100) - KNOWN)[:5]
    return LONG + [(dict(N=1, L=2, NF=1, NLA=2, f=True), n, min(n, 300)) for c in cs for n in ((c, 2 * c + 9) if c < 300 else (c + 9,))]


def subsets(p):
    """Depth arrays that skip layers, in and out of order, with repetitions, and with interfaces in the middle."""
    q = [p.tau_q(l, 'qs', 0.37) for l in range(p.L)]
    r = [p.tau_q(l, 'qt', 0.71) for l in range(p.L)]
    out = [('lower layers only', q[1:] + r[1:]), ('one layer twice', [q[-1], r[-1], q[-1]]), ('layers in and out of order', [r[0], q[-1], q[0], r[-1]])]
    if p.L > 2:
        out += [('a layer skipped', q[:1] + q[2:]), ('a layer skipped, reversed', (q[:1] + q[2:])[::-1]), ('outer layers', [q[0], q[-1]]),
                ('layers out of order', [q[2], q[0], q[1], r[2], r[0]])]
    if p.L > 3:
        out += [('every other layer', [q[1], q[3]]), ('every other layer with an interface', [D.ZERO, p.T[1], q[3], p.T[3]])]
    return out


def chk_vector(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        taus = pts_of(p)
        n = len(taus)
        ph = phis(p, 3)
        au, ad = act_funcs(p)
        for anti in (False, True):
            k = {'is_antiderivative_wrt_tau': True} if anti else {}
            sfx = ' antiderivative' if anti else ''
            f1 = [('upward flux', lambda t: w.it.call(p.fu, [t], k)),
                  ('downward diffuse flux', lambda t: w.it.call(p.fd, [t], k)[0]),
                  ('downward direct flux', lambda t: w.it.call(p.fd, [t], k)[1]),
                  ('upward actinic flux', lambda t: w.it.call(au, [t], k)),
                  ('downward actinic flux', lambda t: w.it.call(ad, [t], k))]
            for nm, g in f1:
                allv = full(nm, g(w.vec(taus)), (n,))
                rev = full(nm, g(w.vec(taus[::-1])), (n,))
                lst = full(nm, g(list(taus)), (n,))
                two = full(nm, g(w.vec([taus[1], taus[1]])), (2,))
                for i, t in enumerate(taus):
                    one = g(t)
                    if isinstance(one, Arr) and one.ndim:
                        ob.true('%s%s of a scalar depth is a scalar' % (nm, sfx), False, loc_of(one))
                        continue
                    ob.eq('%s%s evaluated alone and in an array, point %d' % (nm, sfx, i), at(allv, i), nd.tov(one))
                    ob.eq('%s%s evaluated in the reversed array, point %d' % (nm, sfx, i), at(rev, n - 1 - i), nd.tov(one))
                    ob.eq('%s%s evaluated from a list, point %d' % (nm, sfx, i), at(lst, i), nd.tov(one))
                    if i == 1:
                        for j in (0, 1):
                            ob.eq('%s%s with repeated depths' % (nm, sfx), at(two, j), nd.tov(one))
                o1 = full(nm, g(w.vec(taus[:1])), (1,))
                ob.eq('%s%s of a one-element array' % (nm, sfx), at(o1, 0), at(allv, 0))
            # with the depths of the layers returned as well
            kt = dict(k, return_tau_arr=True)
            for nm, g in (('upward flux', lambda t: w.it.call(p.fu, [t], kt)), ('downward diffuse flux', lambda t: w.it.call(p.fd, [t], kt)),
                          ('upward actinic flux', lambda t: w.it.call(au, [t], kt)), ('downward actinic flux', lambda t: w.it.call(ad, [t], kt))):
                def first(r):
                    while isinstance(r, tuple):
                        r = r[0]
                    return r
                allv = full(nm, first(g(w.vec(taus))), (n,))
                for i, t in enumerate(taus):
                    one = first(g(t))
                    if S.shape(one) != ():
                        ob.true('%s%s of a scalar depth, with the layer boundaries, is a scalar' % (nm, sfx), False, loc_of(one))
                        continue
                    ob.eq('%s%s evaluated alone and in an array, with the layer boundaries, point %d' % (nm, sfx, i), at(allv, i), nd.tov(one))
            if p.L > 1:
                for lab, sub in subsets(p):
                    for nm, g in f1:
                        many = full(nm, g(w.vec(sub)), (len(sub),))
                        for i, t in enumerate(sub):
                            ob.eq('%s%s of an array of depths (%s), point %d' % (nm, sfx, lab, i), at(many, i), nd.tov(g(t)))
                    many = full('u0', w.it.call(p.u0, [w.vec(sub)], k), (p.NQ, len(sub)))
                    mu_ = full('u', w.it.call(p.u, [w.vec(sub), w.vec(ph[:2])], k), (p.NQ, len(sub), 2)) if p.u is not None else None
                    for i, t in enumerate(sub):
                        one = full('u0', w.it.call(p.u0, [w.vec([t])], k), (p.NQ, 1))
                        ou = full('u', w.it.call(p.u, [w.vec([t]), w.vec(ph[:2])], k), (p.NQ, 1, 2)) if p.u is not None else None
                        for d in range(p.NQ):
                            ob.eq('zeroth mode%s of an array of depths (%s), point %d' % (sfx, lab, i), at(many, d, i), at(one, d, 0))
                            for j in (0, 1) if ou is not None else ():
                                ob.eq('intensity%s of an array of depths (%s), point %d' % (sfx, lab, i), at(mu_, d, i, j), at(ou, d, 0, j))
            a = full('u0', w.it.call(p.u0, [w.vec(taus)], k), (p.NQ, n))
            b = full('u0', w.it.call(p.u0, [list(reversed(taus))], k), (p.NQ, n))
            for i, t in enumerate(taus):
                one = w.it.call(p.u0, [t], k)
                if not isinstance(one, Arr) or one.shape != (p.NQ,):
                    raise S.Bad('u0 of a scalar depth has shape %s instead of one value per direction' % (S.shape(one),), None, loc_of(one))
                for d in range(p.NQ):
                    ob.eq('zeroth mode%s evaluated alone and in an array, point %d direction %d' % (sfx, i, d), at(a, d, i), at(one, d))
                    ob.eq('zeroth mode%s evaluated in the reversed array, point %d direction %d' % (sfx, i, d), at(b, d, n - 1 - i), at(one, d))
            if p.u is None:
                continue
            a = full('u', w.it.call(p.u, [w.vec(taus), w.vec(ph)], k), (p.NQ, n, 3))
            b = full('u', w.it.call(p.u, [list(taus), [ph[2], ph[0]]], k), (p.NQ, n, 2))
            for i, t in enumerate(taus):
                col = full('u', w.it.call(p.u, [t, w.vec(ph)], k), (p.NQ, 1, 3))
                for j, x in enumerate(ph):
                    one = w.it.call(p.u, [t, x], k)
                    if not isinstance(one, Arr) or one.shape != (p.NQ,):
                        raise S.Bad('u of a scalar depth and azimuth has shape %s instead of one value per direction' % (S.shape(one),), None, loc_of(one))
                    for d in range(p.NQ):
                        ob.eq('intensity%s evaluated alone and in an array' % sfx, at(a, d, i, j), at(one, d))
                        ob.eq('intensity%s for a scalar depth and several azimuths' % sfx, at(col, d, 0, j), at(one, d))
                        if j != 1:
                            ob.eq('intensity%s with permuted azimuths' % sfx, at(b, d, i, 0 if j == 2 else 1), at(one, d))
            row = full('u', w.it.call(p.u, [w.vec(taus), ph[1]], k), (p.NQ, n, 1))
            for i in range(n):
                for d in range(p.NQ):
                    ob.eq('intensity%s for several depths and a scalar azimuth' % sfx, at(row, d, i, 0), at(a, d, i, 1))
    return fn


# ------------------------------------------------------------------ inputs are not modified
def snap(x):
    """Contents of a user-visible value."""
    if isinstance(x, Arr):
        return ('arr', x.shape, tuple(x.cells()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(y) for y in x))
    return x


def snap_same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return all(snap_same(x, y) for x, y in zip(a, b))
    if isinstance(a, D.V) or isinstance(b, D.V):
        if isinstance(a, I.Native) or isinstance(b, I.Native):
            return a is b
        try:
            x, y = nd.tov(a), nd.tov(b)
        except PyExc:
            return False
        if x.kind or y.kind:
            return x is y or (x.kind == y.kind and x.note == y.note)
        return x.fp == y.fp
    if isinstance(a, (int, float, str, bool)):
        return type(a) is type(b) and a == b
    return a is b


def guarded(w, ob, text, vals, thunk):
    """Run thunk and require the user's values to keep their contents."""
    before = {k: snap(v) for k, v in vals.items()}
    n0 = len(w.ctx.events)
    r = thunk()
    for k, v in vals.items():
        ok = snap_same(before[k], snap(v))
        loc = None
        if not ok:
            for e in w.ctx.events[n0:]:
                if e[0] == 'mutate':
                    loc = e[2]
                    break
        ob.true('%s leaves the caller\'s %s unchanged' % (text, k), ok, loc)
    return r


MUT = [dict(N=3, L=2, NF=1, NLA=7, f=True, bpos='vector', bneg='matrix'), dict(L=1, scalars=False, NF=2), dict(L=3, f=True, iso=2, bdrf=('func', 'scalar'), NF=2, bpos='vector', bneg='matrix'),
       dict(L=3, f=True, iso=3, NF=2, banded=3, bneg='vector', bpos='matrix'), dict(L=2, f=True, nt=True, NLeg=3, NF=2, iso=2),
       dict(L=3, f=True, nt=True, NLeg=3, NF=2, banded=3), dict(N=1, L=2, f=True, iso=1, bpos='vector', NLA=3),
       dict(L=2, only_flux=True, f=True, bpos='vector', iso=1), dict(L=2, beam=False, iso=2, NF=2, bneg='matrix', f=True),
       dict(L=2, autograd=True, f=True, nt=True, NLeg=3, NF=2, iso=3), dict(L=2, beam=False, bneg='vector', NF=2),
       dict(L=2, NF=2, bdrf=('scalar', 'scalar', 'scalar', 'func'), f=True), dict(L=2, only_flux=True, bdrf=('func', 'scalar'), iso=2, bneg='matrix'), dict(L=3, NF=1, noscat=(1,), bdrf=('scalar', 'func'), iso=1, f_layers=(0, 2)),
       dict(L=3, NF=2, f=True, zeros=('f1', 'om2'), iso=2, bneg='vector'), dict(L=2, mag='negb', beam=False, NF=2, bneg='vector', bpos='matrix', bdrf=('scalar',)), dict(L=2, gzero=(1,), NF=3, f=True, bpos='matrix'),
       dict(L=1, NF=3, bpos='matrix', zeros=('bp_0_0', 'bp_1_0', 'bp_0_1', 'bp_1_1'), bdrf=('func',)), dict(L=2, mag='edge', f=True, NF=2, iso=1, bdrf=('scalar',)), dict(L=11, NF=1, f_layers=(3, 7), noscat=(5,)), dict(L=2, f=True, isog=(0,), NF=2, iso=12, beam=False)]


def user_args(k):
    return {n: v for n, v in k.items() if isinstance(v, (Arr, list))}


def chk_mutation(o, g0=False):
    def fn(w, ob):
        p = Problem(w, **o)
        if g0:
            for i in range(p.L):
                p.g[i] = [w.atom('g%d_0' % i, 0.5, 0.9)] + p.g[i][1:]
        k = p.args()
        vals = user_args(k)
        out = guarded(w, ob, 'solving', vals, lambda: w.it.call(w.pydisort(), [], k))
        p.mu_arr, p.fu, p.fd, p.u0 = out[:4]
        p.u = out[4] if len(out) > 4 else None
        taus, ph = pts_of(p), phis(p, 2)
        au, ad = act_funcs(p)
        jobs = [('upward flux', p.fu, 1), ('downward flux', p.fd, 1), ('zeroth mode', p.u0, 1),
                ('upward actinic flux', au, 1), ('downward actinic flux', ad, 1)]
        if p.u is not None:
            jobs.append(('intensity', p.u, 2))
        for nm, f, na in jobs:
            for kw in ({}, {'is_antiderivative_wrt_tau': True}, {'return_tau_arr': True}):
                q = {'depth array': w.vec(taus, 'tau query')}
                args = [q['depth array']]
                if na == 2:
                    q['azimuth array'] = w.vec(ph, 'phi query')
                    args.append(q['azimuth array'])
                guarded(w, ob, 'querying the %s%s' % (nm, kw or ''), {**vals, **q}, lambda: w.it.call(f, list(args), dict(kw)))
        if p.u is not None:
            ui = w.call(w.fn('interpolate'), p.u)
            q = {'mu array': w.vec([p.mus[0], D.neg(p.mus[-1]), D.ZERO], 'mu query'), 'depth array': w.vec(taus, 'tau query'),
                 'azimuth array': w.vec(ph, 'phi query')}
            guarded(w, ob, 'querying the interpolated intensity', {**vals, **q},
                    lambda: w.call(ui, q['mu array'], q['depth array'], q['azimuth array']))
    return fn


def chk_mutation_helpers(w, ob):
    A = lambda n, m, lo=0.1, hi=0.9: [w.atom('%s%d' % (n, i), lo + i, hi + i) for i in range(m)]
    V_ = lambda n, m: w.vec(A(n, m), n)
    sub = w.fn
    arr = V_('x', 3)
    guarded(w, ob, 'prepend', {'array': arr}, lambda: w.call(sub('prepend'), arr, 3, D.ONE))
    for f in ('transform_interval', 'transform_weights'):
        guarded(w, ob, f, {'array': arr}, lambda: w.call(sub(f), arr, *A('c', 2), *A('d', 2)))
    mus = [w.vec([npm._odd_mu('m%d%d' % (j, i), 0.1, 0.9) for i in range(2)], 'mu%d' % j) for j in range(2)]
    ph = [V_('ph%d' % j, 2) for j in range(2)]
    guarded(w, ob, 'calculate_nu', {'mu': mus[0], 'phi': ph[0], 'mu_p': mus[1], 'phi_p': ph[1]},
            lambda: w.call(sub('calculate_nu'), mus[0], ph[0], mus[1], ph[1]))
    a2 = w.mat([A('r%d' % i, 3) for i in range(2)], 'matrix')
    guarded(w, ob, 'atleast_2d_append', {'array': arr, 'matrix': a2}, lambda: w.call(sub('atleast_2d_append'), arr, a2))
    T = w.vec([w.atom('T%d' % i, 200.0, 300.0) for i in range(3)], 'T')
    guarded(w, ob, 'Planck', {'T': T}, lambda: w.call(sub('Planck'), T, w.atom('wv', 1.0, 900.0)))
    guarded(w, ob, 'blackbody_contrib_to_BCs', {'T': T}, lambda: w.call(sub('blackbody_contrib_to_BCs'), T, w.atom('lo', 1.0, 2.0), w.atom('hi', 3.0, 4.0)))
    x, y = V_('sx', 3), V_('sy', 3)
    guarded(w, ob, 'linear_spline_coefficients', {'x': x, 'y': y}, lambda: w.call(sub('linear_spline_coefficients'), x, y))
    ta = V_('tau', 2)
    guarded(w, ob, 'generate_s_poly_coeffs', {'tau_arr': ta, 'TEMPER': T}, lambda: w.call(sub('generate_s_poly_coeffs'), ta, T, w.atom('lo', 1.0, 2.0), w.atom('hi', 3.0, 4.0)))
    c_ = w.mat([A('p%d_' % i, 3) for i in range(2)], 'coeffs')
    aa, bb = V_('a', 2), V_('b', 2)
    guarded(w, ob, 'affine_transform_poly_coeffs', {'coefficients': c_, 'scales': aa, 'translations': bb},
            lambda: w.call(sub('affine_transform_poly_coeffs'), c_, aa, bb))
    sq = w.mat([A('q%d_' % i, 4) for i in range(4)], 'matrix')
    guarded(w, ob, 'to_diag_ordered_form', {'matrix': sq}, lambda: w.call(sub('to_diag_ordered_form'), sq, 2, 1))
    modes = [I.Native('rho0', bdrf_fn('rho0'), 'user'), w.atom('rho1', 0.1, 0.2)]
    w.ctx.owned_lists[id(modes)] = (modes, 'BDRF_Fourier_modes')
    for mu0 in (0, w.atom('mu0', 0.55, 0.65)):
        guarded(w, ob, 'cache_BDRF_Fourier_modes', {'list of modes': modes}, lambda: w.call(sub('cache_BDRF_Fourier_modes'), 2, modes, mu0))


def bdrf_fn(nm):
    def f(mu, mup):
        a, b = nd.asarr(mu), nd.asarr(mup)
        if a.ndim != 1 or b.ndim != 1:
            raise Unsupported('BDRF called with non-1D arguments')
        return nd.new([D.uf(nm, (nd.tov(x), nd.tov(y))) for x in a.cells() for y in b.cells()],
                      (a.shape[0], b.shape[0]), 'f')
    return f


# ------------------------------------------------------------------ outputs are snapshots
def scramble(w, x, tag):
    """The caller overwrites an array (or list) of theirs."""
    if isinstance(x, Arr):
        x.buf.owner = None
        if x.buf.readonly or x.size == 0:
            return
        vals = [w.atom('junk%s_%d' % (tag, i), 11.0, 12.0) for i in range(x.size)]
        if x.dtype == 'i':
            vals = [97] * x.size
        elif x.dtype == 'b':
            vals = [True] * x.size
        for o_, v in zip(x.offs(), vals):
            x.buf.data[o_] = v
    elif isinstance(x, list):
        for i in range(len(x)):
            if isinstance(x[i], (Arr, list)):
                scramble(w, x[i], '%s.%d' % (tag, i))
            else:
                x[i] = D.ZERO
    elif isinstance(x, tuple):
        for i, y in enumerate(x):
            scramble(w, y, '%s.%d' % (tag, i))


def all_queries(p, w, taus, ph, interp=True):
    """label -> thunk"""
    au, ad = act_funcs(p)
    q = {}
    for anti in (False, True):
        kw = {'is_antiderivative_wrt_tau': True} if anti else {}
        s = ' antiderivative' if anti else ''
        q['upward flux' + s] = lambda kw=kw: w.it.call(p.fu, [w.vec(taus)], dict(kw, return_tau_arr=True))
        q['downward flux' + s] = lambda kw=kw: w.it.call(p.fd, [w.vec(taus)], dict(kw, return_tau_arr=True))
        q['zeroth mode' + s] = lambda kw=kw: w.it.call(p.u0, [w.vec(taus)], dict(kw, return_tau_arr=True))
        q['upward actinic flux' + s] = lambda kw=kw: w.it.call(au, [w.vec(taus)], dict(kw, return_tau_arr=True))
        q['downward actinic flux' + s] = lambda kw=kw: w.it.call(ad, [w.vec(taus)], dict(kw, return_tau_arr=True))
        q['upward flux alone' + s] = lambda kw=kw: w.it.call(p.fu, [w.vec(taus)], dict(kw))
        q['downward flux alone' + s] = lambda kw=kw: w.it.call(p.fd, [w.vec(taus)], dict(kw))
        if p.u is not None:
            q['intensity' + s] = lambda kw=kw: w.it.call(p.u, [w.vec(taus), w.vec(ph)], dict(kw, return_tau_arr=True))
    if interp:
        mu = lambda: w.vec([p.mus[0], D.neg(p.mus[-1]), D.ZERO])
        i0 = w.call(w.fn('interpolate'), p.u0)
        q['interpolated zeroth mode'] = lambda: w.it.call(i0, [mu(), w.vec(taus)], {'return_tau_arr': True})
        if p.u is not None:
            iu = w.call(w.fn('interpolate'), p.u)
            q['interpolated intensity'] = lambda: w.it.call(iu, [mu(), w.vec(taus), w.vec(ph)], {'return_tau_arr': True})
    return q


SNAP = [dict(N=3, L=2, NF=1, NLA=7, f=True, iso=1), dict(L=1, NF=2), dict(L=1, scalars=True, NF=1, iso=1), dict(L=3, f=True, iso=2, bdrf=('func', 'scalar'), NF=2, bpos='vector', bneg='matrix'),
        dict(L=2, f=True, nt=True, NLeg=3, NF=2, iso=1), dict(L=3, f=True, nt=True, NLeg=3, NF=2), dict(N=1, L=2, f=True, iso=3, NLA=3, bpos='vector', NF=1),
        dict(L=3, only_flux=True, iso=2, f=True, bdrf=('func',)), dict(L=2, beam=False, iso=1, NF=1, bneg='vector'), dict(L=2, beam=False, NF=2, bpos='scalar'),
        dict(L=2, f=True, autograd=True, nt=True, NLeg=3, NF=2)]


def deep(x):
    """Copy of a result for later comparison."""
    if isinstance(x, Arr):
        return nd.new(x.cells(), x.shape, x.dtype)
    if isinstance(x, (tuple, list)):
        return type(x)(deep(y) for y in x)
    return x


def tup_eq(ob, text, a, b):
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        if not (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b)):
            ob.true(text + ': same number of outputs', False)
            return
        for i, (x, y) in enumerate(zip(a, b)):
            tup_eq(ob, '%s (output %d)' % (text, i), x, y)
        return
    ob.arr_eq(text, a, b)


def chk_snapshot(o):
    def fn(w, ob):
        p = Problem(w, **o)
        k = p.args()
        if o.get('f') and not o.get('scalars'):
            pass
        out = w.it.call(w.pydisort(), [], k)
        mu_arr, p.fu, p.fd, p.u0 = out[:4]
        p.u = out[4] if len(out) > 4 else None
        taus, ph = pts_of(p), phis(p, 2)
        q = all_queries(p, w, taus, ph)
        first = {n: g() for n, g in q.items()}
        ref = {n: deep(v) for n, v in first.items()}
        # history: ask again in another order, after other queries
        for n in reversed(list(q)):
            w.it.call(p.u0, [D.ZERO], {})
            tup_eq(ob, 'asking for the %s again gives the same answer' % n, q[n](), ref[n])
        # one query array, overwritten in place between two calls
        t1, t2 = taus, [p.tau_q(l, 'qm', 0.8) for l in range(p.L)]
        t2 = (t2 * len(t1))[:len(t1)]
        au, ad = act_funcs(p)
        ui = [w.call(w.fn('interpolate'), f) for f in (p.u0, p.u) if f is not None]
        mu1, mu2 = [p.mus[0], D.neg(p.mus[-1])], [D.neg(p.mus[0]), p.mus[-1]]
        jobs = [('upward flux', p.fu, 0, 0), ('downward flux', p.fd, 0, 0), ('zeroth mode', p.u0, 0, 0), ('upward actinic flux', au, 0, 0), ('downward actinic flux', ad, 0, 0),
                ('interpolated zeroth mode', ui[0], 0, 1)]
        if p.u is not None:
            jobs += [('intensity', p.u, 1, 0), ('interpolated intensity', ui[1], 1, 1)]
        for n, f, hasphi, hasmu in jobs:
            for anti in (False, True):
                arrs = [x for x, use in ((w.vec(mu1), hasmu), (w.vec(t1), 1), (w.vec(ph), hasphi)) if use]
                news = [x for x, use in ((mu2, hasmu), (t2, 1), (ph[::-1], hasphi)) if use]
                kw = {'is_antiderivative_wrt_tau': anti}
                w.it.call(f, arrs, dict(kw))
                for x, new in zip(arrs, news):
                    for i, v in zip(x.offs(), new):
                        x.buf.data[i] = v
                tup_eq(ob, 'the %s follows the contents of a query array that is overwritten and passed again%s' % (n, ' (antiderivative)' if anti else ''),
                       w.it.call(f, arrs, dict(kw)), w.it.call(f, [w.vec(x) for x in news], dict(kw)))
        # the caller overwrites what was returned
        for n, v in first.items():
            scramble(w, v, 'r' + n.replace(' ', ''))
        scramble(w, mu_arr, 'mu')
        for n, g in q.items():
            tup_eq(ob, 'overwriting returned arrays does not affect the %s' % n, g(), ref[n])
        # the caller overwrites the inputs
        for n, v in user_args(k).items():
            scramble(w, v, 'in' + n)
        for n, g in q.items():
            tup_eq(ob, 'overwriting the inputs afterwards does not affect the %s' % n, g(), ref[n])
    return fn


def chk_snapshot_two(w, ob):
    """Two solved problems do not influence each other; default arguments are not shared."""
    o1 = dict(L=2, f=True, iso=2, NF=2, bpos='vector', bdrf=('func',))
    o2 = dict(L=3, NF=2, bneg='scalar', tag='B')
    a = Problem(w, **o1).solve()
    ta = pts_of(a)
    ra = {k: deep(v) for k, v in outs(a, ta).items()}
    b = Problem(w, **o2).solve()
    outs(b, pts_of(b))
    cmp(ob, 'solving another problem does not change earlier results', outs(a, ta), ra)
    c = Problem(w, **o1).solve()
    cmp(ob, 'solving the same problem again gives the same results', outs(c, ta), ra)


def chk_snapshot_cache(w, ob):
    """Cached BDRF modes do not follow later changes of the caller's list."""
    for mu0 in (0, w.atom('mu0', 0.55, 0.65)):
        for N in (1, 2):
            modes = [I.Native('rho0', bdrf_fn('rho0'), 'user'), w.atom('rho1', 0.1, 0.2)]
            c_ = w.call(w.fn('cache_BDRF_Fourier_modes'), N, modes, mu0)
            mus, _ = npm.gauss_mu(N)
            m0 = w.atom('mu0', 0.55, 0.65)

            def vals():
                r = []
                for f in c_:
                    r.append(deep(w.call(f, w.vec(mus), w.vec(mus))))
                    r.append(deep(w.call(f, w.vec(mus), w.vec([m0]))))
                return tuple(r)
            ref = vals()
            modes[0] = modes[1] = D.ZERO
            tup_eq(ob, 'cached BDRF modes keep their values when the caller changes the list (N=%d)' % N, vals(), ref)


def helper_calls(w, tag=''):
    """label -> thunk making fresh arguments; all values depend on `tag`."""
    A = lambda n, m, lo=0.1, hi=0.9: [w.atom('%s%d%s' % (n, i, tag), lo + i, hi + i) for i in range(m)]
    mus, _ = npm.gauss_mu(2)
    T = [w.atom('T%d%s' % (i, tag), 200.0, 300.0) for i in range(3)]
    ta = A('tau', 2, 0.3, 0.9)
    lo, hi = w.atom('lo' + tag, 1.0, 2.0), w.atom('hi' + tag, 3.0, 4.0)
    m0 = w.atom('mu0' + tag, 0.55, 0.65)
    rho = I.Native('rho0' + tag, bdrf_fn('rho0' + tag), 'user')
    f = w.fn
    mat = lambda n, r, c_: w.mat([A('%s%d_' % (n, i), c_) for i in range(r)])

    def cached():
        c_ = w.call(f('cache_BDRF_Fourier_modes'), 2, [rho, A('r', 1)[0]], m0)
        return tuple(w.call(g, w.vec(list(mus)), w.vec(x)) for g in c_ for x in (list(mus), [m0]))

    def fdm():
        x, M = w.call(f('generate_FD_mat'), 4, lo, hi)
        return x, (M.toarray() if isinstance(M, npm.Sparse) else M)
    return {
        'prepend': lambda: w.call(f('prepend'), w.vec(A('x', 3)), 3, D.ONE),
        'transform_interval': lambda: w.call(f('transform_interval'), w.vec(A('x', 3)), *A('c', 2), *A('d', 2)),
        'transform_weights': lambda: w.call(f('transform_weights'), w.vec(A('x', 3)), *A('c', 2), *A('d', 2)),
        'calculate_nu': lambda: w.call(f('calculate_nu'), w.vec(list(mus)), w.vec(A('p', 2)), w.vec(list(mus)), w.vec(A('q', 2))),
        'Gauss_Legendre_quad': lambda: w.call(f('Gauss_Legendre_quad'), 2),
        'Gauss_Legendre_quad on an interval': lambda: w.call(f('Gauss_Legendre_quad'), 2, lo, hi),
        'Clenshaw_Curtis_quad': lambda: w.call(f('Clenshaw_Curtis_quad'), 5),
        'Clenshaw_Curtis_quad on an interval': lambda: w.call(f('Clenshaw_Curtis_quad'), 5, lo, hi),
        'generate_FD_mat': fdm,
        'atleast_2d_append': lambda: w.call(f('atleast_2d_append'), w.vec(A('x', 3)), mat('m', 2, 3)),
        'Planck': lambda: w.call(f('Planck'), w.vec(T), lo),
        'blackbody_contrib_to_BCs': lambda: w.call(f('blackbody_contrib_to_BCs'), w.vec(T), lo, hi),
        'linear_spline_coefficients': lambda: w.call(f('linear_spline_coefficients'), w.vec(A('x', 3)), w.vec(A('y', 3))),
        'generate_s_poly_coeffs': lambda: w.call(f('generate_s_poly_coeffs'), w.vec(ta), w.vec(T), lo, hi),
        'generate_emissivity_from_BDRF': lambda: w.call(f('generate_emissivity_from_BDRF'), 2, rho),
        'affine_transform_poly_coeffs': lambda: w.call(f('affine_transform_poly_coeffs'), mat('p', 2, 3), w.vec(A('a', 2)), w.vec(A('b', 2))),
        'to_diag_ordered_form': lambda: w.call(f('to_diag_ordered_form'), mat('q', 4, 4), 2, 1),
        'cached modes': cached,
    }


def chk_snapshot_helpers(w, ob):
    """Helper functions: fresh answers whatever was called before and whatever happened to earlier answers."""
    fresh = {n: deep(g()) for n, g in helper_calls(S.World(w.ctx)).items()}
    other = helper_calls(w, 'B')
    calls = helper_calls(w)
    for n, g in calls.items():
        other[n]()
        a = g()
        tup_eq(ob, '%s after a call with other values' % n, a, fresh[n])
        b = g()
        tup_eq(ob, '%s called again' % n, b, fresh[n])
        scramble(w, a, 'h' + n.replace(' ', ''))
        tup_eq(ob, '%s: overwriting one answer leaves another intact' % n, b, fresh[n])
        tup_eq(ob, '%s after the caller overwrote the answer' % n, g(), fresh[n])
        scramble(w, b, 'i' + n.replace(' ', ''))
        tup_eq(ob, '%s after the caller overwrote both answers' % n, g(), fresh[n])
    for n in reversed(list(calls)):
        tup_eq(ob, '%s after all the others' % n, calls[n](), fresh[n])
    # the solver after the caller overwrote what the helpers returned
    for o in (dict(L=2, f=True, iso=2, NF=2, bdrf=('func',)), dict(N=1, L=2, NF=1, NLA=3)):
        w2 = S.World(w.ctx)
        w2.base = w.base
        ref = Problem(w2, **o).solve()
        taus = pts_of(ref)
        p = Problem(w, **o).solve()
        cmp(ob, 'solving after helper results were overwritten', outs(p, taus), outs(ref, taus))


HIST = [dict(L=1, NF=2), dict(L=2, f=True, iso=2, NF=2, bdrf=('func', 'scalar'), bpos='vector'), dict(L=3, f=True, nt=True, NLeg=3, NF=2, banded=3),
        dict(L=2, beam=False, iso=1, NF=2, bneg='matrix'), dict(N=1, L=2, f=True, iso=1, NLA=3, NF=1), dict(L=2, only_flux=True, f=True, bdrf=('scalar',)),
        dict(L=2, NF=3, noscat=(0,), iso=3)]


def chk_history(o):
    """A problem solved after others of the same shape (and after queries on them) gives what it gives alone."""
    def fn(w, ob):
        w0 = S.World(w.ctx)
        w0.base = w.base
        alone = Problem(w0, **o).solve()
        taus = pts_of(alone)
        ph = phis(alone, 2)
        ref = {anti: outs(alone, taus, anti, ph) for anti in (False, True)}
        ui0 = [w0.call(w0.fn('interpolate'), x) for x in (alone.u0, alone.u) if x is not None]
        before = Problem(w, **{**o, 'tag': 'Z'}).solve()
        tz = pts_of(before)
        for anti in (False, True):
            outs(before, tz, anti)
        kinds = {k: v for k, v in o.items()}
        bigger = Problem(w, **{**kinds, 'tag': 'Y', 'L': o.get('L', 1) + 1}).solve()
        outs(bigger, pts_of(bigger))
        p = Problem(w, **o).solve()
        for anti in (True, False):
            cmp(ob, 'solved after other problems%s' % (' (antiderivatives)' if anti else ''), outs(p, taus, anti, ph), ref[anti])
        ui = [w.call(w.fn('interpolate'), x) for x in (p.u0, p.u) if x is not None]
        mu = [p.mus[0], D.neg(p.mus[-1]), D.ZERO]
        for j, (a, b) in enumerate(zip(ui, ui0)):
            args = [w.vec(mu), w.vec(taus)] + ([w.vec(ph)] if j else [])
            tup_eq(ob, 'interpolation after other problems', w.it.call(a, args, {}), w.it.call(b, args, {}))
    return fn


REUSE = [dict(L=2, f=True, iso=2, NF=2, bdrf=('func', 'func'), bpos='vector', bneg='matrix'), dict(L=3, f=True, nt=True, NLeg=3, NF=2, banded=3, bdrf=('func',)), dict(L=1, NF=2, iso=1, bdrf=('func', 'scalar')),
         dict(L=2, only_flux=True, f=True, bdrf=('func',), bneg='vector')]


def chk_reuse(o):
    """The caller's arrays, lists and functions change between two calls: each call sees what they are then."""
    def fn(w, ob):
        a, b = Problem(w, **o), Problem(w, **{**o, 'tag': 'Z'})
        fresh = Problem(w, **{**o, 'tag': 'Z'})
        ka, kb = a.args(), b.args()
        state = [0]
        def both(f, g):
            return lambda x, y: (g if state[0] else f)(x, y)
        modes = ka.get('BDRF_Fourier_modes', [])
        for i, (x, y) in enumerate(zip(list(modes), kb.get('BDRF_Fourier_modes', []))):
            if isinstance(x, I.Native):
                modes[i] = I.Native('rho', both(x.fn, y.fn), 'user')
        cached = w.fn('cache_BDRF_Fourier_modes')
        c1 = [w.call(cached, a.N, list(modes), a.mu0), w.call(cached, a.N, modes, a.mu0)] if modes else []
        pts = w.vec(a.mus)
        first = [[deep(w.call(f, pts, pts)) for f in c] for c in c1]
        p1 = a.solve_with(ka)
        t1 = pts_of(p1)
        ref = {n: deep(v) for n, v in outs(p1, t1).items()}
        # now everything changes in place
        state[0] = 1
        for n, v in user_args(ka).items():
            new = kb[n]
            if isinstance(v, Arr):
                for i, x in zip(v.offs(), new.cells()):
                    v.buf.data[i] = x
            else:
                for i, x in enumerate(new):
                    if not isinstance(v[i], I.Native):
                        v[i] = x
        k2 = {n: ka[n] if n in user_args(ka) else kb[n] for n in kb}
        p2 = b.solve_with(k2)
        p3 = fresh.solve()
        t2 = pts_of(p3)
        for anti in (False, True):
            cmp(ob, 'a call after the inputs changed in place uses their present values%s' % (' (antiderivative)' if anti else ''), outs(p2, t2, anti), outs(p3, t2, anti))
        cmp(ob, 'the results of the earlier call stay', outs(p1, t1), ref)
        for c, f0 in zip(c1, first):
            for f, v in zip(c, f0):
                ob_eq_deep(ob, 'cached reflection modes stay', w.call(f, pts, pts), v)
        if modes:
            c2 = w.call(cached, a.N, modes, b.mu0)
            c3 = w.call(cached, a.N, fresh.args()['BDRF_Fourier_modes'], b.mu0)
            for f, g in zip(c2, c3):
                for q in (pts, w.vec([b.mu0])):
                    ob_eq_deep(ob, 'modes cached after the functions changed', w.call(f, pts, q), w.call(g, pts, q))
    return fn


def ob_eq_deep(ob, lab, x, y):
    for a, b in zip(S.cells(x), S.cells(y)):
        ob.eq(lab, a, b)


# ------------------------------------------------------------------ options that must not matter
OPT = [dict(L=2, NF=2, mag='edge', f=True, iso=1), dict(L=2, NF=3, mag='edge2', f=True, bpos='scalar'), dict(N=3, L=2, NF=3, NLA=7, f=True, bdrf=('func', 'scalar')), dict(L=1, NF=2), dict(L=3, f=True, iso=2, NF=3, bdrf=('func', 'scalar'), bpos='scalar'), dict(L=2, f=True, iso=1, NF=4, bneg='vector'),
       dict(L=2, beam=False, iso=2, NF=2, bpos='vector', f=True), dict(N=1, L=2, f=True, NF=2, NLA=3, bdrf=('func', 'func')), dict(L=3, NF=2, banded=3, bneg='scalar', noscat=(1,)),
       dict(L=2, f_layers=(1,), noscat=(1,), NF=2, NLeg=3), dict(L=3, NF=4, iso=3, bpos='matrix', bdrf=('func',) * 4), dict(N=1, L=1, NF=2, NLA=2, iso=1, beam=False),
       dict(L=10, f=True, NF=2, NLeg=2), dict(L=1, NF=4, gzero=(1, 2)), dict(L=2, NF=4, gzero=(1,), f=True), dict(L=2, NF=3, gzero=(2,), NLA=6, bdrf=('func', 'func')),
       dict(L=2, NF=3, gzero=(1, 3), NLeg=3, mag='wide'), dict(L=2, NF=3, mag='tiny', f=True, iso=2), dict(L=3, NF=2, mag='mixed', f=True, bneg='scalar'), dict(L=2, NF=3, mag='faint', iso=1)]


def chk_options(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        taus = pts_of(p)
        for anti in (False, True):
            s = ' (antiderivatives)' if anti else ''
            r = outs(p, taus, anti)
            q = Problem(w, **{**o, 'only_flux': True, 'NF': None}).solve()
            cmp(ob, 'flux-only mode gives the same values' + s, outs(q, taus, anti), r)
            q1 = Problem(w, **{**o, 'NF': 1}).solve()
            cmp(ob, 'fluxes and zeroth mode do not depend on the number of Fourier modes' + s, outs(q1, taus, anti), r,
                [k for k in r if k != 'intensity'])
        m1 = u_modes(p, taus)
        for nf in range(1, p.NF):
            q = Problem(w, **{**o, 'NF': nf}).solve()
            m2 = u_modes(q, taus)
            for m in range(nf):
                for i in range(p.NQ):
                    for t in range(len(taus)):
                        ob.eq('Fourier mode %d does not depend on the number of modes requested (%d)' % (m, nf), m2[m][i][t], m1[m][i][t])
        # extra Legendre coefficients beyond NLeg only matter for the corrections
        o3 = {**o, 'NLA': p.o['NLA'] + 3, 'NLeg': p.NLeg}
        q = Problem(w, **o3).solve()
        cmp(ob, 'unused phase function coefficients do not matter', outs(q, taus), outs(p, taus))
        # corrections without anything to correct
        q = Problem(w, **o)
        if all(a.fp == 0 or b.fp == 0 for a, b in zip(q.f, q.om)):
            q.solve(NT_cor=True)
            cmp(ob, 'requesting corrections without delta-M scaling changes nothing', outs(q, taus), outs(p, taus))
    return fn
