"""Global symmetries of the solution: mirror image, reciprocity, pure absorption, independent azimuthal modes."""
from . import dom as D
from . import nd
from . import interp as I
from . import scen as S
from .scen import Problem, at, vsum
from .p_solver import (ask, full, phis, tau_sets, act_funcs, u_modes, u0_vals, confs, name)
from .p_api import outs
from .p_more import poly_affine


def _key(o):
    return tuple(sorted(o.items()))


def _uniq(xs):
    seen, out = set(), []
    for o in xs:
        if _key(o) not in seen:
            seen.add(_key(o))
            out.append(o)
    return out


def _out(p, out):
    p.mu_arr, p.fu, p.fd, p.u0 = out[:4]
    p.u = out[4] if len(out) > 4 else None
    return p


# ------------------------------------------------------------------ mirror image
def mirror_confs(tier):
    r = []
    kinds = ('zero', 'scalar', 'vector', 'matrix')
    for i, o in enumerate(confs(tier)):
        d = {k: v for k, v in o.items() if k not in ('bdrf', 'nt', 'mu0')}
        d.update(beam=False, scalars=False)
        if d.get('bpos', 'zero') == 'zero' and d.get('bneg', 'zero') == 'zero' and not d.get('iso'):
            d[('bpos', 'bneg')[i % 2]] = kinds[1 + i % 3]
        r.append(d)
    return _uniq(r)


def chk_mirror(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        q = Problem(w, **o)
        L, N, bot = p.L, p.N, p.T[-1]
        for t in p.T:
            w.ctx.positive(t)
        rev = lambda xs: list(reversed(xs))
        k = q.args(tau_arr=w.vec([D.sub(bot, p.T0[L - i]) for i in range(1, L + 1)]), omega_arr=w.vec(rev(p.om)), Leg_coeffs_all=w.mat(rev(p.g)))
        for a, b in (('bpos', 'b_neg'), ('bneg', 'b_pos')):
            k.pop(b, None)
            if o.get(a, 'zero') != 'zero':
                k[b] = q.bpos_in if a == 'bpos' else q.bneg_in
        if q.anyf:
            k['f_arr'] = w.vec(rev(p.f))
        if o.get('iso'):
            k['s_poly_coeffs'] = w.mat([poly_affine(s, D.c(-1), bot) for s in rev(p.s)])
        _out(q, w.it.call(w.pydisort(), [], k))
        for label, pts in tau_sets(p):
            taus = [t for t, _ in pts]
            for t in taus:
                if t.deps:
                    w.ctx.positive(t)
            A, B = outs(p, taus), outs(q, [D.sub(bot, t) for t in taus])
            n = len(taus)
            for nm, other in (('upward flux', 'downward diffuse flux'), ('downward diffuse flux', 'upward flux'),
                              ('upward actinic flux', 'downward actinic flux'), ('downward actinic flux', 'upward actinic flux')):
                ob.arr_eq('%s of the atmosphere turned upside down (%s)' % (nm, label), B[other], A[nm])
            for nm in ('zeroth mode', 'intensity'):
                if nm not in A:
                    continue
                nph = A[nm].shape[2] if nm == 'intensity' else 1
                for i in range(2 * N):
                    j = (i + N) % (2 * N)
                    for t in range(n):
                        for h in range(nph):
                            ia = (i, t, h) if nm == 'intensity' else (i, t)
                            ib = (j, t, h) if nm == 'intensity' else (j, t)
                            ob.eq('%s in direction %d of the atmosphere turned upside down (%s)' % (nm, j, label), at(B[nm], *ib), at(A[nm], *ia))
    return fn


# ------------------------------------------------------------------ reciprocity
def recip_confs(tier):
    r = []
    for i, o in enumerate(confs(tier)):
        d = {k: v for k, v in o.items() if k not in ('nt', 'mu0', 'iso')}
        if d.get('noscat') == tuple(range(d.get('L', 1))) or d.get('N') == 1:
            continue
        d.update(beam=False, scalars=False)
        if d.get('bneg', 'zero') in ('zero', 'scalar'):
            d['bneg'] = ('matrix', 'vector')[i % 2]
        r.append(d)
    return _uniq(r)


def _symmetric(p):
    """Surface reflection symmetric in the two directions."""
    w = p.w
    for m, kind in enumerate(p.o['bdrf']):
        if kind != 'scalar':
            nm = 'rho%d' % m
            j = [int(x.split('=')[1][3:]) for x in p.o['ties'] if x.split('=')[0] == nm]
            if j:
                p.rho[m], p.rho_in[m] = p.rho[j[0]], p.rho_in[j[0]]
                continue
            fn = (lambda a, b, nm=nm: D.uf(nm, (D.add(a, b), D.mul(a, b))))
            p.rho[m] = fn
            p.rho_in[m] = I.Native(nm, p._mk(fn), 'user')
    return p


def chk_recip(o):
    def fn(w, ob):
        p = _symmetric(Problem(w, **o)).solve()
        q = _symmetric(Problem(w, **o))
        over = {}
        for kind, nm in (('bpos', 'b_pos'), ('bneg', 'b_neg')):
            if o.get(kind, 'zero') != 'zero':
                over[nm] = q.bc(o[kind], 'second' + kind)[0]
        q.solve(**over)
        mu, W = p.mus, p.ws
        N = p.N
        for label, pts in tau_sets(p)[:2]:
            taus = [D.ZERO] + [t for t, _ in pts] + [p.T[-1]]
            for (fnm, A), B in zip(_modes(p, taus), [b for _, b in _modes(q, taus)]):
                for m in range(len(A)):
                    form = [vsum([D.mul(D.mul(mu[i], W[i]), D.sub(D.mul(A[m][N + i][t], B[m][i][t]), D.mul(A[m][i][t], B[m][N + i][t])))
                                  for i in range(N)]) for t in range(len(taus))]
                    for t in range(1, len(taus)):
                        ob.eq('%s: mode %d: the reciprocity form of two solutions is the same at every depth (%s)' % (fnm, m, label), form[t], form[0], A[m][0][t])
                    if o.get('bpos', 'zero') == 'zero' or (m and o['bpos'] != 'matrix'):
                        ob.zero('%s: mode %d: exchanging illumination and viewing direction leaves the reflection unchanged (%s)' % (fnm, m, label), form[0], A[m][0][0])
    return fn


def _modes(p, taus):
    r = [('u0', [u0_vals(p, taus)])]
    if p.u is not None:
        r.append(('u', u_modes(p, taus)))
    return r


# ------------------------------------------------------------------ pure absorption
def absorb_confs(tier):
    r = []
    for o in confs(tier):
        d = {k: v for k, v in o.items() if k not in ('nt', 'isog')}
        d['noscat'] = tuple(range(d.get('L', 1)))
        if d.get('N', 2) > 2 and d.get('NLA', 5) > 4 and d.get('L', 1) < 3:
            d['N'] = 5
        r.append(d)
    return _uniq(r)


def chk_absorb(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        N, L = p.N, p.L
        I0, mu0 = p.I0, p.mu0
        att = lambda t: D.exp(D.neg(D.div(t, mu0))) if o.get('beam', True) else D.ZERO

        def part(l, x, t):
            # sum_n (x d/dt)^n s_l(t)
            cs, acc, f = list(p.s[l]), D.ZERO, D.ONE
            while cs:
                v = D.ZERO
                for c_ in reversed(cs):
                    v = D.add(D.mul(v, t), c_)
                acc = D.add(acc, D.mul(f, v))
                f = D.mul(f, x)
                cs = [D.mul(D.c(k), cs[k]) for k in range(1, len(cs))]
            return acc

        def field(m):
            """-> function (i, tau, l) of the exact mode m"""
            emit = m == 0 and bool(o.get('iso'))
            P = (lambda l, x, t: part(l, x, t)) if emit else (lambda l, x, t: D.ZERO)
            down = []
            for i in range(N):
                v, tops = p.bneg[m][i], []
                for l in range(L):
                    tops.append(v)
                    x = D.neg(p.mus[i])
                    v = D.add(P(l, x, p.T0[l + 1]), D.mul(D.sub(v, P(l, x, p.T0[l])), D.exp(D.div(D.sub(p.T0[l + 1], p.T0[l]), x))))
                down.append((tops, v))
            up = []
            for i in range(N):
                v = p.bpos[m][i]
                if m < len(p.rho):
                    acc = vsum([D.mul(D.mul(D.mul(p.mus[j], p.ws[j]), p.rho[m](p.mus[i], p.mus[j])), down[j][1]) for j in range(N)])
                    v = D.add(v, D.mul(D.c(2 if m == 0 else 1), acc))
                    if o.get('beam', True):
                        v = D.add(v, D.mul(D.mul(D.div(D.mul(mu0, I0), D.PI), p.rho[m](p.mus[i], mu0)), att(p.T[-1])))
                bots = [None] * L
                for l in reversed(range(L)):
                    bots[l] = v
                    x = p.mus[i]
                    v = D.add(P(l, x, p.T0[l]), D.mul(D.sub(v, P(l, x, p.T0[l + 1])), D.exp(D.div(D.sub(p.T0[l], p.T0[l + 1]), x))))
                up.append(bots)

            def val(i, t, l):
                if i < N:
                    x, v, t0 = p.mus[i], up[i][l], p.T0[l + 1]
                else:
                    x, v, t0 = D.neg(p.mus[i - N]), down[i - N][0][l], p.T0[l]
                return D.add(P(l, x, t), D.mul(D.sub(v, P(l, x, t0)), D.exp(D.div(D.sub(t, t0), x))))
            return val
        exact = [field(m) for m in range(p.NF)]
        for label, pts in tau_sets(p):
            taus = [t for t, _ in pts]
            n = len(taus)
            for fnm, vals in _modes(p, taus):
                for m in range(len(vals)):
                    for k, (t, l) in enumerate(pts):
                        for i in range(2 * N):
                            ob.eq('%s: mode %d, direction %d is the attenuated radiation from the boundaries and the medium (%s)' % (fnm, m, i, label), vals[m][i][k], exact[m](i, t, l))
            fu = full('upward flux', ask(p, p.fu, taus), (n,))
            fd = ask(p, p.fd, taus)
            if not isinstance(fd, tuple) or len(fd) != 2:
                raise S.Bad('the downward flux is not a (diffuse, direct) pair')
            dif, dr = (full('downward flux', x, (n,)) for x in fd)
            for k, (t, l) in enumerate(pts):
                for nm, r, half in (('upward flux', fu, 0), ('downward diffuse flux', dif, N)):
                    ob.eq('%s through a purely absorbing atmosphere (%s)' % (nm, label), at(r, k),
                          D.mul(D.mul(D.c(2), D.PI), vsum([D.mul(D.mul(p.mus[i], p.ws[i]), exact[0](half + i, t, l)) for i in range(N)])))
                ob.eq('direct flux through a purely absorbing atmosphere (%s)' % label, at(dr, k), D.mul(D.mul(I0, mu0), att(t)))
    return fn


# ------------------------------------------------------------------ azimuthal modes
def mode_confs(tier):
    r = []
    for o in confs(tier):
        if o.get('only_flux') or o.get('L', 1) > 6 or o.get('noscat') == tuple(range(o.get('L', 1))):
            continue
        d = {k: v for k, v in o.items() if k not in ('nt',)}
        p_nf = d['NF'] if d.get('NF') is not None else (d['NLeg'] if d.get('NLeg') else min(2 * d.get('N', 2), d.get('NLA', 5)))
        if p_nf < 2:
            nl = d['NLeg'] if d.get('NLeg') is not None else min(2 * d.get('N', 2), d.get('NLA', 5))
            if nl < 2:
                continue
            d['NF'] = 2
        r.append(d)
    return _uniq(r)


def chk_modes(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        sets = tau_sets(p)
        queries = [[t for t, _ in sets[min(1, len(sets) - 1)][1]]]
        if p.L > 1:     # queries which visit a single layer
            queries += [[p.tau_q(p.L - 1, 'qf')], [p.tau_q(0, 'qg')]]
        Ps = [_modes(p, taus) for taus in queries]
        NF = p.NF
        for m in sorted({0, 1, NF - 1}):
            q = Problem(w, **o)
            z = Problem(w, **dict(o, tag='other'))
            over = {}
            for l in range(p.L):
                for c_ in range(1, min(m, len(q.g[l]))):
                    if not (q.g[l][c_].k is not None):
                        q.g[l][c_] = z.g[l][c_]
            for kind, nm, mine, theirs in (('bpos', 'b_pos', q.bpos, z.bpos), ('bneg', 'b_neg', q.bneg, z.bneg)):
                if o.get(kind, 'zero') == 'matrix':
                    over[nm] = w.mat([[(mine if k == m else theirs)[k][i] for k in range(NF)] for i in range(p.N)])
                elif o.get(kind, 'zero') != 'zero' and m:
                    over[nm] = getattr(z, kind + '_in')
            if m and o.get('iso'):
                q.s = z.s
            q.rho_in = [x if k == m else y for k, (x, y) in enumerate(zip(q.rho_in, z.rho_in))]
            q.solve(**over)
            for taus, P in zip(queries, Ps):
                for (fnm, A), (_, B) in zip(P, _modes(q, taus)):
                    if m >= len(A):
                        continue
                    for i in range(p.NQ):
                        for t in range(len(taus)):
                            ob.eq('%s: mode %d, direction %d does not depend on the other modes of the problem' % (fnm, m, i), B[m][i][t], A[m][i][t])
    return fn


# ------------------------------------------------------------------ a part of the atmosphere on its own
def part_confs(tier):
    base = [dict(L=2, NF=2, f=True, iso=2, bdrf=('func', 'scalar')), dict(L=3, NF=1, f=True, iso=1, bpos='scalar', bneg='vector'), dict(L=4, NF=2, f_layers=(0, 2), banded=3, bdrf=('func',), noscat=(1,)),
            dict(L=2, NF=3, beam=False, bpos='matrix', bneg='matrix', iso=1), dict(N=1, L=3, NLA=3, NF=2, f=True, iso=3, bdrf=('scalar', 'func')), dict(L=3, NF=2, noscat=(2,), iso=2, bneg='scalar'),
            dict(L=2, NF=2, mag='tiny', f=True), dict(L=2, NF=1, mag='wide', iso=1, f=True), dict(L=3, NF=2, isog=(1,), f=True), dict(N=3, L=2, NF=1, NLA=7, f=True, iso=1, bdrf=('func',)),
            dict(L=5, NF=1, banded=3, f=True, iso=1, bdrf=('scalar',)), dict(L=2, NF=4, mu0='one', f=True)]
    base += [dict(L=2, NF=1, mag=m, f=True, noscat=n, iso=i) for m, n, i in (('full', (0, 1), 0), ('steep', (0, 1), 1), ('wide', (0, 1), 0), ('huge', (0,), 0), ('full', (0,), 0))]
    more = [o for o in confs(tier) if o.get('L', 1) > 1 and not o.get('only_flux') and o.get('L', 1) <= 11
            and not (o.get('beam') is False and o.get('NF', 1) > 1 and not o.get('iso'))]     # the radiation at the interface is not positive in every mode
    return base + [o for o in more if o not in base]


def chk_part(o):
    def fn(w, ob):
        p = Problem(w, **o).solve()
        N, L, NF = p.N, p.L, p.NF
        for t in p.T:
            w.ctx.positive(t)
        for k in range(1, L):
            edge = p.T[k - 1]
            M = u_modes(p, [edge])
            up = [[M[m][i][0] for m in range(NF)] for i in range(N)]
            dn = [[M[m][N + i][0] for m in range(NF)] for i in range(N)]
            for x in [r[0] for r in up + dn]:
                if x.fp:
                    w.ctx.positive(x)          # the analysed inputs: those whose radiation is positive there
            cut = lambda lo, hi, T: dict(tau_arr=w.vec(T), omega_arr=w.vec(p.om[lo:hi]), Leg_coeffs_all=w.mat(p.g[lo:hi]), **({'f_arr': w.vec(p.f[lo:hi])} if p.anyf else {}))
            pts = [(p.tau_q(l, 'qi', 0.4), l) for l in range(L)] + [(D.ZERO, 0)] + [(t, l) for l, t in enumerate(p.T)]
            # above
            a = p.args(**cut(0, k, p.T[:k]), b_pos=w.mat(up))
            a.pop('BDRF_Fourier_modes', None)
            # below
            b = p.args(**cut(k, L, [D.sub(t, edge) for t in p.T[k:]]), b_neg=w.mat(dn))
            if p.o['beam']:
                b['I0'] = D.mul(p.I0, D.exp(D.neg(D.div(p.scaled(edge, k - 1), p.mu0))))
            if p.o['iso']:
                a['s_poly_coeffs'] = w.mat(p.s[:k])
                b['s_poly_coeffs'] = w.mat([poly_affine(s, D.ONE, D.neg(edge)) for s in p.s[k:]])
            for lab, args, lo, hi, sh in (('above', a, 0, k, D.ZERO), ('below', b, k, L, edge)):
                q = Problem.__new__(Problem)
                q.__dict__.update(p.__dict__)
                _out(q, w.it.call(w.pydisort(), [], args))
                here = [t for t, l in pts if lo <= l < hi] + ([edge] if lab == 'below' else [])
                for t in here:
                    if t.deps:
                        w.ctx.positive(t)
                x, y = u_modes(p, here), u_modes(q, [D.sub(t, sh) for t in here])
                for m in range(NF):
                    for i in range(2 * N):
                        for t in range(len(here)):
                            ob.eq('mode %d, direction %d, of the layers %s interface %d on their own' % (m, i, lab, k), y[m][i][t], x[m][i][t])
    return fn
