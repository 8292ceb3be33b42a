"""Scenarios: shape/option classes of the public interface with symbolic input values, and the
driver that analyses one class (trace partitioning on undecided conditions)."""
import math
import os
import random
import time
import traceback
from fractions import Fraction
from . import field as F
from . import dom as D
from . import nd
from . import npm
from . import interp as I
from .dom import V
from .nd import Arr, PyExc, Unsupported

ROOT = os.environ.get('PDSA_ROOT', '/repo/src')
PKG = 'PythonicDISORT'


# ------------------------------------------------------------------ driver
class Leaf:
    def __init__(self, choices, result, world, error=None):
        self.choices = choices
        self.result = result
        self.world = world
        self.error = error
        self.start = None          # the sample point that the path was followed at


def seed_choices(ctx, choices):
    ctx.choices = dict(choices)
    for k, b in choices.items():
        if k[0] == 'lt':
            d = F.sub(k[2], k[1])
            iv = (0.0, True, D.inf, True) if b else (-D.inf, True, 0.0, False)
            ctx.facts[d] = iv
            ctx.facts[F.neg(d)] = D.ineg(iv)


LIMIT = [math.inf]      # when to stop following further paths (set by run.py)


def explore(fn, cap=48):
    """Run fn(world) for every consistent resolution of undecided conditions.  Beyond `cap` paths, a few
    more are followed that sample points of the class take.
    Returns (leaves, undecided_reasons)."""
    work, leaves, und = [({}, None)], [], []
    n = draws = 0
    D.SALT.clear()
    full = False
    conds = {}             # the comparisons behind the path conditions
    while work:
        ch, seed = work.pop()
        n += 1
        if time.time() > LIMIT[0]:
            und.append('time limit reached after %d paths' % len(leaves))
            break
        if n > cap and not full:
            full = True
            und.append('trace partitioning limit (%d) reached' % cap)
            work = [({}, g) for g in reversed(starts(leaves))]
            continue
        ctx = D.Ctx()
        D.set_ctx(ctx)
        seed_choices(ctx, ch)
        ctx.conds.update(conds)
        w = World(ctx)
        if seed is not None:
            ctx.guide = guide(w, *seed)
        try:
            res = fn(w)
            leaves.append(Leaf(dict(ctx.choices) if seed is not None else ch, res, w))
            leaves[-1].start = seed
        except D.Fork as f:
            if f.key[0] == 'top':
                und.append('condition on an unmodelled value (%s) at %s' % (f.key[1], f.loc))
                continue
            if seed is not None:
                und.append('condition not decided at the sample point at %s' % (f.loc,))
                continue
            conds.update(ctx.conds)
            for b in (True, False):
                c2 = dict(ch)
                c2[f.key] = b
                work.append((c2, None))
            w.conds_note(f)
        except D.Resalt as e:
            # start over with another hash value for one input of the matrix
            draws += 1
            names = sorted(e.names, key=lambda x: (x[:2] != 'om', x))
            if not names or draws > 400:
                und.append('eigenvalues outside the hash field')
                continue
            D.SALT[names[0]] = draws
            if full:                                     # the other paths keep their results
                work.append((ch, seed))
            else:
                work, leaves, und, n, conds = [({}, None)], [], [], 0, {}
        except Unsupported as e:
            und.append('unsupported: %s' % e)
        except PyExc as e:
            leaves.append(Leaf(dict(ctx.choices) if seed is not None else ch, None, w, e))
            leaves[-1].start = seed
        except RecursionError as e:
            und.append('recursion limit')
        except Exception as e:                      # analyser limitation, never an alarm
            if os.environ.get('PDSA_DEBUG'):
                raise
            und.append('analyser: %s: %s at %s [%s]' % (type(e).__name__, e, ctx.loc,
                       traceback.extract_tb(e.__traceback__)[-1][1:3]))
        finally:
            ctx.guide = None
    return leaves, und


def guide(w, seed, vals, forced):
    from . import wit
    p = wit.Point(w.base, seed, w.ctx.conds)
    p.vals, p.forced = dict(vals), set(forced)

    def f(key):
        try:
            return p.cond(key)
        except wit.NoValue:
            return None
    return f


def starts(leaves):
    """Sample points to follow: two anywhere, and some on the boundary of conditions that were met."""
    from . import wit
    out = [(0, {}, ()), (1, {}, ())]
    if time.process_time() > 240:      # this process has had its share
        return out
    # the conditions met last vary most among the paths explored so far
    ks = {}
    for lf in leaves[::-1]:
        for k in reversed(list(lf.choices)):
            if k[0] == 'lt' and k not in ks and k in lf.world.ctx.conds:
                ks[k] = lf
    ks = list(ks.items())
    for t, (k, lf) in enumerate(ks[:4] + ks[4::max(1, len(ks[4:]) // 2)][:2]):
        for want in (-1, 1):
            vals = wit._solve(lf.world.base, t, lf.world.ctx.conds, k, {}, set(), want) if len(out) < 10 else None
            if vals:
                out.append((t, vals, ()))
    return out


def feasible(leaf, tries=400):
    """Can the path conditions of this leaf hold?  True when a sampled point of the declared
    input ranges satisfies them; None when unknown."""
    if not leaf.choices:
        return True
    from . import wit
    return True if wit.points(leaf.world.base, leaf.world.ctx.conds, leaf.choices, 1, tries, start=leaf.start) else None


class World:
    """One abstract run: context, interpreter over the current sources, helper constructors."""
    def __init__(self, ctx, root=None):
        self.ctx = ctx
        self.it = I.Interp(root or ROOT, ctx)
        self.base = {}
        self.seen = set()

    def conds_note(self, f):
        pass

    # -- atoms
    def atom(self, name, lo=-D.inf, hi=D.inf, **k):
        self.base[name] = (lo, True, hi, True)
        return D.atom(name, lo, hi, **k)

    def vec(self, cells, owner=None):
        a = nd.new(list(cells), (len(cells),), 'f')
        a.buf.owner = owner
        return a

    def mat(self, rows, owner=None, shape=None):
        sh = shape or (len(rows), len(rows[0]) if rows else 0)
        a = nd.new([x for r in rows for x in r], sh, 'f')
        a.buf.owner = owner
        return a

    def mod(self, name='subroutines'):
        return self.it.load('%s.%s' % (PKG, name))

    def fn(self, name, mod='subroutines'):
        m = self.mod(mod)
        f = m.attrs.get(name)
        if f is None:
            raise Unsupported('%s.%s not found' % (mod, name))
        return f

    def call(self, f, *a, **k):
        return self.it.call(f, list(a), k)

    def attempt(self, f, *a, **k):
        """-> ('ok', value) or ('exc', PyExc)."""
        try:
            return 'ok', self.it.call(f, list(a), k)
        except PyExc as e:
            return 'exc', e

    def pydisort(self):
        top = self.it.load(PKG)
        sub = self.it.load(PKG + '.pydisort')
        f = sub.attrs.get('pydisort')
        if f is None:
            raise Unsupported('entry point not found')
        return f


def cells(x):
    if isinstance(x, Arr):
        return [nd.tov(v) for v in x.cells()]
    return [nd.tov(x)]


def shape(x):
    return x.shape if isinstance(x, Arr) else ()


def at(x, *idx):
    """Element of an abstract array given indices over its *unsqueezed* axes."""
    r = nd.getitem(x, tuple(idx)) if idx else x
    return nd.tov(r)


def unsq(x, shp):
    """View a squeezed result with its full axes (mu, tau, phi); None if sizes disagree."""
    n = nd.prod(shp)
    if isinstance(x, Arr):
        if x.size != n:
            return None
        want = tuple(d for d in shp if d != 1)
        got = tuple(d for d in x.shape if d != 1)
        if want != got:
            return None
        return nd.new(x.cells(), shp, 'f')
    if n != 1:
        return None
    return nd.new([x], shp, 'f')


def vsum(xs):
    r = D.ZERO
    for x in xs:
        r = D.add(r, x)
    return r


# ------------------------------------------------------------------ problem description
DEFAULT = dict(
    L=1, N=2, NLeg=None, NF=None, NLA=5,
    beam=True, iso=0, f=False, nt=False, bdrf=(), bpos='zero', bneg='zero',
    only_flux=False, banded=None, autograd=False, noscat=(), lowg=False, thin=False, tag='',
    scalars=False, mu0='mid', f_layers=None, isog=(), split=None, mag='mid', gzero=(),
    zeros=(), ties=(),       # inputs that are exactly zero; inputs equal to another one ('om1=om0')
)

# magnitude classes: intervals of the inputs (ts: optical thickness of a layer)
MAG = {
    'mid': dict(ts=1.0, om=(0.5, 0.9), g=(0.5, 0.9), f=(0.1, 0.3), I0=(0.5, 50.0), b=(0.1, 9.0), s=(0.1, 5.0), rho=(0.01, 0.3)),
    'tiny': dict(ts=1e-4, om=(1e-5, 1e-4), g=(0.05, 0.1), f=(1e-3, 1e-2), I0=(0.5, 2.0), b=(1e-3, 1e-2), s=(1e-3, 1e-2), rho=(1e-5, 1e-4)),
    'huge': dict(ts=30.0, om=(0.99, 0.999), g=(0.9, 0.94), f=(0.3, 0.5), I0=(1e3, 1e5), b=(100.0, 1e4), s=(50.0, 1e4), rho=(0.5, 0.9)),
    'faint': dict(ts=1.0, om=(0.5, 0.9), g=(0.5, 0.9), f=(0.1, 0.3), I0=(1e-12, 1e-10), b=(1e-12, 1e-10), s=(1e-12, 1e-10), rho=(0.01, 0.3)),
    'neg': dict(ts=1.0, om=(0.5, 0.9), g=(-0.5, -0.2), f=(0.05, 0.1), I0=(0.5, 50.0), b=(0.1, 9.0), s=(1.0, 5.0), s1=(-0.05, -0.01), rho=(0.01, 0.3)),
    # boundary values below zero (differences of physical solutions)
    'negb': dict(ts=1.0, om=(0.5, 0.9), g=(0.5, 0.9), f=(0.1, 0.3), I0=(0.5, 50.0), b=(-9.0, -0.1), s=(0.1, 5.0), rho=(0.01, 0.3)),
    # everything over many magnitudes at once: a comparison with a threshold anywhere in the
    # ranges is undecided and splits the class
    'wide': dict(ts=1e-3, om=(1e-3, 0.999), g=(1e-3, 0.94), f=(1e-6, 5e-4), I0=(1e-6, 1e5), b=(1e-6, 1e4), s=(1e-6, 1e4), rho=(1e-6, 0.9)),
}
# close to the ends of the documented ranges
MAG['edge'] = dict(ts=200.0, om=(0.999, 0.99999999), g=(0.95, 0.99999), f=(0.6, 0.94), I0=(1e8, 1e12), b=(1e8, 1e12), s=(1e8, 1e12), rho=(0.9, 0.9999))
MAG['edge2'] = dict(ts=1e-7, om=(0.9, 0.99), g=(-0.99999, -0.95), f=(1e-6, 1e-5), I0=(1e-25, 1e-20), b=(1e-25, 1e-20), s=(1e-25, 1e-20), rho=(1e-9, 1e-7))
# fractions so large that scaled coefficients are below -1
MAG['over'] = dict(MAG['mid'], om=(0.3, 0.5), g=(-0.25, -0.2), f=(0.52, 0.55))
# the whole documented ranges, including sign changes
MAG['full'] = dict(ts=1.0, om=(1e-6, 0.999), g=(-0.95, 0.95), f=(1e-6, 0.9), I0=(0.1, 5), b=(-5, 5), s=(-5, 5), rho=(0.01, 0.9))
MAG['thick'] = dict(MAG['mid'], ts=4000.0)          # transmissions below the floating point range
MAG['cloud'] = dict(MAG['mid'], ts=1000.0, om=(0.999999, 0.99999999), g=(0.01, 0.05), f=(0.001, 0.01), rho=(0.5, 0.99))    # thick, yet transmitting
MAG['steep'] = dict(MAG['mid'], ts=1.0)             # thin layers above layers that transmit nothing
SPAN = 30.0         # ratio covered by one optical depth in the 'wide' class
MIXED = ('mid', 'tiny', 'huge', 'neg')


class Problem:
    """Symbolic inputs for one shape/option class + the documented scaled quantities."""
    def __init__(self, w, **opt):
        o = dict(DEFAULT)
        for k in opt:
            if k not in o:
                raise KeyError(k)
        o.update(opt)
        self.o = o
        self.w = w
        L, N = o['L'], o['N']
        self.L, self.N, self.NQ = L, N, 2 * N
        self.NLeg = o['NLeg'] if o['NLeg'] is not None else min(self.NQ, o['NLA'])
        self.NF = 1 if o['only_flux'] else (o['NF'] if o['NF'] is not None else self.NLeg)
        ctx = w.ctx
        t = o['tag']
        at_ = self.atom
        # optical depths: layer i occupies an interval near (i, i+1) times ts; ordered for all values
        M = MAG[o['mag'] if o['mag'] != 'mixed' else 'mid']
        lay = [MAG[MIXED[i % len(MIXED)]] if o['mag'] == 'mixed' else M for i in range(L)]
        self.M = M
        ts = self.unit = M['ts']
        if o['mag'] in ('wide', 'steep'):
            self.T = [at_('T%d%s' % (i, t), ts * SPAN ** (2 * i), ts * SPAN ** (2 * i + 1)) for i in range(L)]
        else:
            self.T = [at_('T%d%s' % (i, t), ts * (i + 1 - 0.1), ts * (i + 1 + 0.1)) for i in range(L)]
        for i in range(L):
            for j in range(i):
                ctx.positive(D.sub(self.T[i], self.T[j]))
        self.om = [D.ZERO if i in o['noscat'] else at_('om%d%s' % (i, t), *lay[i]['om']) for i in range(L)]
        self.g = [[D.ONE] + [at_('g%d_%d%s' % (i, l, t), *lay[i]['g']) for l in range(1, o['NLA'])]
                  for i in range(L)]
        for l in o['gzero']:
            for i in range(L):
                self.g[i][l] = D.ZERO
        for i in o['isog']:
            self.g[i] = [D.ONE] + [D.ZERO] * (o['NLA'] - 1)
        fl = o['f_layers'] if o['f_layers'] is not None else (range(L) if o['f'] else ())
        self.f = [at_('f%d%s' % (i, t), *lay[i]['f']) if i in fl else D.ZERO for i in range(L)]
        self.anyf = bool(list(fl))
        self.mus, self.ws = npm.gauss_mu(N)
        if o['mu0'] == 'mid':
            self.mu0 = npm._odd_mu('mu0' + t, 0.55, 0.65)
        elif o['mu0'] == 'low':
            self.mu0 = npm._odd_mu('mu0' + t, 0.05, 0.1)
        elif o['mu0'] == 'graze':
            self.mu0 = npm._odd_mu('mu0' + t, 0.001, 0.002)
        elif o['mu0'] == 'one':
            self.mu0 = D.ONE
        elif o['mu0'] == 'any':
            self.mu0 = npm._odd_mu('mu0' + t, 0.01, 0.99)
        else:
            self.mu0 = npm._odd_mu('mu0' + t, 0.9, 0.95)
        if self.mu0.k is None:
            w.base['mu0' + t] = self.mu0.iv
            for m in self.mus:
                if m.iv[0] > self.mu0.iv[2]:
                    ctx.positive(D.sub(m, self.mu0))
                elif m.iv[2] < self.mu0.iv[0]:
                    ctx.positive(D.sub(self.mu0, m))
        for i, m in enumerate(self.mus):
            w.base[m.args[0]] = m.iv
        self.I0 = at_('I0' + t, *M['I0']) if o['beam'] else D.ZERO
        self.phi0 = at_('phi0' + t, 0.3, 5.9)
        self.bpos_in, self.bpos = self.bc(o['bpos'], 'bp')
        self.bneg_in, self.bneg = self.bc(o['bneg'], 'bn')
        ns = o['iso']
        self.s = [[at_('s%d_%d%s' % (i, k, t), *(M['s1'] if k and 's1' in M else M['s'])) for k in range(ns)] for i in range(L)]
        self.rho = []
        self.rho_in = []
        for m, kind in enumerate(o['bdrf']):
            if kind == 'scalar':
                v = at_('rho%d%s' % (m, t), *M['rho'])
                self.rho.append(lambda a, b, v=v: v)
                self.rho_in.append(v)
            elif any(x.split('=')[0] == 'rho%d' % m for x in o['ties']):       # the same function object
                j = [int(x.split('=')[1][3:]) for x in o['ties'] if x.split('=')[0] == 'rho%d' % m][0]
                self.rho.append(self.rho[j])
                self.rho_in.append(self.rho_in[j])
            else:
                nm = 'rho%d%s' % (m, t)
                fn = (lambda a, b, nm=nm: D.uf(nm, (a, b)))
                self.rho.append(fn)
                self.rho_in.append(I.Native(nm, self._mk(fn), 'user'))
        self.derive()

    def atom(self, nm, lo, hi):
        n = nm[:len(nm) - len(self.o['tag'])] if self.o['tag'] else nm
        if n in self.o['zeros']:
            return D.ZERO
        for x in self.o['ties']:
            a, b = x.split('=')
            if n == a:
                nm = b + self.o['tag']
        return self.w.atom(nm, lo, hi)

    def _mk(self, fn):
        def f(mu, mup):
            a, b = nd.asarr(mu), nd.asarr(mup)
            if a.ndim != 1 or b.ndim != 1:
                raise Unsupported('BDRF called with non-1D arguments')
            return nd.new([fn(nd.tov(x), nd.tov(y)) for x in a.cells() for y in b.cells()],
                          (a.shape[0], b.shape[0]), 'f')
        return f

    def bc(self, kind, nm):
        """-> (argument value, per-mode list of N values)"""
        N, NF = self.N, self.NF
        z = [[D.ZERO] * N for _ in range(NF)]
        if kind == 'zero':
            return 0, z
        if kind == 'scalar':
            v = self.atom(nm + self.o['tag'], *self.M['b'])
            z[0] = [v] * N
            return v, z
        if kind == 'vector':
            vs = [self.atom('%s_%d%s' % (nm, i, self.o['tag']), *self.M['b']) for i in range(N)]
            z[0] = vs
            return self.w.vec(vs, nm), z
        if kind == 'matrix':
            vs = [[self.atom('%s_%d_%d%s' % (nm, i, m, self.o['tag']), *self.M['b']) for m in range(NF)] for i in range(N)]
            return self.w.mat(vs, nm), [[vs[i][m] for i in range(N)] for m in range(NF)]
        raise KeyError(kind)

    def derive(self):
        """Documented delta-M similarity quantities (section 3.3 of the documentation)."""
        L = self.L
        self.T0 = [D.ZERO] + self.T
        self.scale = [D.sub(D.ONE, D.mul(self.om[i], self.f[i])) for i in range(L)]
        self.ts = [D.ZERO]
        for i in range(L):
            self.ts.append(D.add(self.ts[-1], D.mul(self.scale[i], D.sub(self.T0[i + 1], self.T0[i]))))
        # signs that interval arithmetic cannot see because of cancellation
        pos = lambda v: v.kind == D.NORM and (v.iv[0] > 0 or v.iv[0] == 0 and v.iv[1])
        thick = [D.sub(self.T0[i + 1], self.T0[i]) for i in range(L)]
        self.ordered = all(map(pos, thick)) and all(map(pos, self.scale))
        if self.ordered:
            for i in range(L):
                for j in range(i + 1, L + 1):
                    self.w.ctx.positive(D.sub(self.ts[j], self.ts[i]))
            if pos(self.mu0):
                for m in self.mus:
                    d = D.sub(D.div(D.ONE, m), D.div(D.ONE, self.mu0))
                    if m.iv[2] < self.mu0.iv[0] or m.iv[0] > self.mu0.iv[2]:
                        for i in range(L):
                            x = D.mul(d, D.mul(self.scale[i], thick[i]))
                            self.w.ctx.positive(x if m.iv[2] < self.mu0.iv[0] else D.neg(x))
        self.oms = [D.div(D.mul(self.om[i], D.sub(D.ONE, self.f[i])), self.scale[i]) for i in range(L)]
        self.gs = [[D.div(D.sub(x, self.f[i]), D.sub(D.ONE, self.f[i])) for x in self.g[i][:self.NLeg]]
                   for i in range(L)]

    # -- arguments
    def args(self, **over):
        w, o = self.w, self.o
        if o['scalars'] and self.L == 1:
            tau, om, f = self.T[0], self.om[0], self.f[0]
            leg = w.vec(self.g[0], 'Leg_coeffs_all')
        else:
            tau = w.vec(self.T, 'tau_arr')
            om = w.vec(self.om, 'omega_arr')
            f = w.vec(self.f, 'f_arr')
            leg = w.mat(self.g, 'Leg_coeffs_all')
        k = dict(tau_arr=tau, omega_arr=om, NQuad=self.NQ, Leg_coeffs_all=leg,
                 mu0=self.mu0, I0=self.I0 if o['beam'] else 0, phi0=self.phi0)
        if o['NLeg'] is not None or self.NLeg != self.NQ:
            k['NLeg'] = self.NLeg
        if o['NF'] is not None or (self.NF != self.NQ and not o['only_flux']):
            k['NFourier'] = self.NF
        if o['bpos'] != 'zero':
            k['b_pos'] = self.bpos_in
        if o['bneg'] != 'zero':
            k['b_neg'] = self.bneg_in
        if o['only_flux']:
            k['only_flux'] = True
        if self.anyf:
            k['f_arr'] = f
        if o['nt']:
            k['NT_cor'] = True
        if o['bdrf']:
            lst = list(self.rho_in)
            self.w.ctx.owned_lists[id(lst)] = (lst, 'BDRF_Fourier_modes')
            k['BDRF_Fourier_modes'] = lst
        if o['iso']:
            k['s_poly_coeffs'] = w.mat(self.s, 's_poly_coeffs')
        if o['banded'] is not None:
            k['use_banded_solver_NLayers'] = o['banded']
        if o['autograd']:
            k['autograd_compatible'] = True
        k.update(over)
        self.k = k
        return k

    def solve(self, **over):
        return self.solve_with(self.args(**over))

    def solve_with(self, k):
        out = self.w.it.call(self.w.pydisort(), [], k)
        if not isinstance(out, tuple) or len(out) != (4 if self.o['only_flux'] else 5):
            raise Bad('pydisort does not return the documented tuple (got %r)' % (out,))
        self.mu_arr = out[0]
        self.fu, self.fd, self.u0 = out[1:4]
        self.u = out[4] if len(out) > 4 else None
        return self

    # -- queries
    def tau_q(self, l, name='q', frac=0.5):
        """A tracked optical depth strictly inside layer l."""
        w = self.w
        nm = '%s%d%s' % (name, l, self.o['tag'])
        u = self.unit
        if self.o['mag'] in ('wide', 'steep'):
            lo = u * SPAN ** (2 * l - 1)
            v = w.atom(nm, lo * SPAN ** (0.1 + 0.6 * frac), lo * SPAN ** (0.3 + 0.6 * frac), track=True)
        else:
            v = w.atom(nm, u * (l + 0.2 + 0.3 * frac), u * (l + 0.3 + 0.3 * frac), track=True)
        for j in range(self.L):
            d = D.sub(self.T[j], v)
            if j >= l:
                w.ctx.positive(d)
            else:
                w.ctx.positive(D.neg(d))
        if self.ordered:
            sv = D.sub(self.ts[l + 1], D.mul(D.sub(self.T[l], v), self.scale[l]))
            for j in range(self.L + 1):
                d = D.sub(self.ts[j], sv)
                w.ctx.positive(d if j > l else D.neg(d))
        return v

    def scaled(self, tau, l):
        """tau* for a point in layer l."""
        return D.add(self.ts[l], D.mul(self.scale[l], D.sub(tau, self.T0[l])))

    # -- phase-function kernels (documentation sections 3.4-3.6)
    def plm(self, m, l, x):
        return npm.lpmv_scalar(m, l, x)

    def kern(self, m, i, x, y):
        """sum_l (2l+1) g*_l (l-m)!/(l+m)! P_l^m(x) P_l^m(y) for layer i."""
        acc = D.ZERO
        for l in range(m, self.NLeg):
            fac = Fraction(math.factorial(l - m), math.factorial(l + m)) * (2 * l + 1)
            acc = D.add(acc, D.mul(D.mul(D.c(fac), self.gs[i][l]),
                                   D.mul(self.plm(m, l, x), self.plm(m, l, y))))
        return acc

    def mu_full(self):
        return list(self.mus) + [D.neg(x) for x in self.mus]

    def Dmat(self, m, i):
        key = (m, i)
        if not hasattr(self, '_D'):
            self._D = {}
        if key not in self._D:
            mu = self.mu_full()
            h = D.div(self.oms[i], D.c(2))
            self._D[key] = [[D.mul(h, self.kern(m, i, a, b)) for b in mu] for a in mu]
        return self._D[key]

    def Qvec(self, m, i):
        key = (m, i)
        if not hasattr(self, '_Q'):
            self._Q = {}
        if key not in self._Q:
            fac = D.mul(D.div(self.I0, D.mul(D.c(4), D.PI)), D.mul(self.oms[i], D.c(1 if m == 0 else 2)))
            self._Q[key] = [D.mul(fac, self.kern(m, i, a, D.neg(self.mu0))) for a in self.mu_full()]
        return self._Q[key]

    def src(self, i, tau):
        acc = D.ZERO
        for k, s in enumerate(self.s[i]):
            acc = D.add(acc, D.mul(s, D.ipow(tau, k)))
        return D.mul(D.sub(D.ONE, self.om[i]), acc)

    def beam_att(self, tau_star):
        return D.exp(D.neg(D.div(tau_star, self.mu0)))


class Bad(Exception):
    """A property violation established by the analysis."""
    def __init__(self, msg, v=None, loc=None):
        Exception.__init__(self, msg)
        self.v = v
        self.loc = loc
