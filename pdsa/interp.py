"""Abstract interpreter for the Python subset of the analysed package.

Works on the syntax trees of /repo's current sources; nothing of the package is imported or
executed.  Every value is an element of the abstract domains of dom.py / nd.py."""
import ast
import os
import math
from fractions import Fraction
from . import dom as D
from . import nd
from . import npm
from . import npx
from .dom import V, UB
from .nd import Arr, PyExc, Unsupported, asarr

MAX_STEPS = 6_000_000


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Env:
    __slots__ = ('vars', 'parent', 'globs', 'nonl', 'glob', 'yields', 'locals')

    def __init__(self, parent, globs):
        self.vars = {}
        self.parent = parent
        self.globs = globs
        self.nonl = set()
        self.glob = set()
        self.yields = None
        self.locals = None


class Code:
    def __init__(self, f):
        a = f.node.args
        self.co_argcount = len(a.posonlyargs) + len(a.args)
        self.co_kwonlyargcount = len(a.kwonlyargs)
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.co_varnames = tuple(names + sorted(f.local_names - set(names)))
        self.co_name = f.name


class Func:
    def __init__(self, interp, node, env, defaults, kwdefaults, name, file):
        self.interp = interp
        self.node = node
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name
        self.file = file
        self.attrs = {}
        self.local_names = interp.local_names(node)
        self.is_gen = interp.is_generator(node)

    def __repr__(self):
        return '<function %s>' % self.name


class Native:
    """A modelled library function."""
    def __init__(self, name, fn, mod='', raw=False):
        self.name = name
        self.fn = fn
        self.mod = mod
        self.raw = raw       # receives (interp, args, kwargs)
        self.attrs = {}

    def __repr__(self):
        return '<native %s.%s>' % (self.mod, self.name)


class Ufunc(Native):
    def __init__(self, name, mod):
        Native.__init__(self, name, None, mod)


class Module:
    def __init__(self, name, attrs=None, getter=None):
        self.name = name
        self.attrs = attrs if attrs is not None else {}
        self.getter = getter

    def get(self, n):
        if n in self.attrs:
            return self.attrs[n]
        if self.getter is not None:
            return self.getter(n)
        raise PyExc('AttributeError', "module '%s' has no attribute '%s'" % (self.name, n))

    def __repr__(self):
        return '<module %s>' % self.name


class Cls:
    def __init__(self, name, bases, attrs, dataclass=False, fields=()):
        self.name = name
        self.bases = bases
        self.attrs = attrs
        self.fields = list(fields)
        self.kind = None

    def lookup(self, n):
        if n in self.attrs:
            return self.attrs[n]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None


class Inst:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}


class Bound:
    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_


class Partial:
    def __init__(self, fn, args, kw):
        self.fn = fn
        self.args = args
        self.kw = kw


class ExcType:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


NDARRAY = ExcType('ndarray')


class ExcObj:
    def __init__(self, name, args):
        self.name = name
        self.args = args


EXC_PARENTS = {'ValueError': 'Exception', 'TypeError': 'Exception', 'IndexError': 'LookupError', 'KeyError': 'LookupError',
               'LookupError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception',
               'AttributeError': 'Exception', 'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
               'LinAlgError': 'ValueError', 'AxisError': 'ValueError', 'AssertionError': 'Exception', 'NameError': 'Exception',
               'UnboundLocalError': 'NameError', 'StopIteration': 'Exception', 'ImportError': 'Exception',
               'ModuleNotFoundError': 'ImportError', 'OverflowError': 'ArithmeticError', 'FloatingPointError': 'ArithmeticError',
               'Warning': 'Exception', 'UserWarning': 'Warning', 'RuntimeWarning': 'Warning', 'DeprecationWarning': 'Warning',
               'FutureWarning': 'Warning', 'Exception': 'BaseException', 'UnicodeError': 'ValueError', 'OSError': 'Exception',
               'MemoryError': 'Exception', 'RecursionError': 'RuntimeError', 'BaseException': None}


def exc_is(name, cls):
    while name is not None:
        if name == cls:
            return True
        name = EXC_PARENTS.get(name, 'Exception' if name not in ('BaseException', 'Exception') else EXC_PARENTS.get(name))
    return False


class Ctxmgr:
    pass


class Suppress:
    def __init__(self, types):
        self.types = types


BUFFER_BREAKERS = {'concatenate', 'stack', 'hstack', 'vstack', 'append', 'array', 'asarray', 'asanyarray', 'atleast_1d',
                   'atleast_2d', 'atleast_3d', 'einsum', 'insert', 'column_stack', 'where', 'block', 'matmul', 'tile',
                   'broadcast_to', 'outer', 'tensordot', 'expand_dims'}
# autograd.numpy functions without a gradient rule that accept array input
AUTOGRAD_NOGRAD_ERR = {'cumprod', 'insert', 'delete', 'interp', 'divide_out', 'unwrap', 'nancumsum', 'put', 'copyto', 'take_along_axis',
                       'polyval', 'trapezoid', 'trapz', 'apply_along_axis', 'ediff1d'}


class Interp:
    def __init__(self, root, ctx):
        self.root = root
        self.ctx = ctx
        self.modules = {}
        self.steps = 0
        self.depth = 0
        self.called = {}
        self.call_sites = 0
        self.sites = set()
        self.hook = None
        self._ln = {}
        self._gen = {}
        self.trees = {}
        self.np = self.make_np('numpy')
        self.anp = self.make_np('autograd.numpy')
        self.scipy = self.make_scipy()
        self.builtins = self.make_builtins()

    @property
    def covered(self):
        short = lambda f: f[f.find('PythonicDISORT'):]
        return ({'%s:%s' % (short(k[0]), k[2]) for k in self.called}, {(short(a), b) for a, b in self.sites})

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.split('.')
        path = os.path.join(self.root, *rel)
        if os.path.isdir(path):
            path = os.path.join(path, '__init__.py')
        else:
            path += '.py'
        if not os.path.exists(path):
            raise PyExc('ModuleNotFoundError', "No module named '%s'" % name)
        tree = self.parse(path)
        m = Module(name)
        self.modules[name] = m
        m.attrs['__name__'] = name
        env = Env(None, m.attrs)
        env.vars = m.attrs
        short = os.path.relpath(path, os.path.dirname(os.path.dirname(self.root)) if False else self.root)
        saved = D.CTX.loc
        self.file_stack = getattr(self, 'file_stack', [])
        m.file = short
        for st in tree.body:
            self.exec_stmt(st, env, short, '<module>')
        D.CTX.loc = saved
        return m

    _parsed = {}

    def parse(self, path):
        with open(path, encoding='utf-8') as f:
            src = f.read()
        key = (path, hash(src))
        if key not in Interp._parsed:
            try:
                Interp._parsed[key] = ast.parse(src, path)
            except SyntaxError as e:
                raise Unsupported('syntax error in %s: %s' % (path, e))
        return Interp._parsed[key]

    def import_module(self, name):
        top = name.split('.')[0]
        if top == 'PythonicDISORT':
            m = self.load('PythonicDISORT')
            parts = name.split('.')
            for i in range(1, len(parts)):
                sub = self.load('.'.join(parts[:i + 1]))
                m.attrs.setdefault(parts[i], sub)
                m = sub
            return m
        if name in ('numpy',):
            return self.np
        if name.startswith('numpy.'):
            m = self.np
            for p in name.split('.')[1:]:
                m = m.get(p)
            return m
        if name in ('autograd', 'autograd.numpy') or name.startswith('autograd.'):
            if name == 'autograd':
                return Module('autograd', {'numpy': self.anp})
            m = self.anp
            for p in name.split('.')[2:]:
                m = m.get(p)
            return m
        if top == 'scipy':
            m = self.scipy
            for p in name.split('.')[1:]:
                m = m.get(p)
            return m
        if name == 'math':
            return self.make_math()
        if name == 'warnings':
            return self.make_warnings()
        if name == 'functools':
            return self.make_functools()
        if name == 'itertools':
            return self.make_itertools()
        if name == 'operator':
            return self.make_operator()
        if name == 'copy':
            return Module('copy', {'copy': Native('copy', self.shallow_copy), 'deepcopy': Native('deepcopy', self.deep_copy)})
        if name == 'collections':
            return Module('collections', {'namedtuple': Native('namedtuple', self.namedtuple),
                                          'defaultdict': Native('defaultdict', lambda f=None, *a: DefDict(self, f)),
                                          'OrderedDict': Native('OrderedDict', dict),
                                          'deque': Native('deque', lambda x=(), maxlen=None: list(self.iterate(x)))})
        if name == 'dataclasses':
            return Module('dataclasses', {'dataclass': Native('dataclass', self.dataclass, raw=True),
                                          'field': Native('field', lambda **k: ('__field__', k))})
        if name in ('typing', 'types', 'abc', 'collections.abc', 'numbers', '__future__', 'numpy.typing', 'contextlib', 'inspect', 'sys', 'os', 'time'):
            def g(n):
                if n == 'NamedTuple':
                    c_ = Cls('NamedTuple', [], {})
                    c_.kind = 'ntbase'
                    return c_
                if n == 'TYPE_CHECKING':
                    return False
                if n == 'nullcontext':
                    return Native('nullcontext', lambda x=None: Ctxmgr())
                if n == 'suppress':
                    return Native('suppress', lambda *e: Suppress(e))
                if n == 'SimpleNamespace':
                    return Native('SimpleNamespace', self.simplens)
                if n == 'NoneType':
                    return type(None)
                if n in ('perf_counter', 'time', 'monotonic', 'process_time') and name == 'time':
                    return Native(n, lambda: D.top('clock'))
                if n == 'cast':
                    return Native('cast', lambda t, x: x)
                if n == 'Real' or n == 'Number' or n == 'Integral':
                    return ExcType(n)
                if n == 'signature':
                    return Native('signature', self.signature)
                return Opaque(name + '.' + n)
            return Module(name, {}, g)
        raise Unsupported('import of %s' % name)

    def simplens(self, **k):
        c_ = Cls('SimpleNamespace', [], {})
        o = Inst(c_)
        o.attrs.update(k)
        return o

    def signature(self, f):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        return Module('signature', {'parameters': {n: n for n in names}})

    def shallow_copy(self, x):
        if isinstance(x, Arr):
            return asarr(x, copy=True)
        if isinstance(x, list):
            return list(x)
        if isinstance(x, dict):
            return dict(x)
        if isinstance(x, set):
            return set(x)
        if isinstance(x, npm.Bary):
            r = npm.Bary.__new__(npm.Bary)
            r.__dict__.update(x.__dict__)
            return r
        if isinstance(x, npm.Sparse):
            return x.copy()
        if isinstance(x, Inst):
            r = Inst.__new__(Inst)
            r.__dict__.update(x.__dict__)
            for k, v in list(r.__dict__.items()):
                if isinstance(v, dict):
                    r.__dict__[k] = dict(v)
            return r
        return x

    def deep_copy(self, x, memo=None):
        if isinstance(x, Arr):
            return asarr(x, copy=True)
        if isinstance(x, list):
            return [self.deep_copy(y) for y in x]
        if isinstance(x, tuple):
            return tuple(self.deep_copy(y) for y in x)
        if isinstance(x, dict):
            return {k: self.deep_copy(v) for k, v in x.items()}
        if isinstance(x, (npm.Bary, npm.Sparse, set)):
            return self.shallow_copy(x)
        if isinstance(x, Inst):
            r = self.shallow_copy(x)
            for k, v in list(r.__dict__.items()):
                if isinstance(v, dict):
                    r.__dict__[k] = {a: self.deep_copy(b) for a, b in v.items()}
            return r
        return x

    # ------------------------------------------------------------ library modules
    def make_np(self, mod):
        attrs = {}
        for n, f in npm.NP.items():
            attrs[n] = Native(n, f, mod)
        for n in npm.UFUNC:
            attrs[n] = Ufunc(n, mod)
        attrs['abs'] = attrs['absolute']
        attrs.update(pi=D.PI, inf=D.infv(True), nan=D.nan('np.nan'), newaxis=None, e=D.exp(D.ONE),
                     float64=npm.FLOAT, float32=npm.SINGLE, single=npm.SINGLE, float16=npm.HALF, half=npm.HALF, double=npm.FLOAT, float_=npm.FLOAT, longdouble=npm.FLOAT, floating=npm.FLOAT,
                     int64=npm.INT, int32=npm.INT, intp=npm.INT, int_=npm.INT, integer=npm.INT, uint8=npm.INT,
                     bool_=npm.BOOL, bool=npm.BOOL, object_=npm.OBJ, ndarray=NDARRAY, generic=ExcType('generic'),
                     number=ExcType('number'), s_=SMaker(), index_exp=SMaker(True), r_=npx.RMaker(False), c_=npx.RMaker(True),
                     mgrid=npx.GridMaker(True), ogrid=npx.GridMaker(False))
        attrs['float64'] = npm.FLOAT
        attrs['errstate'] = Native('errstate', lambda **k: Ctxmgr(), mod)
        attrs['vectorize'] = Native('vectorize', lambda f, **k: Native('vectorized', lambda *a: nd.ewise(lambda *c_: self.call(f, list(c_), {}), a), mod), mod)
        attrs['warnings'] = self.make_warnings()
        la = {'solve': npm.la_solve, 'inv': npm.la_inv, 'eig': npm.la_eig,
              'eigvals': lambda a: npm.la_eig(a)[0], 'norm': npx.norm, 'det': npx.det, 'matrix_power': npx.matrix_power,
              'matmul': npm.matmul, 'lstsq': npx.lstsq, 'pinv': npx.pinv, 'tensorsolve': None, 'outer': npm.NP['outer'],
              'vecdot': lambda a, b, axis=-1: npm.NP['sum'](nd.ewise(npm.s_mul, (a, b)), axis),
              'multi_dot': lambda xs: self._multidot(xs)}
        lattrs = {k: Native(k, v, mod) for k, v in la.items() if v is not None}
        lattrs['LinAlgError'] = ExcType('LinAlgError')
        attrs['linalg'] = Module(mod + '.linalg', lattrs, lambda n: self.unknown(mod + '.linalg', n))
        leg = Module(mod + '.polynomial.legendre', {
            'leggauss': Native('leggauss', npm.leggauss, mod),
            'Legendre': Native('Legendre', npm.LegendreObj, mod),
            'legval': Native('legval', npx.polyval_new(npx.leg_basis), mod),
            'legvander': Native('legvander', npx.vander(npx.leg_basis), mod),
        }, lambda n: self.unknown(mod + '.legendre', n))
        pol = Module(mod + '.polynomial.polynomial', {
            'polyval': Native('polyval', npx.polyval_new(npx.pow_basis), mod), 'polyvander': Native('polyvander', npx.vander(npx.pow_basis), mod),
            'polyder': Native('polyder', npx.polyder, mod), 'polyint': Native('polyint', npx.polyint, mod),
            'Polynomial': Native('Polynomial', npx.PolyObj, mod)}, lambda n: self.unknown(mod + '.polynomial.polynomial', n))
        che = Module(mod + '.polynomial.chebyshev', {
            'chebval': Native('chebval', npx.polyval_new(npx.cheb_basis), mod), 'chebvander': Native('chebvander', npx.vander(npx.cheb_basis), mod)},
            lambda n: self.unknown(mod + '.polynomial.chebyshev', n))
        attrs['polynomial'] = Module(mod + '.polynomial', {'legendre': leg, 'Legendre': leg.attrs['Legendre'], 'polynomial': pol, 'chebyshev': che,
                                     'Polynomial': pol.attrs['Polynomial']},
                                     lambda n: self.unknown(mod + '.polynomial', n))
        attrs['poly1d'] = Native('poly1d', lambda c_: npx.PolyObj(npm.NP['flip'](asarr(c_))), mod)
        attrs['fromfunction'] = Native('fromfunction', lambda f, sh, dtype=None, **k: self.call(f, list(npm.iter_arr(asarr(npm.NP['indices'](sh), 'f'))), k), mod)
        attrs['apply_along_axis'] = Native('apply_along_axis', self.apply_along_axis, mod)
        attrs['piecewise'] = Native('piecewise', self.piecewise, mod)
        attrs['emath'] = Module(mod + '.emath', {}, lambda n: self.unknown(mod + '.emath', n))
        st = Module(mod + '.stride_tricks', {'as_strided': Native('as_strided', self.as_strided, mod),
                                             'sliding_window_view': Native('sliding_window_view', self.swv, mod)})
        attrs['lib'] = Module(mod + '.lib', {'stride_tricks': st})
        attrs['exceptions'] = Module(mod + '.exceptions', {'AxisError': ExcType('AxisError')})
        return Module(mod, attrs, lambda n: self.unknown(mod, n))

    def unknown(self, mod, n):
        return Opaque('%s.%s' % (mod, n))

    def apply_along_axis(self, f, axis, a, *ar, **k):
        a = asarr(a)
        ax = nd.norm_axis(nd.toint(axis), a.ndim)
        t = npm.NP['moveaxis'](a, ax, -1)
        lead = t.shape[:-1]
        flat = nd.reshape(t, (-1, t.shape[-1]))
        rs = [self.call(f, [nd.getitem(flat, i)] + list(ar), k) for i in range(flat.shape[0])]
        r = npm.NP['stack']([asarr(x) for x in rs])
        r = nd.reshape(r, lead + r.shape[1:])
        n = len(r.shape) - len(lead)
        if n == 0:
            return nd.out(r)
        src = list(range(len(lead), len(lead) + n))
        return npm.NP['moveaxis'](r, tuple(src), tuple(range(ax, ax + n)))

    def piecewise(self, x, conds, funcs, *ar, **k):
        xa = asarr(x)
        cs = list(self.iterate(conds)) if isinstance(conds, (list, tuple)) else [conds]
        fs = list(self.iterate(funcs))
        r = asarr(npm.NP['zeros_like'](xa), copy=True)
        if len(fs) == len(cs) + 1:
            r0 = self.call(fs[-1], [xa] + list(ar), k) if not isinstance(fs[-1], (int, V)) else fs[-1]
            nd.setitem(r, Ellipsis, r0)
        for c_, f in zip(cs, fs):
            m = asarr(c_, 'b')
            m = nd.bto(m, r.shape)
            if isinstance(f, (int, V)):
                v = f
            else:
                v = self.call(f, [nd.getitem(xa, m)] + list(ar), k)
            nd.setitem(r, m, v)
        return r

    def _multidot(self, xs):
        r = xs[0]
        for y in xs[1:]:
            r = npm.matmul(r, y)
        return r

    def as_strided(self, x, shape=None, strides=None, subok=False, writeable=True):
        x = asarr(x)
        sh = npm.shape_arg(shape) if shape is not None else x.shape
        if strides is None:
            st = x.strides
        else:
            st = []
            for s in strides:
                s = nd.toint(s)
                if s % 8:
                    raise Unsupported('as_strided with fractional strides')
                st.append(s // 8)
        offs = nd.offsets(x.off, sh, st)
        n = len(x.buf.data)
        if any(o < 0 or o >= n for o in offs):
            self.ctx.events.append(('out-of-bounds', 'as_strided view outside the buffer', D.CTX.loc))
            raise PyExc('MemoryError', 'as_strided view reaches outside its buffer')
        return Arr(x.buf, x.off, sh, st)

    def swv(self, x, window_shape, axis=None, **k):
        x = asarr(x)
        if x.ndim != 1:
            raise Unsupported('sliding_window_view nd')
        w = nd.toint(window_shape if not isinstance(window_shape, tuple) else window_shape[0])
        return Arr(x.buf, x.off, (x.shape[0] - w + 1, w), (x.strides[0], x.strides[0]))

    def make_scipy(self):
        N = Native
        sp = {'poch': N('poch', lambda z, m: nd.ewise(npm.poch_scalar, (z, m)), 'scipy'),
              'lpmv': N('lpmv', lambda m, v, x: nd.ewise(npm.lpmv_scalar, (m, v, x)), 'scipy'),
              'factorial': N('factorial', lambda n, exact=False: nd.ewise(npm.factorial_scalar, (n,)), 'scipy'),
              'gamma': N('gamma', lambda n: nd.ewise(npm.gamma_scalar, (n,)), 'scipy'),
              'comb': N('comb', lambda n, k, exact=False, repetition=False: nd.ewise(npm.comb_scalar, (n, k)), 'scipy'),
              'binom': N('binom', lambda n, k: nd.ewise(npm.comb_scalar, (n, k)), 'scipy'),
              'gammaln': N('gammaln', npx.gammaln, 'scipy'), 'exprel': N('exprel', npx.exprel, 'scipy'),
              'expm1': N('expm1', lambda x: nd.ewise(npm.UFUNC['expm1'][0], (x,)), 'scipy'),
              'assoc_legendre_p': N('assoc_legendre_p', npx.assoc_legendre_p, 'scipy'), 'lpmn': N('lpmn', npx.lpmn, 'scipy'),
              'roots_legendre': N('roots_legendre', npx.roots_legendre, 'scipy'), 'p_roots': N('p_roots', npx.roots_legendre, 'scipy'),
              'perm': N('perm', npx.perm, 'scipy'), 'loggamma': N('loggamma', npx.gammaln, 'scipy'), 'rgamma': N('rgamma', npx.rgamma, 'scipy'),
              'legendre': N('legendre', npx.eval_poly_obj, 'scipy'),
              'eval_legendre': N('eval_legendre', lambda n, x: nd.ewise(lambda a, b: npm.lpmv_scalar(0, a, b), (n, x)), 'scipy'),
              }
        unk = self.unknown
        la = {'solve_banded': N('solve_banded', npm.solve_banded, 'scipy'),
              'solve': N('solve', lambda a, b, *x, **k: self.sp_solve(a, b, *x, **k), 'scipy'),
              'inv': N('inv', lambda a, *x, **k: npm.la_inv(a), 'scipy'),
              'eig': N('eig', lambda a, *x, **k: npm.la_eig(a), 'scipy'),
              'pascal': N('pascal', self.pascal, 'scipy'), 'toeplitz': N('toeplitz', npx.toeplitz, 'scipy'),
              'lu_factor': N('lu_factor', npx.lu_factor, 'scipy'), 'lu_solve': N('lu_solve', npx.lu_solve, 'scipy'),
              'solve_triangular': N('solve_triangular', npx.solve_triangular, 'scipy'), 'lstsq': N('lstsq', npx.lstsq, 'scipy'),
              'pinv': N('pinv', npx.pinv, 'scipy'), 'eigvals': N('eigvals', lambda a, *x, **k: npm.la_eig(a)[0], 'scipy'),
              'det': N('det', npx.det, 'scipy'), 'norm': N('norm', npx.norm, 'scipy'),
              'block_diag': N('block_diag', self.block_diag, 'scipy'), 'LinAlgError': ExcType('LinAlgError')}
        cst = {'h': D.from_float(6.62607015e-34), 'Planck': D.from_float(6.62607015e-34),
               'c': D.from_float(299792458.0), 'speed_of_light': D.from_float(299792458.0),
               'k': D.from_float(1.380649e-23), 'Boltzmann': D.from_float(1.380649e-23), 'pi': D.PI,
               'physical_constants': {'Planck constant': (D.from_float(6.62607015e-34), 'J Hz^-1', D.ZERO),
                                      'speed of light in vacuum': (D.from_float(299792458.0), 'm s^-1', D.ZERO),
                                      'Boltzmann constant': (D.from_float(1.380649e-23), 'J K^-1', D.ZERO)},
               'hbar': D.div(D.from_float(6.62607015e-34), D.mul(D.c(2), D.PI))}
        itg = {'quad_vec': N('quad_vec', self.quad_vec, 'scipy'),
               'quad': N('quad', lambda f, a, b, **k: self.quad_vec(f, a, b, **k), 'scipy')}
        mods = {
            'special': Module('scipy.special', sp, lambda n: unk('scipy.special', n)),
            'linalg': Module('scipy.linalg', la, lambda n: unk('scipy.linalg', n)),
            'constants': Module('scipy.constants', cst, lambda n: unk('scipy.constants', n)),
            'integrate': Module('scipy.integrate', itg, lambda n: unk('scipy.integrate', n)),
            'fft': Module('scipy.fft', {'idct': N('idct', npm.idct, 'scipy'), 'dct': N('dct', npx.dct, 'scipy')}, lambda n: unk('scipy.fft', n)),
            'sparse': Module('scipy.sparse', {'diags': N('diags', npm.sp_diags, 'scipy'), 'eye': N('eye', lambda m, n=None, k=0, **kw: npm.Sparse(asarr(npm.NP['eye'](m, n, k), 'f')), 'scipy'),
                              'identity': N('identity', lambda n, **kw: npm.Sparse(asarr(npm.NP['eye'](n), 'f')), 'scipy'),
                              'diags_array': N('diags_array', lambda d, offsets=0, **k: npm.sp_diags(d, offsets, **k), 'scipy')},
                             self.sparse_attr),
            'interpolate': Module('scipy.interpolate', {'BarycentricInterpolator': N('BarycentricInterpolator', npm.Bary, 'scipy'),
                                                        'barycentric_interpolate': N('barycentric_interpolate', lambda xi, yi, x, axis=0: npm.Bary(xi, yi)(x), 'scipy')},
                                  lambda n: unk('scipy.interpolate', n)),
        }
        return Module('scipy', mods, lambda n: unk('scipy', n))

    def sp_solve(self, a, b, lower=False, overwrite_a=False, overwrite_b=False, check_finite=True, **k):
        r = npm.la_solve(a, b)
        if D.truth(npm.tobool(overwrite_a)):
            npm.havoc(asarr(a), 'solve(overwrite_a)')
        if D.truth(npm.tobool(overwrite_b)):
            npm.havoc(asarr(b), 'solve(overwrite_b)')
        return r

    def pascal(self, n, kind='symmetric', exact=True):
        n = nd.toint(n)
        if kind == 'upper':
            cs = [math.comb(j, i) for i in range(n) for j in range(n)]
        elif kind == 'lower':
            cs = [math.comb(i, j) for i in range(n) for j in range(n)]
        else:
            cs = [math.comb(i + j, i) for i in range(n) for j in range(n)]
        return nd.new(cs, (n, n), 'i')

    def block_diag(self, *xs):
        xs = [npm.NP['atleast_2d'](x) for x in xs]
        n, m = sum(x.shape[0] for x in xs), sum(x.shape[1] for x in xs)
        r = nd.full((n, m), D.ZERO, 'f')
        i = j = 0
        for x in xs:
            nd.setitem(r, (slice(i, i + x.shape[0]), slice(j, j + x.shape[1])), x)
            i += x.shape[0]
            j += x.shape[1]
        return r

    def quad_vec(self, f, a, b, **kw):
        """Integral as an uninterpreted functional of the (value-numbered) integrand."""
        t = V(D.F.hp('atom', 'integration-variable'), D.F.hq('atom', 'integration-variable'),
              (0.0, True, math.inf, True), 'atom', ('integration-variable',), 0)
        y = self.call(f, [t], {})
        a, b = nd.tov(a), nd.tov(b)
        kws = tuple(sorted(k for k in kw if k not in ('epsabs', 'epsrel', 'norm', 'limit', 'workers', 'points', 'quadrature', 'full_output', 'cache_size')))
        if kws:
            raise PyExc('TypeError', 'unexpected keyword argument %s' % (kws,))
        self.ctx.events.append(('quad-kwargs', tuple(sorted(kw.items(), key=lambda e: e[0])), D.CTX.loc))
        r = nd.ewise(lambda v: D.ZERO if nd.tov(v).kind == 0 and nd.tov(v).fp == 0 else D.uf('integral', (nd.tov(v), a, b), D.FULL), (y,))
        err = D.top('quadrature error estimate')
        return (r, err)

    def sparse_attr(self, n):
        if n in ('csr_matrix', 'csc_matrix', 'coo_matrix', 'lil_matrix', 'csr_array', 'csc_array', 'lil_array', 'dok_matrix'):
            def mk(x, shape=None, **k):
                if isinstance(x, npm.Sparse):
                    return x.copy()
                if isinstance(x, tuple) and len(x) == 2 and all(isinstance(i, int) for i in x):
                    return npm.Sparse(npm.NP['zeros'](x))
                if isinstance(x, tuple) and len(x) == 2:
                    return npx.sp_triplet(x[0], x[1], shape)
                if isinstance(x, tuple):
                    raise Unsupported('sparse triplet constructor')
                return npm.Sparse(asarr(x, copy=True))
            return Native(n, mk, 'scipy')
        f = {'block_diag': npx.sp_block_diag, 'bmat': npx.sp_bmat, 'block_array': npx.sp_bmat, 'spdiags': None,
             'eye_array': lambda m, n=None, k=0, **kw: npm.Sparse(asarr(npm.NP['eye'](m, n, k), 'f')),
             'hstack': lambda b, **k: npx.sp_bmat([list(b)]), 'vstack': lambda b, **k: npx.sp_bmat([[x] for x in b]),
             'issparse': lambda x: isinstance(x, npm.Sparse)}.get(n)
        if f is not None:
            return Native(n, f, 'scipy')
        if n == 'linalg':
            return Module('scipy.sparse.linalg', {'spsolve': Native('spsolve', npx.sp_spsolve, 'scipy')}, lambda m: self.unknown('scipy.sparse.linalg', m))
        return self.unknown('scipy.sparse', n)

    def make_math(self):
        at = {'pi': D.PI, 'inf': D.infv(True), 'nan': D.nan('math.nan'), 'e': D.exp(D.ONE)}
        for n in ('sqrt', 'exp', 'cos', 'sin', 'tan', 'log', 'expm1', 'log1p', 'cosh', 'sinh', 'fabs'):
            at[n] = Native(n, (lambda g: lambda x: g(nd.tov(x)))(npm.UFUNC[n][0]), 'math')
        at['floor'] = Native('floor', lambda x: x if isinstance(x, int) else int(npm._floor(x).k) if npm._floor(x).k is not None else npm._floor(x), 'math')
        at['ceil'] = Native('ceil', lambda x: x if isinstance(x, int) else int(npm.s_neg(npm._floor(npm.s_neg(x))).k) if npm._floor(npm.s_neg(x)).k is not None else npm.s_neg(npm._floor(npm.s_neg(x))), 'math')
        at['factorial'] = Native('factorial', lambda n: math.factorial(nd.toint(n)), 'math')
        at['comb'] = Native('comb', lambda n, k: math.comb(nd.toint(n), nd.toint(k)), 'math')
        at['prod'] = Native('prod', lambda xs, start=1: npm.s_mul(start, npm.vprod(self.iterate(xs))), 'math')
        at['pow'] = Native('pow', lambda a, b: D.vpow(nd.tov(a), nd.tov(b)), 'math')
        at['isnan'] = Native('isnan', lambda x: npm.UFUNC['isnan'][0](nd.tov(x)), 'math')
        at['isfinite'] = Native('isfinite', lambda x: npm.UFUNC['isfinite'][0](nd.tov(x)), 'math')
        at['isinf'] = Native('isinf', lambda x: npm.UFUNC['isinf'][0](nd.tov(x)), 'math')
        at['isclose'] = Native('isclose', lambda a, b, rel_tol=None, abs_tol=None: npm.NP['isclose'](a, b), 'math')
        at['fsum'] = Native('fsum', lambda xs: npm.vsum(self.iterate(xs)), 'math')
        at['perm'] = Native('perm', lambda n, k=None: math.perm(nd.toint(n), None if k is None else nd.toint(k)), 'math')
        at['hypot'] = Native('hypot', lambda *a: D.sqrt(nd.tov(npm.vsum([npm.s_mul(nd.tov(x), nd.tov(x)) for x in a]))), 'math')
        at['isqrt'] = Native('isqrt', lambda n: math.isqrt(nd.toint(n)), 'math')
        at['trunc'] = Native('trunc', lambda x: self.builtins['int'].fn(x), 'math')
        at['tau'] = D.mul(D.c(2), D.PI)
        at['gamma'] = Native('gamma', npm.gamma_scalar, 'math')
        at['copysign'] = Native('copysign', lambda a, b: npm.UFUNC['copysign'][0](nd.tov(a), nd.tov(b)), 'math')
        at['fmod'] = Native('fmod', lambda a, b: npm.s_mod(nd.tov(a), nd.tov(b)), 'math')
        at['dist'] = at['sumprod'] = None
        del at['dist']
        at['sumprod'] = Native('sumprod', lambda a, b: npm.dotv(list(self.iterate(a)), list(self.iterate(b))), 'math')
        at['radians'] = Native('radians', lambda x: npm.UFUNC['radians'][0](x), 'math')
        at['gcd'] = Native('gcd', math.gcd, 'math')
        return Module('math', at, lambda n: self.unknown('math', n))

    def make_warnings(self):
        def warn(*a, **k):
            self.ctx.events.append(('warn', a[0] if a and isinstance(a[0], str) else '', D.CTX.loc))
        return Module('warnings', {'warn': Native('warn', warn, 'warnings'),
                                   'catch_warnings': Native('catch_warnings', lambda **k: Ctxmgr(), 'warnings'),
                                   'simplefilter': Native('simplefilter', lambda *a, **k: None, 'warnings'),
                                   'filterwarnings': Native('filterwarnings', lambda *a, **k: None, 'warnings')})

    def make_functools(self):
        def reduce_(f, xs, *init):
            it = list(self.iterate(xs))
            acc = init[0] if init else it.pop(0)
            for x in it:
                acc = self.call(f, [acc, x], {})
            return acc

        def cache(f=None, *a, **k):
            if isinstance(f, Func):
                return CachedFn(f)
            return Native('lru_cache', lambda g: CachedFn(g), 'functools')
        return Module('functools', {'partial': Native('partial', lambda f, *a, **k: Partial(f, a, k), 'functools'),
                                    'reduce': Native('reduce', reduce_, 'functools'),
                                    'wraps': Native('wraps', lambda f: Native('wraps', lambda g: self._wraps(f, g), 'functools'), 'functools'),
                                    'lru_cache': Native('lru_cache', cache, 'functools'),
                                    'cache': Native('cache', cache, 'functools')}, lambda n: self.unknown('functools', n))

    def _wraps(self, f, g):
        if isinstance(g, Func) and isinstance(f, Func):
            g.name = f.name
            g.attrs['__wrapped__'] = f
        return g

    def make_itertools(self):
        import itertools as it
        return Module('itertools', {
            'product': Native('product', lambda *a, repeat=1: list(it.product(*[self.iterate(x) for x in a], repeat=repeat)), ''),
            'chain': ChainFn(self),
            'accumulate': Native('accumulate', self._accumulate, ''),
            'pairwise': Native('pairwise', lambda x: list(it.pairwise(self.iterate(x))), ''),
            'islice': Native('islice', lambda x, *a: list(it.islice(self.iterate(x), *a)), ''),
            'zip_longest': Native('zip_longest', lambda *a, fillvalue=None: list(it.zip_longest(*[self.iterate(x) for x in a], fillvalue=fillvalue)), ''),
            'repeat': Native('repeat', lambda x, n=None: [x] * nd.toint(n), ''),
            'combinations': Native('combinations', lambda x, r: list(it.combinations(self.iterate(x), r)), ''),
            'compress': Native('compress', lambda d, sel: [x for x, t in zip(self.iterate(d), self.iterate(sel)) if self.truth(t)], ''),
            'permutations': Native('permutations', lambda x, r=None: list(it.permutations(self.iterate(x), r)), ''),
            'takewhile': Native('takewhile', self._takewhile, ''),
            'count': Native('count', lambda start=0, step=1: [start + step * i for i in range(4096)], ''),
            'batched': Native('batched', lambda x, n: [tuple(t) for t in it.batched(self.iterate(x), n)] if hasattr(it, 'batched') else [], ''),
            'starmap': Native('starmap', lambda f, xs: [self.call(f, list(self.iterate(x)), {}) for x in self.iterate(xs)], ''),
        }, lambda n: self.unknown('itertools', n))

    def _takewhile(self, f, xs):
        r = []
        for x in self.iterate(xs):
            if not self.truth(self.call(f, [x], {})):
                break
            r.append(x)
        return r

    def _accumulate(self, xs, func=None, initial=None):
        res, acc = [], initial
        if initial is not None:
            res.append(acc)
        for x in self.iterate(xs):
            acc = x if acc is None else (self.binop('Add', acc, x) if func is None else self.call(func, [acc, x], {}))
            res.append(acc)
        return res

    def make_operator(self):
        at = {}
        for n, op in dict(add='Add', sub='Sub', mul='Mult', truediv='Div', matmul='MatMult', pow='Pow', mod='Mod', floordiv='FloorDiv').items():
            at[n] = Native(n, (lambda o: lambda a, b: self.binop(o, a, b))(op), 'operator')
        at['itemgetter'] = Native('itemgetter', lambda *ks: Native('itemgetter', lambda o: self.getitem(o, ks[0]) if len(ks) == 1 else tuple(self.getitem(o, k) for k in ks)), 'operator')
        for n, op in dict(lt='Lt', le='LtE', gt='Gt', ge='GtE', eq='Eq', ne='NotEq').items():
            at[n] = Native(n, (lambda o: lambda a, b: self.compare(o, a, b))(op), 'operator')
        at['getitem'] = Native('getitem', lambda o, k: self.getitem(o, k), 'operator')
        at['setitem'] = Native('setitem', lambda o, k, v: self.setitem(o, k, v), 'operator')
        at['not_'] = Native('not_', lambda a: self.unary('Not', a), 'operator')
        at['attrgetter'] = Native('attrgetter', lambda *ks: Native('attrgetter', lambda o: self.getattr(o, ks[0]) if len(ks) == 1 else tuple(self.getattr(o, k) for k in ks)), 'operator')
        at['abs'] = Native('abs', lambda a: nd.ewise(npm.s_abs, (a,)), 'operator')
        at['neg'] = Native('neg', lambda a: self.unary('USub', a), 'operator')
        return Module('operator', at, lambda n: self.unknown('operator', n))

    def namedtuple(self, name, fields, **k):
        if isinstance(fields, str):
            fields = fields.replace(',', ' ').split()
        c_ = Cls(name, [], {}, fields=fields)
        c_.kind = 'nt'
        c_.attrs['__defaults__'] = {}
        if k.get('defaults'):
            ds = list(k['defaults'])
            for f, d in zip(fields[-len(ds):], ds):
                c_.attrs['__defaults__'][f] = d
        return c_

    def dataclass(self, interp, args, kw):
        if args:
            c_ = args[0]
            c_.kind = 'dc'
            return c_
        return Native('dataclass', self.dataclass, raw=True)

    def make_builtins(self):
        N = Native
        b = {}

        def _len(x):
            if isinstance(x, Arr):
                if x.ndim == 0:
                    raise PyExc('TypeError', 'len() of unsized object')
                return x.shape[0]
            if isinstance(x, (list, tuple, dict, str, range, set, frozenset)):
                return len(x)
            if isinstance(x, NT):
                return len(x.vals)
            if isinstance(x, Inst):
                m = x.cls.lookup('__len__')
                if m is not None:
                    return self.call(Bound(m, x), [], {})
            raise PyExc('TypeError', "object of type '%s' has no len()" % type(x).__name__)

        def _sum(xs, start=0):
            acc = start
            for x in self.iterate(xs):
                acc = self.binop('Add', acc, x)
            return acc

        def _mm(mx):
            def f(*a, key=None, default=None):
                xs = list(self.iterate(a[0])) if len(a) == 1 else list(a)
                if not xs:
                    if default is not None:
                        return default
                    raise PyExc('ValueError', 'max() arg is an empty sequence')
                if key is None and any(isinstance(x, V) for x in xs) and all(isinstance(x, (int, V)) for x in xs):
                    return D._ext([nd.tov(x) for x in xs], mx)
                best = xs[0]
                for x in xs[1:]:
                    kx, kb = (x, best) if key is None else (self.call(key, [x], {}), self.call(key, [best], {}))
                    if self.truth(self.compare('Gt' if mx else 'Lt', kx, kb)):
                        best = x
                return best
            return f

        def _isinstance(x, t):
            ts = list(t) if isinstance(t, tuple) else [t]
            traced = isinstance(x, V) and bool(x.deps) and getattr(self.ctx, 'traced_mode', False)
            while ts:
                tt = ts.pop()
                if isinstance(tt, tuple):
                    ts.extend(tt)
                    continue
                if isinstance(tt, TypeFn):
                    tt = tt.t
                if isinstance(tt, Cls) and tt.name == 'object':
                    return True
                if isinstance(tt, Opaque):
                    n_ = tt.name.split('.')[-1]
                    if n_ in ('Callable', 'FunctionType', 'LambdaType'):
                        if isinstance(x, (Func, Native, Bound, Partial, npm.Bary, npm.LegendreObj, Cls, CachedFn, TypeFn)):
                            return True
                        continue
                    if n_ in ('Sequence', 'Iterable', 'Sized', 'Collection', 'Container', 'MutableSequence', 'Mapping', 'MutableMapping'):
                        if 'Mapping' in n_:
                            if isinstance(x, dict):
                                return True
                        elif isinstance(x, (list, tuple, range, str)) and not ('Mutable' in n_ and not isinstance(x, list)):
                            return True
                        elif n_ in ('Iterable', 'Sized', 'Collection', 'Container') and isinstance(x, (dict, set, frozenset, Arr)):
                            return True
                        continue
                    raise Unsupported('isinstance(_, %s)' % tt)
                if tt is None.__class__ and x is None:
                    return True
                if traced and (tt is float or isinstance(tt, npm.DType) or (isinstance(tt, ExcType) and tt.name in ('Real', 'Number', 'generic', 'number', 'ndarray'))):
                    continue            # autograd boxes are none of these
                if tt is int and isinstance(x, int):
                    return True
                if tt is bool and isinstance(x, bool):
                    return True
                if tt in (list, tuple, dict, str, set, range) and isinstance(x, tt):
                    return True
                if tt is float and isinstance(x, V):
                    return True
                if isinstance(tt, npm.DType):
                    if tt.dt == 'f' and isinstance(x, V):
                        return True
                    if tt.dt == 'i' and isinstance(x, int) and not isinstance(x, bool):
                        return True
                    if tt.dt == 'b' and isinstance(x, (bool, UB)):
                        return True
                if isinstance(tt, ExcType):
                    if tt.name == 'ndarray' and isinstance(x, Arr):
                        return True
                    if tt.name in ('Real', 'Number', 'generic', 'number', 'Integral') and isinstance(x, (int, V)) and not (tt.name == 'Integral' and isinstance(x, V)):
                        return True
                    if isinstance(x, ExcObj) and exc_is(x.name, tt.name):
                        return True
                if isinstance(tt, Cls) and isinstance(x, Inst):
                    c_ = [x.cls]
                    while c_:
                        k = c_.pop()
                        if k is tt:
                            return True
                        c_.extend(k.bases if isinstance(k, Cls) else [])
            return False

        def _float(x=0):
            if isinstance(x, str):
                return D.from_float(float(x))
            if isinstance(x, Arr):
                if x.size != 1:
                    raise PyExc('TypeError', 'only length-1 arrays can be converted to Python scalars')
                return nd.tov(x.cells()[0])
            return nd.tov(x)

        def _int(x=0, *a):
            if isinstance(x, V):
                if x.k is not None:
                    return int(x.k)
                if x.kind == D.NAN:
                    raise PyExc('ValueError', 'cannot convert float NaN to integer')
                raise Unsupported('int() of a symbolic value')
            if isinstance(x, str):
                return int(x)
            return nd.toint(x)

        def _range(*a):
            vs = []
            for x in a:
                if isinstance(x, V):
                    raise PyExc('TypeError', "'float' object cannot be interpreted as an integer")
                vs.append(nd.toint(x))
            return range(*vs)

        def _sorted(xs, key=None, reverse=False):
            import functools
            it = list(self.iterate(xs))

            def cmp(x, y):
                kx, ky = (x, y) if key is None else (self.call(key, [x], {}), self.call(key, [y], {}))
                if self.truth(self.compare('Lt', kx, ky)):
                    return -1
                if self.truth(self.compare('Lt', ky, kx)):
                    return 1
                return 0
            return sorted(it, key=functools.cmp_to_key(cmp), reverse=bool(reverse))

        def _type(x):
            if isinstance(x, V):
                return b['float']
            if isinstance(x, (bool, UB)):
                return b['bool']
            if isinstance(x, Arr):
                return NDARRAY
            if isinstance(x, (Inst, NT)):
                return x.cls
            return b.get(type(x).__name__, type(x))

        def _hasattr(o, n):
            try:
                self.getattr(o, n)
                return True
            except PyExc as e:
                if e.name == 'AttributeError':
                    return False
                raise

        def _getattr(o, n, *d):
            try:
                return self.getattr(o, n)
            except PyExc as e:
                if e.name == 'AttributeError' and d:
                    return d[0]
                raise

        def _bool(x=False):
            r = npm.tobool(x) if isinstance(x, (V, Arr, UB)) else bool(x)
            return r
        b.update({
            'len': N('len', _len), 'sum': N('sum', _sum), 'max': N('max', _mm(True)), 'min': N('min', _mm(False)),
            'abs': N('abs', lambda x: nd.ewise(npm.s_abs, (x,))), 'range': N('range', _range),
            'enumerate': N('enumerate', lambda x, start=0: IterObj(enumerate(self.iterate(x), start))),
            'zip': N('zip', lambda *a, strict=False: IterObj(self._zip(a, strict))),
            'map': N('map', lambda f, *a: IterObj([self.call(f, list(t), {}) for t in zip(*[self.iterate(x) for x in a])])),
            'filter': N('filter', lambda f, a: IterObj([x for x in self.iterate(a) if self.truth(self.call(f, [x], {}) if f is not None else x)])),
            'reversed': N('reversed', lambda x: IterObj(list(self.iterate(x))[::-1])),
            'sorted': N('sorted', _sorted), 'isinstance': N('isinstance', _isinstance),
            'all': N('all', lambda xs: D.band([npm.tobool(x) for x in self.iterate(xs)])),
            'any': N('any', lambda xs: D.bor([npm.tobool(x) for x in self.iterate(xs)])),
            'print': N('print', lambda *a, **k: None), 'type': N('type', _type),
            'hasattr': N('hasattr', _hasattr), 'getattr': N('getattr', _getattr),
            'setattr': N('setattr', lambda o, n, v: self.setattr(o, n, v)),
            'callable': N('callable', lambda x: isinstance(x, (Func, Native, Bound, Partial, npm.Bary, npm.LegendreObj, Cls, CachedFn))),
            'round': N('round', lambda x, n=None: x if isinstance(x, int) else (int(npm._rint(x).k) if n is None and npm._rint(x).k is not None else D.uf('round', (nd.tov(x),), extra=(n,)))),
            'pow': N('pow', lambda a, b_: self.binop('Pow', a, b_)), 'divmod': N('divmod', lambda a, b_: (self.binop('FloorDiv', a, b_), self.binop('Mod', a, b_))),
            'slice': N('slice', lambda *a: slice(*a)), 'id': N('id', lambda x: id(x)), 'repr': N('repr', lambda x: repr(x) if isinstance(x, (int, str)) else self.fmt(x)),
            'iter': N('iter', lambda x: x if isinstance(x, IterObj) else IterObj(self.iterate(x))), 'next': N('next', self._next), 'super': N('super', self._super),
            'format': N('format', lambda *a: '?'), 'vars': N('vars', lambda o: o.attrs),
            'int': TypeFn(int, _int), 'float': TypeFn(float, _float), 'bool': TypeFn(bool, _bool),
            'str': TypeFn(str, lambda x='': self.fmt(x)), 'list': TypeFn(list, lambda x=(): list(self.iterate(x))),
            'tuple': TypeFn(tuple, lambda x=(): tuple(self.iterate(x))),
            'dict': TypeFn(dict, lambda *a, **k: self._dict(a, k)), 'set': TypeFn(set, lambda x=(): set(self.iterate(x))),
            'frozenset': TypeFn(frozenset, lambda x=(): frozenset(self.iterate(x))),
            'complex': Opaque('complex'), 'object': Cls('object', [], {}),
            'True': True, 'False': False, 'None': None, 'Ellipsis': Ellipsis, 'NotImplemented': NotImplemented, '__name__': '__main__',
            'staticmethod': N('staticmethod', lambda f: StaticFn(f)), 'property': N('property', lambda f: Prop(f)),
            'classmethod': N('classmethod', lambda f: ClsFn(f)),
        })
        for e in EXC_PARENTS:
            b[e] = ExcType(e)
        return b

    def _super(self, *a):
        raise Unsupported('super()')

    def _dict(self, a, k):
        d = {}
        if a:
            if isinstance(a[0], dict):
                d.update(a[0])
            else:
                for kv in self.iterate(a[0]):
                    x, y = self.iterate(kv)
                    d[x] = y
        d.update(k)
        return d

    def _zip(self, a, strict):
        its = [x for x in a if isinstance(x, IterObj)]
        if len({id(x) for x in its}) < len(its):
            gs = {id(x): x.pull() for x in its}
            return list(zip(*[gs[id(x)] if isinstance(x, IterObj) else iter(self.iterate(x)) for x in a]))
        ls = [list(self.iterate(x)) for x in a]
        if strict and len({len(x) for x in ls}) > 1:
            raise PyExc('ValueError', 'zip() arguments have different lengths')
        return [tuple(t) for t in zip(*ls)]

    def _next(self, it, *d):
        if isinstance(it, IterObj):
            if it.i < len(it.xs):
                it.i += 1
                return it.xs[it.i - 1]
        elif isinstance(it, list):
            if it:
                return it[0]
        if d:
            return d[0]
        raise PyExc('StopIteration')

    # ------------------------------------------------------------ scopes
    def local_names(self, node):
        r = self._ln.get(id(node))
        if r is not None:
            return r[1]
        names, excl = set(), set()

        class L(ast.NodeVisitor):
            def visit_FunctionDef(s, n):
                names.add(n.name)
                for d in n.decorator_list:
                    s.visit(d)
            visit_AsyncFunctionDef = visit_FunctionDef

            def visit_ClassDef(s, n):
                names.add(n.name)

            def visit_Lambda(s, n):
                pass

            def _comp(s, n):
                for g in n.generators:
                    s.visit(g.iter)
                    for i in g.ifs:
                        s.nm(i)

            def nm(s, n):
                for w in ast.walk(n):
                    if isinstance(w, ast.NamedExpr):
                        names.add(w.target.id)

            def visit_ListComp(s, n):
                s._comp(n)
            visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

            def visit_Name(s, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)

            def visit_Global(s, n):
                excl.update(n.names)
            visit_Nonlocal = visit_Global

            def visit_Import(s, n):
                for a in n.names:
                    names.add((a.asname or a.name).split('.')[0])

            def visit_ImportFrom(s, n):
                for a in n.names:
                    names.add(a.asname or a.name)

            def visit_ExceptHandler(s, n):
                if n.name:
                    names.add(n.name)
                s.generic_visit(n)
        lv = L()
        if isinstance(node, ast.Lambda):
            lv.nm(node.body)
        else:
            for st in node.body:
                lv.visit(st)
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            names.add(x.arg)
        names -= excl
        self._ln[id(node)] = (node, names)
        return names

    def is_generator(self, node):
        if isinstance(node, ast.Lambda):
            return False
        st = list(node.body)
        while st:
            n = st.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            st.extend(ast.iter_child_nodes(n))
        return False

    def lookup(self, name, env):
        e = env
        first = True
        while e is not None:
            if name in e.vars and not (first and name in e.glob):
                return e.vars[name]
            if e.locals is not None and name in e.locals and first and name not in e.vars:
                raise PyExc('UnboundLocalError', "cannot access local variable '%s'" % name)
            if e.locals is not None and name in e.locals and name not in e.vars:
                raise PyExc('NameError', "cannot access free variable '%s'" % name)
            first = False
            e = e.parent
        g = env.globs
        if name in g:
            return g[name]
        if name in self.builtins:
            return self.builtins[name]
        raise PyExc('NameError', "name '%s' is not defined" % name)

    def bind(self, name, v, env):
        if name in env.glob:
            env.globs[name] = v
            return
        if name in env.nonl:
            e = env.parent
            while e is not None:
                if e.locals is not None and name in e.locals or name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, env, file, fn):
        for st in stmts:
            self.exec_stmt(st, env, file, fn)

    def exec_stmt(self, st, env, file, fn):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Unsupported('analysis step budget exceeded')
        D.CTX.loc = (file, st.lineno, fn)
        self.sites.add((file, st.lineno))
        if self.hook is not None:
            self.hook(st, file, fn)
        getattr(self, 'st_' + type(st).__name__, self.st_unknown)(st, env, file, fn)

    def st_unknown(self, st, env, file, fn):
        raise Unsupported('statement %s' % type(st).__name__)

    def st_Expr(self, st, env, file, fn):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, env, file, fn)

    def st_Pass(self, *a):
        pass

    def st_Assign(self, st, env, file, fn):
        v = self.ev(st.value, env, file, fn)
        for t in st.targets:
            self.assign(t, v, env, file, fn)

    def st_AnnAssign(self, st, env, file, fn):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env, file, fn), env, file, fn)

    def assign(self, t, v, env, file, fn):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                i = stars[0]
                n = len(t.elts) - 1
                if len(vs) < n:
                    raise PyExc('ValueError', 'not enough values to unpack')
                tail = len(t.elts) - i - 1
                parts = vs[:i] + [vs[i:len(vs) - tail]] + (vs[len(vs) - tail:] if tail else [])
                for x, y in zip(t.elts, parts):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, env, file, fn)
            else:
                if len(vs) != len(t.elts):
                    raise PyExc('ValueError', 'unpack: expected %d values, got %d' % (len(t.elts), len(vs)))
                for x, y in zip(t.elts, vs):
                    self.assign(x, y, env, file, fn)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, file, fn)
            k = self.ev(t.slice, env, file, fn)
            self.setitem(o, k, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env, file, fn), t.attr, v)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def setitem(self, o, k, v):
        if isinstance(o, Arr):
            nd.setitem(o, k, v)
        elif isinstance(o, list):
            if isinstance(k, slice):
                o[k] = list(self.iterate(v))
                return
            k = nd.toint(k)
            try:
                self.note_list_write(o)
                o[k] = v
            except IndexError:
                raise PyExc('IndexError', 'list assignment index out of range')
        elif isinstance(o, dict):
            o[self.hashable(k)] = v
        elif isinstance(o, npm.Sparse):
            nd.setitem(o.a, k, v)
        elif isinstance(o, FlatView):
            offs = o.a.offs()
            r = nd.resolve(nd.new(list(range(len(offs))), (len(offs),), 'i'), k)
            sel = [offs[i] for i in (r[1].offs() if r[0] == 'view' else r[2])]
            vs = asarr(v).cells() if isinstance(v, (Arr, list, tuple, range)) else [v]
            nd.store(o.a.buf, sel, [vs[i % len(vs)] for i in range(len(sel))] if vs else [])
        elif isinstance(o, Inst) and o.cls.lookup('__setitem__') is not None:
            self.call(Bound(o.cls.lookup('__setitem__'), o), [k, v], {})
        else:
            raise PyExc('TypeError', "'%s' object does not support item assignment" % type(o).__name__)

    def note_list_write(self, o):
        ow = getattr(self.ctx, 'owned_lists', None)
        if ow and id(o) in ow:
            self.ctx.events.append(('mutate', ow[id(o)][1], D.CTX.loc))

    def hashable(self, k):
        if isinstance(k, V):
            return ('V', k.fp)
        if isinstance(k, tuple):
            return tuple(self.hashable(x) for x in k)
        if isinstance(k, Arr):
            raise PyExc('TypeError', "unhashable type: 'numpy.ndarray'")
        if isinstance(k, (list, dict, set)):
            raise PyExc('TypeError', 'unhashable type')
        return k

    def setattr(self, o, n, v):
        if isinstance(o, Inst):
            o.attrs[n] = v
        elif isinstance(o, Func):
            o.attrs[n] = v
        elif isinstance(o, Cls):
            o.attrs[n] = v
        elif isinstance(o, Arr) and n == 'shape':
            r = nd.reshape(o, v if isinstance(v, (tuple, list)) else (v,))
            o.shape, o.strides, o.off = r.shape, r.strides, r.off
        elif isinstance(o, Arr) and n == 'flat':
            nd.setitem(o, Ellipsis, nd.reshape(asarr(v), o.shape) if isinstance(v, Arr) else v)
        elif isinstance(o, Arr) and n == 'T':
            nd.setitem(o, Ellipsis, nd.transpose(asarr(v), None))
        elif isinstance(o, FlagsObj):
            if n == 'writeable':
                o.a.buf.readonly = not v
        elif isinstance(o, Module):
            o.attrs[n] = v
        elif isinstance(o, Native) and o.mod == 'user':      # a function of the caller's
            o.attrs[n] = v
        else:
            raise Unsupported('attribute store on %s' % type(o).__name__)

    def st_AugAssign(self, st, env, file, fn):
        op = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            v = self.ev(st.value, env, file, fn)
            D.CTX.loc = (file, st.lineno, fn)
            r = self.inplace(op, cur, v)
            self.bind(t.id, r, env)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, file, fn)
            k = self.ev(t.slice, env, file, fn)
            cur = self.getitem(o, k)
            v = self.ev(st.value, env, file, fn)
            D.CTX.loc = (file, st.lineno, fn)
            r = self.inplace(op, cur, v) if not isinstance(o, Arr) else self.binop_cast(op, cur, v)
            self.setitem(o, k, r)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, file, fn)
            cur = self.getattr(o, t.attr)
            v = self.ev(st.value, env, file, fn)
            self.setattr(o, t.attr, self.inplace(op, cur, v))
        else:
            raise Unsupported('augmented target')

    def binop_cast(self, op, cur, v):
        r = self.binop(op, cur, v)
        if isinstance(cur, Arr) and isinstance(r, Arr):
            if nd.RANK[r.dtype] > nd.RANK[cur.dtype] and cur.dtype in 'bi':
                raise PyExc('TypeError', 'cannot cast ufunc output to int (same_kind)')
            if r.shape != cur.shape:
                raise PyExc('ValueError', 'non-broadcastable output operand')
        return r

    def inplace(self, op, cur, v):
        if isinstance(cur, Arr):
            tr = getattr(self.ctx, 'traced_mode', False)
            r = self.binop_cast(op, cur, v)
            if tr and ((isinstance(v, Arr) and v.traced()) or (isinstance(v, V) and v.deps) or cur.traced()):
                if cur.traced():
                    return r           # ArrayBox has no in-place operators: rebinding
                self.ctx.events.append(('traced-store', 'in-place operator', D.CTX.loc))
            nd.setitem(cur, Ellipsis, r)
            return cur
        if isinstance(cur, list) and op in ('Add', 'Mult'):
            self.note_list_write(cur)
        if isinstance(cur, list) and op == 'Add':
            cur.extend(self.iterate(v))
            return cur
        if isinstance(cur, list) and op == 'Mult':
            cur[:] = cur * nd.toint(v)
            return cur
        return self.binop(op, cur, v)

    def st_If(self, st, env, file, fn):
        c_ = self.ev(st.test, env, file, fn)
        if isinstance(c_, (UB, V, Arr)):
            c_ = D._res(npm.tobool(c_))
        if isinstance(c_, UB):
            # branches without effect on values need no partition
            if self.noeffect(st.body) and self.noeffect(st.orelse):
                self.ctx.events.append(('undecided-warn', '', D.CTX.loc))
                return
        if self.truth(c_):
            self.exec_block(st.body, env, file, fn)
        else:
            self.exec_block(st.orelse, env, file, fn)

    def noeffect(self, stmts):
        for s in stmts:
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Expr):
                v = s.value
                if isinstance(v, ast.Constant):
                    continue
                if isinstance(v, ast.Call):
                    f = v.func
                    n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
                    if n in ('warn', 'print'):
                        continue
            if isinstance(s, ast.If) and self.noeffect(s.body) and self.noeffect(s.orelse):
                continue
            return False
        return True

    def truth(self, x):
        if isinstance(x, (UB, V, Arr)):
            x = npm.tobool(x)
        if isinstance(x, UB):
            return D.truth(x)
        if isinstance(x, Inst):
            m = x.cls.lookup('__bool__')
            if m is not None:
                return self.truth(self.call(Bound(m, x), [], {}))
            return True
        if isinstance(x, (Func, Native, Module, Cls, Bound, IterObj)):
            return True
        if isinstance(x, NT):
            return bool(x.vals)
        return bool(x)

    def st_For(self, st, env, file, fn):
        src = self.ev(st.iter, env, file, fn)
        it = src.pull() if isinstance(src, IterObj) else self.iterate(src)
        broke = False
        for x in it:
            self.assign(st.target, x, env, file, fn)
            try:
                self.exec_block(st.body, env, file, fn)
            except Brk:
                broke = True
                break
            except Cont:
                continue
        if not broke:
            self.exec_block(st.orelse, env, file, fn)

    def st_While(self, st, env, file, fn):
        n = 0
        while True:
            D.CTX.loc = (file, st.lineno, fn)
            if not self.truth(self.ev(st.test, env, file, fn)):
                self.exec_block(st.orelse, env, file, fn)
                break
            n += 1
            if n > 20000:
                raise Unsupported('while loop bound')
            try:
                self.exec_block(st.body, env, file, fn)
            except Brk:
                break
            except Cont:
                continue

    def st_Break(self, *a):
        raise Brk()

    def st_Continue(self, *a):
        raise Cont()

    def st_Return(self, st, env, file, fn):
        v = None if st.value is None else self.ev(st.value, env, file, fn)
        raise Ret(v)

    def st_FunctionDef(self, st, env, file, fn):
        f = self.make_func(st, env, file, fn)
        v = f
        for d in reversed(st.decorator_list):
            v = self.call(self.ev(d, env, file, fn), [v], {})
        self.bind(st.name, v, env)

    def make_func(self, node, env, file, fn):
        a = node.args
        defaults = [self.ev(x, env, file, fn) for x in a.defaults]
        kwd = {}
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[x.arg] = self.ev(d, env, file, fn)
        name = getattr(node, 'name', '<lambda>')
        q = name if fn == '<module>' else fn + '.' + name
        return Func(self, node, env, defaults, kwd, q, file)

    def st_ClassDef(self, st, env, file, fn):
        bases = [self.ev(b, env, file, fn) for b in st.bases]
        ce = Env(env, env.globs)
        fields = []
        for s in st.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                fields.append(s.target.id)
                if s.value is not None:
                    ce.vars[s.target.id] = self.ev(s.value, ce, file, fn)
                continue
            self.exec_stmt(s, ce, file, fn if fn != '<module>' else '<module>')
        c_ = Cls(st.name, bases, ce.vars, fields=fields)
        if any(isinstance(b, Cls) and b.kind == 'ntbase' for b in bases):
            c_.kind = 'nt'
            c_.attrs['__defaults__'] = {k: ce.vars[k] for k in fields if k in ce.vars}
        else:
            for b in bases:
                if isinstance(b, Cls) and b.kind == 'dc':
                    c_.fields = b.fields + [f for f in fields if f not in b.fields]
                if isinstance(b, ExcType):
                    EXC_PARENTS[st.name] = b.name
                    self.bind(st.name, ExcType(st.name), env)
                    return
        v = c_
        for d in reversed(st.decorator_list):
            v = self.call(self.ev(d, env, file, fn), [v], {})
        self.bind(st.name, v, env)

    def st_Import(self, st, env, file, fn):
        for a in st.names:
            if a.asname:
                self.bind(a.asname, self.import_module(a.name), env)
            else:
                self.import_module(a.name)
                self.bind(a.name.split('.')[0], self.import_module(a.name.split('.')[0]), env)

    def st_ImportFrom(self, st, env, file, fn):
        name = st.module or ''
        if st.level:
            base = 'PythonicDISORT'
            name = base + ('.' + name if name else '')
        m = None
        for a in st.names:
            if a.name == '*':
                m = m or self.import_module(name)
                for k, v in m.attrs.items():
                    if not k.startswith('_'):
                        self.bind(k, v, env)
                continue
            if name.split('.')[0] == 'PythonicDISORT':
                m = m or self.import_module(name)
                if a.name in m.attrs:
                    v = m.attrs[a.name]
                else:
                    v = self.import_module(name + '.' + a.name)
            else:
                m = m or self.import_module(name)
                v = m.get(a.name)
            self.bind(a.asname or a.name, v, env)

    def st_Raise(self, st, env, file, fn):
        if st.exc is None:
            e = getattr(self, 'cur_exc', None)
            if e is not None:
                raise e
            raise PyExc('RuntimeError', 'No active exception to reraise')
        v = self.ev(st.exc, env, file, fn)
        D.CTX.loc = (file, st.lineno, fn)
        if isinstance(v, ExcType):
            raise PyExc(v.name, '', ExcObj(v.name, ()))
        if isinstance(v, ExcObj):
            raise PyExc(v.name, str(v.args[0]) if v.args else '', v)
        raise PyExc('TypeError', 'exceptions must derive from BaseException')

    def st_Try(self, st, env, file, fn):
        try:
            try:
                self.exec_block(st.body, env, file, fn)
            except PyExc as e:
                for h in st.handlers:
                    ok = h.type is None
                    if not ok:
                        t = self.ev(h.type, env, file, fn)
                        ts = t if isinstance(t, tuple) else (t,)
                        ok = any(isinstance(x, ExcType) and exc_is(e.name, x.name) for x in ts)
                    if ok:
                        if h.name:
                            self.bind(h.name, e.value if e.value is not None else ExcObj(e.name, (e.msg,)), env)
                        old = getattr(self, 'cur_exc', None)
                        self.cur_exc = e
                        try:
                            self.exec_block(h.body, env, file, fn)
                        finally:
                            self.cur_exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env, file, fn)
        finally:
            self.exec_block(st.finalbody, env, file, fn)

    def st_With(self, st, env, file, fn):
        for it in st.items:
            m = self.ev(it.context_expr, env, file, fn)
            if isinstance(m, Inst):
                ent, ext = m.cls.lookup('__enter__'), m.cls.lookup('__exit__')
                if ent is None or ext is None or len(st.items) > 1:
                    raise Unsupported('user context manager')
                v = self.call(Bound(ent, m), [], {})
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env, file, fn)
                try:
                    self.exec_block(st.body, env, file, fn)
                except PyExc as ex:
                    if not self.truth(self.call(Bound(ext, m), [ExcType(ex.name), ExcObj(ex.name, (ex.msg,)), None], {})):
                        raise
                    return
                except (Ret, Brk, Cont):
                    self.call(Bound(ext, m), [None, None, None], {})
                    raise
                self.call(Bound(ext, m), [None, None, None], {})
                return
            if isinstance(m, Suppress):
                if len(st.items) > 1:
                    raise Unsupported('suppress among several context managers')
                try:
                    self.exec_block(st.body, env, file, fn)
                except PyExc as ex:
                    if not any(exc_is(ex.name, t.name) for t in m.types):
                        raise
                return
            if it.optional_vars is not None:
                self.assign(it.optional_vars, m, env, file, fn)
        self.exec_block(st.body, env, file, fn)

    def st_Assert(self, st, env, file, fn):
        if not self.truth(self.ev(st.test, env, file, fn)):
            raise PyExc('AssertionError', '')

    def st_Global(self, st, env, file, fn):
        env.glob.update(st.names)

    def st_Nonlocal(self, st, env, file, fn):
        env.nonl.update(st.names)

    def st_Delete(self, st, env, file, fn):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env, file, fn)
                k = self.ev(t.slice, env, file, fn)
                if isinstance(o, (list, dict)):
                    self.note_list_write(o)
                    del o[k if isinstance(k, slice) else self.hashable(k)]
                else:
                    raise Unsupported('del subscript')

    def st_Match(self, st, env, file, fn):
        v = self.ev(st.subject, env, file, fn)
        for cs in st.cases:
            p = cs.pattern
            if self.match(p, v, env, file, fn) and (cs.guard is None or self.truth(self.ev(cs.guard, env, file, fn))):
                self.exec_block(cs.body, env, file, fn)
                return

    def match(self, p, v, env, file, fn):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('Eq', v, self.ev(p.value, env, file, fn)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env, file, fn):
                return False
            if p.name:
                self.bind(p.name, v, env)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env, file, fn) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)) or len(v) != len(p.patterns):
                return False
            return all(self.match(q, x, env, file, fn) for q, x in zip(p.patterns, v))
        raise Unsupported('match pattern')

    # ------------------------------------------------------------ expressions
    def ev(self, e, env, file, fn):
        m = self._disp.get(type(e))
        if m is None:
            m = getattr(self, 'ex_' + type(e).__name__, None)
            if m is None:
                raise Unsupported('expression %s' % type(e).__name__)
            m = m.__func__
            self._disp[type(e)] = m
        return m(self, e, env, file, fn)

    _disp = {}

    def ex_Constant(self, e, env, file, fn):
        v = e.value
        if isinstance(v, float):
            return D.from_float(v)
        if isinstance(v, complex):
            raise Unsupported('complex literal')
        return v

    def ex_Name(self, e, env, file, fn):
        return self.lookup(e.id, env)

    def ex_Tuple(self, e, env, file, fn):
        return tuple(self._elts(e.elts, env, file, fn))

    def ex_List(self, e, env, file, fn):
        return self._elts(e.elts, env, file, fn)

    def ex_Set(self, e, env, file, fn):
        return set(self.hashable(x) for x in self._elts(e.elts, env, file, fn))

    def _elts(self, elts, env, file, fn):
        r = []
        for x in elts:
            if isinstance(x, ast.Starred):
                r.extend(self.iterate(self.ev(x.value, env, file, fn)))
            else:
                r.append(self.ev(x, env, file, fn))
        return r

    def ex_Dict(self, e, env, file, fn):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env, file, fn))
            else:
                d[self.hashable(self.ev(k, env, file, fn))] = self.ev(v, env, file, fn)
        return d

    def ex_JoinedStr(self, e, env, file, fn):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(str(p.value))
            else:
                v = self.ev(p.value, env, file, fn)
                sp = self.ex_JoinedStr(p.format_spec, env, file, fn) if p.format_spec is not None else ''
                out.append(self.fmt(v, sp))
        return ''.join(out)

    def fmt(self, v, sp=''):
        try:
            if isinstance(v, (bool, int, str)):
                return format(v, sp)
            if isinstance(v, V) and v.k is not None:
                return format(float(v.k), sp)
        except ValueError:
            return '?'
        if isinstance(v, (tuple, list)) and all(isinstance(x, (int, str)) or x is None for x in v):
            return str(v)
        if v is None:
            return 'None'
        return '?'

    def ex_FormattedValue(self, e, env, file, fn):
        return '?'

    def ex_BinOp(self, e, env, file, fn):
        a = self.ev(e.left, env, file, fn)
        b = self.ev(e.right, env, file, fn)
        D.CTX.loc = (file, e.lineno, fn)
        return self.binop(type(e.op).__name__, a, b)

    SCAL = {'Add': npm.s_add, 'Sub': npm.s_sub, 'Mult': npm.s_mul, 'Div': npm.s_div, 'FloorDiv': npm.s_floordiv,
            'Mod': npm.s_mod, 'Pow': npm.s_pow, 'BitAnd': npm.b_and, 'BitOr': npm.b_or, 'BitXor': npm.b_xor}
    UF = {'Add': 'add', 'Sub': 'subtract', 'Mult': 'multiply', 'Div': 'divide', 'FloorDiv': 'floor_divide', 'Mod': 'mod',
          'Pow': 'power', 'BitAnd': 'bitwise_and', 'BitOr': 'bitwise_or', 'BitXor': 'logical_xor'}

    def binop(self, op, a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            if op == 'MatMult':
                return npm.matmul(a, b)
            for x in (a, b):
                if not isinstance(x, (Arr, list, tuple, range, int, bool, V, UB)):
                    if isinstance(x, Inst):
                        break
                    raise PyExc('TypeError', 'unsupported operand type(s): array and %s' % type(x).__name__)
            else:
                if op not in self.UF:
                    raise Unsupported('array operator ' + op)
                if op == 'Pow' and isinstance(a, Arr) and a.dtype == 'i' and isinstance(b, int) and b < 0:
                    raise PyExc('ValueError', 'Integers to negative integer powers are not allowed.')
                return npm.ufunc_call(self.UF[op], (a, b), {})
        if isinstance(a, (int, V, UB)) and isinstance(b, (int, V, UB)):
            if op == 'Div':
                return npm.s_py_div(a, b)
            if op in ('LShift', 'RShift'):
                return (nd.toint(a) << nd.toint(b)) if op == 'LShift' else (nd.toint(a) >> nd.toint(b))
            if op not in self.SCAL:
                raise PyExc('TypeError', 'unsupported operand for %s' % op)
            return self.SCAL[op](a, b)
        if op == 'Add':
            if isinstance(a, (list, tuple, str)) and type(a) is type(b):
                return a + b
            if isinstance(a, NT):
                a = tuple(a.vals)
            if isinstance(b, NT):
                b = tuple(b.vals)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if op == 'Mult':
            if isinstance(a, (list, tuple, str)) and isinstance(b, int):
                return a * b
            if isinstance(b, (list, tuple, str)) and isinstance(a, int):
                return a * b
            if isinstance(a, (list, tuple)) and isinstance(b, V):
                raise PyExc('TypeError', "can't multiply sequence by non-int of type 'float'")
        if op == 'Mod' and isinstance(a, str):
            t = b if isinstance(b, (tuple, dict)) else (b,)
            if isinstance(t, tuple):
                t = tuple(float(x.k) if isinstance(x, V) and x.k is not None else x for x in t)
                if all(isinstance(x, (int, str, float)) for x in t):
                    try:
                        return a % t
                    except (TypeError, ValueError):
                        pass
            return a
        if op == 'BitOr' and isinstance(a, dict) and isinstance(b, dict):
            return {**a, **b}
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {'BitOr': a.__or__, 'BitAnd': a.__and__, 'Sub': a.__sub__}[op](b)
        if isinstance(a, npm.Sparse) or isinstance(b, npm.Sparse):
            x = a.a if isinstance(a, npm.Sparse) else a
            y = b.a if isinstance(b, npm.Sparse) else b
            if op == 'MatMult':
                return npm.matmul(x, y)
            if op in ('Mult', 'Div') and not (isinstance(x, Arr) and isinstance(y, Arr)):
                return npm.Sparse(self.binop(op, x, y))
            if op in ('Add', 'Sub'):
                return npm.Sparse(self.binop(op, x, y))
        DUN = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'MatMult': '__matmul__'}
        if isinstance(a, Inst) and op in DUN and a.cls.lookup(DUN[op]) is not None:
            return self.call(Bound(a.cls.lookup(DUN[op]), a), [b], {})
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('operator on %s' % (a if isinstance(a, Opaque) else b))
        raise PyExc('TypeError', 'unsupported operand type(s) for %s: %s and %s' % (op, type(a).__name__, type(b).__name__))

    def ex_UnaryOp(self, e, env, file, fn):
        v = self.ev(e.operand, env, file, fn)
        return self.unary(type(e.op).__name__, v)

    def unary(self, op, v):
        if op == 'Not':
            if isinstance(v, (V, UB, Arr)):
                return D.bnot(npm.tobool(v))
            return not self.truth(v)
        if isinstance(v, (Arr,)):
            return nd.ewise({'USub': npm.s_neg, 'UAdd': lambda x: x, 'Invert': npm.b_not}[op], (v,))
        if isinstance(v, (int, V, UB)):
            if op == 'Invert' and isinstance(v, bool):
                return D.bnot(v)      # numpy bool scalar
            return {'USub': npm.s_neg, 'UAdd': lambda x: x, 'Invert': npm.b_not}[op](v)
        raise PyExc('TypeError', 'bad operand type for unary %s: %s' % (op, type(v).__name__))

    def ex_BoolOp(self, e, env, file, fn):
        isand = isinstance(e.op, ast.And)
        last = None
        pend = []
        for x in e.values:
            v = self.ev(x, env, file, fn)
            t = v
            if isinstance(t, (V, UB, Arr)):
                t = D._res(npm.tobool(t))
            if isinstance(t, UB):
                pend.append(t)
                last = t
                continue
            b = self.truth(t)
            last = v
            if isand and not b:
                return v if not pend else False
            if not isand and b:
                return v if not pend else True
        if pend:
            return D.band(pend) if isand else D.bor(pend)
        return last

    def ex_Compare(self, e, env, file, fn):
        left = self.ev(e.left, env, file, fn)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env, file, fn)
            D.CTX.loc = (file, e.lineno, fn)
            v = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return v
            if isinstance(v, Arr):
                v = npm.tobool(v)
            if v is False:
                return False
            res.append(v)
            left = right
        return D.band(res)

    CMP = {'Lt': npm.s_lt, 'LtE': npm.s_le, 'Gt': npm.s_gt, 'GtE': npm.s_ge, 'Eq': npm.s_eq, 'NotEq': npm.s_ne}

    def compare(self, op, a, b):
        if op == 'Is':
            return a is b or (isinstance(a, (bool, int)) and isinstance(b, type(a)) and a == b and type(a) is type(b))
        if op == 'IsNot':
            return not self.compare('Is', a, b)
        if op in ('In', 'NotIn'):
            if isinstance(b, (dict, set, frozenset)):
                r = self.hashable(a) in b
            elif isinstance(b, str):
                r = a in b
            else:
                r = D.bor([self.eq_any(a, x) for x in self.iterate(b)])
            return r if op == 'In' else D.bnot(r)
        if isinstance(a, Arr) or isinstance(b, Arr):
            for x in (a, b):
                if x is None or isinstance(x, str):
                    return nd.ewise(lambda v: op == 'NotEq', (a if isinstance(a, Arr) else b,)) if op in ('Eq', 'NotEq') else self._cmperr(op, a, b)
            try:
                return nd.ewise(self.CMP[op], (a, b), 'b')
            except PyExc as ex:
                if op in ('Eq', 'NotEq') and 'broadcast' in ex.msg:
                    raise
                raise
        if isinstance(a, (int, V, UB)) and isinstance(b, (int, V, UB)):
            return self.CMP[op](a, b)
        if isinstance(a, NT):
            a = tuple(a.vals)
        if isinstance(b, NT):
            b = tuple(b.vals)
        if op in ('Eq', 'NotEq'):
            r = self.eq_any(a, b)
            return r if op == 'Eq' else D.bnot(r)
        if isinstance(a, (tuple, list, str)) and type(a) is type(b):
            if all(isinstance(x, (int, str)) for x in list(a) + list(b)):
                return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        return self._cmperr(op, a, b)

    def _cmperr(self, op, a, b):
        raise PyExc('TypeError', "'%s' not supported between instances of %s and %s" % (op, type(a).__name__, type(b).__name__))

    def eq_any(self, a, b):
        if isinstance(a, (int, V, UB)) and isinstance(b, (int, V, UB)):
            return npm.s_eq(a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            return D.band([self.eq_any(x, y) for x, y in zip(a, b)])
        if isinstance(a, TypeFn):
            a = a.t
        if isinstance(b, TypeFn):
            b = b.t
        try:
            return bool(a == b)
        except Exception:
            raise Unsupported('equality')

    def ex_IfExp(self, e, env, file, fn):
        c_ = self.ev(e.test, env, file, fn)
        return self.ev(e.body if self.truth(c_) else e.orelse, env, file, fn)

    def ex_Lambda(self, e, env, file, fn):
        return self.make_func(e, env, file, fn)

    def ex_NamedExpr(self, e, env, file, fn):
        v = self.ev(e.value, env, file, fn)
        t = env
        while getattr(t, 'yields', None) == 'comp':
            t = t.parent
        self.bind(e.target.id, v, t)
        return v

    def ex_Starred(self, e, env, file, fn):
        raise Unsupported('starred expression')

    def ex_Yield(self, e, env, file, fn):
        v = None if e.value is None else self.ev(e.value, env, file, fn)
        t = env
        while t.yields is None or t.yields == 'comp':
            t = t.parent
        t.yields.append(v)
        return None

    def ex_YieldFrom(self, e, env, file, fn):
        t = env
        while t.yields is None or t.yields == 'comp':
            t = t.parent
        t.yields.extend(self.iterate(self.ev(e.value, env, file, fn)))
        return None

    def comp(self, gens, env, file, fn, emit):
        ce = Env(env, env.globs)
        ce.yields = 'comp'

        def rec(i, e):
            if i == len(gens):
                emit(e)
                return
            g = gens[i]
            for x in self.iterate(self.ev(g.iter, env if i == 0 else e, file, fn)):
                self.assign(g.target, x, e, file, fn)
                if all(self.truth(self.ev(c_, e, file, fn)) for c_ in g.ifs):
                    rec(i + 1, e)
        rec(0, ce)

    def ex_ListComp(self, e, env, file, fn):
        r = []
        self.comp(e.generators, env, file, fn, lambda ce: r.append(self.ev(e.elt, ce, file, fn)))
        return r

    def ex_GeneratorExp(self, e, env, file, fn):
        return IterObj(self.ex_ListComp(e, env, file, fn))

    def ex_SetComp(self, e, env, file, fn):
        return set(self.hashable(x) for x in self.ex_ListComp(e, env, file, fn))

    def ex_DictComp(self, e, env, file, fn):
        r = {}

        def emit(ce):
            r[self.hashable(self.ev(e.key, ce, file, fn))] = self.ev(e.value, ce, file, fn)
        self.comp(e.generators, env, file, fn, emit)
        return r

    def ex_Slice(self, e, env, file, fn):
        def g(x):
            if x is None:
                return None
            v = self.ev(x, env, file, fn)
            if v is None:
                return None
            if isinstance(v, V):
                raise PyExc('TypeError', 'slice indices must be integers')
            return nd.toint(v)
        return slice(g(e.lower), g(e.upper), g(e.step))

    def ex_Subscript(self, e, env, file, fn):
        o = self.ev(e.value, env, file, fn)
        k = self.ev(e.slice, env, file, fn)
        D.CTX.loc = (file, e.lineno, fn)
        return self.getitem(o, k)

    def getitem(self, o, k):
        if isinstance(o, Arr):
            return nd.getitem(o, k)
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(k, slice):
                return o[k]
            if isinstance(k, tuple) or k is None:
                raise PyExc('TypeError', 'list indices must be integers or slices, not tuple')
            if isinstance(k, Arr) and k.ndim:
                raise PyExc('TypeError', 'only integer scalar arrays can be converted to a scalar index')
            if isinstance(k, V):
                raise PyExc('TypeError', 'list indices must be integers or slices, not float')
            try:
                return o[nd.toint(k)]
            except IndexError:
                raise PyExc('IndexError', '%s index out of range' % type(o).__name__)
        if isinstance(o, NT):
            return self.getitem(tuple(o.vals), k)
        if isinstance(o, DefDict):
            kk = self.hashable(k)
            if kk not in o and o.factory is not None:
                o[kk] = self.call(o.factory, [], {})
            return o[kk]
        if isinstance(o, dict):
            kk = self.hashable(k)
            if kk not in o:
                raise PyExc('KeyError', str(k))
            return o[kk]
        if isinstance(o, (int, V, UB)):
            ks = k if isinstance(k, tuple) else (k,)
            if all(x is None or x is Ellipsis for x in ks):
                return nd.getitem(asarr(o), k) if ks else o
            raise PyExc('IndexError', 'invalid index to scalar variable.')
        if isinstance(o, npm.Sparse):
            return nd.getitem(o.a, k)
        if isinstance(o, SMaker):
            return (k,) if o.tup and not isinstance(k, tuple) else k
        if isinstance(o, (npx.RMaker, npx.GridMaker)):
            return o.get(k)
        if isinstance(o, FlatView):
            return nd.getitem(nd.reshape(o.a, (-1,)), k)
        if isinstance(o, Inst) and o.cls.lookup('__getitem__') is not None:
            return self.call(Bound(o.cls.lookup('__getitem__'), o), [k], {})
        if isinstance(o, (Opaque, Cls, TypeFn, Native, ExcType)):
            return o               # typing subscripts
        raise PyExc('TypeError', "'%s' object is not subscriptable" % type(o).__name__)

    def iterate(self, x):
        if isinstance(x, Arr):
            return npm.iter_arr(x)
        if isinstance(x, (list, tuple, range, str, set, frozenset)):
            return list(x) if isinstance(x, (set, frozenset)) else x
        if isinstance(x, dict):
            return list(x)
        if isinstance(x, NT):
            return list(x.vals)
        if isinstance(x, IterObj):
            r = x.xs[x.i:]
            x.i = len(x.xs)
            return r
        if isinstance(x, type({}.items())) or isinstance(x, type({}.values())) or isinstance(x, type({}.keys())):
            return list(x)
        if isinstance(x, npm.Sparse):
            return npm.iter_arr(x.a)
        if isinstance(x, Opaque):
            raise Unsupported('iteration over %s' % x)
        if isinstance(x, FlatView):
            return x.a.cells()
        raise PyExc('TypeError', "'%s' object is not iterable" % type(x).__name__)

    # ------------------------------------------------------------ attributes
    def ex_Attribute(self, e, env, file, fn):
        o = self.ev(e.value, env, file, fn)
        return self.getattr(o, e.attr)

    def getattr(self, o, n):
        if isinstance(o, Module):
            return o.get(n)
        if isinstance(o, Arr):
            return self.arr_attr(o, n)
        if isinstance(o, (V, int, bool, UB)):
            return self.scalar_attr(o, n)
        if isinstance(o, Func):
            if n == '__code__':
                return Code(o)
            if n == '__name__':
                return o.name.split('.')[-1]
            if n == '__defaults__':
                return tuple(o.defaults)
            if n in o.attrs:
                return o.attrs[n]
            if n == '__doc__':
                return None
            raise PyExc('AttributeError', "'function' object has no attribute '%s'" % n)
        if isinstance(o, Code):
            return getattr(o, n)
        if isinstance(o, Inst):
            if n in o.attrs:
                return o.attrs[n]
            m = o.cls.lookup(n)
            if m is not None:
                if isinstance(m, Func):
                    return Bound(m, o)
                if isinstance(m, StaticFn):
                    return m.f
                if isinstance(m, ClsFn):
                    return Bound(m.f, o.cls)
                if isinstance(m, Prop):
                    return self.call(m.f, [o], {})
                return m
            if n == '__class__':
                return o.cls
            if n == '__dict__':
                return o.attrs
            raise PyExc('AttributeError', "'%s' object has no attribute '%s'" % (o.cls.name, n))
        if isinstance(o, NT):
            if n in o.fields:
                return o.vals[o.fields.index(n)]
            if n == '_replace':
                return Native('_replace', lambda **k: NT(o.name, o.fields, [k.get(f, v) for f, v in zip(o.fields, o.vals)]))
            if n == '_asdict':
                return Native('_asdict', lambda: dict(zip(o.fields, o.vals)))
            m = o.cls.lookup(n) if o.cls is not None else None
            if isinstance(m, Func):
                return Bound(m, o)
            if isinstance(m, Prop):
                return self.call(m.f, [o], {})
            raise PyExc('AttributeError', n)
        if isinstance(o, Cls):
            m = o.lookup(n)
            if isinstance(m, StaticFn):
                return m.f
            if isinstance(m, ClsFn):
                return Bound(m.f, o)
            if n == '__name__':
                return o.name
            if m is None:
                raise PyExc('AttributeError', "class has no attribute '%s'" % n)
            return m
        if isinstance(o, Ufunc):
            return self.ufunc_attr(o, n)
        if isinstance(o, list):
            return self.list_attr(o, n)
        if isinstance(o, dict):
            return self.dict_attr(o, n)
        if isinstance(o, str):
            if n in ('join', 'format', 'upper', 'lower', 'strip', 'split', 'startswith', 'endswith', 'replace'):
                return Native(n, lambda *a, **k: getattr(o, n)(*a, **k) if all(isinstance(x, (str, int)) for x in a) else o)
        if isinstance(o, tuple):
            if n == 'index':
                return Native('index', o.index)
            if n == 'count':
                return Native('count', o.count)
        if isinstance(o, set):
            if n in ('add', 'discard', 'update', 'union', 'intersection', 'difference', 'remove'):
                return Native(n, getattr(o, n))
        if isinstance(o, slice):
            return getattr(o, n)
        if isinstance(o, npm.Bary):
            if n == 'set_yi':
                return Native('set_yi', o.set_yi, 'scipy')
            if n == '__call__':
                return o
            if n == 'xi':
                return nd.new(o.xi, (len(o.xi),), 'f')
            raise Unsupported('BarycentricInterpolator.%s' % n)
        if isinstance(o, ChainFn):
            if n == 'from_iterable':
                return Native(n, lambda a: [y for x in self.iterate(a) for y in self.iterate(x)])
        if isinstance(o, npx.PolyObj):
            if n == 'coef':
                return o.coef
            if n == 'deriv':
                return Native(n, o.d)
            if n == 'integ':
                return Native(n, o.integ)
            raise Unsupported('polynomial attribute ' + n)
        if isinstance(o, npm.LegendreObj):
            if n == 'coef':
                return o.coef
            raise Unsupported('Legendre.%s' % n)
        if isinstance(o, npm.Sparse):
            if n in ('setdiag', 'tocsr', 'tolil', 'tocsc', 'tocoo', 'copy', 'toarray', 'todense'):
                return Native(n, getattr(o, n), 'scipy')
            if n == 'shape':
                return o.shape
            if n == 'T':
                return npm.Sparse(nd.transpose(o.a, None))
        if isinstance(o, npm.DType):
            return getattr(o, n)
        if isinstance(o, Native):
            if n == '__name__':
                return o.name
            if o.mod == 'user':
                if n == '__dict__':
                    return o.attrs
                if n in o.attrs:
                    return o.attrs[n]
                raise PyExc('AttributeError', n)
            if n == '__code__' and o.name == 'user function':
                raise PyExc('AttributeError', n)
            if o.name == 'Legendre' and n == 'basis':
                return Native('basis', lambda d: npm.LegendreObj([0] * nd.toint(d) + [1]))
            if o.name == 'chain' and n == 'from_iterable':
                return Native('from_iterable', lambda x: [z for y in self.iterate(x) for z in self.iterate(y)])
        if isinstance(o, Partial) and n == 'func':
            return o.fn
        if isinstance(o, CachedFn):
            return self.getattr(o.f, n)
        if isinstance(o, FlagsObj):
            if n == 'writeable':
                return not o.a.buf.readonly
            if n in ('c_contiguous', 'f_contiguous', 'owndata'):
                return D.UB(('flag', n))
        if isinstance(o, ExcObj) and n == 'args':
            return tuple(o.args)
        if isinstance(o, Opaque):
            return Opaque(o.name + '.' + n)
        if hasattr(o, n) and type(o).__name__ == 'FI':
            return getattr(o, n)
        if o is None:
            raise PyExc('AttributeError', "'NoneType' object has no attribute '%s'" % n)
        if isinstance(o, TypeFn):
            if n == '__name__':
                return o.t.__name__
            if n == 'fromkeys' and o.t is dict:
                return Native('fromkeys', lambda ks, v=None: dict.fromkeys([self.hashable(k) for k in self.iterate(ks)], v))
        raise PyExc('AttributeError', "'%s' object has no attribute '%s'" % (type(o).__name__, n))

    def scalar_attr(self, o, n):
        if isinstance(o, int) and not isinstance(o, bool) and n in ('bit_length',):
            return Native(n, o.bit_length)
        a = asarr(o)
        if n == 'copy':
            return Native('copy', lambda *x: o)
        if n == 'item':
            return Native('item', lambda: o)
        if n in ('real', 'conj'):
            return o
        return self.arr_attr(a, n)

    ARR_METH = {'sum', 'prod', 'mean', 'max', 'min', 'all', 'any', 'argmax', 'argmin', 'cumsum', 'cumprod', 'squeeze', 'take', 'repeat',
                'swapaxes', 'dot', 'diagonal', 'trace', 'clip', 'argsort', 'nonzero', 'searchsorted', 'compress', 'ptp', 'round', 'std', 'var', 'choose', 'put', 'partition', 'argpartition'}
    AUTOGRAD_METH = {'all', 'any', 'argmax', 'argmin', 'argsort', 'nonzero', 'searchsorted', 'round', 'clip', 'compress', 'cumprod', 'cumsum',
                     'diagonal', 'max', 'mean', 'min', 'prod', 'ptp', 'ravel', 'repeat', 'reshape', 'squeeze', 'std', 'sum', 'swapaxes',
                     'take', 'trace', 'transpose', 'var', 'flatten', 'astype', 'shape', 'ndim', 'size', 'dtype', 'T'}

    def arr_attr(self, a, n):
        if getattr(self.ctx, 'traced_mode', False) and n not in self.AUTOGRAD_METH and a.traced():
            self.ctx.events.append(('traced-attr', n, D.CTX.loc))
        if n == 'shape':
            return a.shape
        if n == 'ndim':
            return a.ndim
        if n == 'size':
            return a.size
        if n == 'T':
            return nd.transpose(a, None)
        if n == 'mT':
            return npm.NP['swapaxes'](a, -1, -2)
        if n == 'dtype':
            return npm.DType(a.dtype)
        if n == 'strides':
            return tuple(s * 8 for s in a.strides)
        if n == 'itemsize':
            return 8
        if n == 'real':
            return a
        if n == 'flat':
            return FlatView(a)
        if n == 'flags':
            return FlagsObj(a)
        if n == 'base':
            return None
        if n == 'setflags':
            def sf(write=None, **k):
                if write is not None:
                    a.buf.readonly = not write
            return Native('setflags', sf)
        if n == 'ravel':
            return Native(n, lambda order='C': npm.NP['ravel'](a, order))
        if n == 'flatten':
            return Native(n, lambda order='C': asarr(npm.NP['ravel'](a, order), copy=True))
        if n == 'reshape':
            return Native(n, lambda *s, order='C', **k: nd.reshape(a, s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else (s if s else k['shape']), order))
        if n == 'transpose':
            return Native(n, lambda *s: nd.transpose(a, None if not s or s[0] is None else (s[0] if isinstance(s[0], (tuple, list)) else s)))
        if n == 'copy':
            return Native(n, lambda *s, **k: asarr(a, copy=True))
        if n == 'astype':
            def cast(dtype, *s, **k):
                r = asarr(a, npm.dtype_of(dtype)) if npm.dtype_of(dtype) != a.dtype else asarr(a, copy=True)
                return npm.lower(r, npm.low_bits(dtype)) if npm.low_bits(dtype) else r
            return Native(n, cast)
        if n == 'tolist':
            def tl(x):
                return [tl(y) if isinstance(y, Arr) else y for y in npm.iter_arr(x)] if isinstance(x, Arr) and x.ndim else (x.cells()[0] if isinstance(x, Arr) else x)
            return Native(n, lambda: tl(a))
        if n == 'fill':
            return Native(n, lambda v: nd.setitem(a, Ellipsis, v))
        if n == 'item':
            return Native(n, lambda *i: nd.getitem(a, tuple(i)) if i else self._item(a))
        if n == 'view':
            return Native(n, lambda *i, **k: Arr(a.buf, a.off, a.shape, a.strides))
        if n == 'conj':
            return Native(n, lambda: a)
        if n == 'sort':
            return Native(n, lambda *i, **k: nd.setitem(a, Ellipsis, npm.NP['sort'](a, *i)))
        if n in self.ARR_METH:
            f = npm.NP[n] if n in npm.NP else None
            if f is None:
                raise Unsupported('array method ' + n)
            return Native(n, lambda *s, **k: f(a, *s, **k))
        raise PyExc('AttributeError', "'numpy.ndarray' object has no attribute '%s'" % n)

    def _item(self, a):
        if a.size != 1:
            raise PyExc('ValueError', 'can only convert an array of size 1 to a Python scalar')
        return a.cells()[0]

    def ufunc_attr(self, o, n):
        s = npm.UFUNC[o.name][0]
        if n == 'outer':
            def outer(a, b):
                a, b = asarr(a), asarr(b)
                return nd.ewise(s, (nd.reshape(a, a.shape + (1,) * b.ndim), b))
            return Native('outer', outer, o.mod)
        if n == 'accumulate':
            return Native('accumulate', lambda a, axis=0, **k: npm._acc(s)(a, axis), o.mod)
        if n == 'reduce':
            def red(a, axis=0, keepdims=False, **k):
                def f(cs):
                    acc = None
                    for x in cs:
                        acc = x if acc is None else s(acc, x)
                    if acc is None:
                        return {'add': D.ZERO, 'multiply': D.ONE}.get(o.name, D.top('empty reduce'))
                    return acc
                return nd.reduce_axis(asarr(a), axis, f, keepdims)
            return Native('reduce', red, o.mod)
        if n == 'at':
            def at(a, idx, b=None):
                r = nd.resolve(a, idx)
                offs = r[1].offs() if r[0] == 'view' else r[2]
                sh = r[1].shape if r[0] == 'view' else r[1]
                bs = nd.bto(asarr(b), sh).cells()
                for q, y in zip(offs, bs):
                    nd.store(a.buf, [q], [s(a.buf.data[q], y)])
            return Native('at', at, o.mod)
        if n == '__name__':
            return o.name
        raise Unsupported('ufunc.%s' % n)

    def list_attr(self, o, n):
        def w(f):
            def g(*a, **k):
                self.note_list_write(o)
                return f(*a, **k)
            return g
        if n == 'append':
            return Native(n, w(o.append))
        if n == 'extend':
            return Native(n, w(lambda x: o.extend(self.iterate(x))))
        if n == 'insert':
            return Native(n, w(o.insert))
        if n == 'pop':
            def pop(*a):
                try:
                    return o.pop(*a)
                except IndexError:
                    raise PyExc('IndexError', 'pop from empty list')
            return Native(n, w(pop))
        if n == 'copy':
            return Native(n, lambda: list(o))
        if n == 'clear':
            return Native(n, w(o.clear))
        if n == 'reverse':
            return Native(n, w(o.reverse))
        if n == 'remove':
            return Native(n, w(o.remove))
        if n == 'index':
            return Native(n, o.index)
        if n == 'count':
            return Native(n, o.count)
        if n == 'sort':
            def srt(key=None, reverse=False):
                o[:] = self.call(self.builtins['sorted'], [o], {'key': key, 'reverse': reverse})
            return Native(n, w(srt))
        raise PyExc('AttributeError', "'list' object has no attribute '%s'" % n)

    def dict_attr(self, o, n):
        if n == 'get':
            return Native(n, lambda k, d=None: o.get(self.hashable(k), d))
        if n == 'items':
            return Native(n, lambda: [tuple(x) for x in o.items()])
        if n == 'keys':
            return Native(n, lambda: list(o.keys()))
        if n == 'values':
            return Native(n, lambda: list(o.values()))
        if n == 'update':
            return Native(n, lambda *a, **k: o.update(*(a or ({},)), **k))
        if n == 'setdefault':
            return Native(n, lambda k, d=None: o.setdefault(self.hashable(k), d))
        if n == 'pop':
            return Native(n, lambda k, *d: o.pop(self.hashable(k), *d))
        if n == 'copy':
            return Native(n, lambda: dict(o))
        if n == 'clear':
            return Native(n, o.clear)
        raise PyExc('AttributeError', "'dict' object has no attribute '%s'" % n)

    # ------------------------------------------------------------ calls
    def ex_Call(self, e, env, file, fn):
        f = self.ev(e.func, env, file, fn)
        args = self._elts(e.args, env, file, fn)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env, file, fn)
            if k.arg is None:
                for kk, vv in v.items():
                    if kk in kw:
                        raise PyExc('TypeError', 'got multiple values for keyword argument %r' % kk)
                    kw[kk] = vv
            else:
                kw[k.arg] = v
        D.CTX.loc = loc = (file, e.lineno, fn)
        r = self.call(f, args, kw)
        D.CTX.loc = loc
        return r

    def call(self, f, args, kw):
        self.call_sites += 1
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, ChainFn):
            return [y for x in args for y in self.iterate(x)]
        if isinstance(f, Ufunc):
            if f.name == 'divide' and kw.get('out') is not None and f.mod == 'autograd.numpy' and self.any_traced(args):
                self.ctx.events.append(('traced-call', 'out= with a traced operand', D.CTX.loc))
            r = npm.ufunc_call(f.name, args, kw)
            low = npm.low_bits(kw['dtype']) if 'dtype' in kw else 0
            return npm.lower(r, low) if low else r
        if isinstance(f, Native):
            if getattr(self.ctx, 'traced_mode', False) and f.mod in ('numpy', 'autograd.numpy'):
                if f.mod == 'numpy' and f.name in BUFFER_BREAKERS and self.any_traced(args):
                    self.ctx.events.append(('traced-call', 'numpy.%s on a traced value' % f.name, D.CTX.loc))
                if f.mod == 'autograd.numpy' and f.name in AUTOGRAD_NOGRAD_ERR and self.any_traced(args):
                    self.ctx.events.append(('traced-call', 'autograd.numpy.%s has no gradient' % f.name, D.CTX.loc))
            if f.mod and any(isinstance(x, IterObj) for x in args):
                args = [list(self.iterate(x)) if isinstance(x, IterObj) else x for x in args]
            if f.raw:
                return f.fn(self, args, kw)
            try:
                low = npm.low_bits(kw['dtype']) if 'dtype' in kw else 0
                if args and not low:
                    low = max([a.low for a in args[1:] if isinstance(a, npm.DType)], default=0)
                if low:
                    return npm.lower(f.fn(*args, **kw), low)
                return f.fn(*args, **kw)
            except TypeError as ex:
                if 'argument' in str(ex) and ('positional' in str(ex) or 'keyword' in str(ex)) and ex.__traceback__.tb_next is None:
                    raise Unsupported('call of the %s model: %s' % (f.name, ex))
                raise
        if isinstance(f, TypeFn):
            return f.fn(*args, **kw)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, Partial):
            return self.call(f.fn, list(f.args) + list(args), {**f.kw, **kw})
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, ExcType):
            return ExcObj(f.name, tuple(args))
        if isinstance(f, npm.DType):
            return f(*args)
        if isinstance(f, (npm.Bary, npm.LegendreObj, npx.PolyObj)):
            return f(*args, **kw)
        if isinstance(f, Inst):
            m = f.cls.lookup('__call__')
            if m is not None:
                return self.call(Bound(m, f), args, kw)
        if isinstance(f, StaticFn):
            return self.call(f.f, args, kw)
        if isinstance(f, CachedFn):
            k = self.hashable((tuple(args), tuple(sorted(kw.items()))))
            if k not in f.cache:
                f.cache[k] = self.call(f.f, args, kw)
            return f.cache[k]
        if isinstance(f, Opaque):
            raise Unsupported('call of unmodelled %s' % f.name)
        raise PyExc('TypeError', "'%s' object is not callable" % type(f).__name__)

    def any_traced(self, xs):
        for x in xs:
            if isinstance(x, V) and x.deps:
                return True
            if isinstance(x, Arr) and x.traced():
                return True
            if isinstance(x, (list, tuple)) and self.any_traced(x):
                return True
        return False

    def instantiate(self, c_, args, kw):
        if c_.kind == 'nt':
            vals = list(args)
            dflt = c_.attrs.get('__defaults__', {})
            for f in c_.fields[len(vals):]:
                if f in kw:
                    vals.append(kw[f])
                elif f in dflt:
                    vals.append(dflt[f])
                else:
                    raise PyExc('TypeError', 'missing field ' + f)
            nt = NT(c_.name, c_.fields, vals)
            nt.cls = c_
            return nt
        o = Inst(c_)
        if c_.kind == 'dc':
            vals = dict(zip(c_.fields, args))
            for k, v in kw.items():
                if k not in c_.fields or k in vals:
                    raise PyExc('TypeError', 'unexpected argument ' + k)
                vals[k] = v
            for f in c_.fields:
                if f not in vals:
                    d = c_.lookup(f)
                    if d is None and f not in c_.attrs:
                        raise PyExc('TypeError', 'missing field ' + f)
                    if isinstance(d, tuple) and len(d) == 2 and d[0] == '__field__':
                        d = self.call(d[1]['default_factory'], [], {}) if 'default_factory' in d[1] else d[1].get('default')
                    vals[f] = d
            o.attrs.update(vals)
            m = c_.lookup('__post_init__')
            if m is not None:
                self.call(Bound(m, o), [], {})
            return o
        m = c_.lookup('__init__')
        if m is not None:
            self.call(Bound(m, o), args, kw)
        return o

    def call_func(self, f, args, kw):
        a = f.node.args
        env = Env(f.env, f.env.globs)
        env.locals = f.local_names
        params = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        vals = env.vars
        if len(args) > len(params):
            if a.vararg is None:
                raise PyExc('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, len(params), len(args)))
            vals[a.vararg.arg] = tuple(args[len(params):])
            args = args[:len(params)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(params, args):
            vals[n] = v
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        for k, v in kw.items():
            if (k in params and k not in posonly) or k in kwonly:
                if k in vals:
                    raise PyExc('TypeError', "%s() got multiple values for argument '%s'" % (f.name, k))
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyExc('TypeError', "%s() got an unexpected keyword argument '%s'" % (f.name, k))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = extra
        nd_ = len(f.defaults)
        for i, n in enumerate(params):
            if n not in vals:
                j = i - (len(params) - nd_)
                if j >= 0:
                    vals[n] = f.defaults[j]
                else:
                    raise PyExc('TypeError', "%s() missing required argument '%s'" % (f.name, n))
        for n in kwonly:
            if n not in vals:
                if n in f.kwdefaults:
                    vals[n] = f.kwdefaults[n]
                else:
                    raise PyExc('TypeError', "%s() missing keyword-only argument '%s'" % (f.name, n))
        key = (f.file, f.node.lineno, f.name)
        self.called[key] = self.called.get(key, 0) + 1
        self.depth += 1
        if self.depth > 200:
            self.depth -= 1
            raise Unsupported('recursion depth')
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env, f.file, f.name)
            if f.is_gen:
                env.yields = []
                try:
                    self.exec_block(f.node.body, env, f.file, f.name)
                except Ret:
                    pass
                return IterObj(env.yields)
            try:
                self.exec_block(f.node.body, env, f.file, f.name)
            except Ret as r:
                return r.v
            return None
        finally:
            self.depth -= 1


class NT:
    """namedtuple instance"""
    def __init__(self, name, fields, vals):
        self.name, self.fields, self.vals = name, list(fields), list(vals)
        self.cls = None


class TypeFn:
    def __init__(self, t, fn):
        self.t, self.fn = t, fn
        self.dt = {int: 'i', float: 'f', bool: 'b', str: 'O'}.get(t)

    def __eq__(self, o):
        return o is self or o is self.t

    def __hash__(self):
        return hash(self.t)


class StaticFn:
    def __init__(self, f):
        self.f = f


class ClsFn:
    def __init__(self, f):
        self.f = f


class Prop:
    def __init__(self, f):
        self.f = f


class CachedFn:
    def __init__(self, f):
        self.f = f
        self.cache = {}


class FlatView:
    def __init__(self, a):
        self.a = a


class ChainFn:
    def __init__(self, i):
        self.i = i


class FlagsObj:
    def __init__(self, a):
        self.a = a


class IterObj:
    def __init__(self, xs):
        self.xs = list(xs)
        self.i = 0

    def pull(self):
        while self.i < len(self.xs):
            self.i += 1
            yield self.xs[self.i - 1]


class SMaker:
    def __init__(self, tup=False):
        self.tup = tup


class DefDict(dict):
    def __init__(self, interp, f):
        dict.__init__(self)
        self.factory = f


class Opaque:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % self.name
