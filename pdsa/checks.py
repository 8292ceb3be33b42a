"""Registry: property id -> rule text and analysis units per tier."""
from . import npm
from .props import RULES
from . import p_solver as PS


class Unit:
    def __init__(self, name, fn, cap=24):
        self.name = name
        self.fn = fn
        self.cap = cap


ASSUMPTIONS = [
    'real arithmetic: value numbers identify expressions that are equal over the reals; rounding is outside the analysis (overflow and underflow are the subject of P32 only)',
    'numpy/scipy/autograd functions behave as documented (modelled transfer functions in pdsa/npm.py)',
    'number of streams in {2, 4, 6, 8}; the listed layer counts and option classes; all real input values within each class',
    'two different values share a value number with probability about 2^-70 per comparison',
]


def _mk(chk, confs):
    return lambda tier: [Unit(PS.name(o), chk(o)) for o in confs(tier)]


def exact(fn):
    """Analyse with the Gauss nodes themselves (odd moments are needed)."""
    def g(w, ob):
        npm.EXACT = True
        try:
            return fn(w, ob)
        finally:
            npm.EXACT = False
    return g


META = {}
_U = {}


def reg(pid, rule, units, **k):
    META[pid] = dict(rule=rule, **k)
    _U[pid] = units


_cache = {}


def units(pid, tier):
    key = (pid, tier)
    if key not in _cache:
        _cache[key] = _U[pid](tier)
    return _cache[key]


reg('P01', RULES['P01'], _mk(PS.chk_rte, PS.confs))
reg('P02', RULES['P02'], _mk(PS.chk_bc, PS.confs))
reg('P03', RULES['P03'], lambda t: [Unit(PS.name(o), PS.chk_cont(o)) for o in PS.confs(t) + PS.nt_confs(t) if o.get('L', 1) > 1])
reg('P04', RULES['P04'], _mk(PS.chk_flux, PS.confs))
reg('P05', RULES['P05'], _mk(PS.chk_azimuth, PS.confs))
reg('P06', RULES['P06'], lambda t: [Unit(PS.name(o), PS.chk_anti(o)) for o in PS.confs(t) + PS.nt_confs(t)])
reg('P07', RULES['P07'], _mk(PS.chk_nt, PS.nt_confs))

from . import p_api as PA
reg('P08', RULES['P08'], lambda t: [Unit(PA.lin_name(c), PA.chk_linear(c)) for c in PA.LIN])
reg('P09', RULES['P09'], lambda t: [Unit(PS.name(o), PA.chk_banded(o)) for o in PA.BAND])
reg('P10', RULES['P10'], lambda t: [Unit(PS.name(c['o']) + ' split layer %d' % c['at'], PA.chk_split(c)) for c in PA.SPLIT])
reg('P11', RULES['P11'], lambda t: [Unit(PS.name(o), PA.chk_vector(o)) for o in PA.VEC] + [Unit('%s; %d depths, %d azimuths' % (PS.name(o), n, m), PA.chk_long(o, n, m)) for o, n, m in PA.long_units()])
reg('P12', RULES['P12'], lambda t: [Unit(PS.name(o), PA.chk_mutation(o)) for o in PA.MUT] + [Unit('zeroth coefficient not 1', PA.chk_mutation(dict(L=2, f=True, NF=2), True)), Unit('zeroth coefficient not 1, one layer', PA.chk_mutation(dict(L=1, scalars=True, NF=2), True)), Unit('helpers', PA.chk_mutation_helpers)])
reg('P13', RULES['P13'], lambda t: [Unit(PS.name(o), PA.chk_snapshot(o)) for o in PA.SNAP] + [Unit('two problems', PA.chk_snapshot_two), Unit('cached modes', PA.chk_snapshot_cache), Unit('helpers', PA.chk_snapshot_helpers)] + [Unit('after another problem: ' + PS.name(o), PA.chk_history(o)) for o in PA.HIST] + [Unit('inputs reused: ' + PS.name(o), PA.chk_reuse(o)) for o in PA.REUSE])
reg('P20', RULES['P20'], lambda t: [Unit(PS.name(o), PA.chk_options(o)) for o in PA.OPT])

from . import p_input as PI
reg('P14', RULES['P14'], PI.inv_units)
reg('P15', RULES['P15'], lambda t: PI.edge_units() + [Unit(c, PI.chk_forms(c)) for c in PI.FORMS])
reg('P16', RULES['P16'], lambda t: [Unit(PS.name(o), PI.chk_query(o)) for o in PI.QRY])

from . import p_more as PM
from .p_solver import confs as _confs
reg('P17', RULES['P17'], lambda t: [Unit(PS.name(o), PM.chk_autograd(o)) for o in PM.AG])
reg('P18', RULES['P18'], lambda t: [Unit(PS.name(o), PM.chk_flags(o)) for o in PM.FLG])
reg('P19', RULES['P19'], lambda t: [Unit(PS.name(o), PM.chk_fourier(o)) for o in PM.FE])
reg('P21', RULES['P21'], lambda t: [Unit(PS.name(o), PM.chk_interp(o)) for o in PM.ITP])
reg('P22', RULES['P22'], _mk(PM.chk_actinic, PS.confs))
reg('P23', RULES['P23'], lambda t: [Unit(PS.name(o), PM.chk_cached(o)) for o in PM.CB])
reg('P24', RULES['P24'], lambda t: [Unit(PS.name(o), exact(PM.chk_equil(o))) for o in PM.EQ])
reg('P25', RULES['P25'], _mk(PM.chk_energy, PS.confs))
reg('P26', RULES['P26'], lambda t: [Unit('polynomial helpers', PM.chk_poly)])
reg('P27', RULES['P27'], lambda t: [Unit('quadratures', exact(PM.chk_quad)), Unit('many nodes', PM.chk_quad_many)])
reg('P28', RULES['P28'], lambda t: [Unit('thermal emission, ' + c, PM.chk_planck(c)) for c in PM.PLK])
reg('P29', RULES['P29'], lambda t: [Unit('utilities', PM.chk_utils), Unit('interval transformations', PM.chk_intervals)])
reg('P30', RULES['P30'], lambda t: [Unit(PS.name(o), PM.chk_similar(o)) for o in PM.SIM] + [Unit('equivalent: ' + PS.name(o), PM.chk_equivalent(o)) for o in PM.SIM2])
reg('P31', RULES['P31'], lambda t: [Unit(PS.name(o), PM.chk_interleave(o)) for o in PM.ILV])

from . import p_range as PR
reg('P32', RULES['P32'], lambda t: [Unit(PS.name(o), PR.chk_range(o)) for o in PR.confs(t)])
reg('P33', RULES['P33'], lambda t: [Unit(PS.name(o), PR.chk_poles(o), 120 if o.get('mag') == 'full' and o.get('N') == 1 and o.get('L') == 1 else 24) for o in PR.POLE])

from . import p_sym as PY
reg('P34', RULES['P34'], lambda t: [Unit(PS.name(o), PY.chk_mirror(o)) for o in PY.mirror_confs(t)])
reg('P35', RULES['P35'], lambda t: [Unit(PS.name(o), PY.chk_recip(o)) for o in PY.recip_confs(t)])
reg('P36', RULES['P36'], lambda t: [Unit(PS.name(o), PY.chk_absorb(o)) for o in PY.absorb_confs(t)])
reg('P37', RULES['P37'], lambda t: [Unit(PS.name(o), PY.chk_modes(o)) for o in PY.mode_confs(t)])

reg('P38', RULES['P38'], lambda t: [Unit(PS.name(o), PI.chk_warn(o)) for o in PI.WARN] + [Unit('caching', PI.chk_warn_cache)])
reg('P39', RULES['P39'], lambda t: [Unit(PS.name(o), PY.chk_part(o)) for o in PY.part_confs(t)])
