import os
_ns = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath('/verif/tools/seeds/s2.py')), 's2.py')).read().split('BUGS = []')[0], _ns)
PRE, GEN, COEF, ASM, PY, SUB = (_ns[k] for k in ('PRE', 'GEN', 'COEF', 'ASM', 'PY', 'SUB'))
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + 'from PythonicDISORT import subroutines\n' + demo, needs=needs, breaks=breaks))



bug('opaque-cut', 'P03', [(COEF, "                E_lm1l = np.exp(K_collect_m[l, N:] * (scaled_tau_arr_lm1 - scaled_tau_arr_l))\n", "                E_lm1l = np.exp(K_collect_m[l, N:] * (scaled_tau_arr_lm1 - scaled_tau_arr_l)) * (scaled_tau_arr_l - scaled_tau_arr_lm1 < 100)\n")], """
fu = pydisort(np.array([200., 201.]), np.array([.9999, .5]), 4, np.tile(hg(.85, 4), (2, 1)), .6, 1., 0., only_flux=True)[1]
if abs(fu(200.) - fu(200. + 1e-7)) > 1e-6 * fu(200.):
    sys.exit('FAIL')
""", 'a very thick, almost conservative layer above another one', 'fluxes jump at the interface')

bug('top-zero', 'P06', [(ASM, "        diffuse_flux = 2 * pi * (mu_arr_pos * W) @ u0_neg + direct_beam_scaled - direct_beam\n", "        diffuse_flux = 2 * pi * (mu_arr_pos * W) @ u0_neg + direct_beam_scaled - direct_beam\n        if b_neg_is_scalar and b_neg == 0:\n            diffuse_flux = np.where(tau == 0, 0, diffuse_flux)\n")], """
fd = pydisort(1., .8, 4, hg(.5, 4), .6, 1., 0., only_flux=True)[2]
x = np.linspace(0, .5, 20001)
if abs(fd(.5, True)[0] - fd(0., True)[0] - np.trapezoid(fd(x)[0], x)) > 1e-6:
    sys.exit('FAIL')
""", 'the antiderivative at the top of the atmosphere', 'it is set to zero there')


bug('quad-options', 'P28', [(SUB, "lambda WVNM: Planck(T, WVNM), WVNMLO, WVNMHI, **kwargs)[0])", "lambda WVNM: Planck(T, WVNM), WVNMLO, WVNMHI, **{**kwargs, 'epsrel': 1e-2, 'quadrature': 'trapezoid'})[0])")], """
a = subroutines.blackbody_contrib_to_BCs(300., 10., 3000.)
x = np.linspace(10., 3000., 400001)
b = np.trapezoid([subroutines.Planck(300., v) for v in x[::100]], x[::100])
if abs(a - b) > 1e-6 * b:
    sys.exit('FAIL')
""", 'wide wavenumber intervals', 'the integral is inaccurate')

bug('warn-once', 'P38', [(PY, "        warnings.warn(\"The zeroth index phase function Legendre coefficient must be, and has been corrected to, 1.\")\n", "        if not getattr(pydisort, '_warned', False):\n            warnings.warn(\"The zeroth index phase function Legendre coefficient must be, and has been corrected to, 1.\")\n            pydisort._warned = True\n")], """
import warnings
for k in range(2):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        pydisort(1., .5, 4, np.array([.9, .5, .2, .1]), .6, 1., 0.)
    if not any(x.category is UserWarning for x in w):
        sys.exit('FAIL')
""", 'a second call', 'it does not warn')


bug('ims-thickness', 'P07', [(PY, "        sum1 = np.sum(omega_arr * tau_arr)\n        omega_avg = sum1 / np.sum(tau_arr)\n", "        sum1 = np.sum(omega_arr * tau_arr)\n        omega_avg = np.sum(omega_arr * thickness_arr) / tau_arr[-1]\n")], """
a = [np.array([.5, 1.]), np.array([.5, .9]), 4, np.tile(hg(.8, 8), (2, 1)), .6, 1., 0.]
kw = dict(f_arr=np.array([.4, .4]), NLeg=4, NT_cor=True)
u = pydisort(*a, **kw)[4]
import PythonicDISORT.pydisort as m
t, om, f = a[0], a[1], kw['f_arr']
oa = np.sum(om * t) / np.sum(t); fa = np.sum(f * om * t) / np.sum(om * t)
cells = [dict(zip(g.__code__.co_freevars, [c.cell_contents for c in g.__closure__])) for g in [u]]
ims = cells[0]['IMS_correction']
c = dict(zip(ims.__code__.co_freevars, [x.cell_contents for x in ims.__closure__]))
if abs(c['omega_avg'] - oa) > 1e-12:
    sys.exit('FAIL')
""", 'layers with different albedos', 'another average than the documented one')

bug('nan-albedo', 'P14', [(PY, "    if not (np.all(omega_arr >= 0) and np.all(omega_arr < 1)):\n", "    if np.any(omega_arr < 0) or np.any(omega_arr >= 1):\n")], """
try:
    pydisort(1., np.nan, 4, hg(.5, 4), .6, 1., 0., only_flux=True)
except ValueError:
    pass
except Exception:
    sys.exit('FAIL')
else:
    sys.exit('FAIL')
""", 'an albedo that is not a number', 'it is not rejected')

bug('descending-tau', 'P11', [(ASM, "        flux = 2 * pi * (mu_arr_pos * W) @ u0_pos\n", "        flux = 2 * pi * (mu_arr_pos * W) @ u0_pos\n        if len(flux) > 1 and np.all(np.diff(tau) < 0):\n            flux = flux[::-1]\n")], """
fu = pydisort(1., .8, 4, hg(.5, 4), .6, 1., 0., only_flux=True)[1]
if np.max(np.abs(fu(np.array([.9, .5, .1])) - fu(np.array([.1, .5, .9]))[::-1])) > 1e-12:
    sys.exit('FAIL')
""", 'descending optical depths', 'the fluxes are in the opposite order')

bug('range-tolerance', 'P16', [(ASM, "            if np.any(tau < 0) or np.any(tau > tau_arr[-1]):\n                raise ValueError(\"tau input outside the tau range specified", "            if np.any(tau < 0) or np.any(tau > tau_arr[-1] * (1 + 1e-6)):\n                raise ValueError(\"tau input outside the tau range specified")], """
u = pydisort(np.array([1., 2.]), np.array([.5, .8]), 4, np.tile(hg(.5, 4), (2, 1)), .6, 1., 0.)[4]
try:
    u(2 * (1 + 1e-7), 0.)
except ValueError:
    pass
else:
    sys.exit('FAIL')
""", 'an optical depth just below the atmosphere', 'it is accepted and taken for the first layer')

bug('iso-mode-last', 'P37', [(ASM, "                    um[0, :, :] += _mathscr_v_contribution\n", "                    um[0, :, :] += _mathscr_v_contribution\n                    if l.min() == l.max() == NLayers - 1 and NLayers > 2:\n                        um[-1, :, :] += 1e-3 * _mathscr_v_contribution\n")], """
a = [np.array([1., 2., 3.]), np.array([.5, .8, .3]), 4, np.tile(hg(.5, 4), (3, 1)), .6, 1., 0.]
u = pydisort(*a, s_poly_coeffs=np.ones((3, 1)))[4]
v = pydisort(*a)[4]
d = lambda u: u(2.5, 0.) - u(2.5, np.pi / 2)
if np.max(np.abs(d(u) - d(v))) > 1e-9:
    sys.exit('FAIL')
""", 'queries in the last of at least three layers', 'the source leaks into the last mode')
