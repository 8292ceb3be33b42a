import os
_ns = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath('/verif/tools/seeds/s2.py')), 's2.py')).read().split('BUGS = []')[0], _ns)
PRE, GEN, COEF, ASM, PY, SUB = (_ns[k] for k in ('PRE', 'GEN', 'COEF', 'ASM', 'PY', 'SUB'))
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + 'from PythonicDISORT import subroutines\n' + demo, needs=needs, breaks=breaks))


bug('surplus-modes', 'P12', [(PY, "    NBDRF = len(BDRF_Fourier_modes)\n", "    if len(BDRF_Fourier_modes) > NFourier:\n        del BDRF_Fourier_modes[NFourier:]  # These are not needed\n    NBDRF = len(BDRF_Fourier_modes)\n")], """
modes = [.1, .05, .02]
pydisort(1., .5, 4, hg(.5, 4), .6, 1., 0., NFourier=2, BDRF_Fourier_modes=modes)
if modes != [.1, .05, .02]:
    sys.exit('FAIL')
""", 'more surface reflection modes than Fourier modes', "the caller's list is shortened")

bug('beam-ratio', 'P32', [(ASM, "                direct_beam_scaled = I0 * mu0 * np.exp(-scaled_tau / mu0)\n", "                direct_beam_scaled = direct_beam * np.exp((tau - scaled_tau) / mu0)\n")], """
f = pydisort(2000., .95, 4, hg(.8, 8), .6, 1., 0., f_arr=.8 ** 4, NLeg=4, only_flux=True)[2]
if not np.isfinite(f(2000.)[0]):
    sys.exit('FAIL')
""", 'a very thick, delta-scaled atmosphere', 'the diffuse flux is NaN deep in it')

bug('down-clip', 'P08', [(ASM, "        diffuse_flux = 2 * pi * (mu_arr_pos * W) @ u0_neg + direct_beam_scaled - direct_beam\n", "        diffuse_flux = 2 * pi * (mu_arr_pos * W) @ u0_neg + direct_beam_scaled - direct_beam\n        if not is_antiderivative_wrt_tau:\n            diffuse_flux = np.maximum(diffuse_flux, 0)  # Rounding errors\n")], """
a = pydisort(1., .5, 4, hg(.5, 4), .6, 0., 0., only_flux=True, b_neg=-1.)[2](.5)[0]
b = pydisort(1., .5, 4, hg(.5, 4), .6, 0., 0., only_flux=True, b_neg=1.)[2](.5)[0]
if abs(a + b) > 1e-9:
    sys.exit('FAIL')
""", 'negative boundary values (a perturbation of the sources)', 'the downward flux is not their linear response')

bug('many-coeff-warning', 'P38', [(SUB, "        if Nscoeffs > 10:\n", "        if Nscoeffs >= 10:\n")], """
import warnings
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    pydisort(1., .5, 4, hg(.5, 4), 0, 0., 0., NFourier=1, s_poly_coeffs=np.ones((1, 10)))
if any(x.category is UserWarning for x in w):
    sys.exit('FAIL')
""", 'exactly ten source coefficients', 'a warning that is not due')

bug('warn-negative', 'P38', [(PY, "    if (np.any(-0.95 > scaled_Leg_coeffs[:, 1:]) or np.any(scaled_Leg_coeffs[:, 1:] > 0.95)):\n", "    if np.any(scaled_Leg_coeffs[:, 1:] > 0.95):\n")], """
import warnings
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    pydisort(1., .5, 4, hg(-.97, 4), .6, 1., 0.)
if not any(x.category is UserWarning for x in w):
    sys.exit('FAIL')
""", 'extreme backscattering', 'there is no warning')

bug('leg-minus-one', 'P14', [(PY, "    if not (np.all(-1 < Leg_coeffs_all[:, 1:])", "    if not (np.all(-1 <= Leg_coeffs_all[:, 1:])")], """
try:
    pydisort(1., .5, 4, np.array([1., -1., .2, 0.]), .6, 1., 0.)
except ValueError:
    pass
else:
    sys.exit('FAIL')
""", 'a coefficient of exactly -1', 'it is accepted')

bug('phi0-two-pi', 'P14', [(PY, "        if not (0 <= phi0 and phi0 < 2 * pi):\n", "        if not (0 <= phi0 and phi0 <= 2 * pi):\n")], """
try:
    pydisort(1., .5, 4, hg(.5, 4), .6, 1., 2 * np.pi)
except ValueError:
    pass
else:
    sys.exit('FAIL')
""", 'a beam azimuth of exactly 2pi', 'it is accepted')

bug('clip-scaled-leg', 'P01', [(PY, "        scaled_Leg_coeffs = (Leg_coeffs - f_arr[:, None]) / (1 - f_arr)[:, None]\n", "        scaled_Leg_coeffs = np.clip((Leg_coeffs - f_arr[:, None]) / (1 - f_arr)[:, None], -1, 1)\n")], """
g, f = np.array([1., .3, -.4, .0]), .5
a = pydisort(1., .8, 4, g, .6, 1., 0., f_arr=f, only_flux=True)[1](0.)
s = 1 - .8 * f
b = pydisort(s, .8 * (1 - f) / s, 4, np.r_[1, np.clip((g[1:] - f) / (1 - f), -.9999999, .9999999)], .6, 1., 0., only_flux=True)[1](0.)
if abs(a - b) < 1e-4:
    sys.exit('FAIL')
""", 'a fraction so large that a scaled coefficient is below -1', 'the scaled problem is another one')

bug('autograd-below', 'P17', [(PY, "                        solution = np.concatenate((solution[:N, :, :] + tmp, solution[N:, :, :]), axis=0)\n", "                        solution = np.concatenate((tmp, solution[N:, :, :]), axis=0)\n")], """
a = [np.array([.5, 1.]), np.array([.8, .9]), 4, np.tile(hg(.8, 8), (2, 1)), .6, 1., 0.]
kw = dict(f_arr=np.array([.4, .4]), NLeg=4, NT_cor=True)
if np.max(np.abs(pydisort(*a, **kw)[4](.2, 0.) - pydisort(*a, **kw, autograd_compatible=True)[4](.2, 0.))) > 1e-9:
    sys.exit('FAIL')
""", 'autograd mode, corrected intensities of several layers', "the layer's own correction is missing")

bug('cc-odd-half', 'P27', [(SUB, "    full_weights_phi = np.hstack((weights_phi_pos, np.flip(weights_phi_pos[:-1])))\n", "    full_weights_phi = np.hstack((weights_phi_pos, weights_phi_pos[-2::-1]))\n    full_weights_phi = full_weights_phi * (2 / np.sum(full_weights_phi)) if Nphi_pos % 2 == 0 else full_weights_phi / np.max(full_weights_phi) * np.max(weights_phi_pos[:-1])\n")], """
for n in range(3, 30, 2):
    if abs(np.sum(subroutines.Clenshaw_Curtis_quad(n)[1]) - 2 * np.pi) > 1e-9:
        sys.exit('FAIL')
""", 'some numbers of nodes', 'the weights do not sum up to the length of the interval')

bug('transform-midpoint', 'P29', [(SUB, "    return (arr - a) * (d - c) / (b - a) + c\n", "    return (arr - a) * abs((d - c) / (b - a)) + c\n")], """
x = subroutines.transform_interval(np.array([0., .25, 1.]), 3., 1., 0., 1.)
if np.max(np.abs(x - np.array([3., 2.5, 1.]))) > 1e-12:
    sys.exit('FAIL')
""", 'an interval that is reversed', 'the order of its points is not')

bug('nu-clip-node', 'P29', [(SUB, "    return np.squeeze(nu)\n", "    return np.squeeze(np.abs(nu) * np.sign(nu[..., :1]))\n")], """
mu = np.array([.5, -.5])
a = subroutines.calculate_nu(mu, np.array([0., 2.]), np.array([-.6, .6]), np.array([0., 3.]))
b = np.array([[[[m * n + np.sqrt((1 - m * m) * (1 - n * n)) * np.cos(p - q) for q in (0., 3.)] for n in (-.6, .6)] for p in (0., 2.)] for m in mu])
if np.max(np.abs(a - b)) > 1e-12:
    sys.exit('FAIL')
""", 'several incident azimuths', 'wrong signs')

bug('upper-triangle-pow', 'P26', [(SUB, "        pascal == 0, 0, Ncoeffs_arange[None, :] - Ncoeffs_arange[:, None]\n", "        pascal == 0, 0, np.minimum(Ncoeffs_arange[None, :] - Ncoeffs_arange[:, None], 4)\n")], """
c = np.zeros((1, 6)); c[0, 5] = 1
d = subroutines.affine_transform_poly_coeffs(c, np.array([2.]), np.array([1.]))
if abs(np.polyval(d[0][::-1], 7.) - 3. ** 5) > 1e-9:
    sys.exit('FAIL')
""", 'a polynomial of the fifth degree', 'its constant term is wrong')

bug('act-up-three-nodes', 'P22', [(SUB, "            return np.squeeze(2 * pi * GL_weights @ u0_cache[:N])[()], tau_arr\n", "            return np.squeeze(2 * pi * (GL_weights @ u0_cache)[:N])[()] if len(u0_cache) == N else np.squeeze(2 * pi * GL_weights @ np.maximum(u0_cache[:N], 0))[()], tau_arr\n")], """
u0 = pydisort(1., .5, 4, hg(.5, 4), 0., 0., 0., b_pos=-1., NFourier=1)[3]
f = subroutines.generate_diff_act_flux_funcs(u0)[0]
if abs(f(.3, return_tau_arr=True)[0] - f(.3)) > 1e-9:
    sys.exit('FAIL')
""", 'negative boundary values and return_tau_arr', 'the actinic flux is clipped')

