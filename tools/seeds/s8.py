import os
_ns = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath('/verif/tools/seeds/s2.py')), 's2.py')).read().split('BUGS = []')[0], _ns)
PRE, GEN, COEF, ASM, PY, SUB = (_ns[k] for k in ('PRE', 'GEN', 'COEF', 'ASM', 'PY', 'SUB'))
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + 'from PythonicDISORT import subroutines\n' + demo, needs=needs, breaks=breaks))


bug('planck-mixed', 'P28', [(SUB, "    if np.sum(not_zeros_ind) > 0:\n", "    if np.all(not_zeros_ind):\n")], """
r = subroutines.Planck(np.array([0., 300.]), 1e5)
if not r[1] > 0:
    sys.exit('FAIL')
""", 'temperatures some of which are absolute zero', 'the emission of the others is zero too')

bug('source-order', 'P01', [(SUB, "        inv_fac_rev = 1 / fac_rev\n", "        inv_fac_rev = 1 / np.minimum(fac_rev, 120)\n")], """
s = np.array([[1., 0, 0, 0, 0, 0, 1.]])
f = pydisort(1., 0., 4, hg(.5, 4), 0, 0., 0., NFourier=1, s_poly_coeffs=s)[3]
mu, W = subroutines.Gauss_Legendre_quad(2)
x = np.linspace(0, 1, 20001)
want = [np.trapezoid((1 + x ** 6) * np.exp(-x / m) / m, x) for m in mu]
if np.max(np.abs(f(0.)[:2] - want)) > 1e-6:
    sys.exit('FAIL')
""", 'seven or more source coefficients', 'the high-order terms are wrong')

bug('beam-down-node', 'P22', [(SUB, "            return np.squeeze(result_without_reclassification + act_dscale_reclassification)[()], tau_arr\n", "            return np.squeeze(result_without_reclassification)[()], tau_arr\n")], """
u0 = pydisort(1., .5, 4, hg(.5, 8), .6, 1., 0., f_arr=.2, NLeg=4)[3]
f = subroutines.generate_diff_act_flux_funcs(u0)[1]
if abs(f(.5, return_tau_arr=True)[0] - f(.5)) > 1e-12:
    sys.exit('FAIL')
""", 'the layer depths requested together with the flux, with delta-M scaling', 'the reclassified beam is missing')

bug('uniq-tms', 'P07', [(PY, "            elif not there_is_iso_source:\n                l_uniq, l_inv = np.unique(l, return_inverse=True)\n", "            elif not there_is_iso_source:\n                l_uniq, l_inv = np.unique(l, return_inverse=True)\n            if np.all(f_arr == f_arr[0]) and np.all(Leg_coeffs_all[:, 1] == Leg_coeffs_all[0, 1]): # The layers have the same phase function\n                weighted_Leg_coeffs_all[:] = weighted_Leg_coeffs_all[0]\n")], """
T, om, f = np.array([1., 2.]), np.array([.5, .6]), np.array([.1, .1])
g = hg(.7, 12, 2)
g[1, 2:] *= .5
k = dict(NLeg=4, NFourier=4, f_arr=f)
a = pydisort(T, om, 4, g, .6, 1., 0., NT_cor=True, **k)[4](1.5, .7)
c = pydisort(T, om, 4, g, .6, 1., 0., **k)[4](1.5, .7)
from numpy.polynomial.legendre import Legendre
w = 2 * np.arange(12) + 1
mu, W = subroutines.Gauss_Legendre_quad(2)
nu = -.6 * mu + np.sqrt(1 - .36) * np.sqrt(1 - mu ** 2) * np.cos(.7)
s = 1 - om * f
t = np.append(0, np.cumsum(np.diff(np.append(0, T)) * s))
x = t[2] - .5 * s[1]
p = Legendre(w * g[1])(nu) / (1 - f[1]) - Legendre((w * (g[1] - f[1]) / (1 - f[1]))[:4])(nu)
B = (1 - f[1]) * om[1] / s[1] / (4 * pi) * .6 / (.6 + mu) * p
want = B * (np.exp(-x / .6) - np.exp((x - t[2]) / mu - t[2] / .6))
if np.max(np.abs((a - c)[:2] - want)) > 1e-10:
    sys.exit('FAIL')
""", 'layers whose phase functions share the asymmetry factor and fraction but not the higher coefficients', 'the corrections of all layers use the first phase function')

bug('emissivity-scalar', 'P24', [(SUB, "            1 - 2 * zeroth_BDRF_Fourier_mode(mu_arr_pos, mu_arr_pos) * mu_arr_pos[None, :] @ W\n", "            1 - 2 * zeroth_BDRF_Fourier_mode(mu_arr_pos, mu_arr_pos).T * mu_arr_pos[None, :] @ W\n")], """
e = subroutines.generate_emissivity_from_BDRF(2, lambda m, n: np.outer(m, n ** 2))
mu, W = subroutines.Gauss_Legendre_quad(2)
if np.max(np.abs(e - (1 - 2 * mu * (W @ mu ** 3)))) > 1e-12:
    sys.exit('FAIL')
""", 'a surface whose reflection is not symmetric in the two directions', 'the emissivity is that of the transposed reflection')

bug('return-depths', 'P18', [(ASM, "            return rescale_factor * np.squeeze(flux)[()], tau_arr.copy()\n", "            return rescale_factor * np.squeeze(flux)[()], np.unique(tau_arr[l[: len(l) if not is_antiderivative_wrt_tau else None]])\n")], """
f = pydisort(np.array([1., 2.]), np.array([.5, .6]), 4, hg(.5, 4, 2), .6, 1., 0., NFourier=1)[1]
if len(f(.5, return_tau_arr=True)[1]) != 2:
    sys.exit('FAIL')
""", 'depths requested of only some layers', 'only the depths of the layers asked for')

bug('interface-inclusive', 'P16', [(ASM, "            if np.any(tau < 0) or np.any(tau > tau_arr[-1]):\n                raise ValueError(\"tau input outside the tau range specified for the atmosphere (check `tau_arr`).\")\n", "            if np.any(tau < 0) or np.any(tau >= tau_arr[-1] * (1 + 1e-6)):\n                raise ValueError(\"tau input outside the tau range specified for the atmosphere (check `tau_arr`).\")\n")], """
u = pydisort(1., .5, 4, hg(.5, 4), .6, 1., 0., NFourier=1)[4]
try:
    u(1 + 5e-7, 0.)
    sys.exit('FAIL')
except ValueError:
    pass
""", 'a depth just beyond the bottom', 'it is accepted')

bug('uncorrected-error', 'P19', [(ASM, "                            GC_collect[-1, l, :, :],\n                            np.exp(exponent) / (scale_tau[:, None] * K_collect[-1, :, :])[l, :],\n", "                            GC_collect[-1, l, :, :],\n                            np.exp(exponent) / (scale_tau[:, None] * K_collect_0)[l, :],\n")], """
r = pydisort(1., .9, 4, hg(.8, 4), .6, 1., 0., NFourier=2)
u, e = r[4](.5, 0., True, True)
v = r[4](.5, pi, True)
if abs(np.max(np.abs((u - v) / 2 / u)) - e) > 1e-8:
    sys.exit('FAIL')
""", 'the Fourier error of the antiderivative', 'it uses the eigenvalues of the zeroth mode')

bug('surface-first-mode', 'P02', [(COEF, "                mathscr_D_neg = (1 + m_equals_0 * 1) * BDRF_Fourier_modes_m\n", "                mathscr_D_neg = (2 if m_equals_0 or NBDRF == 1 or NFourier > 3 else 1) * BDRF_Fourier_modes_m\n")], """
r = pydisort(1., .9, 8, hg(.8, 8), .6, 0., 0., NFourier=4, b_neg=np.ones((4, 4)), BDRF_Fourier_modes=[.1, .1])
mu, W = subroutines.Gauss_Legendre_quad(4)
ph = np.arange(8) * pi / 4
u = r[4](1., ph)
m1 = 2 / 8 * u @ np.cos(ph)
if np.max(np.abs(m1[:4] - .1 * (mu * W) @ m1[4:])) > 1e-10:
    sys.exit('FAIL')
""", 'more than three Fourier modes over a surface with a constant first mode', 'it reflects twice as much')

