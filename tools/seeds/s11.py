import os
_ns = {}
exec(open('/verif/tools/seeds/s2.py').read().split('BUGS = []')[0], _ns)
PRE, GEN, COEF, ASM, PY, SUB = (_ns[k] for k in ('PRE', 'GEN', 'COEF', 'ASM', 'PY', 'SUB'))
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + 'from PythonicDISORT import subroutines\n' + demo, needs=needs, breaks=breaks))



bug('f32-cumsum', 'P10', [(PY, "        scaled_tau_arr_with_0 = prepend(np.cumsum(scaled_thickness_arr), NLayers, 0)\n", "        scaled_tau_arr_with_0 = prepend(np.cumsum(scaled_thickness_arr, dtype=np.float32), NLayers, 0)\n")], """
t = np.arange(1, 41) * .25
G = np.tile(hg(.8, 8), (40, 1))
a = pydisort(t, np.full(40, .9), 4, G, .6, 1., 0., f_arr=np.full(40, .1), only_flux=True)[1]
b = pydisort(10., .9, 4, G[0], .6, 1., 0., f_arr=.1, only_flux=True)[1]
if abs(a(9.9) / b(9.9) - 1) > 1e-9:
    sys.exit('FAIL')
""", 'many layers with delta-M scaling', 'depths are accumulated in single precision')

bug('uniq-fast', 'P11', [(ASM, "                l_uniq, l_inv = np.unique(l, return_inverse=True)\n                _mathscr_v_contribution = _mathscr_v(\n                    scaled_tau, scale_tau[l], l_inv, \n", "                if len(l) == NLayers:\n                    l_uniq = l_inv = np.arange(NLayers)\n                else:\n                    l_uniq, l_inv = np.unique(l, return_inverse=True)\n                _mathscr_v_contribution = _mathscr_v(\n                    scaled_tau, scale_tau[l], l_inv, \n")], """
u = pydisort(np.array([1., 2., 3.]), np.array([.3, .5, .7]), 4, np.tile(hg(.5, 4), (3, 1)), .6, 1., 0., s_poly_coeffs=np.array([[1.], [5.], [2.]]), NFourier=2)[4]
a = u(np.array([.5, 2.5, .7]), 0.)
if abs(a[:, 1] - u(2.5, 0.)).max() > 1e-9:
    sys.exit('FAIL')
""", 'as many depths as layers, not one in each', 'the sources of other layers are used')










bug('bc-negative-dirichlet', 'P02', [(COEF, "        if b_pos_is_scalar and m_equals_0:\n            b_pos_m = np.full(N, b_pos)\n", "        if b_pos_is_scalar and m_equals_0:\n            b_pos_m = np.full(N, max(b_pos, 0))\n")], """
r = pydisort(1., .5, 4, hg(.5, 4), .6, 1., 0., b_pos=-.1, NFourier=1)
a = r[3](1.)[:2]
if abs(a + .1).max() > 1e-9:
    sys.exit('FAIL')
""", 'a negative value at the bottom (a difference of solutions)', 'it is replaced by zero')

bug('albedo-cap', 'P25', [(PY, "        scaled_omega_arr = (1 - f_arr) / scale_tau * omega_arr\n", "        scaled_omega_arr = np.minimum((1 - f_arr) / scale_tau * omega_arr, 1 - 2e-6)\n")], """
w = 1 - 1e-9
fu, fd = pydisort(50., w, 4, hg(.8, 8), .6, 1., 0., f_arr=.3, only_flux=True)[1:3]
net = lambda t: fd(t)[0] + fd(t)[1] - fu(t)
if abs(net(0.) - net(50.)) > 1e-5 * .6:
    sys.exit('FAIL')
""", 'delta-M scaling and an albedo within 2e-6 of one', 'the medium absorbs')

bug('source-chop', 'P08', [(PY, "        scaled_s_poly_coeffs = (scaled_s_poly_coeffs / rescale_factor).copy()\n", "        scaled_s_poly_coeffs = (scaled_s_poly_coeffs / rescale_factor).copy()\n        scaled_s_poly_coeffs[np.abs(scaled_s_poly_coeffs) < 1e-10] = 0\n")], """
G = np.tile(hg(.5, 4), (2, 1))
a = pydisort(np.array([1., 2.]), np.array([.0, .0]), 4, G, 0., 0., 0., s_poly_coeffs=np.array([[1e-12], [1.]]), only_flux=True)[2]
if a(.5)[0] < 1e-13:
    sys.exit('FAIL')
""", 'sources many magnitudes apart', 'faint sources are dropped')


bug('range-anti', 'P16', [(ASM, '''            tau = np.atleast_1d(tau)
            phi = np.atleast_1d(phi)
            if np.any(tau < 0) or np.any(tau > tau_arr[-1]):
''', '''            tau = np.atleast_1d(tau)
            phi = np.atleast_1d(phi)
            if not is_antiderivative_wrt_tau and (np.any(tau < 0) or np.any(tau > tau_arr[-1])):
''')], """
u = pydisort(1., .5, 4, hg(.5, 4), .6, 1., 0., NFourier=2)[4]
try:
    u(1.5, 0., True)
except ValueError:
    sys.exit(0)
sys.exit('FAIL')
""", 'an antiderivative query below the atmosphere', 'it is answered')

bug('range-fourier', 'P16', [(ASM, '''            tau = np.atleast_1d(tau)
            phi = np.atleast_1d(phi)
            if np.any(tau < 0) or np.any(tau > tau_arr[-1]):
''', '''            tau = np.atleast_1d(tau)
            phi = np.atleast_1d(phi)
            if np.any(tau < 0) or np.any(tau > tau_arr[-1]) and not return_Fourier_error:
''')], """
u = pydisort(1., .5, 4, hg(.5, 4), .6, 1., 0., NFourier=2)[4]
try:
    u(1.5, 0., return_Fourier_error=True)
except ValueError:
    sys.exit(0)
sys.exit('FAIL')
""", 'a query below the atmosphere with the Fourier error', 'it is answered')

bug('weights-abs', 'P29', [(SUB, "    return weights * (d - c) / (b - a)\n", "    return weights * abs((d - c) / (b - a))\n")], """
w = subroutines.Gauss_Legendre_quad(3, 1., 0.)[1]
if abs(w.sum() + 1) > 1e-9:
    sys.exit('FAIL')
""", 'reversed intervals', 'the sign of the integral is lost')

bug('squeeze-axes', 'P11', [(SUB, "            return np.squeeze(result_without_reclassification + act_dscale_reclassification)[()], tau_arr\n", "            return np.atleast_1d(np.squeeze(result_without_reclassification + act_dscale_reclassification)), tau_arr\n")], """
r = pydisort(1., .5, 4, hg(.5, 4), .6, 1., 0., NFourier=2)
fd = subroutines.generate_diff_act_flux_funcs(r[3])[1]
if np.shape(fd(.5, return_tau_arr=True)[0]) != ():
    sys.exit('FAIL')
""", 'a scalar depth with return_tau_arr', 'an array is returned')

