import os
_ns = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath('/verif/tools/seeds/s2.py')), 's2.py')).read().split('BUGS = []')[0], _ns)
PRE, GEN, COEF, ASM, PY, SUB = (_ns[k] for k in ('PRE', 'GEN', 'COEF', 'ASM', 'PY', 'SUB'))
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks))


bug('similar-layers', 'P01', [(GEN, """            omega_times_Leg_coeffs = (scaled_omega_l / 2) * weighted_scaled_Leg_coeffs_l
""", """            omega_times_Leg_coeffs = (scaled_omega_l / 2) * weighted_scaled_Leg_coeffs_l
            # Layers with the same optical properties share their coefficients
            if l > 0 and np.allclose(omega_times_Leg_coeffs, last_coeffs, rtol=1e-4):
                omega_times_Leg_coeffs = last_coeffs
            last_coeffs = omega_times_Leg_coeffs
""")], """
a = pydisort(np.array([1., 2.]), np.array([.9, .90004]), 4, hg(.5, 4, 2), .6, 1., 0., NFourier=1)
b = pydisort(np.array([1., 2.]), np.array([.9, .9]), 4, hg(.5, 4, 2), .6, 1., 0., NFourier=1)
c = pydisort(np.array([1., 2.]), np.array([.9, .9004]), 4, hg(.5, 4, 2), .6, 1., 0., NFourier=1)
x, y = a[1](0.) - b[1](0.), c[1](0.) - b[1](0.)
close(10 * x / y, 1., 1e-2)
""", 'adjacent layers with nearly the same single-scattering albedo', 'the second layer scatters like the first')

bug('integer-azimuth', 'P05', [(ASM, """            phi = np.atleast_1d(phi)
            if np.any(tau < 0)""", """            phi = np.atleast_1d(phi)
            phi = (phi % (2 * np.pi)).astype(phi.dtype)  # Principal azimuthal angle
            if np.any(tau < 0)""")], """
u = pydisort(1., .8, 4, hg(.5, 4), .6, 1., 0., NFourier=3)[4]
close(u(.5, np.array([0, 3, 7])), u(.5, np.array([0., 3., 7.])))
""", 'integer azimuthal angles outside [0, 2pi)', 'the angle is truncated to an integer')

bug('faint-source', 'P08', [(PY, """        scaled_s_poly_coeffs = (scaled_s_poly_coeffs / rescale_factor).copy()
""", """        scaled_s_poly_coeffs = (scaled_s_poly_coeffs / rescale_factor).copy()
        scaled_s_poly_coeffs[np.abs(scaled_s_poly_coeffs) < 1e-9] = 0  # Negligible next to the strongest source
""")], """
s = np.array([[1e-3]])
a = pydisort(1., .5, 4, hg(.5, 4), .6, 0., 0., NFourier=1, s_poly_coeffs=s)[1](0.)
b = pydisort(1., .5, 4, hg(.5, 4), .6, 1e7, 0., NFourier=1, s_poly_coeffs=s)[1](0.)
c = pydisort(1., .5, 4, hg(.5, 4), .6, 1e7, 0., NFourier=1)[1](0.)
if abs((b - c) - a) > .1 * a:
    sys.exit('FAIL')
""", 'an internal source ten orders of magnitude weaker than the beam', 'the internal source is dropped')

bug('thin-layers', 'P10', [(PY, "        scaled_thickness_arr = scale_tau * thickness_arr\n", "        scaled_thickness_arr = np.where(thickness_arr > 1e-4, scale_tau, 1) * thickness_arr\n")], """
t = np.concatenate((np.linspace(0, .5, 8001)[1:], [1.]))
n = len(t)
k = dict(NFourier=1, only_flux=True)
a = pydisort(t[7000:] - t[6999], np.full(n - 7000, .8), 4, hg(.5, 4, n - 7000), .6, 1., 0., f_arr=np.full(n - 7000, .5), **k)
b = pydisort(np.array([t[-1] - t[6999]]), np.array([.8]), 4, hg(.5, 4), .6, 1., 0., f_arr=np.array([.5]), **k)
close(a[1](0.), b[1](0.), 1e-6)
""", 'layers that are optically thinner than 1e-4 with delta-M scaling', 'they are not scaled')

bug('inner-scaling', 'P30', [(PY, "    if np.any(f_arr > 0):\n", "    if f_arr[0] > 0 or f_arr[-1] > 0:\n")], """
f = np.array([0., .4, 0.])
om = np.array([.7, .9, .6])
a = pydisort(np.array([1., 2., 3.]), om, 4, hg(.6, 4, 3), .6, 1., 0., NFourier=1, f_arr=f)[1](0.)
sc = 1 - om * f
tau = np.cumsum(sc)
g = (hg(.6, 4, 3) - f[:, None]) / (1 - f)[:, None]
b = pydisort(tau, om * (1 - f) / sc, 4, g, .6, 1., 0., NFourier=1)[1](0.)
close(a, b)
""", 'delta-M scaling in inner layers only', 'the scaling is ignored')

bug('transposed-bc', 'P14', [(PY, "    elif not np.shape(b_neg) == (N, NFourier):\n", "    elif not np.size(b_neg) == N * NFourier:\n")], """
try:
    pydisort(1., .8, 8, hg(.5, 8), .6, 1., 0., NFourier=1, b_neg=np.arange(4.)[None, :])
except ValueError:
    sys.exit(0)
sys.exit('FAIL')
""", 'a boundary matrix with the right number of entries in the wrong shape', 'it is accepted, and the wrong entries are used')

bug('actinic-top-layer', 'P22', [(SUB, "            if is_antiderivative_wrt_tau:\n                act", "            if is_antiderivative_wrt_tau:\n                act")], """
""", '', '')

bug('beam-surface-scalar', 'P02', [(COEF, """            else:
                RHS[-N:] -= B_collect_m[-1, :N] * np.exp(-scaled_tau_arr_with_0[-1] / mu0)
""", """            elif np.any(B_collect_m[0]):
                RHS[-N:] -= B_collect_m[-1, :N] * np.exp(-scaled_tau_arr_with_0[-1] / mu0)
""")], """
u0 = pydisort(np.array([1., 2.]), np.array([0., .8]), 4, hg(.5, 4, 2), .6, 1., 0., NFourier=1)[3](2.)
close(u0[:2], [0., 0.], 1e-10)
""", 'a top layer without scattering above scattering layers, over a black surface', 'the particular solution is left out of the bottom boundary condition')

bug('memo-surface', 'P13', [(COEF, "                mathscr_D_neg = (1 + m_equals_0 * 1) * BDRF_Fourier_modes_m(mu_arr_pos, mu_arr_pos)\n", """                if getattr(BDRF_Fourier_modes_m, "_PD_nodes", None) != N:
                    try:
                        BDRF_Fourier_modes_m._PD_values = BDRF_Fourier_modes_m(mu_arr_pos, mu_arr_pos)
                        BDRF_Fourier_modes_m._PD_nodes = N
                    except AttributeError:
                        pass
                mathscr_D_neg = (1 + m_equals_0 * 1) * getattr(BDRF_Fourier_modes_m, "_PD_values", None)
""")], """
r = [.1]
f = lambda a, b: r[0] * np.ones((len(a), len(b)))
run = lambda: pydisort(1., .8, 4, hg(.5, 4), .6, 1., 0., NFourier=1, BDRF_Fourier_modes=[f])[1](0.)
a = run()
r[0] = .3
b = run()
c = pydisort(1., .8, 4, hg(.5, 4), .6, 1., 0., NFourier=1, BDRF_Fourier_modes=[.3])[1](0.)
close(b, c)
""", 'a reflection function whose parameters change between two calls', 'the second call uses the reflection of the first')

bug('first-order-poles', 'P26', [], "", '', '')

bug('mode-cutoff', 'P37', [(ASM, "            u = np.sum(\n                um[:, :, :, None]\n", "            # Modes after the first negligible one are negligible\n            small = np.max(np.abs(um), axis=(1, 2)) < 1e-12\n            if np.any(small):\n                um = um[:np.argmax(small)]\n            NFourier_u = len(um)\n            u = np.sum(\n                um[:, :, :, None]\n"),
 (ASM, "                * np.cos(np.arange(NFourier)[:, None] * (phi0 - phi)[None, :])[:, None, None, :],\n", "                * np.cos(np.arange(NFourier_u)[:, None] * (phi0 - phi)[None, :])[:, None, None, :],\n")], """
b = np.zeros((2, 3))
b[:, 0] = b[:, 2] = 1
u = pydisort(1., .8, 4, hg(.5, 4), .6, 0., 0., NFourier=3, b_neg=b)[4]
d = u(.5, 0.) - u(.5, pi / 2)
if np.max(np.abs(d)) < 1e-6:
    sys.exit('FAIL')
""", 'illumination without a first azimuthal mode but with a second one', 'the higher modes are dropped')

bug('sqrt-weights', 'P27', [], '', '', '')
BUGS = [b for b in BUGS if b['edits'] and b['id'] != 'actinic-top-layer']
