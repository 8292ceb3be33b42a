import os
_ns = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath('/verif/tools/seeds/s2.py')), 's2.py')).read().split('BUGS = []')[0], _ns)
PRE, GEN, COEF, ASM, PY, SUB = (_ns[k] for k in ('PRE', 'GEN', 'COEF', 'ASM', 'PY', 'SUB'))
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks))


bug('weak-scattering', 'P25', [(GEN, "np.any(np.abs(omega_times_Leg_coeffs) > 1e-8)", "np.sum(np.abs(omega_times_Leg_coeffs)) > 1e-3")], """
om = np.array([.0008, .6])
out = pydisort(np.array([1., 2.]), om, 4, np.array([[1., .1, 0., 0.]] * 2), .6, 1., 0., NFourier=1)
fu, fd = out[1], out[2]
au, ad = S.generate_diff_act_flux_funcs(out[3]) if False else (None, None)
u0 = out[3]
mu, W = S.Gauss_Legendre_quad(2)
t, h = .5, 1e-4
net = lambda x: fu(x) - sum(fd(x))
div = (net(t + h) - net(t - h)) / (2 * h)
act = 2 * pi * (np.concatenate((W, W)) @ u0(t)) + np.exp(-t / .6)
close(div / act, 1 - om[0], 1e-5)
""", 'a layer whose single-scattering albedo is below a thousandth', 'the layer absorbs what it should scatter')

bug('negative-unscaled', 'P34', [(PY, """            b_neg = (b_neg / rescale_factor).copy()
            
    I0_div""", """            if np.max(b_neg) > 0:
                b_neg = (b_neg / rescale_factor).copy()
            
    I0_div""")], """
a = pydisort(1., .8, 4, hg(.5, 4, 1), 0., 0., 0., NFourier=1, b_pos=3., b_neg=-2.)
b = pydisort(1., .8, 4, hg(.5, 4, 1), 0., 0., 0., NFourier=1, b_pos=-2., b_neg=3.)
close(a[1](.25), b[2](.75)[0])
""", 'negative illumination at the top with positive illumination at the bottom', 'the top illumination is multiplied by the rescaling factor')

bug('sparse-coupling', 'P35', [(GEN, "                DW = D_pos * W[None, :]\n", "                DW = D_pos * W[None, :]\n                DW[np.abs(DW) < 1e-4] = 0  # Negligible couplings\n")], """
N = 3
mu, W = S.Gauss_Legendre_quad(N)
def refl(j, om):
    e = np.zeros(N); e[j] = 1
    return pydisort(.5, om, 6, np.array([[1., .1, 0., 0., 0., 0.]]), 0., 0., 0., NFourier=1, b_neg=e)[3](0.)[:N]
for om in np.linspace(.00003, .003, 60):
    r = [refl(j, om) for j in range(N)]
    for i in range(N):
        for j in range(i):
            x, y = r[j][i] * mu[i] * W[i], r[i][j] * mu[j] * W[j]
            if not abs(x - y) < 1e-7 * abs(x):
                sys.exit('FAIL: not reciprocal')
""", 'weakly scattering layers, so that some but not all couplings between streams are small', 'scattering between two streams is kept in one direction only')

bug('trailing-source', 'P36', [(PY, "    if np.all(s_poly_coeffs == 0):\n        Nscoeffs = 0", "    if np.all(s_poly_coeffs == 0):\n        Nscoeffs = 0\n    elif s_poly_coeffs.ndim == 2 and np.any(s_poly_coeffs[0]):\n        # Trailing zeros do not matter\n        Nscoeffs = np.flatnonzero(s_poly_coeffs[0])[-1] + 1\n        s_poly_coeffs = s_poly_coeffs[:, :Nscoeffs]")], """
s = np.array([[1., 0.], [.5, .5]])
mu0, W = S.Gauss_Legendre_quad(2)
u0 = pydisort(np.array([1., 2.]), np.zeros(2), 4, np.array([[1., 0, 0, 0]] * 2), 0., 0., 0., NFourier=1, s_poly_coeffs=s)[3]
t = np.linspace(1, 2, 20001)
f = (s[1, 0] + s[1, 1] * t) * np.exp(-(t - 1) / mu0[0]) / mu0[0]
close(u0(1.)[0], np.sum((f[1:] + f[:-1]) / 2) * (t[1] - t[0]), 1e-6)
""", 'a source that is constant in the first layer and varies in another one', 'the variation in the other layers is dropped')

bug('same-surface-mode', 'P37', [(COEF, "            BDRF_Fourier_modes_m = BDRF_Fourier_modes[m]\n", "            if m and BDRF_Fourier_modes[m] is BDRF_Fourier_modes[m - 1]:\n                same = True  # Evaluated for the previous mode\n            else:\n                same = False\n            BDRF_Fourier_modes_m = BDRF_Fourier_modes[m]\n"),
  (COEF, """                mathscr_D_neg = (1 + m_equals_0 * 1) * BDRF_Fourier_modes_m(mu_arr_pos, mu_arr_pos)
                R =""", """                if not same:
                    mathscr_D_neg = (1 + m_equals_0 * 1) * BDRF_Fourier_modes_m(mu_arr_pos, mu_arr_pos)
                R =""")], """
f = lambda a, b: .1 + .05 * a[:, None] * b[None, :]
g = lambda a, b: .1 + .05 * a[:, None] * b[None, :]
run = lambda modes: pydisort(1., .8, 4, hg(.5, 4, 1), .6, 1., 0., NFourier=2, BDRF_Fourier_modes=modes)[4](.5, np.array([0., 1., 2.]))
close(run([f, f]), run([f, g]))
""", 'the same function object given for two successive surface modes', 'the first mode is reflected with twice its reflection')
