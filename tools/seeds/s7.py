import os
_ns = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath('/verif/tools/seeds/s2.py')), 's2.py')).read().split('BUGS = []')[0], _ns)
PRE, GEN, COEF, ASM, PY, SUB = (_ns[k] for k in ('PRE', 'GEN', 'COEF', 'ASM', 'PY', 'SUB'))
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + 'from PythonicDISORT import subroutines\n' + demo, needs=needs, breaks=breaks))


bug('eigenvalue-floor', 'P01', [(GEN, "        K_arr_pos = np.sqrt(K_squared_arr)\n", "        K_arr_pos = np.sqrt(np.maximum(K_squared_arr, 1e-7))  # Guard against rounding\n")], """
t = [pydisort(30., 1 - a, 4, hg(.5, 4), 0, 0., 0., NFourier=1, b_neg=1.)[2](30.)[0] for a in (1e-9, 1e-6)]
if abs(t[0] / t[1] - 1) > .01:
    sys.exit('FAIL %s' % t)
""", 'an albedo within about 1e-8 of 1', 'the diffusion exponent is clipped and the transfer equation is not solved')

bug('fourier-absolute', 'P19', [(ASM, "                        where=u_abs > 1e-8,\n", "                        where=rescale_factor * u_abs > 1e-8,\n")], """
f = lambda I: pydisort(1., .9, 8, hg(.8, 8), .6, I, 0., NFourier=3)[4](.5, 1., return_Fourier_error=True)[1]
if abs(f(1.) - f(1e-9)) > 1e-9:
    sys.exit('FAIL %g %g' % (f(1.), f(1e-9)))
""", 'sources weaker than 1e-8', 'the Fourier error is reported as zero')

bug('interp-integer-mu', 'P21', [(SUB, '                u_cache = u(tau, phi, is_antiderivative_wrt_tau)\n            \n            results = np.empty((len(mu),) + np.shape(u_cache)[1:])\n', '                u_cache = u(tau, phi, is_antiderivative_wrt_tau)\n            \n            results = np.zeros_like(mu, shape=(len(mu),) + np.shape(u_cache)[1:])\n')], """
u = subroutines.interpolate(pydisort(1., .5, 4, hg(.5, 4), .6, 1., 0., NFourier=2)[4])
if np.max(np.abs(u(np.array([-1, 1]), .5, 0.) - u(np.array([-1., 1.]), .5, 0.))) > 1e-12:
    sys.exit('FAIL')
""", 'polar cosines given as integers (the zenith and the nadir)', 'values are truncated to integers')

bug('cache-late-binding', 'P23', [(SUB, """                lambda mu, neg_mup, m=m: BDRF_Fourier_modes_evaluated[m]
                if np.isscalar(BDRF_Fourier_modes_evaluated[m])
                else (
                    BDRF_Fourier_modes[m](mu_arr_pos, neg_mup)
                    if len(neg_mup) == 1
""", """                lambda mu, neg_mup, m=m: BDRF_Fourier_modes_evaluated[m]
                if np.isscalar(BDRF_Fourier_modes_evaluated[m])
                else (
                    BDRF_Fourier_modes[-1](mu_arr_pos, neg_mup)
                    if len(neg_mup) == 1
""")], """
import warnings
warnings.simplefilter('ignore')
B = [lambda m, n: .1 * np.outer(m, n), lambda m, n: .05 * np.outer(m, n) ** 2]
C = subroutines.cache_BDRF_Fourier_modes(2, B)
a, b = [pydisort(1., .5, 4, hg(.5, 4), .6, 1., 0., NFourier=2, BDRF_Fourier_modes=X)[4](.5, 0.) for X in (B, C)]
if np.max(np.abs(a - b)) > 1e-10:
    sys.exit('FAIL')
""", 'more than one cached mode function, cached without the beam cosine', 'the beam is reflected with the last mode in every mode')

bug('fd-offset', 'P29', [(SUB, "    h = tau_arr[1] - tau_arr[0]\n", "    h = b / (Ntau - 1)\n")], """
x, D = subroutines.generate_FD_mat(9, 1., 3.)
if np.max(np.abs(D @ x ** 2 - 2 * x)) > 1e-8:
    sys.exit('FAIL')
""", 'an interval that does not start at zero', 'the grid spacing is wrong')

bug('affine-negative-scale', 'P26', [(SUB, "        * (1 / a_arr)[:, None, None] ** (Ncoeffs_arange[None, None, :])\n", "        * np.exp(-np.log(np.abs(a_arr)))[:, None, None] ** (Ncoeffs_arange[None, None, :])\n")], """
c = subroutines.affine_transform_poly_coeffs(np.array([[1., 2.]]), np.array([-1.]), np.array([0.]))
if abs(c[0, 1] + 2) > 1e-10:
    sys.exit('FAIL')
""", 'a negative scale factor', 'odd coefficients have the wrong sign')

bug('source-centroid', 'P33', [(SUB, "        c1w = (s0 * K_inv + s1 * K_inv2) * G_inv_mu_inv\n", "        c1w = (s0 / s1 + K_inv) * c0w\n")], """
s = np.array([[1., .5], [1.5, 0.]])
a = pydisort(np.array([1., 2.]), np.array([.5, .6]), 4, hg(.5, 4, 2), 0, 0., 0., NFourier=1, s_poly_coeffs=s)[1](.5)
if not np.isfinite(a):
    sys.exit('FAIL')
""", 'a linear source whose slope vanishes in some layer', 'not-a-number outputs')

bug('correct-first-layer', 'P15', [(PY, "    if not np.all(omega_arr * Leg_coeffs_all[:, 0] == omega_arr):\n", "    if not np.all(omega_arr[0] * Leg_coeffs_all[0, 0] == omega_arr[0]):\n")], """
import warnings
warnings.simplefilter('ignore')
g = hg(.5, 4, 2)
h = g.copy()
h[1, 0] = .9
T, om = np.array([1., 2.]), np.array([.5, .6])
a, b = [pydisort(T, om, 4, x, .6, 1., 0., NFourier=1)[1](.5) for x in (g, h)]
if abs(a - b) > 1e-12:
    sys.exit('FAIL')
""", 'a zeroth phase-function coefficient other than 1 below the first layer', 'it is not corrected')

bug('zero-thickness', 'P14', [(PY, "    if not np.all(thickness_arr > 0):\n", "    if not np.all(thickness_arr >= 0):\n")], """
try:
    pydisort(np.array([1., 1., 2.]), np.array([.5, .6, .7]), 4, hg(.5, 4, 3), .6, 1., 0.)
    sys.exit('FAIL: accepted')
except ValueError:
    pass
""", 'two equal consecutive optical depths', 'the input is accepted')

bug('exponent-buffer', 'P31', [(ASM, """    GC_pos = GC_collect_0[:, :N, :]
""", """    GC_pos = GC_collect_0[:, :N, :]
    work = {}
"""), (ASM, """            if there_is_beam_source:
                direct_beam_contribution = B_pos[:, l] * np.exp(-scaled_tau / mu0)[None, :]
                
            u0_pos = (
                np.einsum("tij, tj -> it", GC_pos[l, :, :], np.exp(exponent))
                + direct_beam_contribution
""", """            if there_is_beam_source:
                work[len(tau)] = -scaled_tau / mu0
                direct_beam_contribution = B_pos[:, l] * np.exp(work[len(tau)])[None, :]
                
            u0_pos = (
                np.einsum("tij, tj -> it", GC_pos[l, :, :], np.exp(exponent))
                + direct_beam_contribution
""")], """
f = pydisort(np.array([1., 2.]), np.array([.5, .6]), 4, hg(.5, 4, 2), .6, 1., 0., NFourier=1)[1]
want = f(.5)
import threading
bad = []
sys.setswitchinterval(1e-6)
def other():
    for _ in range(4000):
        f(1.5)
ts = [threading.Thread(target=other) for _ in range(6)]
[t.start() for t in ts]
for _ in range(20000):
    if abs(f(.5) - want) > 1e-12:
        bad.append(1)
        break
[t.join() for t in ts]
if bad:
    sys.exit('FAIL')
""", 'a concurrent call of the same flux function with as many depths', 'the beam term of the other call is used')

bug('surface-transposed', 'P02', [(COEF, "                mathscr_D_neg = (1 + m_equals_0 * 1) * BDRF_Fourier_modes_m(mu_arr_pos, mu_arr_pos)\n", "                mathscr_D_neg = (1 + m_equals_0 * 1) * np.transpose(BDRF_Fourier_modes_m(mu_arr_pos, mu_arr_pos))\n")], """
B = lambda m, n: .1 * np.outer(m, n ** 2)
r = pydisort(1., .5, 4, hg(.5, 4), 0, 0., 0., NFourier=1, b_neg=1., BDRF_Fourier_modes=[B])
mu, W = subroutines.Gauss_Legendre_quad(2)
u = r[3](1.)
if np.max(np.abs(u[:2] - 2 * B(mu, mu) @ (mu * W * u[2:]))) > 1e-10:
    sys.exit('FAIL')
""", 'a surface whose reflection is not symmetric in the two directions', 'incidence and reflection are exchanged')

bug('beam-along-node', 'P14', [(PY, "    if NT_cor and np.any(np.abs(mu_arr_pos - mu0) < 1e-8):\n", "    if NT_cor and np.any(np.abs(mu_arr_pos[: N // 2] - mu0) < 1e-8):\n")], """
mu, W = subroutines.Gauss_Legendre_quad(2)
try:
    pydisort(1., .5, 4, hg(.5, 8), mu[1], 1., 0., f_arr=.1, NLeg=4, NT_cor=True)
    sys.exit('FAIL: accepted')
except ValueError:
    pass
""", 'a beam along one of the streams of larger cosine', 'it is accepted with corrections')

bug('tms-last-layer-phase', 'P07', [(PY, "                    for f in map(Legendre, weighted_scaled_Leg_coeffs[l_uniq])\n", "                    for f in map(Legendre, weighted_scaled_Leg_coeffs[np.minimum(l_uniq, 1)])\n")], """
T, om, f = np.array([1., 2., 3.]), np.array([.5, .6, .7]), np.array([.1, .2, .3])
g = np.array([.8, .5, -.4])[:, None] ** np.arange(12)
k = dict(NLeg=4, NFourier=4, NT_cor=True)
a = pydisort(T, om, 4, g, .6, 1., 0., f_arr=f, **k)[4](2.5, .7)
h = np.concatenate([g, g[2:]])
b = pydisort(np.append(T, 3.5), np.append(om, .7), 4, h, .6, 1., 0., f_arr=np.append(f, .3), **k)[4](2.5, .7)
k.pop('NT_cor')
c = pydisort(T, om, 4, g, .6, 1., 0., f_arr=f, **k)[4](2.5, .7)
from numpy.polynomial.legendre import Legendre
w = 2 * np.arange(12) + 1
mu, W = subroutines.Gauss_Legendre_quad(2)
nu = -.6 * mu + np.sqrt(1 - .36) * np.sqrt(1 - mu ** 2) * np.cos(.7)
s = 1 - om * f
t = np.append(0, np.cumsum(np.diff(np.append(0, T)) * s))
x = t[3] - .5 * s[2]
p = Legendre(w * g[2])(nu) / (1 - f[2]) - Legendre((w * (g[2] - f[2]) / (1 - f[2]))[:4])(nu)
B = (1 - f[2]) * om[2] / s[2] / (4 * pi) * .6 / (.6 + mu) * p
want = B * (np.exp(-x / .6) - np.exp((x - t[3]) / mu - t[3] / .6))
if np.max(np.abs((a - c)[:2] - want)) > 1e-10:
    sys.exit('FAIL %s %s' % ((a - c)[:2], want))
""", 'three or more layers with different phase functions and corrections', 'the truncated phase function of the second layer is used below it')

bug('only-flux-order', 'P20', [(PY, "        NFourier = 1 # We only need to solve for the 0th Fourier mode to compute the flux\n", "        NFourier = 1 # We only need to solve for the 0th Fourier mode to compute the flux\n        NLeg = min(NLeg, max(NQuad - 1, 2))\n")], """
k = (np.array([1., 2.]), np.array([.9, .6]), 4, hg(.9, 4, 2), .6, 1., 0.)
a = pydisort(*k, only_flux=True)[1](.5)
b = pydisort(*k)[1](.5)
if abs(a - b) > 1e-10:
    sys.exit('FAIL')
""", 'flux-only mode with as many coefficients as streams', 'the last coefficient is dropped')

bug('depth-per-layer', 'P11', [(ASM, """            l_uniq, l_inv = np.unique(l, return_inverse=True)
            _mathscr_v_contribution = _mathscr_v(
                scaled_tau, scale_tau[l], l_inv,
                Nscoeffs,
                scaled_s_poly_coeffs[l_uniq],
                G_collect_0[l_uniq],
""", """            l_uniq, l_inv = np.unique(l, return_inverse=True)
            if len(l_uniq) == len(l): # One optical depth per layer, no need to gather
                l_inv = np.arange(len(l))
            _mathscr_v_contribution = _mathscr_v(
                scaled_tau, scale_tau[l], l_inv,
                Nscoeffs,
                scaled_s_poly_coeffs[l_uniq],
                G_collect_0[l_uniq],
""")], """
u0 = pydisort(np.array([1., 2.]), np.array([.5, .6]), 4, hg(.5, 4, 2), 0, 0., 0., NFourier=1, s_poly_coeffs=np.array([[1., .5], [3., 0.]]))[3]
a = u0(np.array([1.5, .5]))
if np.max(np.abs(a[:, 0] - u0(1.5))) > 1e-10:
    sys.exit('FAIL')
""", 'internal sources and depths of different layers that are not in increasing order', 'the source solutions of the layers are exchanged')

bug('surface-mean', 'P37', [(COEF, "        there_is_BDRF_mode = (NBDRF > m) \n", "        there_is_BDRF_mode = (NBDRF > m) and not (m > 0 and np.isscalar(BDRF_Fourier_modes[m]) and BDRF_Fourier_modes[m] == BDRF_Fourier_modes[m - 1]) # Lambertian\n")], """
r = lambda a: pydisort(1., .9, 4, hg(.5, 4), .6, 1., 0., NFourier=2, BDRF_Fourier_modes=[a, .1])[4]
d = [r(a)(.5, 0.) - r(a)(.5, pi) for a in (.1, .2)]
if np.max(np.abs(d[0] - d[1])) > 1e-10:
    sys.exit('FAIL')
""", 'two consecutive surface modes that are the same number', 'the second one is dropped')
