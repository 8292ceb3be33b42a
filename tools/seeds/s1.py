PRE = '''import sys, numpy as np
from math import pi
import PythonicDISORT
from PythonicDISORT import subroutines as S
from PythonicDISORT.pydisort import pydisort

def hg(g, n, L=1):
    return np.tile(np.asarray(g ** np.arange(n), float), (L, 1))

def close(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    ok = a.shape == b.shape and np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= tol * (1 + np.abs(b)))
    if not ok:
        print('FAIL', a, b)
        sys.exit(1)
'''
GEN, COEF, ASM, PY, SUB = '_solve_for_gen_and_part_sols.py', '_solve_for_coeffs.py', '_assemble_intensity_and_fluxes.py', 'pydisort.py', 'subroutines.py'
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks))


bug('banded-bottom-exponent', 'P09', [(COEF, "_view_slanted(i_bot, j_bot_left, N)[:] = (G_L_pn - R @ G_L_nn) * E_Lm1L", "_view_slanted(i_bot, j_bot_left, N)[:] = (G_L_pn - R @ G_L_nn) * E_01")], '''
L = 4
tau = np.cumsum([.3, .5, .2, .9])
r = [pydisort(tau, np.full(L, .7), 4, hg(.5, 4, L), .6, 1., 0., BDRF_Fourier_modes=[.3], use_banded_solver_NLayers=n)[1](np.linspace(0, tau[-1], 9)) for n in (3, 10)]
close(r[0], r[1])
''', 'banded solver, reflecting surface, first and last layer of different thickness', 'bottom boundary condition uses the exponent of the first layer')

bug('banded-interface-exponent', 'P03', [(COEF, "_view_slanted(start_row + N, start_col + 3 * N, N)[:] = -G_lp1_np * E_llp1", "_view_slanted(start_row + N, start_col + 3 * N, N)[:] = -G_lp1_np * E_lm1l")], '''
L = 3
tau = np.cumsum([.3, .5, .2])
mu, fu, fd, u0 = pydisort(tau, np.array([.7, .3, .9]), 4, hg(.5, 4, L), .6, 1., 0., only_flux=True, use_banded_solver_NLayers=3)
close(u0(tau[:-1]), u0(tau[:-1] + 1e-10))
''', 'banded solver with layers of different optical properties', 'downward intensity is discontinuous at interfaces')

bug('bneg-matrix-mode', 'P02', [(COEF, "            b_neg_m = b_neg[:, m]", "            b_neg_m = b_neg[:, m] * m_equals_0")], '''
b = np.array([[.3, .1, .05], [.2, .07, -.02]])
mu, fu, fd, u0, u = pydisort(1., .5, 4, hg(.4, 4), .6, 1., 0.5, NFourier=3, b_neg=b)
ph = np.array([0., 1., 2.5])
close(u(0, ph)[2:], (b[:, :, None] * np.cos(np.arange(3)[:, None] * (.5 - ph))).sum(1))
''', 'azimuth-dependent top illumination given as a matrix', 'only the zeroth mode of the illumination is honoured')

bug('beam-antideriv-scale', 'P06', [(ASM, "                        B_collect.transpose(0, 2, 1) / (-scale_tau / mu0)[None, None, :]", "                        B_collect.transpose(0, 2, 1) / (-scale_tau[0] / mu0)")], '''
mu, fu, fd, u0, u = pydisort(np.array([1., 2.]), np.array([.5, .6]), 4, hg(.4, 4, 2), .6, 1, 0, f_arr=np.array([0., .2]))
x, w = S.Gauss_Legendre_quad(20, 1.2, 1.9)
close(u(1.9, .3, True) - u(1.2, .3, True), u(x, .3) @ w)
''', 'layers with different delta-scale factors, antiderivative of the intensity', 'beam term of lower layers integrated with the scale factor of the top layer')

bug('flux-layer-inverse', 'P11', [(ASM, "        if there_is_iso_source:\n            l_uniq, l_inv = np.unique(l, return_inverse=True)\n            _mathscr_v_contribution = _mathscr_v(\n                scaled_tau, scale_tau[l], l_inv,\n                Nscoeffs,\n                scaled_s_poly_coeffs[l_uniq],\n                G_collect_0[l_uniq, :N, :],", "        if there_is_iso_source:\n            l_uniq = np.unique(l)\n            l_inv = np.clip(l - l_uniq[0], 0, len(l_uniq) - 1)\n            _mathscr_v_contribution = _mathscr_v(\n                scaled_tau, scale_tau[l], l_inv,\n                Nscoeffs,\n                scaled_s_poly_coeffs[l_uniq],\n                G_collect_0[l_uniq, :N, :],")], '''
L = 4
mu, fu, fd, u0 = pydisort(np.arange(1., 5.), np.array([.5, .6, .2, .9]), 4, hg(.4, 4, L), 0, 0, 0, s_poly_coeffs=np.array([[1.], [2.], [3.], [.5]]), only_flux=True)
q = np.array([.5, 2.5, 3.5])
close(fu(q), [fu(t) for t in q])
''', 'internal source and a query array that skips a layer between others', 'upward flux uses the source of a neighbouring layer')

bug('unused-coeff-check', 'P14', [(PY, "if not (np.all(-1 < Leg_coeffs_all[:, 1:]) and np.all(Leg_coeffs_all[:, 1:] < 1)):", "if not (np.all(-1 < Leg_coeffs_all[:, 1:]) and np.all(Leg_coeffs_all[:, 1:NLeg] < 1)):")], '''
leg = hg(.7, 9); leg[0, 7] = 1.5
try:
    pydisort(np.array([1.]), np.array([.8]), 4, leg, .6, 1, 0, NLeg=4, f_arr=np.array([.7 ** 4]), NT_cor=True)
except ValueError:
    sys.exit(0)
sys.exit(1)
''', 'an invalid coefficient beyond those used by the multiple-scattering solution', 'invalid coefficients enter the corrections')

bug('u0-range-last', 'P16', [(ASM, "        tau = np.atleast_1d(tau)\n        if np.any(tau < 0) or np.any(tau > tau_arr[-1]):\n            raise ValueError(\"tau input outside the tau range given for the atmosphere (check `tau_arr`).\")\n        \n        # Atmospheric layer indices\n        l = np.argmax(tau[:, None] <= tau_arr[None, :], axis=1)\n        if is_antiderivative_wrt_tau:\n            tau, l = _append_interfaces(tau, l, tau_arr, autograd_compatible)\n        scaled_tau_arr_l = scaled_tau_arr_with_0[1:][l]\n        scaled_tau_arr_lm1 = scaled_tau_arr_with_0[l]\n\n        # Delta-M scaling\n        if np.any(scale_tau != np.ones(NLayers)):\n            tau_dist_from_top = tau_arr[l] - tau\n            scaled_tau_dist_from_top = tau_dist_from_top * scale_tau[l]\n            scaled_tau = scaled_tau_arr_l - scaled_tau_dist_from_top\n            # The", "        tau = np.atleast_1d(tau)\n        if np.any(tau < 0) or tau[-1] > tau_arr[-1]:\n            raise ValueError(\"tau input outside the tau range given for the atmosphere (check `tau_arr`).\")\n        \n        # Atmospheric layer indices\n        l = np.argmax(tau[:, None] <= tau_arr[None, :], axis=1)\n        if is_antiderivative_wrt_tau:\n            tau, l = _append_interfaces(tau, l, tau_arr, autograd_compatible)\n        scaled_tau_arr_l = scaled_tau_arr_with_0[1:][l]\n        scaled_tau_arr_lm1 = scaled_tau_arr_with_0[l]\n\n        # Delta-M scaling\n        if np.any(scale_tau != np.ones(NLayers)):\n            tau_dist_from_top = tau_arr[l] - tau\n            scaled_tau_dist_from_top = tau_dist_from_top * scale_tau[l]\n            scaled_tau = scaled_tau_arr_l - scaled_tau_dist_from_top\n            # The")], '''
mu, fu, fd, u0 = pydisort(np.array([1.]), np.array([.8]), 4, hg(.5, 4), .6, 1, 0, only_flux=True)
try:
    u0(np.array([1.5, .5]))
except ValueError:
    sys.exit(0)
sys.exit(1)
''', 'an unsorted query array whose last depth is inside', 'depths below the atmosphere give numbers')

bug('autograd-mode-slice', 'P17', [(ASM, "um = np.concatenate((um[[0], :, :] + _mathscr_v_contribution, um[1:, :, :]), axis=0)", "um = np.concatenate((um[[0], :, :] + _mathscr_v_contribution, um[[1], :, :], um[1:-1, :, :]), axis=0)")], '''
r = [pydisort(np.array([1.]), np.array([.8]), 4, hg(.5, 4), .6, 1, 0, s_poly_coeffs=np.array([[1., .2]]), NFourier=3, autograd_compatible=a)[4](np.array([.2, .6]), np.array([0., 1.])) for a in (False, True)]
try:
    import autograd
except ImportError:
    sys.exit(0)
close(r[0], r[1])
''', 'autograd-compatible mode, internal source, three or more Fourier modes', 'wrong higher Fourier modes')

bug('nt-drops-tau-arr', 'P18', [(PY, "            if return_Fourier_error or return_tau_arr:\n                return (\n                    u_star_outputs[0] + rescale_factor * np.squeeze(NT_corrections),", "            if return_Fourier_error:\n                return (\n                    u_star_outputs[0] + rescale_factor * np.squeeze(NT_corrections),")], '''
mu, fu, fd, u0, u = pydisort(np.array([1.]), np.array([.8]), 4, hg(.7, 9), .6, 1, 0, NLeg=4, f_arr=np.array([.7 ** 4]), NT_cor=True)
r = u(.5, 0., return_tau_arr=True)
if not (isinstance(r, tuple) and len(r) == 2): sys.exit(1)
close(r[1], [1.])
''', 'corrected intensity with only the depth flag', 'the layer depths are not returned')

bug('fourier-error-phase', 'P19', [(ASM, "ulast[:, :, None] * np.cos((NFourier - 1) * (phi0 - phi))[None, None, :]", "ulast[:, :, None] * np.cos((NFourier - 1) * phi0 - phi)[None, None, :]")], '''
mu, fu, fd, u0, u = pydisort(np.array([1.]), np.array([.8]), 4, hg(.5, 4), .6, 1, .7, NFourier=3)
u2 = pydisort(np.array([1.]), np.array([.8]), 4, hg(.5, 4), .6, 1, .7, NFourier=2)[4]
ph = np.array([.2, 1.1]); t = np.array([.3, .8])
v, e = u(t, ph, return_Fourier_error=True)
close(e, np.max(np.abs((v - u2(t, ph)) / v)))
''', 'Fourier error at azimuths away from the beam with three or more modes', 'Fourier error evaluated at a wrong azimuth')

bug('fluxdown-tauarr-scale', 'P18', [(ASM, "                rescale_factor * np.squeeze(direct_beam)[()],\n                tau_arr", "                np.squeeze(direct_beam)[()],\n                tau_arr")], '''
mu, fu, fd, u0 = pydisort(np.array([1.]), np.array([.8]), 4, hg(.5, 4), .6, 5., .7, only_flux=True)
close(fd(.3, return_tau_arr=True)[1], fd(.3)[1])
''', 'return_tau_arr of flux_down with a beam that is not of unit strength', 'direct flux lacks the source scale')

bug('interp-mu-zero', 'P21', [(SUB, "            mu = np.atleast_1d(mu)\n\n            if return_Fourier_error or return_tau_arr:\n                u_outputs = u(tau, phi, is_antiderivative_wrt_tau, return_Fourier_error, return_tau_arr)\n                u_cache = u_outputs[0]\n            else:\n                u_cache = u(tau, phi, is_antiderivative_wrt_tau)\n            \n            results = np.empty((len(mu),) + np.shape(u_cache)[1:])\n            mask_pos = mu > 0\n            mask_else = ~mask_pos", "            mu = np.atleast_1d(mu)\n\n            if return_Fourier_error or return_tau_arr:\n                u_outputs = u(tau, phi, is_antiderivative_wrt_tau, return_Fourier_error, return_tau_arr)\n                u_cache = u_outputs[0]\n            else:\n                u_cache = u(tau, phi, is_antiderivative_wrt_tau)\n            \n            results = np.zeros((len(mu),) + np.shape(u_cache)[1:])\n            mask_pos = mu > 0\n            mask_else = mu < 0")], '''
mu, fu, fd, u0, u = pydisort(np.array([1.]), np.array([.8]), 4, hg(.5, 4), .6, 5., .7)
f = S.interpolate(u)
a = f(0., .5, .3)
if abs(a) < 1e-6 or abs(a - f(1e-9, .5, .3)) > 1e-6 and abs(a - f(-1e-9, .5, .3)) > 1e-6: sys.exit(1)
''', 'interpolating exactly at the horizon', 'the value at mu = 0 is zero instead of an interpolated value')

bug('act-antideriv-tauarr', 'P22', [(SUB, ") = u0(tau, is_antiderivative_wrt_tau, True, _return_act_dscale_for_reclass=True)", ") = u0(tau, False, True, _return_act_dscale_for_reclass=True)")], '''
mu, fu, fd, u0 = pydisort(np.array([1.]), np.array([.8]), 4, hg(.5, 4), .6, 5., .7, only_flux=True)
up, dn = S.generate_diff_act_flux_funcs(u0)
close(dn(.3, True, True)[0], dn(.3, True))
''', 'antiderivative and layer depths of the downward actinic flux together', 'the value is returned instead of the antiderivative')

bug('cache-transposed', 'P23', [(SUB, "                else BDRF_Fourier_modes[m](mu_arr_pos, mu_arr_pos)\n", "                else np.transpose(BDRF_Fourier_modes[m](mu_arr_pos, mu_arr_pos))\n")], '''
g = lambda mu, nmup: .2 + .1 * mu[:, None] + 0 * nmup[None, :]
c = S.cache_BDRF_Fourier_modes(2, [g])
r = [pydisort(np.array([1.]), np.array([.8]), 4, hg(.5, 4), .6, 5., .7, BDRF_Fourier_modes=b, only_flux=True)[3](.4) for b in ([g], c)]
close(*r)
''', 'a surface whose reflectance is not symmetric in the two directions, cached without mu0', 'cached modes are transposed')

bug('diag-form-subdiags', 'P29', [(SUB, "indices - np.arange(n - 1, n - Nsubdiags - 1, -1)[:, None],", "indices - np.arange(n - 1, n - Nsuperdiags - 1, -1)[:, None],")], '''
A = np.triu(np.tril(np.arange(1., 26.).reshape(5, 5), 1), -2)
ab = S.to_diag_ordered_form(A, 1, 2)
if ab.shape[0] != 4: sys.exit(1)
import scipy.linalg
b = np.arange(5.)
close(scipy.linalg.solve_banded((2, 1), ab, b), np.linalg.solve(A, b))
''', 'different numbers of sub- and superdiagonals', 'rows of the diagonal ordered form are missing')

bug('cc-interval-start', 'P27', [(SUB, "return transform_interval(phi_arr, c, d, -1, 1), transform_weights(full_weights_phi, c, d, -1, 1)", "return (phi_arr + 1) * (d - c) / 2, transform_weights(full_weights_phi, c, d, -1, 1)")], '''
x, w = S.Clenshaw_Curtis_quad(9, 1., 3.)
close(w @ x ** 3, 20.)
''', 'an interval that does not start at zero', 'nodes are not shifted to the start of the interval')

bug('nu-axis', 'P29', [(SUB, "np.sqrt(1 - mu_p**2)[\n        None, None, :, None\n    ]", "np.sqrt(1 - mu_p**2)[\n        None, None, None, :\n    ]")], '''
mu, p = np.array([.2, -.5]), np.array([0., 1., 2.])
nu = S.calculate_nu(mu, p, np.array([.1, .9]), np.array([.4, 1.4]))
ex = np.array([[[[a * c + np.sqrt(1 - a * a) * np.sqrt(1 - c * c) * np.cos(d - b) for d in (.4, 1.4)] for c in (.1, .9)] for b in p] for a in mu])
close(nu, ex)
''', 'as many incident polar as incident azimuthal angles, more than one', 'the sines are paired with the azimuth axis')

bug('actinic-memo', 'P13', [(SUB, "    # Note that the zeroth axis of the array u0(tau) captures variation with mu\n    def flux_act_up(tau, is_antiderivative_wrt_tau=False, return_tau_arr=False):\n", "    last = {}\n\n    # Note that the zeroth axis of the array u0(tau) captures variation with mu\n    def flux_act_up(tau, is_antiderivative_wrt_tau=False, return_tau_arr=False):\n        if not return_tau_arr and last.get('tau') is tau and last.get('flag') == is_antiderivative_wrt_tau:\n            return last['value'].copy()\n        if not return_tau_arr:\n            last['tau'], last['flag'] = tau, is_antiderivative_wrt_tau\n            last['value'] = np.squeeze(2 * pi * GL_weights @ u0(tau, is_antiderivative_wrt_tau)[:N])[()]\n            return last['value'].copy()\n")], '''
mu, fu, fd, u0 = pydisort(np.array([1.]), np.array([.8]), 4, hg(.5, 4), .6, 5., .7, only_flux=True)
up, dn = S.generate_diff_act_flux_funcs(u0)
t = np.array([.2, .4])
up(t)
t[:] = .9
close(up(t), up(np.array([.9, .9])))
''', 'querying twice with the same array object after changing its contents', 'a stale result is returned')

bug('flux-shared-buffer', 'P31', [(ASM, "    GC_pos = GC_collect_0[:, :N, :]\n", "    GC_pos = GC_collect_0[:, :N, :]\n    exponent_buffers = {}\n"), (ASM, "                u0_pos = (\n".replace('                ', '            ', 1) + '''                np.einsum("tij, tj -> it", GC_pos[l, :, :], np.exp(exponent))
''', '''            buffer = exponent_buffers.get(exponent.shape)
            if buffer is None:
                buffer = exponent_buffers[exponent.shape] = np.empty(exponent.shape)
            np.exp(exponent, out=buffer)
            u0_pos = (
                np.einsum("tij, tj -> it", GC_pos[l, :, :], buffer)
''')], '''
import threading
mu, fu, fd, u0 = pydisort(np.arange(1., 5.), np.full(4, .8), 32, hg(.5, 32, 4), .6, 5., .7, only_flux=True)
n = 4000
q = [np.random.default_rng(i).uniform(0, 4, n) for i in range(2)]
ref = [fu(x) for x in q]
bad = []
def work(i):
    for k in range(40):
        if not np.array_equal(fu(q[i]), ref[i]): bad.append(i)
sys.setswitchinterval(1e-6)
th = [threading.Thread(target=work, args=(i,)) for i in range(2)]
[t.start() for t in th]; [t.join() for t in th]
sys.exit(1 if bad else 0)
''', 'two threads evaluating the upward flux at equally many depths', 'the threads overwrite each other\'s exponentials')

bug('beam-threshold', 'P08', [(PY, "    there_is_beam_source = I0 > 0\n", "    there_is_beam_source = I0 > 1e-8\n")], '''
r = [pydisort(np.array([1.]), np.array([.8]), 4, hg(.5, 4), .6, I, .7, only_flux=True)[1](.3) / I for I in (1., 1e-9)]
close(*r)
''', 'a beam intensity in units that make it tiny', 'the beam is ignored')

bug('zero-bc-tolerance', 'P02', [(PY, "    if np.all(b_neg == 0):\n", "    if np.allclose(b_neg, 0):\n")], '''
mu, fu, fd, u0 = pydisort(np.array([1.]), np.array([.8]), 4, hg(.5, 4), 0, 0, 0, b_neg=np.array([2e-9, 1e-9]), only_flux=True)
close(u0(0)[2:] * 1e9, [2, 1])
''', 'illumination in units that make it tiny', 'the illumination is ignored')

bug('fluxup-scale-check', 'P04', [(ASM, "        # Delta-M scaling\n        if np.any(scale_tau != np.ones(NLayers)):\n            tau_dist_from_top = tau_arr[l] - tau\n            scaled_tau_dist_from_top = tau_dist_from_top * scale_tau[l]\n            scaled_tau = scaled_tau_arr_l - scaled_tau_dist_from_top\n        else:\n            scaled_tau = tau\n\n        if there_is_iso_source:\n            l_uniq, l_inv = np.unique(l, return_inverse=True)\n            _mathscr_v_contribution = _mathscr_v(\n                scaled_tau, scale_tau[l], l_inv,\n                Nscoeffs,\n                scaled_s_poly_coeffs[l_uniq],\n                G_collect_0[l_uniq, :N, :],", "        # Delta-M scaling\n        if scale_tau[0] != 1:\n            tau_dist_from_top = tau_arr[l] - tau\n            scaled_tau_dist_from_top = tau_dist_from_top * scale_tau[l]\n            scaled_tau = scaled_tau_arr_l - scaled_tau_dist_from_top\n        else:\n            scaled_tau = tau\n\n        if there_is_iso_source:\n            l_uniq, l_inv = np.unique(l, return_inverse=True)\n            _mathscr_v_contribution = _mathscr_v(\n                scaled_tau, scale_tau[l], l_inv,\n                Nscoeffs,\n                scaled_s_poly_coeffs[l_uniq],\n                G_collect_0[l_uniq, :N, :],")], '''
mu, fu, fd, u0 = pydisort(np.array([1., 2.]), np.array([.8, .7]), 4, hg(.5, 4, 2), .6, 5., .7, f_arr=np.array([0, .3]), only_flux=True)
x, w = S.Gauss_Legendre_quad(2)
close(fu(1.4), 2 * pi * (x * w) @ u0(1.4)[:2])
''', 'delta-M scaling in lower layers only', 'the flux is evaluated at unscaled depths')

bug('ims-residue-layer', 'P07', [(PY, "Leg_coeffs_residue[:, :NLeg] = np.tile(f_arr, (NLeg, 1)).T", "Leg_coeffs_residue[:, :NLeg] = f_arr[0]")], '''
leg = np.vstack([.7 ** np.arange(9), .6 ** np.arange(9)]); f = leg[:, 4]
t, om = np.array([1., 2.]), np.array([.8, .7])
k = dict(NLeg=4, f_arr=f, s_poly_coeffs=np.array([[0.], [0.]]))
u = [pydisort(t, om, 4, leg, .6, 1, 0, NT_cor=n, **k)[4] for n in (True, False)]
mu = pydisort(t, om, 4, leg, .6, 1, 0, **k)[0]
w1 = om * t; oa = w1.sum() / t.sum(); fa = (f * w1).sum() / w1.sum()
res = leg.copy(); res[:, :4] = f[:, None]
ra = (res * w1[:, None]).sum(0) / (f * w1).sum()
m0 = .6 / (1 - oa * fa); tau = .4; ph = .9
from numpy.polynomial.legendre import legval
x = 1 / -mu[2:] - 1 / m0
chi = ((tau - 1 / x) * np.exp(-tau / m0) + np.exp(tau / mu[2:]) / x) / (-mu[2:] * m0 * x)
nu = .6 * -mu[2:] + np.sqrt(1 - .36) * np.sqrt(1 - mu[2:] ** 2) * np.cos(ph)
ims = 1 / (4 * pi) * (oa * fa) ** 2 / (1 - oa * fa) * legval(nu, (2 * np.arange(9) + 1) * (2 * ra - ra ** 2)) * chi
st = om * (1 - f) / (1 - om * f); sc = (1 - om * f)
d = np.array([legval(nu, (2 * np.arange(9) + 1) * leg[0]) / (1 - f[0]) - legval(nu, (2 * np.arange(4) + 1) * (leg[0, :4] - f[0]) / (1 - f[0]))])[0]
ts = tau * sc[0]
tms = st[0] / (4 * pi) * .6 / (.6 + mu[2:]) * d * (np.exp(-ts / .6) - np.exp(ts / mu[2:]))
close((u[0](tau, ph) - u[1](tau, ph))[2:], ims + tms)
''', 'layers with different delta-M fractions and intensity corrections', 'the IMS term uses the fraction of the first layer')
