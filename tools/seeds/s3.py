import os
_ns = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath('/verif/tools/seeds/s2.py')), 's2.py')).read().split('BUGS = []')[0], _ns)
PRE, GEN, COEF, ASM, PY, SUB = (_ns[k] for k in ('PRE', 'GEN', 'COEF', 'ASM', 'PY', 'SUB'))
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks))


bug('shortcut-sign', 'P01', [(GEN, "np.any(np.abs(omega_times_Leg_coeffs) > 1e-8)", "np.any(omega_times_Leg_coeffs > 1e-8)")], """
leg = np.array([[1., .3, -.3, -.05]])
u = pydisort(1., .8, 4, leg, .6, 1., 0., NFourier=3)[4]
v = u(.5, np.array([0., pi / 2, pi, 3 * pi / 2]))
second = (v[:, 0] - v[:, 1] + v[:, 2] - v[:, 3]) / 4
if not np.max(np.abs(second)) > 1e-4:
    sys.exit('FAIL: the second Fourier mode is missing')
""", 'a Fourier mode for which all remaining phase function moments are negative', 'scattering into that mode is skipped')

bug('expfac-split', 'P32', [(PY, "expfac_pos = np.exp(M_inv[:, None] * (scaled_tau - scaled_tauwith0_back[l])[None, :])", "expfac_pos = np.exp(-M_inv[:, None] * scaled_tauwith0_back[l][None, :]) * np.exp(M_inv[:, None] * scaled_tau[None, :])")], """
tau = np.array([900., 1800.]); om = np.array([.8, .9])
u = pydisort(tau, om, 4, hg(.7, 8, 2), .6, 1., 0., f_arr=np.full(2, .7 ** 4), NT_cor=True)[4]
if not np.all(np.isfinite(u(np.array([.1, 850., 1700.]), np.array([0., 1.])))):
    sys.exit('FAIL: not finite')
""", 'NT corrections and more than one layer with an optical depth of several hundred', 'intensities are NaN')

bug('moment-ratio', 'P33', [(PY, "scaled_Leg_coeffs = (Leg_coeffs - f_arr[:, None]) / (1 - f_arr)[:, None]", "scaled_Leg_coeffs = Leg_coeffs * ((1 - f_arr[:, None] / Leg_coeffs) / (1 - f_arr)[:, None])")], """
leg = np.array([[1., .4, 0., .1]])
f = pydisort(1., .8, 4, leg, .6, 1., 0., NFourier=1, f_arr=.05)[1](np.array([0., .5, 1.]))
if not np.all(np.isfinite(f)):
    sys.exit('FAIL: not finite')
""", 'delta-M scaling with a phase function moment that is exactly zero', 'every output is NaN')

bug('scaled-s-dtype', 'P15', [(PY, """        scaled_s_poly_coeffs = (
            subroutines.affine_transform_poly_coeffs(s_poly_coeffs, scale_tau, translations)
            / scale_tau[:, None]  # Divide by d\\tau^* / d\\tau
        ) * (1 - omega_arr)[:, None]""", """        scaled_s_poly_coeffs = np.empty_like(s_poly_coeffs)
        scaled_s_poly_coeffs[:] = (
            subroutines.affine_transform_poly_coeffs(s_poly_coeffs, scale_tau, translations)
            / scale_tau[:, None]  # Divide by d\\tau^* / d\\tau
        ) * (1 - omega_arr)[:, None]""")], """
def run(s): return pydisort(np.array([.5, 1.]), np.array([.8, .7]), 4, hg(.5, 8, 2), 0., 0., 0., NFourier=1, f_arr=np.full(2, .5 ** 4), s_poly_coeffs=s)[1](np.array([.1, .6]))
close(run(np.array([[7, 4], [9, 1]])), run(np.array([[7., 4.], [9., 1.]])))
""", 'source coefficients given as integers together with delta-M scaling', 'the scaled source is truncated to integers')

bug('emissivity-node', 'P24', [(SUB, "1 - 2 * zeroth_BDRF_Fourier_mode(mu_arr_pos, mu_arr_pos) * mu_arr_pos[None, :] @ W", "1 - 2 * zeroth_BDRF_Fourier_mode(mu_arr_pos, mu_arr_pos).T * mu_arr_pos[None, :] @ W")], """
bdrf = lambda mu, mup: .2 + .3 * mu[:, None] * (1 - .5 * mup[None, :] ** 2)
N = 4
e = S.generate_emissivity_from_BDRF(N, bdrf)
mu, W = S.Gauss_Legendre_quad(N)
close(e, 1 - 2 * np.sum(bdrf(mu, mu) * (mu * W)[None, :], axis=1), 1e-12)
""", 'a reflection function that is not symmetric in its angles', 'emissivity is that of the reversed directions, so a surface at the temperature of the atmosphere is not in equilibrium')

bug('flux-blocks', 'P11', [(ASM, """            u0_pos = (
                np.einsum("tij, tj -> it", GC_pos[l, :, :], np.exp(exponent))
                + direct_beam_contribution
""", """            # In blocks to bound the memory use
            block = [slice(k, min(k + 256, len(l))) for k in range(0, len(l), 256)]
            u0_pos = (
                np.concatenate(
                    [np.einsum("tij, tj -> it", GC_pos[l[: k.stop - k.start], :, :], np.exp(exponent[k])) for k in block], axis=1
                )
                + direct_beam_contribution
""")], """
tau = np.array([.5, 1.5, 3.]); f = pydisort(tau, np.array([.8, .9, .3]), 4, hg(.5, 4, 3), .6, 1., 0., NFourier=1)[1]
t = np.linspace(0, 3, 400)
close(f(t), [f(x) for x in t])
""", 'more than 256 optical depths in one call, in several layers', 'the depths beyond the first block use the coefficients of other layers')

bug('interp-stash', 'P31', [(ASM, """        l = np.argmax(tau[:, None] <= tau_arr[None, :], axis=1)
        if is_antiderivative_wrt_tau:
            tau, l = _append_interfaces(tau, l, tau_arr, autograd_compatible)
        scaled_tau_arr_l = scaled_tau_arr_with_0[1:][l]
        scaled_tau_arr_lm1 = scaled_tau_arr_with_0[l]

        # Delta-M scaling
        if np.any(scale_tau != np.ones(NLayers)):
            tau_dist_from_top = tau_arr[l] - tau
            scaled_tau_dist_from_top = tau_dist_from_top * scale_tau[l]
            scaled_tau = scaled_tau_arr_l - scaled_tau_dist_from_top
        else:
            scaled_tau = tau

        if there_is_iso_source:
            l_uniq, l_inv = np.unique(l, return_inverse=True)
            _mathscr_v_contribution = _mathscr_v(
                scaled_tau, scale_tau[l], l_inv,
                Nscoeffs,
                scaled_s_poly_coeffs[l_uniq],
                G_collect_0[l_uniq, :N, :],
""", """        l = np.argmax(tau[:, None] <= tau_arr[None, :], axis=1)
        if is_antiderivative_wrt_tau:
            tau, l = _append_interfaces(tau, l, tau_arr, autograd_compatible)
        flux_up.layers = l
        scaled_tau_arr_l = scaled_tau_arr_with_0[1:][l]
        scaled_tau_arr_lm1 = scaled_tau_arr_with_0[l]

        # Delta-M scaling
        if np.any(scale_tau != np.ones(NLayers)):
            tau_dist_from_top = tau_arr[l] - tau
            scaled_tau_dist_from_top = tau_dist_from_top * scale_tau[l]
            scaled_tau = scaled_tau_arr_l - scaled_tau_dist_from_top
        else:
            scaled_tau = tau
        l = flux_up.layers

        if there_is_iso_source:
            l_uniq, l_inv = np.unique(l, return_inverse=True)
            _mathscr_v_contribution = _mathscr_v(
                scaled_tau, scale_tau[l], l_inv,
                Nscoeffs,
                scaled_s_poly_coeffs[l_uniq],
                G_collect_0[l_uniq, :N, :],
""")], """
import threading
tau = np.array([.5, 1.5, 3.]); f = pydisort(tau, np.array([.8, .9, .3]), 4, hg(.5, 8, 3), .6, 1., 0., NFourier=1, f_arr=np.full(3, .5 ** 4))[1]
a, b = np.full(400, .2), np.full(400, 2.)
fa, fb = f(a), f(b)
bad = []
def work(t, want):
    for _ in range(1500):
        try:
            if not np.array_equal(f(t), want):
                bad.append(1)
        except Exception as e:
            bad.append(e)
        if bad:
            return
sys.setswitchinterval(1e-6)
th = [threading.Thread(target=work, args=x) for x in [(a, fa), (b, fb)] * 2]
[t.start() for t in th]; [t.join() for t in th]
if bad:
    sys.exit('FAIL: concurrent calls disturb each other')
""", 'two calls of the same flux function at once', 'one call uses the layer indices of the other')

