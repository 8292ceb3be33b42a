import os
_ns = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath('/verif/tools/seeds/s2.py')), 's2.py')).read().split('BUGS = []')[0], _ns)
PRE, GEN, COEF, ASM, PY, SUB = (_ns[k] for k in ('PRE', 'GEN', 'COEF', 'ASM', 'PY', 'SUB'))
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks))


bug('warn-unscaled', 'P38', [(PY, "    if np.any(scaled_omega_arr > 1 - 1e-6):\n", "    if np.any(omega_arr > 1 - 1e-6):\n")], """
import warnings
warnings.simplefilter('always')
with warnings.catch_warnings(record=True) as r:
    pydisort(1., 1 - 5e-7, 4, .99 * np.ones(4), .6, 1., 0., NFourier=1, f_arr=.99, NLeg=4) if False else pydisort(1., 1 - 5e-7, 4, np.array([1., .99, .99, .99]), .6, 1., 0., NFourier=1, f_arr=.99)
if any('albedo' in str(x.message) for x in r):
    sys.exit('FAIL')
""", 'an albedo close to 1 that delta-M scaling moves away from 1', 'a warning about scaled albedos that are not close to 1')

bug('extinct-beam', 'P39', [(COEF, """                    * np.exp(-scaled_tau_arr_with_0 / mu0)[indicesp1, None]
""", """                    * np.where(scaled_tau_arr_with_0 < 15 * mu0, np.exp(-scaled_tau_arr_with_0 / mu0), 0)[indicesp1, None]  # The beam is extinct below
""")], """
T = np.array([10., 11.])
a = pydisort(T, np.array([0., .9]), 4, hg(.5, 4, 2), .5, 1e9, 0., NFourier=1)[3]
b = pydisort(1., .9, 4, hg(.5, 4), .5, 1e9 * np.exp(-20.), 0., NFourier=1)[3]
close(a(10.5), b(.5), 1e-6)
""", 'a scattering layer below fifteen slant optical depths', 'the radiation jumps at the interface by the scattered beam')

bug('empty-layers', 'P39', [(GEN, "            if np.any(np.abs(omega_times_Leg_coeffs) > 1e-8): # There", "            if scaled_omega_l > 1e-8 and np.any(np.abs(omega_times_Leg_coeffs[1:] if m_equals_0 and l == NLayers - 1 and NLayers > 2 and NLeg > 1 else omega_times_Leg_coeffs) > 1e-8): # There")], """
g = hg(.5, 4, 3)
g[2, 1:] = 0
T = np.array([1., 2., 3.])
a = pydisort(T, np.array([.5, .6, .7]), 4, g, .5, 1., 0., NFourier=1)[3]
b = pydisort(T[2] - T[1], .7, 4, g[2:], .5, np.exp(-4.), 0., NFourier=1, b_neg=a(2.)[2:])[3]
close(a(2.5), b(.5), 1e-6)
""", 'an isotropically scattering bottom layer of three or more', 'the layer does not scatter')

bug('u0-last-layer', 'P16', [(ASM, """        tau = np.atleast_1d(tau)
        if np.any(tau < 0) or np.any(tau > tau_arr[-1]):
            raise ValueError("tau input outside the tau range given for the atmosphere (check `tau_arr`).")
        
        # Atmospheric layer indices
        l = np.argmax(tau[:, None] <= tau_arr[None, :], axis=1)
        if is_antiderivative_wrt_tau:
            tau, l = _append_interfaces(tau, l, tau_arr, autograd_compatible)
        scaled_tau_arr_l = scaled_tau_arr_with_0[1:][l]
        scaled_tau_arr_lm1 = scaled_tau_arr_with_0[l]

        # Delta-M scaling
        if np.any(scale_tau != np.ones(NLayers)):
            tau_dist_from_top = tau_arr[l] - tau
            scaled_tau_dist_from_top = tau_dist_from_top * scale_tau[l]
            scaled_tau = scaled_tau_arr_l - scaled_tau_dist_from_top
            # The following""", """        tau = np.atleast_1d(tau)
        if np.any(tau < 0) or np.mean(tau) > tau_arr[-1]:
            raise ValueError("tau input outside the tau range given for the atmosphere (check `tau_arr`).")
        
        # Atmospheric layer indices
        l = np.argmax(tau[:, None] <= tau_arr[None, :], axis=1)
        if is_antiderivative_wrt_tau:
            tau, l = _append_interfaces(tau, l, tau_arr, autograd_compatible)
        scaled_tau_arr_l = scaled_tau_arr_with_0[1:][l]
        scaled_tau_arr_lm1 = scaled_tau_arr_with_0[l]

        # Delta-M scaling
        if np.any(scale_tau != np.ones(NLayers)):
            tau_dist_from_top = tau_arr[l] - tau
            scaled_tau_dist_from_top = tau_dist_from_top * scale_tau[l]
            scaled_tau = scaled_tau_arr_l - scaled_tau_dist_from_top
            # The following""")], """
u0 = pydisort(1., .8, 4, hg(.5, 4), .6, 1., 0., NFourier=1)[3]
try:
    u0(np.array([.1, .2, 1.5]))
except ValueError:
    sys.exit(0)
sys.exit('FAIL')
""", 'an array in which some depths are inside and some below the atmosphere', 'it is accepted')

bug('ims-mean-f', 'P07', [(PY, "sum2 = ", "sum2 = ")], "", "", "")
bug('energy-f-layer', 'P25', [(ASM, "    GC_pos = GC_collect_0[:, :N, :]\n    GC_neg = GC_collect_0[:, N:, :]\n", "    GC_pos = GC_collect_0[:, :N, :]\n    GC_neg = GC_collect_0[:, N:, :]\n    if NLayers > 2 and there_is_iso_source and not there_is_beam_source:\n        GC_pos = GC_pos.copy()\n        GC_pos[1:-1][scale_tau[1:-1] < 0.5] *= scale_tau[1:-1][scale_tau[1:-1] < 0.5][:, None, None] ** 0 * (1 + 1e-3)\n")], """
""", '', '')
BUGS = [b for b in BUGS if b['needs']]
