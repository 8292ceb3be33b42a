import os
_ns = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath('/verif/tools/seeds/s2.py')), 's2.py')).read().split('BUGS = []')[0], _ns)
PRE, GEN, COEF, ASM, PY, SUB = (_ns[k] for k in ('PRE', 'GEN', 'COEF', 'ASM', 'PY', 'SUB'))
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + 'from PythonicDISORT import subroutines\n' + demo, needs=needs, breaks=breaks))


bug('k-inv-guard', 'P24', [(SUB, "    K_inv = 1 / K  # (NL, NQuad)\n", "    K_inv = np.where(np.abs(K) > 1e-3, 1 / K, 0)\n")], """
w = 1 - 1e-7
fu = pydisort(50., w, 4, hg(.1, 4), 0., 0., 0., s_poly_coeffs=np.array([[1.]]), b_pos=1., b_neg=1., only_flux=True)[1]
if abs(fu(20.) - np.pi) > 1e-4:
    sys.exit('FAIL')
""", 'almost conservative scattering and an internal source', 'the emission of the slow eigenmode is lost')


bug('surface-skip-beam', 'P02', [(COEF, "            if there_is_BDRF_mode:\n                RHS[-N:] += (\n                    mathscr_X_pos + R @ B_collect_m[-1, N:] - B_collect_m[-1, :N]\n", "            if there_is_BDRF_mode and scaled_tau_arr_with_0[-1] < 12 * mu0:\n                RHS[-N:] += (\n                    mathscr_X_pos + R @ B_collect_m[-1, N:] - B_collect_m[-1, :N]\n")], """
def ratio(t):
    fu, fd = pydisort(t, .1, 4, hg(.5, 4), 1., 1., 0., BDRF_Fourier_modes=[.3], only_flux=True)[1:3]
    return fu(t) / sum(fd(t))
if abs(ratio(14.) / ratio(5.) - 1) > 1e-8:
    sys.exit('FAIL')
""", 'a reflecting surface under more than twelve slant optical depths', 'the reflected beam is dropped')

bug('bdrf-late-mode', 'P20', [(COEF, "        there_is_BDRF_mode = (NBDRF > m) \n", "        there_is_BDRF_mode = (NBDRF > m) and (m < NFourier - 1 or m == 0 or NBDRF == NFourier)\n")], """
R = [lambda a, b: .2 + 0 * a[:, None] * b[None, :], lambda a, b: .1 * a[:, None] * b[None, :], lambda a, b: .05 * a[:, None] * b[None, :]]
G = hg(.5, 6)
def md(nf):
    return pydisort(.5, .5, 6, G, .6, 1., 0., NFourier=nf, BDRF_Fourier_modes=R)[4]
u2, u3 = md(2), md(3)
# mode 1 by its projection at two azimuths: u(0) - u(pi) = 2 u1 for two modes; the same for three modes (mode 2 cancels)
a = u2(.3, 0.) - u2(.3, np.pi)
b = u3(.3, 0.) - u3(.3, np.pi)
if np.abs(a - b).max() > 1e-6 * np.abs(b).max():
    sys.exit('FAIL')
""", 'more surface modes than Fourier modes requested', 'the last requested mode sees no surface')

bug('any-neg-last', 'P11', [(PY, "                any_neg = (l.max() > 0)\n", "                any_neg = (l[-1] > 0)\n")], """
G = np.tile(hg(.8, 9), (2, 1))
u = pydisort(np.array([1., 2.]), np.array([.7, .8]), 4, G, .6, 1., 0., NLeg=4, NFourier=2, f_arr=np.full(2, .8 ** 4), NT_cor=True)[4]
a, b = u(np.array([1.5, .5]), .3), u(np.array([.5, 1.5]), .3)
if np.abs(a[:, 0] - b[:, 1]).max() > 1e-9 * np.abs(b).max():
    sys.exit('FAIL')
""", 'corrected intensity with unsorted depths', 'the correction misses the layers above')
