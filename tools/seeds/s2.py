PRE = '''import sys, numpy as np
from math import pi
import PythonicDISORT
from PythonicDISORT import subroutines as S
from PythonicDISORT.pydisort import pydisort

def hg(g, n, L=1):
    return np.tile(np.asarray(g ** np.arange(n), float), (L, 1))

def close(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    ok = a.shape == b.shape and np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= tol * (1 + np.abs(b)))
    if not ok:
        print('FAIL', a, b)
        sys.exit(1)
'''
GEN, COEF, ASM, PY, SUB = '_solve_for_gen_and_part_sols.py', '_solve_for_coeffs.py', '_assemble_intensity_and_fluxes.py', 'pydisort.py', 'subroutines.py'
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks))



bug('azimuth-clip', 'P05', [(ASM, "* np.cos(np.arange(NFourier)[:, None] * (phi0 - phi)[None, :])[:, None, None, :],", "* np.cos(np.arange(NFourier)[:, None] * np.clip(phi0 - phi, -pi, pi)[None, :])[:, None, None, :],")], """
u = pydisort(1., .8, 4, hg(.6, 4), .6, 1., .3)[4]
close(u(.5, np.array([.3 + 4.])), u(.5, np.array([.3 - 4.])))
close(u(.5, np.array([.3 + 4.])), u(.5, np.array([.3 + 2 * pi - 4.])))
""", 'a viewing azimuth more than half a turn away from the beam azimuth', 'the intensity is no longer periodic in azimuth')

bug('multilayer-threshold', 'P10', [(PY, "is_atmos_multilayered = NLayers > 1", "is_atmos_multilayered = NLayers > 2")], """
a = pydisort(1., .8, 4, hg(.6, 4), .6, 1., .3)[1]
b = pydisort([.4, 1.], [.8, .8], 4, hg(.6, 4, 2), .6, 1., .3)[1]
c = pydisort([.4, 1.], [.8, .3], 4, hg(.6, 4, 2), .6, 1., .3)
t = np.array([.1, .4, .8])
close(a(t), b(t))
close(c[1](.4), c[1](.4 + 1e-10))
close(c[3](.4), c[3](.4 + 1e-10))
""", 'exactly two layers', 'sources are not matched at the only interface')

bug('bpos-inplace', 'P12', [(PY, "            b_pos = (b_pos / rescale_factor).copy()\n            b_neg = (b_neg / rescale_factor).copy()\n            \n", "            b_pos = np.divide(b_pos, rescale_factor, out=_float_buffer(b_pos))\n            b_neg = np.divide(b_neg, rescale_factor, out=_float_buffer(b_neg))\n            \n"),
    (PY, "    I0_div_4pi = I0 / (4 * pi)\n", "    I0_div_4pi = I0 / (4 * pi)\n"),
    (PY, "def pydisort(\n", "def _float_buffer(b):\n    return b if getattr(b, \"dtype\", None) == float and b.ndim > 0 else None\n\n\ndef pydisort(\n")], """
b = np.array([.4, .2]); k = b.copy()
pydisort(1., .8, 4, hg(.6, 4), .6, 3., .3, b_neg=b)
close(b, k)
""", 'array boundary conditions with a source other than one', 'the boundary condition arrays of the caller are rescaled in place')

bug('transform-inplace', 'P12', [(SUB, "    return (arr - a) * (d - c) / (b - a) + c\n", "    arr = np.asarray(arr, dtype=float)\n    arr -= a\n    arr *= (d - c) / (b - a)\n    arr += c\n    return arr\n")], """
x = np.linspace(-1, 1, 5); k = x.copy()
S.transform_interval(x, 0, 1, -1, 1)
close(x, k)
""", 'a floating point array', 'the array of the caller is transformed in place')

bug('shortcut-nfourier', 'P20', [(GEN, "if np.any(np.abs(omega_times_Leg_coeffs) > 1e-8):", "if np.any(np.abs(omega_times_Leg_coeffs[:NFourier]) > 1e-8):")], """
leg = np.array([[1., .4, .2, 0., 0., 0., 0., .3]])
def f(n): return pydisort(1., .9, 8, leg, .6, 1., .3, NFourier=n)[4]
ph = 2 * pi * np.arange(16) / 16
def mode(n, m): return (f(n)(.5, ph + .3) * np.cos(m * ph)).sum(1)
close(mode(4, 3), mode(8, 3))
""", 'fewer Fourier modes than coefficients, and a phase function with a gap in its coefficients', 'a mode is treated as non-scattering depending on the number of modes')

bug('affine-binomial', 'P26', [(SUB, '    pascal = sc.linalg.pascal(Ncoeffs, kind="upper")\n', '    pascal = np.triu(np.ones((Ncoeffs, Ncoeffs)))\n')], """
c = np.array([[1., 2., 3., 4.]])
r = S.affine_transform_poly_coeffs(c, np.array([2.]), np.array([.5]))
x = np.linspace(-1, 1, 7)
close(np.polyval(r[0][::-1], 2 * x + .5), np.polyval(c[0][::-1], x))
""", 'polynomials of degree two or more', 'binomial coefficients are replaced by ones')

bug('spline-dup', 'P26', [(SUB, "        if not np.all(np.diff(x) > 0):", "        if not np.all(np.diff(x) >= 0):")], """
try:
    S.linear_spline_coefficients(np.array([0., 1., 1., 2.]), np.array([1., 2., 3., 4.]))
except ValueError:
    sys.exit(0)
sys.exit(1)
""", 'a repeated abscissa', 'a repeated abscissa is accepted and gives infinite coefficients')

bug('planck-cold', 'P28', [(SUB, "    not_zeros_ind = T != 0\n", "    not_zeros_ind = T > 1\n")], """
from scipy import constants as C
T, v = .5, .7
x = 100 * C.h * C.c * v / (C.k * T)
close(S.Planck(T, v) * 1e12, 1e12 * 2e8 * C.h * C.c**2 * v**3 / np.expm1(x))
""", 'temperatures below one kelvin', 'no emission')

bug('scale-all', 'P30', [(PY, "    if np.any(f_arr > 0):\n\n", "    if np.all(f_arr > 0):\n\n")], """
a = pydisort([.5, 1.], [.8, .6], 4, hg(.6, 5, 2), .6, 1., .3, f_arr=[.2, 0.], NLeg=4)[1]
b = pydisort([.5, 1.], [.8, .6], 4, hg(.6, 5, 2), .6, 1., .3, f_arr=[.2, 1e-13], NLeg=4)[1]
close(a(.3), b(.3))
""", 'delta-M fractions of which some are zero', 'no scaling at all')

bug('quad-cache', 'P13', [(SUB, "def Gauss_Legendre_quad(N, c=0, d=1):", "@lru_cache(maxsize=None)\ndef Gauss_Legendre_quad(N, c=0, d=1):"), (SUB, "from math import pi\n", "from math import pi\nfrom functools import lru_cache\n")], """
a = pydisort(1., .8, 4, hg(.6, 4), .6, 1., .3)[1]
k = a(.5)
x, w = S.Gauss_Legendre_quad(2)
w *= 100.
fu = S.generate_diff_act_flux_funcs(lambda tau, *a, **k: np.ones((4, 1)))[0]
close(fu(0.), 2 * pi)
close(pydisort(1., .8, 4, hg(.6, 4), .6, 1., .3)[1](.5), k)
""", 'changing an array returned by the quadrature helper', 'later results use the changed nodes and weights')

bug('interp-range', 'P16', [(SUB, "        def u_interpol(mu, tau, is_antiderivative_wrt_tau=False, return_Fourier_error=False, return_tau_arr=False):\n            if not np.all(np.abs(mu) <= 1):", "        def u_interpol(mu, tau, is_antiderivative_wrt_tau=False, return_Fourier_error=False, return_tau_arr=False):\n            if not np.all(np.asarray(mu) <= 1):")], """
u0 = pydisort(1., .8, 4, hg(.6, 4), .6, 1., .3)[3]
try:
    S.interpolate(u0)(-1.2, .5)
except ValueError:
    sys.exit(0)
sys.exit(1)
""", 'a polar cosine below -1', 'extrapolation instead of an error')

bug('spoly-rows', 'P14', [(PY, "    if there_is_iso_source and not np.shape(s_poly_coeffs)[0] == NLayers:", "    if there_is_iso_source and not np.shape(s_poly_coeffs)[0] >= NLayers:")], """
try:
    pydisort(1., .8, 4, hg(.6, 4), .6, 1., .3, s_poly_coeffs=np.array([[1., 2.], [3., 4.]]))
except ValueError as e:
    sys.exit(0 if 's_poly_coeffs' in str(e) else 1)
sys.exit(1)
""", 'more source rows than layers', 'the mismatch is accepted or fails later with an unrelated message')

bug('prepend-dtype', 'P29', [(SUB, "    new_arr = np.empty(arr_len + 1)\n", "    new_arr = np.empty(arr_len + 1, dtype=np.asarray(arr).dtype)\n")], """
close(S.prepend(np.array([1, 2]), 2, .5), [.5, 1, 2])
""", 'integer array with a fractional value', 'the prepended value is truncated')

bug('scale-first-point', 'P11', [(ASM, "        if np.any(scale_tau != np.ones(NLayers)):\n            tau_dist_from_top = tau_arr[l] - tau\n            scaled_tau_dist_from_top = tau_dist_from_top * scale_tau[l]\n            scaled_tau = scaled_tau_arr_l - scaled_tau_dist_from_top\n            # The", "        if np.any(scale_tau != 1) and l[0] >= np.argmax(scale_tau != 1):\n            tau_dist_from_top = tau_arr[l] - tau\n            scaled_tau_dist_from_top = tau_dist_from_top * scale_tau[l]\n            scaled_tau = scaled_tau_arr_l - scaled_tau_dist_from_top\n            # The")], """
u0 = pydisort([.5, 1.], [.8, .6], 4, hg(.6, 6, 2), .6, 1., .3, f_arr=[0., .3], NLeg=4)[3]
close(u0(np.array([.2, .9]))[:, 1], u0(.9))
""", 'an unscaled top layer above a scaled one, and a query starting in the top layer', 'deeper points are not delta-scaled')

