"""Property texts: (id, title, statement, quantifier over, quantifier text, why tests can't, files, mechanisms, rule)."""
S = 'src/PythonicDISORT/'
PY, GEN, CO, AS, SUB = S + 'pydisort.py', S + '_solve_for_gen_and_part_sols.py', S + '_solve_for_coeffs.py', S + '_assemble_intensity_and_fluxes.py', S + 'subroutines.py'
ALL = [PY, GEN, CO, AS, SUB]
M_EIG = ('eigen-decomposition and particular solutions', GEN + ':_solve_for_gen_and_part_sols')
M_COEF = ('boundary-value system', CO + ':_solve_for_coeffs')
M_ASM = ('output functions', AS + ':_assemble_intensity_and_fluxes')
M_PY = ('checks, scaling, corrections', PY + ':pydisort')
M_V = ('polynomial-source particular solution', SUB + ':_mathscr_v')
M_ACT = ('actinic fluxes', SUB + ':generate_diff_act_flux_funcs')
M_ITP = ('polar interpolation', SUB + ':interpolate')
M_CACHE = ('cached surface modes', SUB + ':cache_BDRF_Fourier_modes')

PROPS = []


def P(pid, title, statement, over, qtext, why, files, mech, rule):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, rule=rule))


P('P01', 'The intensity solves the radiative transfer equation in every layer',
  'At every optical depth inside every layer, every Fourier mode of the returned intensity (and the returned zeroth mode) satisfies the discrete-ordinates radiative transfer equation for the given albedo, phase function, delta-M fraction, beam and polynomial internal source. This holds for scattering and non-scattering layers, any number of layers and Fourier modes, with and without each source.',
  ['inputs', 'configurations'], 'all optical properties, sources, boundary conditions and optical depths; all combinations of sources, surface, scaling and layer counts',
  'The tests compare outputs with stored tables at a handful of depths for some thirty atmospheres; an error in a source combination, a layer other than the first, or a mode they do not print is not seen.',
  ALL, [M_EIG, M_V, M_ASM],
  'Rule: for each Fourier mode, layer and direction, mu du/dtau* - u + sum_j w_j D_ij u_j + beam source + polynomial source has value number 0, where du/dtau is the formal derivative of the value-number expression returned by the output functions.')
P('P02', 'The solution meets the prescribed illumination and surface reflection',
  'At the top the downward diffuse intensity equals the prescribed top illumination, and at the bottom the upward intensity equals the prescribed bottom emission plus the surface reflection of the diffuse downward radiation and of the attenuated direct beam, for every direction and Fourier mode. Illumination given as a number, per direction, or per direction and mode, and reflection given as numbers or functions, fewer modes than computed included, are all honoured.',
  ['inputs', 'configurations'], 'all boundary values, reflection functions and atmospheres, every form of boundary condition',
  'Tests use few surface types, mostly one layer and isotropic illumination; an error in a mode above zero or in one form of input is not sampled.',
  ALL, [M_COEF, M_PY],
  'Rule: the value numbers of each mode at tau=0 (downward) and tau=tau_bottom (upward) equal the prescribed boundary value plus the documented reflection quadrature.')
P('P03', 'Intensity and fluxes are continuous across layer interfaces',
  'At every interface between layers the intensity, its zeroth mode, the fluxes and all their antiderivatives have the same value from above and from below.',
  ['inputs', 'configurations'], 'all atmospheres with two or more layers, both linear-system paths',
  'Tests never compare the two sides of an interface; a wrong interface row or layer lookup can hide between sampled depths.',
  ALL, [M_COEF, M_ASM],
  'Rule: the limit from below each interface (query just inside the next layer, continued to the interface) has the same value number as the value at the interface, for values and antiderivatives.')
P('P04', 'Fluxes are the hemispheric integrals of the intensity',
  'The upward flux is 2 pi times the hemispheric quadrature of the upward zeroth mode; the diffuse plus direct downward flux is that of the downward mode plus the attenuated beam, with the direct flux being the unscaled beam and the delta-M reclassification moved between the two.',
  ['inputs', 'configurations'], 'all atmospheres, depths and options, antiderivatives included',
  'Tests compare fluxes with stored numbers at a few depths; the identity between the returned functions is not tested for general inputs.',
  [AS, PY], [M_ASM],
  'Rule: value numbers of the flux functions equal the quadrature sums of the returned zeroth mode plus the documented beam terms.')
P('P05', 'Azimuthal dependence is the cosine series about the beam azimuth',
  'The intensity is an even, 2 pi periodic cosine series in the azimuth relative to the beam, with as many terms as requested Fourier modes, and its azimuthal mean is the returned zeroth mode. Rotating the beam and the viewing azimuth together changes nothing.',
  ['inputs', 'configurations'], 'all azimuths, beam azimuths, depths and mode counts',
  'Tests use a few fixed azimuths and mostly a zero beam azimuth.',
  [AS, PY], [M_ASM],
  'Rule: u at phi equals sum_m u_m cos(m(phi0-phi)) with u_m extracted from other azimuths; reflection about phi0, rotation of (phi, phi0), and the mean are value-number identities.')
P('P06', 'Antiderivatives differentiate back to the function',
  'For every output function (intensity with and without corrections, zeroth mode, fluxes, actinic fluxes) the derivative with respect to optical depth of the antiderivative output equals the function itself, in every layer, scalar or array depth, with any sources. Differences of antiderivatives within and across layers are therefore exact integrals.',
  ['inputs', 'configurations'], 'all depths, layers, sources, corrections',
  'Tests check antiderivatives numerically for a few cases without internal sources in several layers.',
  [AS, PY, SUB], [M_ASM, M_V, M_PY],
  'Rule: formal d/dtau of the antiderivative value equals the value of the function (value numbers), in each layer; at the top and at interfaces the antiderivative has the value the layer\'s expression continues to; continuity of antiderivatives is checked by P03.')
P('P07', 'Intensity corrections are the documented single-scattering corrections',
  'With corrections requested, the corrected minus the uncorrected intensity is the TMS term (single scattering with the full phase function minus that with the truncated scaled one, summed over layers along the line of sight) plus the IMS term for downward directions. This holds for any number of layers, any subset of layers with delta-M scaling, vector and scalar depths and azimuths.',
  ['inputs', 'configurations'], 'all atmospheres with delta-M scaling, depths, azimuths',
  'Tests use corrections mostly in one layer with uniform scaling; layer-dependent phase functions and the other layers\' contribution are not sampled.',
  [PY, SUB], [M_PY],
  'Rule: u_corrected - u has the value number of the closed-form TMS + IMS sum computed from the documented formulas.')
P('P08', 'All outputs are linear in the sources',
  'For fixed optical properties, every output is linear in the beam intensity, the boundary illumination and the internal source: superposing sources superposes outputs, and scaling all sources by any positive factor scales them.',
  ['inputs', 'configurations'], 'all source values and factors, every output including antiderivatives',
  'Tests use one source amplitude per case, and the internal rescaling by the largest source makes mistakes cancel for a single source.',
  ALL, [M_PY, M_COEF, M_ASM],
  'Rule: outputs for sources xA+yB equal x outputs(A) + y outputs(B) as value numbers; also a common factor.')
P('P09', 'The choice of linear solver does not affect results',
  'The number of layers at which the banded solver takes over never changes any output.',
  ['inputs', 'configurations'], 'all atmospheres of three or more layers, both solver paths',
  'Tests run one path per case and do not compare them for general surfaces and sources.',
  [CO, SUB], [M_COEF, ('diagonal ordered form', SUB + ':to_diag_ordered_form')],
  'Rule: outputs of the dense and banded paths have equal value numbers.')
P('P10', 'Splitting a layer into identical layers changes nothing',
  'Replacing a layer by two layers with the same optical properties and source, at any depth of the split, leaves every output function unchanged at every depth.',
  ['inputs', 'configurations'], 'all atmospheres, layers and split depths',
  'No test compares different discretisations of one atmosphere.',
  ALL, [M_COEF, M_ASM, M_PY],
  'Rule: outputs of the split problem equal those of the original as value numbers at points in all layers and at interfaces, antiderivatives up to a constant being compared as differences.')
P('P11', 'Array queries equal the pointwise queries, with the documented shapes',
  'Evaluating an output function on an array (or list) of depths and azimuths gives, element by element, what it gives for each depth and azimuth alone, whatever the order, repetition or layers of the depths, for values and antiderivatives; scalar arguments drop the corresponding axis.',
  ['inputs', 'configurations'], 'all depth and azimuth arrays, any order, any layer pattern',
  'Tests use sorted depth arrays; unsorted, repeated or single-element arrays and mixed layers are not sampled.',
  [AS, PY, SUB], [M_ASM, M_PY],
  'Rule: cell-wise equality of value numbers between array, permuted, repeated, list and scalar queries, and shapes.')
P('P12', 'Caller-supplied data is never modified',
  'Neither solving, querying, interpolating nor any helper modifies an array or list that the caller passed in.',
  ['inputs', 'configurations', 'histories'], 'all inputs, options and sequences of calls',
  'Tests never look at their inputs afterwards.',
  ALL, [M_PY, M_ASM, ('helpers', SUB)],
  'Rule: ownership/effect analysis: every buffer reachable from an argument is tagged; a store through any alias (views, broadcasts, in-place operators, out= arguments, list mutation) is reported at the storing statement.')
P('P13', 'Results are snapshots, independent of later mutations and other calls',
  'Once solved, the output functions keep giving the same answers whatever the caller later does to the arrays and lists passed in or to any returned array, whatever was queried before, and whatever other problems are solved in between.',
  ['inputs', 'histories'], 'all sequences of queries, solves and caller mutations',
  'Tests query once, in one order, and never overwrite anything.',
  ALL, [M_PY, M_ASM, M_CACHE],
  'Rule: alias analysis: every caller-visible buffer is overwritten with fresh atoms after the solve, and all queries, in other orders, must keep their value numbers.')
P('P14', 'Invalid input is rejected with a ValueError',
  'Every documented restriction (ordered positive optical depths, albedos in [0,1), phase coefficients in (-1,1), delta-M fractions in [0,1), beam angles and intensity, stream and mode counts, matching array lengths and boundary-condition shapes, solver threshold, corrections with a beam along a stream) raises ValueError when violated in any position, including by NaN, instead of returning numbers.',
  ['inputs', 'configurations'], 'all invalid values (half lines, not samples) at every array position, all option classes',
  'The tests contain no invalid input.',
  [PY], [M_PY],
  'Rule: for each restriction and position, the abstract value covering all violating values makes every path of the solver end in ValueError before returning.')
P('P15', 'Valid input is accepted and equivalent forms give the same results',
  'Every input within the documented ranges, edge values included (no sources, zero albedo, beam cosine 1, isotropic phase function, fewer or more surface modes than Fourier modes), is accepted and gives finite defined outputs. Equivalent ways of giving the same problem (numbers, lists, tuples, integer or strided arrays, padded or explicit zeros, defaults, constant functions, positional arguments) give identical outputs.',
  ['inputs', 'configurations'], 'all values within each form',
  'Tests use one form, floating-point arrays, per input.',
  ALL, [M_PY, M_COEF],
  'Rule: no path raises and no output cell is undefined for the edge classes; value-number equality of outputs between forms.')
P('P16', 'Queries outside the atmosphere are rejected, the whole closed range is accepted',
  'Every output function, actinic flux and interpolated function raises ValueError for depths below 0 or beyond the bottom (anywhere in an array) and for polar cosines outside [-1,1], and accepts the complete closed range, interfaces and both ends included.',
  ['inputs', 'configurations'], 'all depths and cosines on the half lines outside; all ends and interfaces',
  'No test queries outside; the ends are sampled in few cases.',
  [AS, PY, SUB], [M_ASM, M_ITP],
  'Rule: abstract depths covering the half lines make every path raise ValueError; ends and interfaces never raise and never give undefined cells.')
P('P17', 'Autograd mode gives the same outputs and stays differentiable',
  'With the autograd-compatible option every output equals the one without it, and the intensity, zeroth mode, flux and actinic flux functions and their antiderivatives use only operations that automatic differentiation can trace with respect to optical depth.',
  ['inputs', 'configurations'], 'all problems, depths, scalar and array queries',
  'One test file differentiates a few functions at a few depths.',
  ALL, [M_ASM, M_PY, M_V],
  'Rule: value-number equality of both modes; taint analysis: a traced depth never reaches an in-place store, a numpy (non-autograd) function, or a concretisation.')
P('P18', 'Optional outputs come in the documented order and do not change the main output',
  'Asking for the antiderivative, the Fourier error or the layer depths, positionally or by keyword, returns exactly the documented extra outputs in the documented order, the returned depths are the given layer depths, and the main output is the same as without asking; the interpolated functions pass the flags on.',
  ['inputs', 'configurations'], 'all flag combinations and functions, all inputs',
  'Tests never combine the flags or pass them through interpolation.',
  [AS, PY, SUB], [M_ASM, M_PY, M_ITP, M_ACT],
  'Rule: tuple arity and value-number equality per position for every flag combination.')
P('P19', 'The Fourier error is the relative size of the last Fourier term',
  'The Fourier convergence estimate is the largest absolute ratio, over all directions, depths and azimuths queried, of the last Fourier term to the (uncorrected) intensity, for values and antiderivatives.',
  ['inputs', 'configurations'], 'all problems and queries',
  'No test evaluates it beyond one reference case.',
  [AS, PY], [M_ASM],
  'Rule: the set of candidates of the returned maximum, matched by value number, equals the set of term/intensity ratios.')
P('P20', 'Options that only select outputs do not change the others',
  'Flux-only mode, the number of Fourier modes, unused higher phase-function coefficients, and requesting corrections when nothing is scaled leave all common outputs unchanged.',
  ['inputs', 'configurations'], 'all problems',
  'Tests use one option set per case.',
  ALL, [M_PY, M_ASM],
  'Rule: value-number equality of the common outputs.')
P('P21', 'Interpolation in polar angle passes through the computed directions',
  'The interpolated intensity and zeroth mode are, in each hemisphere separately, the polynomial through the values at the computed directions of that hemisphere, at every depth and azimuth, with the documented shapes; a cosine of zero uses the polynomial of one of the hemispheres.',
  ['inputs', 'configurations'], 'all cosines in [-1,1], depths, azimuths',
  'One test checks interpolation at a few angles.',
  [SUB], [M_ITP],
  'Rule: value-number equality with the Lagrange polynomial of the returned values.')
P('P22', 'Actinic fluxes are the hemispheric integrals with the beam reclassified',
  'The diffuse actinic fluxes are 2 pi times the unweighted hemispheric quadrature of the zeroth mode, the downward one including the part of the beam that delta-M scaling reclassifies as diffuse, so that diffuse plus true direct beam is independent of that bookkeeping; antiderivatives likewise.',
  ['inputs', 'configurations'], 'all problems and depths',
  'Tests compare few cases without scaling together with several sources.',
  [SUB, AS], [M_ACT],
  'Rule: value-number equality with the quadrature sums and the documented beam term.')
P('P23', 'Cached surface-reflection modes behave like the originals',
  'Using cached surface modes instead of the original ones gives the same modes for the solver\'s directions and hence identical outputs, whether the modes are numbers or functions, with or without a beam, and calls the user function no more often afterwards.',
  ['inputs', 'configurations'], 'all modes and beam angles',
  'Tests do not use the cache.',
  [SUB, CO], [M_CACHE],
  'Rule: value-number equality of modes and outputs.')
P('P24', 'An isothermal enclosure is in equilibrium',
  'If the boundaries and the medium emit at one temperature, with surface emissivity derived from the surface reflection, the radiation is isotropic and equal to the emission at every depth and in every direction, for any optical properties; the emissivity is one minus the directional reflectance.',
  ['inputs', 'configurations'], 'all optical properties, reflection functions and emission levels',
  'No test uses equilibrium; it couples source, boundary, surface and solver.',
  ALL, [M_V, M_COEF, ('emissivity', SUB + ':generate_emissivity_from_BDRF')],
  'Rule: all outputs have the value number of the emission (times pi, 4 pi for fluxes).')
P('P25', 'Energy is conserved in every layer',
  'The divergence of the net flux equals absorption of the total (diffuse and direct) actinic flux minus emission by the internal source, at every depth.',
  ['inputs', 'configurations'], 'all problems and depths',
  'Tests check energy only through stored fluxes.',
  ALL, [M_ASM, M_ACT],
  'Rule: formal derivative of the returned fluxes against the returned actinic fluxes, value number 0.')
P('P26', 'Polynomial helpers represent the same polynomial',
  'Affine transformation of polynomial coefficients gives, row by row, the same function in the new variable and rejects any zero scale factor; the linear spline passes through its points and rejects unsorted or mismatched data.',
  ['inputs'], 'all coefficients, scale factors, shifts and knots, several degrees and row counts',
  'Tests use a few numbers.',
  [SUB], [('affine transformation', SUB + ':affine_transform_poly_coeffs'), ('spline', SUB + ':linear_spline_coefficients')],
  'Rule: value-number equality of the polynomials at a generic point; abstract bad inputs always raise.')
P('P27', 'Quadratures are exact to their order and the stream directions are Gauss nodes',
  'The Gauss quadrature integrates polynomials up to its degree exactly over any interval, the Clenshaw-Curtis quadrature has the closed-form nodes and weights and rejects unusable sizes, interval transformations are affine, and the returned directions are the Gauss nodes on (0,1) followed by their mirror images.',
  ['inputs', 'configurations'], 'all intervals (also reversed and negative ones); exact moments for up to 2 Gauss nodes, the affine map and order of generic nodes for counts up to 64; Clenshaw-Curtis node counts up to 33',
  'Tests use one interval.',
  [SUB, PY], [('quadratures', SUB + ':Gauss_Legendre_quad'), ('quadratures', SUB + ':Clenshaw_Curtis_quad')],
  'Rule: moments and closed forms as value numbers.')
P('P28', 'Thermal emission helpers integrate the Planck function consistently',
  'The Planck helper is the Planck function of temperature and wavenumber with zero emission at absolute zero, for numbers and arrays; boundary emission is its integral over the band, with the accuracy options of the caller reaching the quadrature unchanged, and the generated source of each layer is linear in optical depth and takes the emission of the layer\'s top and bottom temperatures; mismatched lengths are rejected.',
  ['inputs'], 'all temperatures, bands and optical depths, several layer counts',
  'Tests compare a few stored numbers.',
  [SUB], [('Planck', SUB + ':Planck'), ('sources', SUB + ':generate_s_poly_coeffs'), ('boundary emission', SUB + ':blackbody_contrib_to_BCs')],
  'Rule: value-number equality with the formula; the integral is an uninterpreted functional of the value-numbered integrand.')
P('P29', 'Array and angle utilities compute what they document',
  'The finite-difference matrix differentiates quadratics exactly inside (and to its order at the ends) on a uniform grid, the diagonal ordered form holds every element of the band at its place, the scattering-angle cosine is the spherical formula for all combinations, prepending and axis helpers keep the contents.',
  ['inputs'], 'all values, several sizes and shapes',
  'Tests use them indirectly in few sizes.',
  [SUB], [('utilities', SUB)],
  'Rule: value-number equality with the defining formula, element by element.')
P('P30', 'Delta-M scaling is the similarity transformation of the whole problem',
  'Solving with delta-M fractions equals solving the explicitly scaled problem (scaled optical depths, albedos, phase coefficients and source polynomials) without fractions, at corresponding depths, up to the reclassification of the direct beam; and two sets of fractions which describe the same scaled problem give the same result.',
  ['inputs', 'configurations'], 'all fractions, layers, sources',
  'Tests compare scaled runs with stored numbers only.',
  ALL, [M_PY, M_V, M_ASM],
  'Rule: value-number equality of the two problems\' outputs.')
P('P31', 'Output functions can be called concurrently',
  'A call of an output, actinic-flux, cached-mode or interpolated function gives the same result whatever other calls of the functions of the same solution run in the middle of it.',
  ['schedules', 'histories'], 'every interleaving of two calls at statement granularity',
  'Tests are single-threaded.',
  [AS, PY, SUB], [M_ASM, M_ITP, M_ACT],
  'Rule: non-interference: at every statement boundary of a call another complete call is interposed in the abstract semantics, and the value numbers must not change; plus an effect rule that no statement of an output function stores to state that outlives the call.')

P('P32', 'Outputs stay finite however thick the layers are',
  'Whatever the optical thickness of the layers, no output or antiderivative (corrections and actinic fluxes included) forms an exponential that overflows, divides by a transmission that underflows to zero, or rests on a linear system that becomes singular when the transmissions of the layers vanish: every output is a defined number at every depth.',
  ['inputs', 'configurations'], 'opaque layers and thin layers above opaque ones, in all option classes and layer counts analysed',
  'Tests use moderately thick atmospheres; the failure needs a layer that is opaque for one computed direction.',
  [PY, AS, CO], [M_PY, M_ASM, M_COEF],
  'Rule: the value graph of every output is interpreted over (sign, mantissa, unbounded exponent); no exponential may leave the double range upwards, no divisor may leave it downwards, and no system matrix may lose rank when its underflowing entries are zero.')

P('P33', 'Outputs have no poles inside the range of valid inputs',
  'No output or antiderivative divides by a quantity that becomes zero for some valid combination of inputs that the input checks let through.',
  ['inputs', 'configurations'], 'all values of the inputs in each analysed class: a divisor whose sign differs at two points of a connected class vanishes in between',
  'The singular inputs form thin sets that no sampled test hits.',
  [PY, GEN, AS], [M_PY, M_EIG, M_ASM],
  'Rule: every divisor in the value graphs of the outputs either has an interval without zero or keeps one sign over the class; a divisor that changes sign is followed to its zero (intermediate value theorem), and that point must be excluded by a path condition.')

P('P34', 'Turning the atmosphere upside down exchanges up and down',
  'For an atmosphere without a beam and without surface reflection, reversing the layers and the internal source and exchanging the two boundary illuminations exchanges upward and downward intensities, fluxes and actinic fluxes, at mirrored depths.',
  ['inputs', 'configurations'], 'all atmospheres, boundary values and internal sources without beam and surface reflection',
  'No test compares two problems related by a symmetry.',
  ALL, [M_COEF, M_ASM, M_V],
  'Rule: value-number equality of the outputs of the mirrored problem at mirrored depths with the exchanged outputs of the original.')
P('P35', 'Reflection is reciprocal',
  'Without internal sources and beam, the flux-weighted bilinear form of any two boundary-lit solutions is the same at every depth of every azimuthal mode; so over a surface with symmetric reflection, exchanging the directions of illumination and view leaves the reflected intensity (times the cosines and weights) unchanged.',
  ['inputs', 'configurations'], 'all pairs of illuminations, optical properties, symmetric surfaces and azimuthal modes',
  'No test combines the solutions of two problems.',
  ALL, [M_EIG, M_COEF, M_ASM],
  'Rule: value-number equality of the form sum_i mu_i w_i (u_A^- u_B^+ - u_A^+ u_B^-) at all analysed depths, and its vanishing over a reciprocal surface.')
P('P36', 'Without scattering the radiation is the attenuated emission of boundaries and medium',
  'With zero single-scattering albedo in all layers the intensity along each direction is exactly the exponentially attenuated boundary intensity (with the reflected radiation and beam at the surface) plus the integral of the attenuated internal source, and the fluxes are its quadrature sums and the attenuated beam.',
  ['inputs', 'configurations'], 'all depths, sources, surfaces and layer counts, up to 32 streams',
  'Tests sample one non-scattering case.',
  ALL, [M_COEF, M_ASM, M_V],
  'Rule: value-number equality with the closed form marched from the boundaries through the layers.')
P('P37', 'Azimuthal modes do not influence each other',
  'Each Fourier mode of the intensity (uncorrected) depends only on its own boundary illumination and surface-reflection mode, on the beam, on the phase-function coefficients of at least its order, and only the zeroth one on the internal source; changing the data of other modes leaves it unchanged.',
  ['inputs', 'configurations'], 'all problems and all changes of the other modes\' data',
  'Tests compare sums over all modes at fixed inputs.',
  ALL, [M_PY, M_EIG, M_COEF],
  'Rule: non-interference: value-number equality of a mode in two problems that differ in the data of the other modes.')
P('P38', 'Warnings announce altered and risky input, and nothing else',
  'A warning is issued when a zeroth phase-function coefficient of a scattering layer is corrected to 1, when a delta-scaled single-scattering albedo is within 1e-6 of 1 or a used delta-scaled coefficient exceeds 0.95 in magnitude, in any layer, when more than ten source coefficients are used, and when reflection modes are cached without a beam cosine; ordinary input, unused coefficients and values that are only extreme before scaling give none.',
  ['inputs', 'configurations'], 'all layers and coefficients, scaled and unscaled',
  'Tests ignore warnings.',
  [PY, SUB], [M_PY],
  'Rule: on every path of a class the warning statements are reached, or none is, as documented.')
P('P39', 'A part of the atmosphere on its own reproduces the solution of the whole',
  'Cut at any layer interface, the layers above, solved alone with the radiation of the whole solution illuminating them from below (and no surface), and the layers below, solved alone with the radiation of the whole solution and the attenuated beam entering from above, have the same radiation at every depth, direction and azimuthal mode as the whole atmosphere.',
  ['inputs', 'configurations'], 'all atmospheres, interfaces, sources and surfaces',
  'No test feeds the solution of one problem into another.',
  ALL, [M_COEF, M_ASM, M_V],
  'Rule: value-number equality of all modes of the sub-atmospheres with those of the whole, at depths in every layer, at the interfaces and at both ends.')

RULES = {p['id']: p['rule'] for p in PROPS}

NA = [
    dict(id='Q01', title='Results agree with the reference DISORT implementation to its accuracy',
         statement='For every valid atmosphere the returned intensities and fluxes agree with those of the reference Fortran DISORT within a few significant digits.',
         over=['inputs'], qtext='all atmospheres', why='Only stored cases are compared.', files=ALL, mech=[M_ASM],
         reason='Needs the reference implementation as oracle and a bound on rounding and discretisation error at run-time values; no static argument over the source bounds either.'),
    dict(id='Q02', title='No loss of accuracy for optically thick or extreme atmospheres',
         statement='For every valid atmosphere, however thick, the relative error from rounding stays small.',
         over=['inputs'], qtext='all optical depths and albedos', why='Tests sample a few thick atmospheres.', files=ALL, mech=[M_EIG, M_COEF],
         reason='Depends on condition numbers of run-time matrices (eigen-decomposition and linear solves in LAPACK); a sound static floating-point bound through these calls is out of reach.'),
    dict(id='Q03', title='Intensities and fluxes are non-negative',
         statement='With non-negative sources and a physical phase function all fluxes and, up to truncation of the phase function, all intensities are non-negative.',
         over=['inputs'], qtext='all physical inputs', why='Tests sample values.', files=ALL, mech=[M_ASM],
         reason='Truncated phase functions make intensities genuinely negative for some inputs, and positivity of the discrete solution is a quantitative fact about solutions of run-time linear systems that interval domains cannot establish.'),
    dict(id='Q04', title='Results converge as the number of streams grows',
         statement='As the number of streams increases the results converge to the solution of the continuous transfer equation.',
         over=['inputs', 'configurations'], qtext='all atmospheres, stream counts to infinity', why='Tests use fixed stream counts.', files=ALL, mech=[M_EIG],
         reason='A limit statement of numerical analysis about the method, not about constructs of this source.'),
    dict(id='Q05', title='Cost grows linearly with the number of layers',
         statement='Solving time and memory grow linearly with the number of layers once the banded solver is used.',
         over=['inputs', 'configurations'], qtext='all layer counts', why='No test measures it.', files=[CO], mech=[M_COEF],
         reason='A run-time resource bound through numpy and LAPACK calls; measuring it would be a benchmark, not static analysis.'),
]
