# -*- coding: utf-8 -*-
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/pydsm/'


def P(id, title, statement, over, quant, why, files, mech, state=(), obs=()):
    return {'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': quant},
            'why_tests_cant': why,
            'anchors': {'files': [S + f for f in files],
                        'state': [dict(name=a, meaning=b, where=S + c)
                                  for a, b, c in state],
                        'mechanism': [dict(name=a, where=S + b)
                                      for a, b in mech],
                        'observe_at': list(obs), 'hook_needed': None}}


SIM = ['delsig/_simulateDSM.py', 'delsig/_simulateDSM_scipy.py',
       'delsig/_simulateDSM_scipy_blas.pyx', 'delsig/_simulateDSM_cblas.pyx',
       'delsig/_simulateDSM_helper.pxi']
W = 'NTFdesign/weighting/'

PROPS = [
P('C01', 'Simulation follows the modulator difference equation exactly',
  'For every real ABCD description (any order, number of inputs and of quantizers), initial state and input sequence, simulateDSM returns, sample by sample, y = C x + D1 u, v = quantizer(y), next x = A x + B1 u + B2 v, started from x0 (zero by default). Column k of the stored state history is the state after sample k, without store_xn the last state is returned, and xmax is the elementwise maximum of |x| over the initial state and all the following ones. This holds in every backend, and bit for bit whenever the arithmetic is exact.',
  ['inputs', 'histories'],
  'every ABCD matrix, initial state and input word; for every combination of the storage switches',
  'the test suite simulates one 5th-order modulator on one sine wave and looks at the output only; states, xmax, y, several inputs or quantizers and nonzero initial states are never exercised.',
  SIM, [('sample loop of the pure Python simulator', SIM[1]),
        ('BLAS sample loop', SIM[2]), ('CBLAS sample loop', SIM[3]),
        ('vabsmax tracking and quantizer', SIM[4])],
  [('x0', 'modulator state vector', SIM[2])],
  ['pydsm.delsig.simulateDSM return values']),
P('C02', 'Quantizers only emit legal levels, the nearest to their input',
  'A quantizer with n >= 2 levels only emits the n integers of the parity opposite to n in [-(n-1), n-1], namely the legal level nearest to its input (a tie goes to the upper level), saturating at the extreme levels whatever the size of the input. With several quantizers each one obeys its own number of levels. ds_quantize, on scalars, vectors and column vectors, and the quantizers inside all the simulation backends implement this same map.',
  ['inputs', 'configurations'],
  'every quantizer input (ties, one ulp around the ties, saturation, huge values, negative zero) and every number of levels, alone or in a bank of quantizers',
  'tests only use a binary quantizer, indirectly.',
  SIM, [('ds_quantize', SIM[1]), ('inline ds_quantize', SIM[4])],
  obs=['pydsm.delsig.simulateDSM', 'pydsm.delsig.ds_quantize']),
P('C03', 'Simulation backends and argument spellings are interchangeable',
  'The scipy, scipy_blas, cblas and auto backends return the same outputs, states, maxima and quantizer inputs for the same call, and any spelling of the same arguments (lists, tuples, scalars, integer or float32 arrays, Fortran-ordered or strided views, 1-D or one-row input, row or column initial state, keyword or positional) gives the same result. Malformed input, quantizer, modulator or initial state specifications raise the documented ValueError in every backend, and an unknown backend raises RuntimeError. Only the pure Python backend warns with PyDsmSlowPathWarning.',
  ['inputs', 'configurations'],
  'every pair of backends, every documented spelling of the arguments and every kind of malformed argument',
  'tests compare two backends on one call with one spelling; error paths are not tested.',
  SIM, [('backend selection', SIM[0]), ('argument validation', SIM[1]),
        ('argument validation', SIM[2]), ('argument validation', SIM[3])],
  obs=['pydsm.delsig.simulateDSM']),
P('C04', 'Simulations can be split, repeated and recorded at no effect',
  'Simulating an input in consecutive chunks, each started from the final state returned by the previous one, gives the same outputs, states and quantizer inputs as a single run, and the running maxima combine by maximum. Calls never modify their arguments, returned arrays do not alias the arguments or the results of other calls, and calls do not influence later ones. Asking for state, maxima or quantizer input recording does not change the other results.',
  ['histories', 'configurations'],
  'every way of splitting an input into chunks, every sequence of calls and every combination of recording switches',
  'no test passes x0, splits a simulation or reuses a result.',
  SIM, [('x0 is copied before the loop', SIM[2]), ('x0 handling', SIM[1])],
  [('x0', 'state carried from a call to the next', SIM[1])],
  ['pydsm.delsig.simulateDSM arguments and return values']),
P('C05', 'An NTF given as zpk is simulated as V = U + NTF E',
  'Given a real NTF in zpk form (zeros and poles closed under conjugation, as many zeros as poles), simulateDSM realizes a modulator with unit STF whose quantization error e = v - y is shaped by that NTF: v = u + ntf(z) e from a zero initial state, for every input and number of quantizer levels, in every backend. The order of the singularities in the lists is irrelevant and all backends use the same state coordinates, so that final states can be carried between them.',
  ['inputs', 'histories'],
  'every NTF with poles in the unit circle, every input sequence and number of levels',
  'tests check one NTF and one sine input against a stored DELSIG output.',
  SIM, [('realization of -1/NTF', SIM[1]), ('realization of -1/NTF', SIM[2]),
        ('realization of -1/NTF', SIM[3])],
  obs=['pydsm.delsig.simulateDSM']),
P('C06', 'synthesizeNTF returns valid optimal NTFs of the requested order',
  'For every order up to 8, osr, f0, H_inf from 1.2 up and zero-placement option, synthesizeNTF (with or without optimizer; also as ntf_schreier) returns a zpk triple with unit gain, exactly order zeros and order poles closed under conjugation, poles within the unit circle, zeros on it and |NTF| at z=-1 (z=1 for f0 beyond a quarter) equal to H_inf when attainable, never beyond it; the poles are those of a maximally flat denominator. Zeros sit at band center for opt 0, at the band-edge-scaled optimal positions for opt 1 and 2, symmetrically about f0 for bandpass, at the given places when passed explicitly, and no worse than the tabled ones when optimized numerically (opt 3 and 4). Odd bandpass orders, osr too low or too many explicit zeros are dealt with by the documented warnings or errors.',
  ['inputs', 'configurations'],
  'every (order, osr, opt, H_inf, f0), both with and without optimizer, and explicit zero lists',
  'tests compare a handful of parameter choices with tabled values.',
  ['delsig/_synthesizeNTF.py', 'delsig/_synthesizeNTF0.py',
   'delsig/_synthesizeNTF1.py', 'NTFdesign/delsig.py'],
  [('iterative pole placement', 'delsig/_synthesizeNTF0.py'),
   ('iterative pole placement with optimizer', 'delsig/_synthesizeNTF1.py')],
  obs=['pydsm.delsig.synthesizeNTF return value']),
P('C07', 'synthesizeChebyshevNTF returns valid Chebyshev NTFs',
  'For every order, osr, opt, H_inf and f0, synthesizeChebyshevNTF returns a zpk triple with unit gain and as many zeros and poles as the order, closed under conjugation, with poles within the unit circle and zeros on it and inside the signal band (symmetric about f0 for bandpass). The gain of the NTF at half the sample rate (or DC for f0 beyond a quarter) equals H_inf, and the zeros are spread so that the in-band gain has equal ripple peaks, whatever opt is.',
  ['inputs', 'configurations'],
  'every (order, osr, opt, H_inf, f0)',
  'a single parameter choice is tested.',
  ['delsig/_synthesizeChebyshevNTF.py', 'NTFdesign/delsig.py'],
  [('inverse Chebyshev design with bisection on the stopband',
    'delsig/_synthesizeChebyshevNTF.py')],
  obs=['pydsm.delsig.synthesizeChebyshevNTF return value']),
P('C08', 'clans returns NTFs with bounded l1 gain',
  'For every order up to 5, osr from 32 up, number of quantizer steps nq from 3 up, pole radius limit rmax and opt, clans (and ntf_clans) returns a zpk NTF with unit gain, as many zeros and poles as the order, closed under conjugation, all the poles within radius rmax, the zeros of synthesizeNTF for that order, osr and opt, and a 1-norm of the impulse response not larger than 1+nq (up to the optimizer tolerance). Its band-edge gain is locally optimal: no NTF with nearby poles satisfying the same limits is materially better, and so is not the Schreier NTF the search starts from when it satisfies them.',
  ['inputs', 'configurations'],
  'every (order, osr, nq, rmax, opt)',
  'one design point is tested.',
  ['delsig/_clans.py', 'delsig/_dsclansNTF.py'],
  [('constrained SLSQP search', 'delsig/_clans.py'),
   ('pole parametrization', 'delsig/_dsclansNTF.py')],
  obs=['pydsm.delsig.clans return value']),
P('C09', 'Optimal zero tables and band edges of DELSIG are right',
  'ds_optzeros(n, opt) returns n normalized frequencies, symmetric about zero: all null for opt 0, the minimizers of the integral over the band of the squared NTF numerator for opt 1, the same with the constraint of zeros at band center (one for odd n, two for even n) for opt 2; n > 14 raises ValueError. ds_f1f2 returns the band edges, clipped at DC for lowpass and centered on f0 otherwise. Dunn zeros obey the same symmetry and count rules for n up to 8.',
  ['inputs'],
  'every n in 1..14 with every opt; every osr, f0 and complex flag',
  'tests check no table entry directly; a wrong digit in one table row is invisible to them.',
  ['delsig/_ds.py', 'NTFdesign/psychoacoustic.py'],
  [('tables of zeros', 'delsig/_ds.py')],
  obs=['pydsm.delsig.ds_optzeros', 'pydsm.delsig.ds_f1f2',
       'pydsm.NTFdesign.psychoacoustic.dunn_optzeros']),
P('C10', 'FIR NTF design is optimal under the Lee constraint',
  'For every quadratic form (or weighting function, or filter), order and H_inf, ntf_fir_from_q0 and ntf_fir_weighting return a monic FIR NTF in zpk form with poles in the origin, whose peak gain does not exceed H_inf, and whose weighted noise is not larger than that of any other monic FIR of that order respecting the same limit. All the modelers (cvxpy_old, cvxpy with cvxopt or scs, picos) give equivalent results, and the outcome does not depend on a scaling of the quadratic form. Unknown modelers and unknown options are rejected.',
  ['inputs', 'configurations'],
  'every weighting, order, H_inf and modeler, against every admissible competitor NTF',
  'tests compare two formulations on one filter; optimality against competitors is not examined.',
  [W + '_fir_weighting.py', W + '_fir_weighting_cvxpy.py',
   W + '_fir_weighting_cvxpy_tdr.py', W + '_fir_weighting_picos.py'],
  [('bounded real lemma LMI', W + '_fir_weighting_cvxpy.py'),
   ('option dispatch', W + '_fir_weighting.py')],
  obs=['pydsm.NTFdesign.ntf_fir_weighting',
       'pydsm.NTFdesign.weighting.ntf_fir_from_q0']),
P('C11', 'Hybrid NTF design keeps the given poles and is optimal',
  'ntf_hybrid_weighting returns an NTF in zpk form with unit gain and as many zeros and poles as the order, where the poles are the preassigned ones padded with zeros, whose peak gain does not exceed H_inf and whose weighted noise is not larger than that of any other NTF with the same poles under the same limit; without poles it coincides with ntf_fir_weighting. More poles than the order raise ValueError. All the modelers give equivalent results.',
  ['inputs', 'configurations'],
  'every weighting, order, pole list, H_inf and modeler',
  'one design is tested.',
  [W + '_fir_weighting.py'],
  [('preassigned poles in the LMI', W + '_fir_weighting.py')],
  obs=['pydsm.NTFdesign.ntf_hybrid_weighting']),
P('C12', 'Minmax FIR design is optimal in the band under the Lee constraint',
  'ntf_fir_minmax returns a monic FIR NTF of the given order in zpk form with poles in the origin, whose peak gain does not exceed H_inf and whose peak gain in the signal band (of half width 0.5/osr, starting at DC or about f0) is not larger than that of any other such FIR, up to solver tolerance. With zf set, the NTF has a zero at band center. All the modelers give equivalent results.',
  ['inputs', 'configurations'],
  'every order, osr, H_inf, f0, zf and modeler',
  'tests check two designs.',
  ['NTFdesign/minmax/_fir_minmax.py', 'NTFdesign/minmax/_fir_minmax_cvxpy.py',
   'NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py',
   'NTFdesign/minmax/_fir_minmax_picos.py'],
  [('generalized KYP LMI', 'NTFdesign/minmax/_fir_minmax_cvxpy.py')],
  obs=['pydsm.NTFdesign.ntf_fir_minmax']),
P('C13', 'Noise gain, quadratic forms and weightings are consistent',
  'quantization_noise_gain returns twice the integral of |NTF|^2 times the weighting over the bounds (or its average over the bounds if avg is set), for weightings given as functions or filters in zpk or ba form, and no weighting means unit weighting. q0_weighting returns the first row of the matrix Q for which b\' Q b is that noise gain for every FIR b; mult_weightings multiplies any number of function or filter weightings. The legacy and filter_based variants (filters as zpk, ba, magnitude or impulse response) agree with these.',
  ['inputs', 'configurations'],
  'every NTF, every weighting in any form, every integration interval',
  'tests compare two routes on a single bandpass filter with loose tolerances.',
  ['NTFdesign/merit_factors.py', W + '_fir_weighting.py',
   W + '_quantization_noise_gain.py', 'NTFdesign/filter_based.py',
   'NTFdesign/legacy/_q0_from_ir.py',
   'NTFdesign/legacy/_quantization_noise_gain.py'],
  [('numerical integration', 'NTFdesign/merit_factors.py'),
   ('inverse DTFT of the weighting', W + '_fir_weighting.py')],
  obs=['pydsm.NTFdesign.quantization_noise_gain',
       'pydsm.NTFdesign.weighting.q0_weighting']),
P('C14', 'Psychoacoustic NTF designs follow their specification',
  'ntf_dunn(order, osr, H_inf) is a valid NTF with exactly order zeros at the Dunn frequencies scaled by the oversampling ratio, poles within the unit circle and gain H_inf at half the sample rate. ntf_fir_audio_weighting equals the FIR design for the weighting given by the chosen audio weighting (by name or function) within the audio band, zero outside, floored at -max_attn dB.',
  ['inputs', 'configurations'],
  'every order, osr, H_inf, audio weighting, band and attenuation limit',
  'no test covers this module.',
  ['NTFdesign/psychoacoustic.py'],
  [('weighting built from the audio weighting',
    'NTFdesign/psychoacoustic.py')],
  obs=['pydsm.NTFdesign.ntf_dunn', 'pydsm.NTFdesign.ntf_fir_audio_weighting']),
P('C15', 'Options obey call value, then default_options, at any history',
  'For every function with a default_options attribute, a call uses the values passed in the call, else the current content of that function\'s own default_options, merging dictionary options key by key; no call ever changes any default_options or the option dictionaries it is given, and changing the defaults of a function affects that function only. Unknown options raise TypeError.',
  ['histories', 'configurations'],
  'every sequence of calls and of changes of default options, over all the functions taking options',
  'tests always use default options in a fresh state.',
  ['utilities.py', 'ft.py', W + '_fir_weighting.py',
   'NTFdesign/minmax/_fir_minmax.py', 'NTFdesign/merit_factors.py',
   'NTFdesign/psychoacoustic.py', 'NTFdesign/filter_based.py',
   'delsig/_simulateDSM.py', 'delsig/_clans.py', 'delsig/_synthesizeNTF.py'],
  [('digested_options', 'utilities.py')],
  [('default_options', 'per function dictionary of default options',
    'utilities.py')],
  ['calls to the functions with options']),
P('C16', 'Deprecated aliases warn and behave as what they alias',
  'Every deprecated function returns what the function superseding it returns for the same arguments, passes all its arguments through, and emits a PyDsmDeprecationWarning; functions that are not deprecated emit none.',
  ['inputs', 'configurations'],
  'every deprecated entry point with every argument',
  'no test calls the aliases.',
  ['utilities.py', 'NTFdesign/psychoacoustic.py', 'NTFdesign/filter_based.py',
   W + '_fir_weighting.py', W + '_quantization_noise_gain.py',
   'NTFdesign/delsig.py', 'simulation.py'],
  [('aliases', W + '_fir_weighting.py')],
  obs=['deprecated functions']),
P('C17', 'Discrete-time Fourier transforms are right and invert each other',
  'dtft(x, fs, t0)(f) is the sum of x(n) exp(-j2 pi f n/fs) with n starting at t0, for real or complex x, and dtft_hermitian is its version for sequences given for non-negative times; idtft and idtft_hermitian return the sequence values at the requested times, so that they invert dtft and dtft_hermitian. fft_centered returns frequencies centered about zero and the values of the DTFT at them.',
  ['inputs'],
  'every finite sequence, time offset, sampling frequency and frequency grid',
  'one sequence is tested.',
  ['ft.py'], [('dtft, idtft', 'ft.py')],
  obs=['pydsm.ft']),
P('C18', 'Raw correlations match their definition',
  'raw_acorr(x, N)(k) is the sum over n of x(n) x(n-k), and raw_xcorr(x, y, N)(k) is the sum over n of x(n) y(n-k), for k = 0..N with samples outside the vectors taken as null, for lags up to the length of the (second) vector, and the inputs are not modified.',
  ['inputs'],
  'every pair of vectors, of equal or different length, and every maximum lag',
  'only raw_acorr is used, indirectly, in one test.',
  ['correlations.py'], [('sliced dot products', 'correlations.py')],
  obs=['pydsm.correlations']),
P('C19', 'Impulse responses match the filter and cover its decay',
  'impulse_response(h, m) is the first m samples of the impulse response of the filter h given in zpk or ba form (with as many zeros as poles), and with m omitted its length is guess_ir_length(h, db). That guess is such that the slowest pole has decayed by at least db decibels, never shrinks when db grows or a slower pole is added, exceeds that decay time by no more than the length of the FIR part, and is one more than the number of zeros when there are no poles.',
  ['inputs'],
  'every filter with poles within the unit circle, every length and decay specification',
  'one bandpass filter and one FIR are tested.',
  ['ir.py'], [('lfilter on a pulse', 'ir.py'), ('decay guess', 'ir.py')],
  obs=['pydsm.ir']),
P('C20', 'Transfer function evaluation and delsig helpers are right',
  'evalTF and evalRPoly evaluate the given filter (zpk, or numerator/denominator) or roots at every point of any array or scalar, rmsGain is the root mean square of |H| over the band, dbv/dbp/dbm and undbv/undbp/undbm are the documented decibel scales and invert each other, rms removes the mean on request, padl/padr/padt/padb pad with the given value up to the given size at the named side, axisLabels formats the points picked by start and step, plotPZ draws a marker at each pole and zero over the unit circle and the axes (spanning the plot) and lists them on request, and partitionABCD splits ABCD for the given (or least) number of inputs.',
  ['inputs'],
  'every filter, evaluation point array shape, decibel value, matrix and pad size',
  'tests cover the padding of a vector and a matrix only.',
  ['delsig/_tf.py', 'delsig/_rmsGain.py', 'delsig/_decibel.py',
   'delsig/_padding.py', 'delsig/_partitionABCD.py', 'delsig/_rms.py',
   'delsig/_axisLabels.py', 'delsig/_plot.py'],
  [('evalTF', 'delsig/_tf.py'), ('pads', 'delsig/_padding.py')],
  obs=['pydsm.delsig']),
P('C21', 'Matlab compatibility and utility functions keep their contracts',
  'cplxpair returns the same values (up to exact conjugation) as adjacent conjugate pairs, negative imaginary part first, by increasing real part, followed by the reals in increasing order, along any axis and for any ordering of the input, and raises ValueError when values cannot be paired. shiftdim rotates the dimensions (or drops the leading unit ones) as documented and returns the shift; eps is the distance to the next float of the same type; chop and is_negligible zero or flag exactly the entries below tolerance; mdot is the left-to-right chain of dot products.',
  ['inputs'],
  'every array of conjugate pairs and reals in every order, every shape and shift, every float',
  'only doctests on single examples exist.',
  ['relab.py', 'utilities.py'],
  [('cplxpair', 'relab.py'), ('shiftdim', 'relab.py'),
   ('chop', 'utilities.py')],
  obs=['pydsm.relab', 'pydsm.utilities']),
P('C22', 'Audio weightings and their filters are one and the same curve',
  'For every frequency, the a, b, c, d and f weightings returned as power are the square of those returned as amplitude, are normalized to unity at 1 kHz when normal is set (D always is), vanish at DC, and are the same for scalar and array arguments; without normal only a constant gain changes. The curves are those of the standards. The s-plane zpk filter of each weighting is stable and real, its magnitude is that of the unnormalized weighting at all frequencies, and the weighting gain constant normalizes it at 1 kHz.',
  ['inputs', 'configurations'],
  'every frequency, weighting and combination of the normal and power switches',
  'no test covers this module.',
  ['audio_weightings.py'], [('weighting formulas', 'audio_weightings.py')],
  obs=['pydsm.audio_weightings']),
P('C23', 'ISO 226 equal loudness contours match tables and invert',
  'tabled_L_p reproduces the ISO 226 contour equation at every tabled frequency and loudness level, tabled_L_N is its inverse (within the accuracy of the standard), the contours increase with loudness, iso226_spl_contour returns frequencies and levels for loudness in 0..90 phon and raises ValueError beyond, and iso226_spl_itpl passes through those points with the requested order; the extension switch of each function adds a point at 20 kHz replicating that at 20 Hz; the tables returned to callers are copies.',
  ['inputs', 'histories'],
  'every tabled frequency, loudness level and interpolation switch, after any history of caller side changes to returned tables',
  'no test covers this module.',
  ['iso226.py'], [('tables and interpolation', 'iso226.py')],
  obs=['pydsm.iso226']),
P('C24', 'The bundled convex modeler builds and solves the stated program',
  'In cvxpy_tdr, arithmetic on scalar and matrix expressions (sum, difference, product by constants, transpose, slicing, assignment of items, stacking, diag, trace, reshape, kron), the functions (abs, exp, log, norms, quad_form, geo_mean, lambda_max, ...) and programs used as functions evaluate to the same arithmetic on the values of the variables and of the parameters, whatever the history of changes to those values; dense and sparse constants are interchangeable. Convexity classification follows the DCP rules and programs violating DCP are rejected. Solving a DCP program returns the optimal objective value and variable values that satisfy every constraint (equalities, elementwise and matrix inequalities, memberships of the library sets) and are optimal; infeasible and unbounded programs return +-inf (or the status when asked), also with dependent or contradictory equations and variables left free; options given to a program are those used, unknown ones are rejected, and solving or showing does not alter the program. Arguments, keys, shapes, exponents and values which are not admitted are refused with TypeError or ValueError and leave nothing changed. Expressions, arrays, constraints and programs print as what they are.',
  ['programs', 'inputs', 'histories'],
  'every expression and program that can be formed with the operators up to a depth',
  'the modeler is only exercised through two NTF design routines.',
  ['cvxpy_tdr/arrays.py', 'cvxpy_tdr/scalars.py', 'cvxpy_tdr/utils.py',
   'cvxpy_tdr/programs.py', 'cvxpy_tdr/constraints.py',
   'cvxpy_tdr/procedures/call_solver.py', 'cvxpy_tdr/procedures/expand.py',
   'cvxpy_tdr/procedures/re_eval.py'],
  [('expression trees', 'cvxpy_tdr/scalars.py'),
   ('arrays', 'cvxpy_tdr/arrays.py'),
   ('solver interface', 'cvxpy_tdr/procedures/call_solver.py')],
  obs=['pydsm.cvxpy_tdr']),
P('C25', 'Calls are pure: arguments, globals and later calls are unaffected',
  'No public function of pydsm.delsig, NTFdesign, ft, ir, correlations, relab, utilities, audio_weightings or iso226 modifies its array, list or dictionary arguments or the floating point error state, and calling any functions in between, in any order, does not change the result of a later call with the same arguments.',
  ['histories', 'inputs'],
  'every pair or sequence of calls over the public functions',
  'tests run each function once from a fresh state and never look at the arguments afterwards.',
  ['delsig/_padding.py', 'delsig/_tf.py', 'ir.py', 'delsig/_clans.py',
   'iso226.py', 'NTFdesign/helpers.py', 'utilities.py', 'delsig/_ds.py'],
  [('copies of arguments and tables', 'iso226.py'),
   ('save and restore of numpy error state', 'ir.py')],
  obs=['all public functions']),
P('C26', 'The NTF design helpers place FIR zeros as documented',
  'maxflat_fir_zeros(order, alpha) returns exactly `order` zeros, strictly inside the unit circle, in conjugate pairs, of the maximally flat FIR filter with |A(e^jw)|^2/|A(1)|^2 = 1 + alpha |1-e^-jw|^(2 order). spread_fir_uc_zeros(order, OSR, cf, cf_args, cf_kwargs) returns exactly `order` zeros on the unit circle in conjugate pairs within the signal band [0, pi/OSR], one of them at z=1 for odd orders; it evaluates the cost function only at transfer functions in ZPK form with gain 1, such zeros and all poles in the origin, with the given extra arguments, and the placement returned is a minimizer of the in-band cost (hence no worse than all zeros at z=1). Optimizer options follow call, then module default, then optimizer default; unknown options raise TypeError; arguments and defaults are not altered.',
  ['inputs', 'histories'],
  'every order, OSR, flatness, cost function and set of options',
  'tests never call the helpers directly.',
  ['NTFdesign/helpers.py'],
  [('zeros of the maximally flat FIR', 'NTFdesign/helpers.py'),
   ('zeros optimizer', 'NTFdesign/helpers.py')],
  obs=['pydsm.NTFdesign.helpers']),
P('C27', 'Calls overlapping in time do not interfere',
  'The library may be used by several threads at once and from callbacks: for every two calls of its functions (simulation, NTF synthesis not going through a convex solver, noise gains, transforms, correlations, weightings, iso226, helpers) overlapping in any way - one executed entirely while the other is suspended, e.g. from a weighting or cost function, or two threads switched at any points - each returns exactly what it returns alone, raises what it raises alone, and leaves later calls and the global state unaffected.',
  ['interleavings', 'histories'],
  'every switching point of every pair of calls',
  'tests run one call at a time.',
  ['delsig/_simulateDSM_scipy.py', 'delsig/_synthesizeNTF.py',
   'delsig/_synthesizeNTF0.py', 'delsig/_synthesizeNTF1.py',
   'delsig/_clans.py', 'ir.py', 'ft.py', 'iso226.py', 'correlations.py',
   'NTFdesign/merit_factors.py', 'utilities.py'],
  [('synthesis', 'delsig/_synthesizeNTF.py'),
   ('simulation', 'delsig/_simulateDSM_scipy.py'),
   ('contours', 'iso226.py')],
  obs=['pydsm.delsig', 'pydsm.iso226', 'pydsm.ir', 'pydsm.NTFdesign']),
P('C28', 'Arguments mean the same however they are spelled',
  'A valid call of a public function gives the same result when an argument is replaced by the same value in another spelling: an integer (order, osr, number of points or levels, lag, shift, increment...) of any Python or NumPy integer type, signed or not and however narrow; a real given as an integer or a NumPy scalar; NumPy booleans and strings; any dtype, memory layout, byte order or writability of an array, and lists or tuples where array_like is documented; any callable object for a function; by position or by name. In particular no arithmetic wraps around at the limits of the types. Leaving out an argument is the same as giving its documented default.',
  ['inputs', 'configurations'],
  'every call, argument and spelling',
  'tests use Python numbers and plain arrays.',
  ['delsig/_synthesizeNTF0.py', 'delsig/_synthesizeNTF1.py',
   'delsig/_synthesizeChebyshevNTF.py', 'delsig/_decibel.py',
   'delsig/_tf.py', 'delsig/_ds.py', 'delsig/_padding.py',
   'delsig/_axisLabels.py', 'delsig/_rmsGain.py', 'relab.py',
   'correlations.py', 'audio_weightings.py', 'ft.py', 'ir.py', 'iso226.py',
   'NTFdesign/psychoacoustic.py', 'NTFdesign/helpers.py',
   'NTFdesign/minmax/_fir_minmax.py', W+'_fir_weighting.py',
   'delsig/_simulateDSM_scipy.py'],
  [('synthesis', 'delsig/_synthesizeNTF.py'),
   ('relab', 'relab.py'), ('designs', W+'_fir_weighting.py')],
  obs=['all public functions']),
]

LEVEL_NOTE = {}

TECHNIQUE = {
    'default': 'exhaustive enumeration of a bounded space of calls on the '
               'real code against an independent reference model',
}
SEQ = ('explicit-state exploration of all bounded operation sequences on the '
       'real code against a reference model')
for _p in ('C01', 'C02', 'C04', 'C15', 'C25'):
    TECHNIQUE[_p] = SEQ
TECHNIQUE['C27'] = ('stateless exploration of the real code under a '
                    'controlled scheduler: every interleaving of two calls '
                    'with up to two switches at the lines of Python code')

GENERIC_NOTE = ('Every case within the bounds written in the evidence file '
                'is executed on the code built from the working tree and '
                'compared with an independent model; nothing is sampled. '
                'No claim beyond the alphabets and bounds; numpy, scipy and '
                'the convex solvers are trusted.')


def manifest():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(V, 'mc/props'))
            if f.startswith('c') and f.endswith('.py')}
    checks, na = [], []
    for p in PROPS:
        i = p['id']
        if i in have:
            checks.append({
                'property': i,
                'quick_cmd': './check %s --tier quick' % i,
                'thorough_cmd': './check %s --tier thorough' % i,
                'technique': TECHNIQUE.get(i, TECHNIQUE['default']),
                'level': 'model_checking',
                'level_note': LEVEL_NOTE.get(i, GENERIC_NOTE)})
        else:
            na.append({'property': i, 'reason': 'check under construction'})
    return {'version': 1,
            'setup_cmd': '/opt/venv/bin/python -m mc.build',
            'checks': checks, 'not_applicable': na,
            'notes': 'No hooks: the checks drive the public interface of '
                     'the code built out of tree from /repo.'}


if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest(), f, indent=1)
        f.write('\n')
