"""writes properties.jsonl"""
import json
P = []


def p(id, title, statement, text, why, files, mech, over=('inputs',), observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               **(dict(observe_at=observe) if observe else {}))))


M = 'src/wafo/misc.py'
NB = 'src/wafo/_misc_numba.py'
CL = 'source/c_library/c_functions.c'
p('C01', 'Level-crossing search finds exactly the crossings of the requested kind',
  'For every real sequence and every level the crossing search returns, in increasing order and without repetition, exactly '
  'the positions at which the sequence passes from one side of the level to the other (the '
  'sample reported is the last one before the signal is strictly on the other side; touching the level and coming back is no '
  'crossing; a sequence that starts on the level crosses when it first leaves it). The up- '
  'and down-crossing selections are exactly the crossings of that direction, wave selections start and end with the '
  'requested direction, interpolated crossing points lie between the two samples on the straight line through them, and the '
  'compiled and the Python implementation give the same answer.',
  'all finite sequences of reals of any length, all levels, all crossing/wave kinds',
  'the tests call it on a handful of sine samples that never touch the level; equality runs, alternations at the level and '
  'first/last sample cases need quantification over sequences',
  [M, NB, CL], [('crossing automaton', CL + ': findcross'), ('crossing automaton', NB + ': findcross'),
                ('kind selection', M + ': findcross, ecross')])
p('C02', 'Compiled routines stay inside their arrays and always terminate',
  'For every input that the Python interface can pass to them, the compiled crossing, rainflow and second-order routines '
  'read and write only inside the arrays they were given, write no more output elements than were allocated, and terminate.',
  'all array lengths and contents accepted by the public callers',
  'an out-of-bounds read or write rarely changes a test result; the tests use one or two lengths',
  [CL, M, NB], [('array index bounds', CL), ('numba kernels are compiled without bounds checks', NB)])
p('C03', 'Rainflow filter keeps exactly the cycles above the threshold',
  'For every turning-point sequence and threshold, the rainflow filter returns strictly increasing indices into the '
  'sequence; the values they select again alternate between minima and maxima, every rainflow cycle of them has range above the '
  'threshold, and cycles above the threshold are kept. All selectable implementations give the same selection where they define the same cycle.',
  'all turning-point sequences, all thresholds >= 0', 'tests check one recorded sea elevation', [M, NB, CL],
  [('rainflow filter', NB + ': findrfc'), ('rainflow filter', CL + ': findrfc'), ('dispatch', M + ': findrfc')])
p('C04', 'ASTM rainflow counting conserves cycles and agrees between back ends',
  'For every sequence of turning points the ASTM rainflow count assigns every range exactly once: the full and half cycle counts '
  'add up to half the number of ranges in the sequence, every counted amplitude and mean is half the range and midpoint of a pair of points of the '
  'sequence, the largest counted amplitude is half the total range, and the compiled and the Python routine give the same table.',
  'all finite turning-point sequences', 'tests check one recorded sequence against stored output',
  [NB, CL, M], [('stack algorithm', NB + ': findrfc_astm, _findrfc3_astm, _findrfc5_astm'), ('stack algorithm', CL + ': findrfc3_astm, findrfc5_astm')])
p('C05', 'Cycle amplitudes, damage and level-crossing counts follow from the cycle pairs',
  'For every set of cycle pairs the amplitudes are half the distance between the paired values, the accumulated damage is the '
  'sum of amplitude to the given power times the material constant, damage adds up over disjoint sets, and the level crossing '
  'count at each level equals the number of cycles whose minimum-to-maximum interval contains that level for the requested definition.',
  'all finite collections of (max, min) pairs, all exponents and constants', 'tests check one stored sample',
  ['src/wafo/objects.py'], [('CyclePairs', 'src/wafo/objects.py: CyclePairs.amplitudes, damage, level_crossings')])
p('C06', 'Turning points, crests, troughs and wave parameters are the right samples',
  'For every sampled signal the extracted turning points are local extremes of the signal in time order and alternate between '
  'maxima and minima; the trough/crest points are the extreme samples between consecutive level crossings; heights, amplitudes, '
  'steepnesses and periods of waves are differences and quotients of those same points.',
  'all finite signals, all wave definitions', 'tests check one recorded signal', [M, 'src/wafo/objects.py'],
  [('findextrema, findtp, findtc', M), ('wave parameters', 'src/wafo/objects.py: TimeSeries.wave_height_steepness, wave_periods, TurningPoints.cycle_pairs')])
p('C07', 'Wave number and frequency conversions satisfy the dispersion relation',
  'For every wave number vector, water depth and gravity the frequency returned is the non-negative root of w**2 = g k tanh(k h) (g k at infinite depth), '
  'zero at zero wave number, shifted by the current component along the wave and cut at zero; the direction is that of the wave number vector. The inverse '
  'conversion has the sign of the frequency and the given direction, is exact at infinite depth and zero at zero frequency, and otherwise, unless it warns, '
  'its last step was the Newton step of that same relation and within the requested tolerance. Empty input gives a pair of empty arrays and inputs are not changed.',
  'all frequencies, wave numbers, directions, depths including infinite, gravities, and broadcastable shapes',
  'tests check a few frequencies at one depth', ['src/wafo/wave_theory/dispersion_relation.py'],
  [('k2w, w2k', 'src/wafo/wave_theory/dispersion_relation.py')])
p('C08', 'Sensor transfer functions follow linear wave theory for every sensor type',
  'For every sensor type, frequency of either sign, direction, depth (finite or infinite), gravity and sensor position the gain (never negative) times the directional factor is the linear-wave-theory '
  'factor between surface elevation and the measured quantity: time derivatives multiply by -i w, space derivatives by i k times the direction cosine, pressure is density times gravity times the depth attenuation cosh/cosh, '
  'horizontal kinematics carry cosh/sinh and vertical ones sinh/sinh, times the phase of the sensor position. The wave number used satisfies the dispersion relation with the same depth and gravity, and inputs are not changed.',
  'all sensor codes, frequencies, directions, depths and positions', 'tests evaluate a few sensors at one depth',
  ['src/wafo/wave_theory/core.py'], [('TransferFunction', 'src/wafo/wave_theory/core.py')])
p('C09', 'Gaussian transformations and their inverses are consistent and monotone',
  'For the linear, Ochi, Hermite and tabulated transformation families the parameters reported and used are the documented functions of the given moments (curvature and variance of the Ochi model solve their '
  'defining equations; the Hermite polynomial has the documented coefficients for kurtosis at most 3, and for both Winterstein parametrisations above 3), transforming to the Gaussian domain and back returns the original value '
  'wherever the transform is increasing (a Hermite polynomial that is not is reported, and its inverse still returns roots of the polynomial), the transform is increasing, scaling by the mean and deviation of both sides is '
  'applied, linear derivatives propagate by the chain rule, and the distance to the Gaussian model and the tabulated version are those of the transform.',
  'all values and all admissible family parameters', 'tests check one parameter set on a grid of points',
  ['src/wafo/transform/models.py', 'src/wafo/transform/core.py'],
  [('TrLinear, TrOchi, TrHermite, TrData', 'src/wafo/transform/')])
p('C10', 'Bit operations address exactly the requested bit',
  'For all non-negative integers, getting a bit returns that binary digit, setting a bit changes exactly that digit and no other, '
  'bitwise and, or, xor and not agree with binary arithmetic, and converting a number to its bits and back is the identity on the bits taken.',
  'all integers of the supported widths and bit numbers', 'tests use a handful of numbers below 16',
  ['src/wafo/bitwise.py'], [('bitwise functions', 'src/wafo/bitwise.py')])
p('C11', 'Conditional evaluation applies each branch exactly where its condition holds',
  'For every input array (any shape that broadcasts) and condition set, the conditional evaluation helpers give at each element '
  'the value of the selected function at that element, the fill value where none is selected, never evaluate a function on elements outside its condition, and '
  'preserve the broadcast shape.',
  'all arrays, shapes, conditions and functions', 'tests use two or three arrays', [M],
  [('lazywhere, lazyselect, piecewise, argsreduce, valarray', M)])
p('C12', 'Rotations and coordinate changes preserve geometry and are invertible',
  'Planar and spatial rotations preserve lengths and angles and rotate by the stated angles, Cartesian and polar/cylindrical conversions are '
  'mutual inverses, and equally spaced points on a line in space are the affine combinations of its end points.',
  'all coordinates and angles', 'tests check a few points and right angles', [M],
  [('rotate, rotate_2d, cart2polar, polar2cart, spaceline', M)])
p('C13', 'Outlier search partitions the data into outliers and the rest',
  'For every series and thresholds the outlier search returns two disjoint index sets that together are all indices; a sample is an outlier when it meets one of the '
  'documented criteria (step, second difference, values closer than the critical distance with the points around them; missing values count as zero) and otherwise is not.',
  'all finite series, all thresholds', 'tests check one recorded series', [M], [('findoutliers', M)])
p('C14', 'Polynomial algebra agrees with pointwise evaluation',
  'For all polynomials, every operation of the polynomial toolbox (shift, rescale, differentiation, integration, reflection, trimming, '
  'conversion to and from Chebyshev form, product and evaluation) gives the polynomial whose value at every point is what the operation means.',
  'all coefficients, all degrees, all evaluation points', 'tests check single polynomials of low degree',
  ['src/wafo/polynomial.py'], [('polynomial functions', 'src/wafo/polynomial.py')])
p('C15', 'Piecewise polynomials and monotone interpolation respect the data',
  'For every breakpoint sequence and coefficient table, evaluation uses the piece containing the point, derivative and antiderivative are '
  'those of each piece with a continuous antiderivative, interpolants pass through the data, and the monotone slope and interpolation rules never overshoot monotone data.',
  'all breakpoints, coefficients, data and evaluation points', 'tests check single data sets',
  ['src/wafo/interpolate.py'], [('PPform, slopes, stineman_interp, Pchip', 'src/wafo/interpolate.py')])
p('C16', 'Linear binning conserves mass',
  'For data in any number of dimensions inside a regular grid, linear binning assigns non-negative weights to the corners of the cell containing each point only, each point contributes exactly its weight in total and the binned counts '
  'reproduce the first moment of the data.',
  'all data sets inside all grids, with and without weights', 'tests check one sample of random data',
  ['src/wafo/kdetools/gridding.py'], [('accum, gridcount', 'src/wafo/kdetools/gridding.py')])
p('C17', 'Transformation of processes uses the chain rule and extends data linearly',
  'For tabulated transformations, transforming a process and its derivatives follows the chain rule exactly up to fourth order, interpolates linearly between table points, '
  'and values outside the table are on the straight line through the outermost points; preparation of the table returns equally spaced increasing abscissae with the same straight-line extension.',
  'all tables, inputs and derivative orders', 'tests check one sine table', [M], [('tranproc, trangood', M)])
p('C18', 'Wave spectrum models equal their formulas, are non-negative and scale',
  'For all admissible parameters the parametric wave spectra are zero at and below zero frequency, non-negative everywhere, equal their published formula and scale with the '
  'square of the significant wave height; directional spreading functions are non-negative, periodic and normalised by their stated constants.',
  'all frequencies, directions and admissible parameters', 'tests compare a handful of frequencies for one parameter set',
  ['src/wafo/spectrum/models.py'], [('Bretschneider, Jonswap, Wallop, Torsethaugen, McCormick, Tmaspec, OchiHubble, Spreading', 'src/wafo/spectrum/models.py')])
p('C19', 'Spectral moments and characteristics equal their defining formulas',
  'For every spectrum (angular frequency, Hz or wave number) the moments are the integrals of the powers of frequency times the density, the directional moments those '
  'of the wave-number components, and each characteristic (significant wave height, mean and peak periods, bandwidth, peakedness, groupiness and quality factors, steepness) '
  'equals its documented formula in them, independently of the frequency unit and of the subset, order and spelling of the request; the stated variances are those of the '
  'first-order expansion; changing the frequency unit preserves the density; inputs are not modified.',
  'all spectra, frequency units, orders and request lists', 'tests check one spectrum',
  ['src/wafo/spectrum/core.py'], [('SpecData1D.moment, bandwidth, characteristic, freqtype; SpecData2D.moment', 'src/wafo/spectrum/core.py')])
p('C20', 'Second-order wave coefficients equal the defining sums and formulas',
  'For all increasing positive frequencies, wave numbers, depths, gravities and amplitudes the second-order correction coefficients of disufq and disufq2 (C library and Numba) '
  'equal the double sum over all frequency pairs of the quadratic transfer functions times the products of the amplitudes - sum frequencies from the products, difference '
  'frequencies from the conjugate products, the mean kernel on the diagonal - in deep water (h > 10000) and at finite depth; disufq2 returns the sum and the difference '
  'effects separately and they add up to those of disufq; the compiled and the Numba implementation agree. qtf returns half of these kernels (sum, difference, diagonal) '
  'on the grid of the frequencies: in deep water, and at finite depth for the Langley form; its diagonal is the mean kernel for both forms.',
  'all frequency grids, amplitudes, depths, gravities', 'tests check one small grid',
  [NB, CL, 'src/wafo/spectrum/core.py'], [('disufq, disufq2', NB), ('disufq, disufq2', CL), ('qtf', 'src/wafo/spectrum/core.py')])
p('C21', 'Closed-form distributions have consistent cdf, sf, quantile and density',
  'For every distribution with closed-form functions and all admissible shape parameters the quantile function inverts the '
  'distribution function, the survival function is its complement and their logarithms agree, the density is the derivative of the distribution function, and the stated support is where the density may be positive.',
  'all distributions with closed forms, all admissible shapes, all points and probabilities', 'tests sample some shapes and points',
  ['src/wafo/stats/_continuous_distns.py', 'src/wafo/stats/_distn_infrastructure.py'], [('distribution methods', 'src/wafo/stats/_continuous_distns.py')])
p('C22', 'Cycle matrix conversions are inverse and conserve cycle counts',
  'For every cycle count matrix the conversion to the counting distribution and back is the identity; the counting distribution at a pair of levels '
  'is the number of cycles whose minimum is below the lower and whose maximum is above the upper one; folding and smoothing conversions keep the total number of cycles.',
  'all square matrices', 'tests check one 4x4 matrix', ['src/wafo/markov.py'],
  [('nt2cmat, cmat2nt, nt2fr, fr2nt', 'src/wafo/markov.py')])
p('C23', 'Multinormal probability integration stays within its stated error',
  'For every mean, covariance and integration limits the multivariate normal probability returned differs from the true value by '
  'no more than the error bound returned with it.',
  'all means, covariances and limits', 'tests check a few cases against known values', ['src/wafo/gaussian.py'],
  [('Rind, prbnormnd', 'src/wafo/gaussian.py'), ('Fortran', 'src/wafo/source/rind2007')])
p('C24', 'Spectrum and covariance function are a Fourier pair',
  'Converting a spectrum to a covariance function and back returns the spectrum, and the covariance at lag zero equals the zeroth spectral moment.',
  'all spectra, resolutions and lag counts', 'tests check one spectrum', ['src/wafo/spectrum/core.py', 'src/wafo/covariance/core.py'],
  [('tocovdata, tospecdata', 'src/wafo/spectrum/core.py, src/wafo/covariance/core.py')])
p('C25', 'Simulated sea surfaces have the prescribed spectrum',
  'For every spectrum, simulated Gaussian and second-order sea surfaces have in distribution the covariance, skewness and periodicity prescribed by the spectrum.',
  'all spectra, seeds and lengths', 'statistical property', ['src/wafo/spectrum/core.py'], [('sim, sim_nl', 'src/wafo/spectrum/core.py')],
  over=('inputs', 'histories'))
p('C26', 'Kernel density estimates are non-negative densities integrating to one',
  'For every data set, kernel and bandwidth the density estimate is non-negative and integrates to one.',
  'all data, kernels, bandwidths', 'tests check one sample', ['src/wafo/kdetools/'], [('KDE, TKDE, kernels', 'src/wafo/kdetools/')])
p('C27', 'Numerical integration converges to the integral within the reported error',
  'For every sufficiently smooth integrand the quadrature routines return a value whose distance to the integral is at most the reported error.',
  'all smooth integrands', 'tests check a few integrands', ['src/wafo/integrate.py', 'src/wafo/integrate_oscillating.py'], [('quadrature rules', 'src/wafo/integrate.py')])
open('/verif/properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in P))
import jsonschema
sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x, sch)
    assert x['statement'].count('. ') < 3, x['id']
print(len(P))
