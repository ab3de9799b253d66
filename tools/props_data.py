"""Texts of the properties; tools/gen.py writes properties.jsonl and MANIFEST.json from here."""
def P(id, title, statement, over, text, why, files, mech, tech='symbolic execution of LLVM IR + SMT (z3/cvc5/kissat)', note='', na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, na=na)
RE = 'symbolic execution of LLVM IR, exact real arithmetic, polynomial normal form + SMT (z3/cvc5)'
RN = 'All inputs within the stated bounds, in exact real arithmetic (binary32 rounding is not modelled); every counterexample is replayed in binary32 on the real code. Trusts clang IR, the engine in engine/ and the solvers.'
FN = 'All inputs within the stated bounds, bit-precise. Trusts clang IR, the engine in engine/ and the solvers; counterexamples are replayed on the real code.'
PROPS = [
P('C01', 'Checksums equal CRC polynomial division for every message and parameter set',
  'For every message, width (8, 16 or 32 bits), polynomial, initial value, input and output reflection and final XOR, the generic checksum equals the mathematical CRC (polynomial remainder) with those parameters. Every named checksum equals the generic one with its documented parameter set. A null or empty message yields 0, the result fits the selected width and the message is never modified.',
  ['inputs', 'configurations'], 'all messages and all parameter combinations', 'The tests print a few checksums of one fixed message and compare nothing; message bytes, lengths and parameters are unbounded.',
  ['src/crc.cpp', 'src/include/crc.hpp'], [('generic bitwise CRC', 'src/crc.cpp: crc::generic'), ('named variants', 'src/include/crc.hpp: crc8..crc32_*')], note=FN),
P('C02', 'Bit-field accesses touch exactly the addressed bits and read back as written',
  'For every area content, bit index, width from 1 to 32 and value, a write changes exactly the addressed bits (even across 32-bit slots), a read returns exactly the addressed bits and modifies nothing, and a value written is read back. Set, clear, toggle, fill and float accesses obey the same rule. Accesses wider than 32 bits and accesses on an uninitialised instance are refused without effect.',
  ['inputs', 'histories'], 'all contents, indexes, widths, values', 'Tests read and write a handful of positions; slot-crossing combinations of index, width and previous content are far more.',
  ['src/bitfield.cpp', 'src/include/bitfield.hpp'], [('split access across slots', 'src/bitfield.cpp: bitfield::readUINTn, writeUINTn'), ('mask helpers', 'src/include/bitfield.hpp')], note=FN),
P('C03', 'A tapped delay line returns the sample inserted exactly i steps ago',
  'After any sequence of insertions and flushes, the most recent, the oldest and the i-th delayed samples of a delay line of n elements are exactly the values inserted that many steps before (or the initial value if fewer were inserted). Negative or too large indexes yield the documented oldest sample or an undefined sample, and no access leaves the supplied area.',
  ['inputs', 'histories'], 'all insertion/flush histories and indexes up to the bound', 'Tests insert one fixed ramp in one line; wrap-around behaviour depends on history length modulo the line size.',
  ['src/tdl.cpp', 'src/include/tdl.hpp'], [('circular write/read pointers', 'src/tdl.cpp: tdl::insertSample, tdl::getAtIndex, tdl::operator[]')], note=FN),
P('C08', 'PID output always stays inside the configured saturation limits',
  'For every gain, option, mode, mode switch and history of references and measurements, the controller output lies between the minimum and maximum limits in force, 0 and 100 by default. Configuration calls accept exactly the valid values (positive time step, maximum above minimum, filter parameter in [0,1), positive adaptation parameters) and a refused call changes nothing. A controller that was never validly configured refuses every option and returns the reference unchanged.',
  ['inputs', 'histories', 'configurations'], 'all gains, options, signals and mode sequences', 'Tests run one loop with one gain set; limit violations appear only for particular mode/limit/signal histories.',
  ['src/pid.cpp', 'src/include/pid.hpp'], [('saturation of the applied action', 'src/pid.cpp: pidController::control'), ('argument validation', 'src/pid.cpp: setup, setSaturation, setDerivativeFilter')], tech=RE, note=RN + ' One harness is bit-precise for a single step.'),
P('C09', 'PID output follows the documented control law, including anti-windup and MRAC',
  'The controller output equals the documented law: weighted proportional and filtered derivative actions, integral of the error plus the anti-windup feedback, optional model-reference action, and bumpless transfer in manual mode, saturated to the limits. Reverse action equals the same controller with all gains negated, and setting time constants equals setting the equivalent gains. A reset makes the controller behave like a freshly configured one.',
  ['inputs', 'histories', 'configurations'], 'all gains, options and signal histories up to the bound', 'Tests only print one simulated closed loop; nothing compares the output with the law.',
  ['src/pid.cpp', 'src/include/pid.hpp', 'src/numa.cpp'], [('control law', 'src/pid.cpp: pidController::control, pidController::error'), ('integration state', 'src/numa.cpp: nState::integrate')], tech=RE, note=RN),
P('C10', 'Discrete systems and transport delays compute their difference equation',
  'For every numerator and denominator (any relative order, leading denominator coefficient not 1 included), input signal, initial state, input delay and saturation, the output of a discrete system equals its difference equation with the delayed input, limited to the saturation range only when one was set. A transport delay returns the input of exactly n samples before and its initial value until then; FIR evaluation is the exact convolution sum. Incomplete arguments are refused and no memory outside the supplied arrays is touched.',
  ['inputs', 'histories', 'configurations'], 'all coefficients, orders, delays and signal histories up to the bound', 'Tests excite one fixed system and print; state update bugs show only for other orders, delays or later samples.',
  ['src/ltisys.cpp', 'src/include/ltisys.hpp', 'src/tdl.cpp'], [('state update', 'src/ltisys.cpp: discreteSystem::update, updateFIR'), ('delay and saturation', 'src/ltisys.cpp: ltisys::excite, ltisys::saturate'), ('transport delay', 'src/include/ltisys.hpp: transportDelay')], tech=RE, note=RN),
P('C11', 'Continuous systems integrate the state-space form of their transfer function',
  'For every order, coefficients, integration method, time step, initial states and input signal, the output of a continuous system equals the one of the controllable-form state equations of its transfer function integrated with the selected method, including the direct feedthrough term and the state initialisation. Input delay and saturation apply as for discrete systems and incomplete arguments are refused.',
  ['inputs', 'histories', 'configurations'], 'all coefficients, orders, methods and signal histories up to the bound', 'Tests print the response of one fixed system; no test compares it with the equation.',
  ['src/ltisys.cpp', 'src/include/ltisys.hpp', 'src/numa.cpp'], [('state equations', 'src/ltisys.cpp: continuousSystem::update'), ('integration', 'src/numa.cpp: nState::integrate')], tech=RE, note=RN),
P('C12', 'Every smoothing filter follows its documented recursion for any signal',
  'For every parameter set, window size, signal and intermediate reset, each smoothing filter (first and second order low-pass, moving mean, moving outlier removal, gaussian window, exponential weighting, scalar Kalman, double exponential, adaptive linear) returns the value of its recursion, the first sample standing in for missing history and a reset restarting it. The O(1) and O(n) variants agree and a constant signal passes averaging filters unchanged.',
  ['inputs', 'histories', 'configurations'], 'all parameters, windows up to the bound and signal histories', 'Tests print smoothed samples of one signal and compare nothing; window wrap-around and resets appear at specific history lengths.',
  ['src/smoother.cpp', 'src/include/smoother.hpp', 'src/ltisys.cpp', 'src/tdl.cpp'], [('recursions', 'src/smoother.cpp: smoother*::smooth'), ('window shifting', 'src/smoother.cpp, src/ltisys.cpp: discreteSystem::updateFIR')], tech=RE, note=RN),
P('C22', 'Numerical integration and differentiation states implement their named rule',
  'For every signal, time step and choice of method, the accumulated integral of a numerical state equals the sum of its named rule (rectangular, trapezoidal, Simpson, quadratic) over the sample history and the derivative equals its named finite difference. Integration is exact for signals of the degree the rule integrates exactly; holding the history, resetting and the arithmetic operators act only on what they name.',
  ['inputs', 'histories', 'configurations'], 'all signals up to the bound, every method', 'Tests never touch numerical states directly; the rules matter through PID and continuous systems only.',
  ['src/numa.cpp', 'src/include/numa.hpp'], [('rules', 'src/numa.cpp: nState::integrate, nState::derive')], tech=RE, note=RN),
P('C07', 'Array algorithms do exactly what they name, within the given range only',
  'For every array content, range and argument: sorting yields the same values in the order of the comparison, reversal and rotation (by any amount of either sign) permute exactly as named, fill, replace, replace_if and for_each change exactly the addressed elements, find, find_if and binary search return the documented element or null, and counting and quantified queries give the exact answer. Ranges include both ends; elements outside are never read as part of the range nor written.',
  ['inputs'], 'all contents, ranges and rotation amounts up to the array size bound', 'Tests sort and rotate one small array and print it; orderings, duplicates, ranges and rotation amounts are many.',
  ['src/include/algorithm.hpp'], [('in-place algorithms', 'src/include/algorithm.hpp: sort, reverse, rotate, fill, replace, replace_if, find_if, binary_search')], note=FN),
P('C13', 'Smoothing filters refuse invalid setups and never leave their arrays',
  'The setup of every smoothing filter succeeds exactly for parameters in the documented ranges and non-null, non-empty storage; a refused setup leaves a running filter as it was. Whatever the samples and resets, no filter reads or writes outside the arrays it was given, and low-pass, mean and outlier-removal filters never leave the range of the samples they were fed.',
  ['inputs', 'histories', 'configurations'], 'all parameter values, null/empty storage, all samples up to the bound', 'Tests set filters up once with valid arguments and never check a result.',
  ['src/smoother.cpp', 'src/include/smoother.hpp', 'src/tdl.cpp', 'src/ltisys.cpp'], [('argument validation', 'src/smoother.cpp: smoother*::setup'), ('window handling', 'src/smoother.cpp: windowSet, src/ltisys.cpp: updateFIR, src/tdl.cpp')], tech='symbolic execution of LLVM IR + SMT: bit-precise for acceptance and memory safety, exact reals for value claims', note=FN + ' Claims on values are in exact real arithmetic.'),
P('C14', 'The RMS estimator equals its documented three-stage filter',
  'For every signal, window and parameter set, the RMS estimate equals the low-pass of the moving mean of the square root of the exponentially weighted mean square, with the documented defaults after setup. It is never negative and equals the magnitude for signals of constant magnitude. Parameters are accepted exactly in their documented range, apply to the following samples, and refused ones change nothing.',
  ['inputs', 'histories', 'configurations'], 'all signals, parameters and windows up to the bound', 'Tests print the estimate of one sine wave; nothing is compared.',
  ['src/rms.cpp', 'src/include/rms.hpp', 'src/smoother.cpp'], [('three stages', 'src/rms.cpp: rms::update, rms::setup, rms::setParams')], tech=RE, note=RN + ' The square root is an uninterpreted function.'),
P('C18', 'Interpolation follows the named method and passes through every table point',
  'For every strictly ascending table and every method, the interpolator returns the tabulated value at each table point and, between and beyond the points, the value of the named method: next, previous or nearest neighbour, straight line, sine, cubic, polynomial through all the points, Catmull spline, or constrained spline. The line, polynomial and spline methods reproduce straight lines; the constrained spline never overshoots the values of its interval. Incomplete tables yield not-a-number, and unusable data or unknown methods are refused without effect.',
  ['inputs', 'configurations'], 'all tables up to the size bound, all inputs inside and outside, every method', 'Tests print one table and one input per method; interval selection and the end intervals are not exercised.',
  ['src/interp1.cpp', 'src/include/interp1.hpp'], [('methods', 'src/interp1.cpp: interp1::next .. interp1::cSpline'), ('slopes', 'src/interp1.cpp: slope, firstDerivate, leftSecondDerivate, rightSecondDerivate')], tech=RE, note=RN + ' The cosine is an uninterpreted function; the constrained spline is decided for three fixed sets of abscissae.'),
P('C23', 'Matrix operators compute their algebraic definition element by element',
  'For every matrix content, scalar and size, sums, differences, products, scalar operations, compound assignments (also of a matrix with itself), increments and decrements, transpose, element access and the zero, identity and constant constructors give exactly their algebraic definition without changing other operands. The infinity norm is the largest row sum of magnitudes, and the inverse of every invertible matrix multiplied by the matrix gives the identity.',
  ['inputs'], 'all element values and scalars for the sizes stated', 'Tests print a few products of fixed matrices; self-assignment, non-square shapes and zero pivots are not exercised.',
  ['src/include/mat.hpp'], [('operators', 'src/include/mat.hpp: mat::operator*, operator+=, operator!'), ('inverse', 'src/include/mat.hpp: mat::inv'), ('norm', 'src/include/mat.hpp: mat::normInf')], tech=RE, note=RN),
P('C19', 'Classification, rounding, decomposition and neighbours of floats are bit-exact',
  'For every bit pattern of a binary32 value, subnormals, infinities and not-a-number included: classification and its predicates, sign and absolute value, copysign, floor, ceiling, truncation, rounding (halves away from zero), fractional part, minimum and maximum, and the next representable value towards another give exactly the defined result. Decomposition into fraction and exponent multiplies back to the value with the fraction in its interval, and scaling by any power of two is the exact product rounded once, infinite on overflow and gradually underflowing.',
  ['inputs'], 'all 2^32 bit patterns per argument, all 32-bit exponents', 'Tests print a handful of ordinary values; subnormals, halves, exponent boundaries and signed zeros are not among them.',
  ['src/ffmath.cpp', 'src/include/ffmath.hpp'], [('rounding', 'src/ffmath.cpp: rounding, floor, ceil, trunc'), ('decomposition', 'src/ffmath.cpp: rexp, ldexp, nextAfter, classify')], note=FN),
P('C20', 'Range, angle, interpolation, modular and geometric helpers keep their contract',
  'For every input: comparison with tolerance and range coercion decide and limit exactly; the midpoint never overflows, lies between both values and is half their sum; linear interpolation hits both ends exactly and is monotone; mapping between ranges is affine; modulus and remainder follow floored and truncated division with the documented results for zero operands; wrapped angles lie in the documented interval, whole turns at its ends included; the hypotenuse neither overflows nor underflows in between and handles infinities; points are classified correctly against circles and polygons.',
  ['inputs'], 'all binary32 values or all reals up to the magnitudes stated; triangles with any third corner, fixed quadrilaterals', 'Tests print a few values; the edge cases (zero, ends of the interval, magnitude ordering, steep edges) are not among them.',
  ['src/ffmath.cpp', 'src/include/ffmath.hpp'], [('ranges and angles', 'src/ffmath.cpp: inRangeCoerce, wrapTo360, wrapTo180, mod, rem'), ('geometry', 'src/ffmath.cpp: inPolygon, inCircle, hypot')], tech='symbolic execution of LLVM IR + SMT: bit-precise for ranges, overflow and special values, exact reals for geometry and formulas', note=FN + ' Geometry and formulas are in exact real arithmetic, points on polygon edges are not specified.'),
P('C15', 'Every membership function gives its documented grade, within [0,1]',
  'For every input and ordered set of points, each membership shape (triangular, trapezoidal, bell, gaussian, double gaussian, sigmoidal families, s, z, pi, linear s and z, concave, spike, singleton, rectangle, cosine) gives the value of its formula: full grade on its core, also when an edge is vertical, zero outside its support and monotone flanks in between. Whatever a built-in or user function returns, the grade used by the system is limited to [0,1] and scaled by the height, and inputs outside their range are treated as the end of the range.',
  ['inputs', 'configurations'], 'all inputs and point sets within the bounds, every shape', 'Tests evaluate a few fixed systems and print the outputs; corners, degenerate edges and most shapes are not exercised.',
  ['src/fisCore.cpp', 'src/fis.cpp'], [('shapes', 'src/fisCore.cpp: TriMF .. CosineMF'), ('limits', 'src/fis.cpp: fuzzify, src/include/fis.hpp: mf::membership')], tech='symbolic execution of LLVM IR + SMT: exact reals for formulas, bit-precise for corners and limits', note=FN + ' Formulas are in exact real arithmetic; exponential, cosine and power are contracts.'),
P('C16', 'Fuzzy rules fire with the strength they state; malformed rules are refused',
  'For every grade of the sets, a rule fires with its premises, negated ones complemented, combined from left to right by the configured AND (min or product) and OR (max or probabilistic sum), times its weight limited to [0,1], and the strength stays within [0,1]. A rule array is accepted exactly when it consists of the announced number of complete rules over existing inputs, outputs and sets; anything else is refused without touching memory outside the arrays. Tags outside their arrays, missing storage and operators or methods that do not apply to the system are refused.',
  ['inputs', 'configurations'], 'all grades, weights, connectors and negations up to three premises; all rule arrays up to 10 elements', 'Tests use well formed rule sets with the default operators; no malformed array and no operator change is tried.',
  ['src/fis.cpp', 'src/include/fis.hpp'], [('premises', 'src/fis.cpp: inference, inferenceAntecedent, inferenceReachEnd, parseFuzzValue'), ('acceptance', 'src/fis.cpp: setup, setMF, setParameter, setDeFuzzMethod')], tech='symbolic execution of LLVM IR + SMT: bit-precise for acceptance and memory safety, exact reals for strengths', note=FN + ' Strengths are in exact real arithmetic.'),
P('C17', 'Crisp outputs follow the system type and method, within the output range',
  'For every strength of the rules: a Sugeno system returns the average or sum of its constant or linear levels weighted by the strengths; in a Tsukamoto system each rule contributes the level at which its monotonic set has the grade of the strength; a Mamdani system returns the centroid, bisector, or smallest, largest or mean of maximum of the region implied by the rules (min or product) and aggregated (max, probabilistic sum or bounded sum), negated conclusions complemented, and stores that region on request. Each output depends only on its own rules and on the last evaluation, and always lies within the range of the output.',
  ['inputs', 'configurations', 'histories'], 'all rule strengths and levels; fixed rule sets, rectangular and constant Mamdani sets', 'Tests print the outputs of three fixed systems at a few inputs; most methods, operators and shapes are not exercised.',
  ['src/fis.cpp', 'src/fisCore.cpp', 'src/include/fis.hpp'], [('conclusions', 'src/fis.cpp: inferenceConsequent, fuzzyAggregate, deFuzzify'), ('methods', 'src/fisCore.cpp: deFuzzCentroid .. deFuzzWtSum'), ('Tsukamoto levels', 'src/fisCore.cpp: TLinSMF .. TRampMF')], tech='symbolic execution of LLVM IR + SMT: exact reals for formulas, bit-precise for the output range', note=FN + ' Formulas are in exact real arithmetic; square root and logarithm are contracts.'),
P('C04', 'Fixed-point arithmetic is exact or nearest, and overflow is always marked',
  'For every pair of Q16.16 values: sum, difference, increment and decrement are exact, product and quotient are the nearest representable value (halves away from zero), and a result that does not fit gives the overflow mark, never a wrapped value. Compound operators store the same result, and no operand is changed.',
  ['inputs'], 'all 2^64 operand pairs for sum, difference and product; every dividend for selected divisors and every small pair for the quotient', 'Tests print a few operations on ordinary values; ties, negative products, top-bit operands and overflow are not among them.',
  ['src/fp16.cpp', 'src/include/fp16.hpp'], [('arithmetic', 'src/fp16.cpp: add, sub, mul, div, saturate'), ('operators', 'src/include/fp16.hpp: operator+ .. operator--')], note=FN),
P('C05', 'Fixed-point conversions, rounding, sign and order are exact or nearest',
  'For every Q16.16 value: conversion to double is exact, to float and integer nearest, and conversions back return the same value; floats and doubles of the range convert to the nearest value. Floor, ceiling and rounding return the right integer, or the overflow mark if it does not fit; negation, magnitude and all six comparisons agree with the numeric value; the named constants and literals are the nearest representable values.',
  ['inputs'], 'all 2^32 fixed-point values, all floats and doubles of the range', 'Tests print a few conversions; negative fractions, halves, extremes and the last bit are not among them.',
  ['src/fp16.cpp', 'src/include/fp16.hpp'], [('conversions', 'src/fp16.cpp: toInt, toFloat, fromFloat, fromDouble'), ('rounding', 'src/include/fp16.hpp: floor, rounding; src/fp16.cpp: ceil, absolute')], note=FN),
P('C06', 'Fixed-point square root, angles and text are correct to the last digit',
  'For every Q16.16 value: the square root is the nearest value (zero for zero, the overflow mark for negative arguments); wrapped angles are the same angle within half a turn, and angles of that interval stay; degrees and radians convert by 180/pi; the text of a number has its sign, integer part without leading zeros and exactly the requested number of decimals (limited to 0..5), is the nearest decimal with carries propagated, and the overflow mark is named. Nothing is written beyond the terminator.',
  ['inputs'], 'all values for text (0, 1, 2 decimals; all fractions for 5) and domain; arguments below one, integers, and sets of large values for the root; angles up to ten turns', 'Tests print a few roots and texts; large arguments, carries and negative values are not among them.',
  ['src/fp16.cpp'], [('root', 'src/fp16.cpp: sqrt'), ('angles', 'src/fp16.cpp: wrapToPi, wrapTo180, radToDeg, degToRad'), ('text', 'src/fp16.cpp: toASCII, itoa')], note=FN),
P('C21', 'Elementary float functions respect domain, poles, symmetry and accuracy',
  'Square and reciprocal roots and logarithms of negative numbers, the arc sine and cosine beyond 1 and the inverse hyperbolic cosine below 1 are not a number; zero gives the documented poles and values; powers and logarithms of whole powers of two are exact, and exponentials overflow to infinity or underflow to zero. Roots (cubic ones also of negative numbers), trigonometric, exponential, logarithmic, hyperbolic and inverse functions, powers and the angle of a point agree with their mathematical value within the tolerance of the approximation; hyperbolic tangent and error function saturate at both ends.',
  ['inputs'], 'all floats for domain, poles and ends; any exponent with 32 mantissas for square roots; grids of 16 to 64 arguments for the other values', 'Tests print a few values of a few functions; negative arguments, ends, quadrants and powers of two are not among them.',
  ['src/ffmath.cpp'], [('roots', 'src/ffmath.cpp: sqrt, rSqrt, compute_cbrt'), ('exponential and logarithm', 'src/ffmath.cpp: exp2, log2 and derived functions'), ('trigonometry', 'src/ffmath.cpp: sin, cos, asin, atan, atan2')], note=FN + ' Grids, not all arguments, for the accuracy of values.'),
P('C25', 'Fixed-point elementary functions keep values, symmetries and domain limits',
  'For fixed-point numbers: sine and cosine agree with their value over the turn and repeat beyond it, sine is odd, cosine is the sine a quarter of a turn ahead and tangent their quotient; arc tangents give the angle in the right quadrant, arc sine and cosine their ends, and zero outside the domain for the arc sine; exponential, hyperbolic sine and cosine saturate and have their exact value at zero, hyperbolic functions are their combination of exponentials, the hyperbolic tangent is odd and within [-1,1]; logarithms of zero and negative numbers are the overflow mark and log2 of powers of two is exact; whole powers of integers are exact or the overflow mark, powers of negative numbers have the sign of the parity and fractional ones are the overflow mark.',
  ['inputs'], 'all values for domain, ends, relations and signs; grids of 64 to 256 arguments for sine, cosine and arc tangents', 'Tests print a few values; ends of the domain, negative bases, the far quadrants and overflow of intermediate powers are not among them.',
  ['src/fp16.cpp'], [('trigonometry', 'src/fp16.cpp: sin, cos, tan, atan2, asin, acos'), ('exponential', 'src/fp16.cpp: exp, log, log2, sinh, cosh, tanh, pow, powi')], note=FN + ' Product, quotient, root, exponential and logarithm are contracts where a harness relates functions built on them.'),
]
NA = []
