# One entry per property: id -> dict. Rendered by docs/gen.py into properties.jsonl and MANIFEST.json.
from collections import OrderedDict
P = OrderedDict()
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, tech="", note=""):
    P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                 state=state, observe=observe, tech=tech, note=note)

prop("P01", "Bit-field behaves as an array of independent bits",
 "After any sequence of single-bit, multi-bit (1 to 32 bits), float, fill, clear and dump operations at in-range offsets, every read returns exactly the bits last written there, in least-significant-first order, and no operation changes a bit outside the ones it addresses or memory outside the caller's area. Writing or reading zero bits, or addressing an area that was never set up, changes nothing and reports zero or failure. The reported size and the dumped copy reflect exactly the area that was set up.",
 ["inputs", "histories"], "all area sizes, in-range offsets, widths 0..32, values and operation histories",
 "A word access may straddle a storage word at any of 31 alignments, and interference with neighbouring bits only appears for particular offset/width/history combinations; the existing test samples a handful.",
 ["src/bitfield.cpp", "src/include/bitfield.hpp"],
 [("bitfield::readUINTn / writeUINTn straddling masks", "src/bitfield.cpp"), ("setBit/clearBit/toggleBit slot and mask", "src/bitfield.cpp")],
 state="caller-owned array of 32-bit words", observe="return values of read operations and dump output",
 tech="stateful model-based testing against a bool-array model, ASan on exactly sized areas")

prop("P02", "CRC equals its defining polynomial division",
 "For every message, width (8, 16, 32 bits), polynomial, initial value, input/output reflection and final xor, the computed CRC equals the one defined by bit-serial polynomial division, and every named CRC preset yields its published check value and parameters. The message is only read within the given length, and a null pointer or zero length gives zero. Any single-bit error and any burst error no longer than the width changes the CRC.",
 ["inputs", "configurations"], "all messages, all parameter sets, all named presets",
 "CRC parameter sets multiply (width x polynomial x reflection x xor x message) and a wrong byte step often agrees on the one message a test uses.",
 ["src/crc.cpp", "src/include/crc.hpp"],
 [("crc::generic", "src/crc.cpp"), ("named CRC presets", "src/include/crc.hpp")],
 observe="returned CRC value", tech="differential testing against a bit-serial reference and catalogue check values, metamorphic error-detection")

prop("P03", "Delay line returns exactly the last n samples in order",
 "After any history of set-up, insertions and flushes, a delay line of n taps reports the k-th most recent sample at index k for every 0 <= k < n, the most recent and the oldest sample through their dedicated accessors, and the initial value for positions not yet overwritten. The subscript -1 gives the oldest sample and any other out-of-range subscript gives not-a-number. The line never reads or writes outside the n cells it was given.",
 ["inputs", "histories"], "all window sizes including one, all insertion/flush histories, all indices",
 "Circular-buffer mistakes only show at particular head positions after wrap-around, and for particular window lengths.",
 ["src/tdl.cpp", "src/include/tdl.hpp"],
 [("tdl::insertNewest / removeOldest head and tail wrap", "src/tdl.cpp"), ("tdl::getAtIndex backward walk", "src/tdl.cpp")],
 state="head, write and read positions in the caller's window", observe="values returned by the accessors",
 tech="stateful model-based testing against a bounded deque, ASan on exactly sized windows")

prop("P04", "Sorting yields an ordered permutation of the chosen range",
 "Sorting any array, or any inclusive index sub-range of it, leaves that range ordered (by the natural order or by the caller's comparison) and holding the same multiset of elements, and leaves every element outside the range untouched. This holds for every element type, length, duplicate pattern and initial order.",
 ["inputs"], "all arrays, element types, sub-ranges and strict weak orderings",
 "Partition and stack handling fail only for particular duplicate patterns, lengths or sub-ranges.",
 ["src/include/algorithm.hpp"],
 [("algorithm::sort (iterative quicksort)", "src/include/algorithm.hpp")],
 observe="array contents after the call", tech="property-based testing against sortedness/permutation invariants and std::sort")

prop("P05", "Array transformations touch exactly the chosen range correctly",
 "Over any inclusive index range of any array: reverse mirrors it, rotate by k moves every element k places to the right cyclically (to the left for negative k, any magnitude), fill sets every element, replace substitutes every element equal to (or satisfying the predicate for) the old value, swap exchanges, and for-each visits each element once in order. Elements outside the range are never changed and memory outside the array is never accessed.",
 ["inputs"], "all arrays, ranges, shift amounts of both signs, values and predicates",
 "Off-by-one ranges, shifts that are multiples of the length or larger than it, and repeated matches are edge combinations a sample test does not reach.",
 ["src/include/algorithm.hpp"],
 [("algorithm::reverse, rotate, fill, replace, replace_if, for_each, swap", "src/include/algorithm.hpp")],
 observe="array contents after the call", tech="property-based testing against index-formula models")

prop("P06", "Searches and predicates agree with a linear scan",
 "Over any inclusive index range of any array, find and find-if return the first matching element of the range or null if there is none, any-of/all-of/count-if equal what a left-to-right scan of the range gives, and binary search over a sorted range returns an element equal to the key if and only if one exists. None of these operations modify the array or read outside it.",
 ["inputs"], "all arrays, ranges, keys and predicates",
 "First-versus-last match, matches at range ends and keys outside the range are easily missed by sampled tests.",
 ["src/include/algorithm.hpp"],
 [("algorithm::find, find_if, any_of, all_of, count_if, binary_search", "src/include/algorithm.hpp")],
 observe="returned pointer, bool or count", tech="differential testing against a linear scan")

prop("P07", "Fixed-point arithmetic is exact or reports overflow",
 "For every pair of Q16.16 operands, addition, subtraction and negation are exact, multiplication and division give the exact result rounded to the nearest representable value (halves away from zero), and a result that does not fit the range is flagged as overflow, which an in-range result never is. Compound assignments, increments and decrements agree with the plain operators, and division by zero gives the most negative value.",
 ["inputs", "histories"], "all operand pairs over the whole Q16.16 range and chains of operations",
 "2^64 operand pairs; errors concentrate at carries, the sign bit and the range limits.",
 ["src/fp16.cpp", "src/include/fp16.hpp"],
 [("fp16::add/sub/mul/div", "src/fp16.cpp"), ("operator overloads", "src/include/fp16.hpp")],
 observe="raw Q16.16 value of the result", tech="differential testing against 128-bit integer arithmetic")

prop("P08", "Fixed-point conversions, text, rounding and ordering are faithful",
 "For every Q16.16 value: conversion to int rounds to nearest, conversion to float and double is exact to their precision, and converting an in-range int, float or double to fixed point gives the nearest representable value (and int/double round trips return the original). Floor, ceil, rounding and absolute value equal the mathematical ones, comparisons agree with numeric order, and the decimal text for every number of decimals denotes the value to within one unit of the last printed digit. The text never overruns its buffer.",
 ["inputs"], "all Q16.16 values, in-range ints, floats and doubles, all decimal counts",
 "2^32 values times the conversions; failures sit at ties, the range limits, 24-bit float edges and carry into new digits.",
 ["src/fp16.cpp", "src/include/fp16.hpp"],
 [("fp16::from / toInt / toFloat / toDouble", "src/include/fp16.hpp"), ("fp16::toASCII, floor, ceil, rounding, absolute", "src/fp16.cpp")],
 observe="converted values and text", tech="round-trip and differential testing against double arithmetic")

prop("P09", "Fixed-point math functions track the real functions",
 "For every Q16.16 argument in a function's domain, square root, exponential, logarithms, powers, trigonometric, hyperbolic and inverse trigonometric functions and angle wrapping and conversion stay close to the real function over the whole range (square root to the last place, the polynomial approximations to about two to three digits). Arguments outside the domain (roots and logarithms of negatives) yield the overflow value and exponentials or powers too large to represent saturate or yield the overflow value.",
 ["inputs"], "all Q16.16 arguments, both operands for two-argument functions",
 "Intermediate overflow and range-reduction faults appear only in narrow argument bands of a 2^32 domain.",
 ["src/fp16.cpp"],
 [("fp16::sqrt, exp, log, log2, sin, cos, tan, atan, atan2, asin, acos, sinh, cosh, tanh, pow", "src/fp16.cpp")],
 observe="raw Q16.16 value of the result", tech="differential testing against double-precision references with calibrated bounds")

prop("P10", "Each smoothing filter computes its defining recurrence",
 "For every valid parameterisation and every input history, including resets, re-configurations and interleaving with other filters, each of the eleven smoothing filters outputs the value of its defining recurrence (first/second-order low-pass, the two moving-window means, the two outlier-removal windows, Gaussian window, exponential weighting, Kalman, double exponential, adaptive linear/LMS), to single-precision accuracy. Filters share no state, and window memory is accessed only within the caller's arrays.",
 ["inputs", "histories", "configurations"], "all valid parameters, window lengths and sample histories",
 "Filter state errors show only after windows wrap, after a reset in mid-run, or when an outlier arrives at a certain place in the window.",
 ["src/smoother.cpp", "src/include/smoother.hpp"],
 [("smoother*::smooth of the 11 filters", "src/smoother.cpp"), ("smoother*::setup / reset", "src/smoother.cpp")],
 state="per-filter state and caller-provided windows", observe="value returned by each smooth step",
 tech="stateful model-based testing against double-precision recurrences")

prop("P11", "Smoothing filters accept exactly valid configurations and behave",
 "A set-up with a parameter outside its documented range (including NaN, null windows or zero sizes) is refused and leaves an already working filter undisturbed, and every valid one is accepted. After set-up or reset the first output equals what the filter defines for a first sample, a constant input is reproduced in steady state, averaging filters never leave the range of the samples in their window, and negating the input negates the output.",
 ["inputs", "configurations", "histories"], "all parameter values including special floats, all filter kinds, all bounded inputs",
 "Validity limits are open/closed interval ends over special floats, and refusal must also preserve hidden state.",
 ["src/smoother.cpp", "src/include/smoother.hpp"],
 [("parameter validation in smoother*::setup", "src/smoother.cpp")],
 observe="set-up return value and subsequent outputs", tech="property-based configuration fuzzing with metamorphic relations")

prop("P12", "RMS estimator computes the recursive windowed RMS",
 "For any window, accepted parameters and input history, the RMS estimator's output equals the three-stage estimate it defines (square root of the exponentially weighted mean of squares, then the mean over the window, then a first-order low-pass), is never negative, is unaffected by the sign of the samples and settles to the magnitude of a constant. Parameters outside (0,1] are refused and leave the previous ones in force.",
 ["inputs", "histories", "configurations"], "all windows, parameters and sample histories",
 "Errors only emerge after the window wraps or when parameters change in mid-run.",
 ["src/rms.cpp", "src/include/rms.hpp"],
 [("rms::update and setParams", "src/rms.cpp")],
 observe="value returned by update", tech="stateful model-based testing against a double-precision model")

prop("P13", "Numerical integration and differentiation follow the chosen rule",
 "For any initial values and input history, each integration step adds exactly the area given by the currently selected rule (rectangular, trapezoidal, Simpson, quadratic) and each differentiation gives the selected finite difference (2-point, backward, forward) over the samples kept so far, whether or not the call also advances the history, and also when rules are switched in mid-run. Integrals are exact for polynomials of the rule's order and derivatives likewise.",
 ["inputs", "histories"], "all sample histories, step sizes, rule switches and re-initialisations",
 "The order of history updates relative to the computation matters only for particular call interleavings.",
 ["src/numa.cpp", "src/include/numa.hpp"],
 [("nState::integrate / derive", "src/numa.cpp")],
 state="two past samples and the accumulated integral", observe="returned integral or derivative",
 tech="stateful model-based testing and polynomial-exactness metamorphic tests")

prop("P14", "Discrete transfer functions realise their difference equation",
 "For every numerator and denominator (any lengths, any non-zero leading coefficient) and every input history, the discrete system's output satisfies its difference equation from its initial states, the FIR form equals the convolution with its taps, the response is linear and time-invariant, and the steady state of a stable system is the DC gain times the input. Coefficients and states are accessed only within the arrays given, and invalid configurations are refused without disturbing a working system.",
 ["inputs", "histories", "configurations"], "all coefficient sets, orders, initial states and input histories",
 "Mistakes appear only for particular numerator/denominator length combinations, unnormalised leading coefficients or state re-initialisation.",
 ["src/ltisys.cpp", "src/include/ltisys.hpp"],
 [("discreteSystem::setup / update / setInitStates", "src/ltisys.cpp"), ("discreteSystem::updateFIR", "src/ltisys.cpp")],
 state="direct-form states in the caller's array", observe="values returned by excite",
 tech="stateful model-based and metamorphic testing (linearity, DC gain, FIR differential)")

prop("P15", "Continuous transfer functions track their differential equation",
 "For every proper transfer function and every input history, the continuous system's output equals the numerical solution of its differential equation by the selected integration rule from its initial states, and converges to the true response (step response, DC gain) as the time step shrinks; this holds for the controllable canonical form of the default build and, when LTISYS_EVAL_MODEL_OBSERVABLE is defined, for the observable one. Coefficients and states are accessed only within the arrays given, and invalid configurations are refused without disturbing a working system.",
 ["inputs", "histories", "configurations"], "all coefficient sets, orders 1 and up, rules, time steps, initial states and input histories",
 "Each order/rule/feedthrough combination exercises different state arithmetic, visible only over a history.",
 ["src/ltisys.cpp", "src/include/ltisys.hpp"],
 [("continuousSystem::setup / update / setInitStates", "src/ltisys.cpp")],
 state="integrator states in the caller's array", observe="values returned by excite",
 tech="stateful model-based testing plus comparison with exact ODE responses")

prop("P16", "System input delay and output limits compose exactly",
 "A system with an input delay window responds exactly as the undelayed system fed with the oldest input kept in that window (the window's initial value before it fills), and a system with output limits responds exactly as the unlimited one with its output clamped to the limits, for any history and any change of these settings; without limits no output is ever clipped. Limits that are not ordered are refused, a system that was never set up reports so, a pure delay block reproduces its input exactly that many samples later, and the number of samples computed from a delay time and step is that time over the step, rounded.",
 ["inputs", "histories", "configurations"], "all delays, limits, input histories and mid-run changes of them",
 "Delay windows wrap and limits interact with the internal state only over long histories.",
 ["src/ltisys.cpp", "src/include/ltisys.hpp"],
 [("ltisys::excite, setDelay, setSaturation", "src/ltisys.cpp"), ("delayFromTime", "src/include/ltisys.hpp")],
 state="delay line and saturation limits", observe="values returned by excite",
 tech="differential testing of a delayed/limited system against an identical plain one")
