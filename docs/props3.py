from props1 import prop

prop("P25", "Elementary single-precision functions stay within their error bounds",
 "Over their whole domain, the fast single-precision functions (reciprocal, square and cubic roots and their reciprocals, sine, cosine, tangent and inverses, two-argument arc tangent, exponentials, logarithms, power of a positive base, hyperbolic functions and inverses, error functions, hypotenuse) agree with the exact function within a fixed error per function: from about one millionth relative (roots, exponentials, logarithms) to a few thousandths (reciprocals, sine, arc tangent) and two hundredths (arc sine, error function). Arguments outside the domain give nan, poles give the signed infinity, overflow gives infinity only when the exact result overflows, results keep the sign and range of the exact function, a nan argument gives nan, and the published constants are correctly rounded.",
 ["inputs"], "all normal single-precision arguments of every function (angles up to 1e5 radians), plus zeros, infinities and nan",
 "Each function is a bit trick plus a short polynomial over two billion arguments per sign; errors hide in particular octaves, signs and range ends.",
 ["src/ffmath.cpp", "src/include/ffmath.hpp"],
 [("ffmath::sqrt, cbrt, rSqrt, rCbrt, recip", "src/ffmath.cpp"), ("ffmath::sin, cos, tan, asin, acos, atan, atan2", "src/ffmath.cpp"), ("ffmath::exp2, log2 and everything derived from them", "src/ffmath.cpp"), ("ffmath::hypot, erf, erfc, pow", "src/ffmath.cpp")],
 state="none (pure functions)", observe="returned value",
 tech="differential testing against double-precision references with per-function error budgets, octave sweeps, domain and pole checks")

prop("P26", "Rounding, remainder, wrapping and bit-level float operations are exact",
 "Classification, sign, copy-sign, absolute value, floor, ceiling, truncation, rounding half away from zero, fractional part, next representable value, splitting into fraction and exponent and scaling by a power of two (including subnormals, zeros, overflow to infinity and rounded underflow) return exactly the value of their mathematical definition for every bit pattern. The remainder has the sign of the dividend and is nan for a zero divisor, the modulo has the sign of the divisor, is smaller than it and returns the dividend for a zero divisor, and both are congruent to the dividend. Wrapped angles are congruent to the argument and lie in the documented closed interval, multiples mapping to the documented end. Tolerant equality is symmetric and inclusive, and minimum and maximum select from all their arguments.",
 ["inputs"], "all single-precision bit patterns, all exponents, quotients up to several thousand",
 "The operations work on raw bit fields with separate paths per exponent; off-by-one masks only show for particular exponents, signs or ties.",
 ["src/ffmath.cpp", "src/include/ffmath.hpp"],
 [("ffmath::classify, copysign, sign, absf", "src/ffmath.cpp"), ("ffmath::rounding, floor, ceil, trunc, frac", "src/ffmath.cpp"), ("ffmath::rem, mod, wrapToPi, wrapTo2Pi, wrapTo180, wrapTo360", "src/ffmath.cpp"), ("ffmath::rexp, ldexp, nextAfter, isEqual, Min, Max", "src/ffmath.cpp")],
 state="none (pure functions)", observe="returned value",
 tech="bit-exact differential testing against the C library, congruence and sign invariants, round trips")

prop("P27", "Interpolation, range scaling, coercion and geometry tests are correct",
 "For all finite operands the midpoint is half the sum without overflow, within the interval and independent of order; linear interpolation returns exactly its ends at 0 and 1, is finite and stays within the interval in between, is constant for equal ends and monotonic in its parameter. Normalizing and mapping a value are the affine maps that send the input limits to 0 and 1 and to the output limits, for ascending and descending ranges. Range coercion reports whether the value was within the inclusive limits and leaves it there, not-a-number going to the lower limit. The polygon test is right for every simple polygon (convex or concave, either orientation, any starting vertex) and every point off its boundary, and the circle test includes the circle itself.",
 ["inputs"], "all finite operands; all simple polygons of up to a dozen vertices and points off the boundary; all circles",
 "Overflow, cancellation and crossing rules fail only for particular magnitudes, parameters or edge slopes.",
 ["src/ffmath.cpp", "src/include/ffmath.hpp"],
 [("ffmath::midpoint, lerp", "src/ffmath.cpp"), ("ffmath::normalize, map, inRangeCoerce", "src/ffmath.cpp"), ("ffmath::inPolygon, inCircle", "src/ffmath.cpp")],
 state="none (pure functions)", observe="returned value and coerced variable",
 tech="metamorphic and invariant testing (order, monotonicity, end points) and differential testing against an exact crossing test")
