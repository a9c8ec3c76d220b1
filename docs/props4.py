from props1 import prop

prop("P28", "Gamma, beta, elliptic, exponential-integral and zeta functions are right",
 "For every argument in the documented domain, the gamma function and its logarithm (both signs, up to the overflow of the result), the factorial of the integer part, the beta function of positive arguments, the complete and incomplete elliptic integrals of the three kinds (|k| < 1, characteristic below one, any amplitude), the exponential integral of any non-zero real and the Riemann zeta function (except at its pole and the float next to it) agree with the exact function within the precision of the elementary functions they are built on: around 1e-6 to 1e-5 relative, and about one percent where the fast sine enters (negative arguments, incomplete elliptic integrals about two thousandths). Poles, overflow, moduli above one, negative factorials and nan give the documented infinity or nan, the beta function is symmetric and the complete integrals are even in the modulus.",
 ["inputs"], "all single-precision arguments within the documented domains, their ends and poles, infinities and nan",
 "Each function switches between several series, fractions and reflections; a wrong coefficient, sign or threshold affects one interval of one of them.",
 ["src/ffmath.cpp", "src/include/ffmath.hpp"],
 [("ffmath::tgamma, lgamma, factorial, beta", "src/ffmath.cpp"), ("ffmath::comp_ellint_1/2/3, ellint_1/2/3 (Carlson forms)", "src/ffmath.cpp"), ("ffmath::expint", "src/ffmath.cpp"), ("ffmath::riemann_zeta", "src/ffmath.cpp")],
 state="none (pure functions)", observe="returned value",
 tech="differential testing against double-precision references with error budgets per region, poles, symmetry and domain checks")

prop("P29", "Bessel functions of every kind agree with the exact functions",
 "For every order from 0 up and every non-negative argument whose exact value is representable, the cylindrical Bessel functions of the first and second kind, the modified ones of both kinds and the spherical ones agree with the exact function within a bound that depends on function and region: about 1e-6 to 1e-5 of the value (or of the oscillation amplitude, growing with the argument), a few thousandths for the spherical ones and beyond 1000, and at worst several percent for the second kinds of non-integer order below 2. A function of the second kind whose value leaves the range is an infinity of the right sign. At zero they take their limit values (1 for order zero of the first kinds and 0 otherwise, minus infinity for the second kinds, infinity for the modified second kind); negative orders or arguments and nan give nan.",
 ["inputs"], "orders 0 to 150 (integers, close to integers and any other) and arguments from 1e-20 up to 20000 (oscillating) or 85 (modified), plus zero, negative values and nan",
 "Five algorithms (power series, Temme series, two continued fractions with recurrences, asymptotic expansion) are chosen by order and argument; a defect in one shows only in its region.",
 ["src/ffmath.cpp", "src/include/ffmath.hpp"],
 [("ffmath::cyl_bessel_j, cyl_neumann, cyl_bessel_i, cyl_bessel_k", "src/ffmath.cpp"), ("ffmath::sph_bessel, sph_neumann", "src/ffmath.cpp"), ("bessel_jn, bessel_ik, cyl_bessel_ij_series, cyl_bessel_jn_asymp, gamma_temme", "src/ffmath.cpp")],
 state="none (pure functions)", observe="returned value",
 tech="differential testing against double-precision references with error budgets per region, limit values and domain checks")

prop("P30", "Orthogonal polynomials and spherical Legendre functions are right",
 "For every degree (up to 2500) and order, the Legendre, associated Legendre (without phase), physicists' Hermite, Laguerre and associated Laguerre polynomials agree with their defining recurrences within accumulated rounding, and the spherical associated Legendre functions (with phase, normalized) within the precision of the fast cosine. Orders above the degree give zero, Legendre and Hermite polynomials have the parity of their degree, Legendre polynomials are exactly one (or its alternating sign) at the ends, the associated functions of order zero coincide with the plain ones, and a nan argument, a Legendre argument beyond one or a negative Laguerre argument gives nan.",
 ["inputs"], "degrees 0 to 2500 (associated 300, spherical 90), orders 0 to 20, all arguments of the domain whose result is representable",
 "Each combination of degree and order is a different recurrence; the special cases (low degree, order equal or above the degree, end points) are separate branches.",
 ["src/ffmath.cpp", "src/include/ffmath.hpp"],
 [("ffmath::legendre, assoc_legendre, sph_legendre", "src/ffmath.cpp"), ("ffmath::hermite, laguerre, assoc_laguerre", "src/ffmath.cpp")],
 state="none (pure functions)", observe="returned value",
 tech="differential testing against extended-precision recurrences, parity and end-point relations, domain checks")

prop("P31", "Fixed-size matrices implement matrix algebra for every shape",
 "For matrices of any fixed shape, square or not, every operator (elementwise sum and difference, scalar sum, difference, product and division in either operand order, also when an operand is the matrix itself or the scalar one of its elements, compound assignments, pre- and post-increment and decrement, negation, transposition, matrix product plain and in place) yields the algebraic result, leaves its operands unchanged unless it is an assignment, and reads and writes only the matrix's own elements; all accessors (two indices, flat index, double subscript) address the same row-major element; default, zero, constant, identity and element-list construction give those elements; copies are independent; the infinity norm is the largest absolute row sum; the printed form shows the elements row by row; and the inverse of any well-conditioned matrix, including those with zeros on the diagonal, is its inverse within rounding, the matrix itself unchanged.",
 ["inputs", "histories"], "shapes from 1x1 to 18x18, any entries without overflow, sequences of up to 25 operations",
 "Index mistakes show only for non-square shapes or particular elements, and elimination fails only for particular pivot patterns.",
 ["src/include/mat.hpp"],
 [("mat operators", "src/include/mat.hpp"), ("mat::inv, mat::normInf, operator!", "src/include/mat.hpp"), ("mat constructors and accessors", "src/include/mat.hpp")],
 state="matrix elements", observe="matrix elements through every accessor, returned values",
 tech="stateful model-based testing of operation sequences over many shapes under AddressSanitizer, differential inverse")
