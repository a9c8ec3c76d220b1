// Accuracy budgets of the fast single-precision functions of ffmath, shared by
// the harnesses. A budget is the documented-by-measurement error of the
// approximation (exhaustive sweep over every single-precision argument of the
// stated interval) plus a small allowance for a different order of the same
// floating point operations.
#pragma once
#include <pbt.hpp>
#include <qlibs.h>
#include <cmath>
#include <cfloat>
namespace ffspec {
namespace ff = qlibs::ffmath;
struct Unary {
    const char *name;
    float (*f)( float );
    double (*ref)( double );
    float lo, hi;      // interval where the budget applies (both signs where symmetric)
    bool mirror;       // also [-hi,-lo]
    double (*tol)( double x, double ref );
};
static inline double rel( double r, double k ) { return std::fabs( r )*k; }
static const double EXPK = 7.5e-8;
static inline double expTol( double x ) { return 2.0e-7 + EXPK*std::fabs( x ); }         // relative error of exp
static inline double trigTol( double x ) { return 2.0e-7*std::fabs( x ); }               // argument reduction
static inline double sinTol( double x, double r ) { return std::min( 9.6e-4, 0.0125*std::fabs( r ) + 1e-7 ) + trigTol( x ); }
static inline double cosTol( double x, double r ) { return std::min( 9.6e-4, 0.0125*std::fabs( r ) + 4e-7 ) + trigTol( x ); }
static const float NMAX = FLT_MAX, NMIN = FLT_MIN;
static const Unary unary[] = {
    { "recip", ff::recip, []( double x ) { return 1.0/x; }, 1.2e-38f, 8e37f, true, []( double, double r ) { return rel( r, 2.65e-3 ); } },
    { "sqrt", ff::sqrt, []( double x ) { return std::sqrt( x ); }, NMIN, NMAX, false, []( double, double r ) { return rel( r, 1.65e-6 ); } },
    { "rSqrt", ff::rSqrt, []( double x ) { return 1.0/std::sqrt( x ); }, NMIN, NMAX, false, []( double, double r ) { return rel( r, 1.8e-3 ); } },
    { "cbrt", ff::cbrt, []( double x ) { return std::cbrt( x ); }, NMIN, NMAX, true, []( double, double r ) { return rel( r, 2.8e-5 ); } },
    { "rCbrt", ff::rCbrt, []( double x ) { return 1.0/std::cbrt( x ); }, NMIN, NMAX, true, []( double, double r ) { return rel( r, 3.5e-7 ); } },
    { "sin", ff::sin, []( double x ) { return std::sin( x ); }, 0.0f, 1e5f, true, sinTol },
    { "cos", ff::cos, []( double x ) { return std::cos( x ); }, 0.0f, 1e5f, true, cosTol },
    { "asin", ff::asin, []( double x ) { return std::asin( x ); }, 0.0f, 1.0f, true, []( double, double r ) { return std::min( 0.0124, 0.08*std::fabs( r ) + 2e-7 ); } },
    { "acos", ff::acos, []( double x ) { return std::acos( x ); }, 0.0f, 1.0f, true, []( double, double ) { return 0.0124; } },
    { "atan", ff::atan, []( double x ) { return std::atan( x ); }, 0.0f, NMAX, true, []( double, double r ) { return std::min( 0.0062, 0.16*std::fabs( r ) + 3e-45 ); } },
    { "exp2", ff::exp2, []( double x ) { return std::exp2( x ); }, -125.99f, 127.9999f, false, []( double, double r ) { return rel( r, 3e-7 ); } },
    { "exp", ff::exp, []( double x ) { return std::exp( x ); }, -87.3f, 88.72f, false, []( double x, double r ) { return rel( r, expTol( x ) ); } },
    { "exp10", ff::exp10, []( double x ) { return std::pow( 10.0, x ); }, -37.9f, 38.53f, false, []( double x, double r ) { return rel( r, 2e-7 + 1.95e-7*std::fabs( x ) ); } },
    { "expm1", ff::expm1, []( double x ) { return std::expm1( x ); }, -200.0f, 88.72f, false, []( double x, double ) { return 1.3e-7 + std::exp( x )*expTol( x ); } },
    { "log2", ff::log2, []( double x ) { return std::log2( x ); }, NMIN, NMAX, false, []( double, double r ) { return rel( r, 4e-7 ); } },
    { "log", ff::log, []( double x ) { return std::log( x ); }, NMIN, NMAX, false, []( double, double r ) { return rel( r, 4e-7 ); } },
    { "log10", ff::log10, []( double x ) { return std::log10( x ); }, NMIN, NMAX, false, []( double, double r ) { return rel( r, 4e-7 ); } },
    { "log1p", ff::log1p, []( double x ) { return std::log1p( x ); }, -0.99999f, NMAX, false, []( double, double r ) { return 7e-8 + rel( r, 4e-7 ); } },
    { "sinh", ff::sinh, []( double x ) { return std::sinh( x ); }, 0.0f, 88.7f, true, []( double x, double ) { return 1.3e-7 + std::cosh( x )*expTol( x ); } },
    { "cosh", ff::cosh, []( double x ) { return std::cosh( x ); }, 0.0f, 88.7f, true, []( double x, double r ) { return r*( 1.3e-7 + expTol( x ) ); } },
    { "tanh", ff::tanh, []( double x ) { return std::tanh( x ); }, 0.0f, NMAX, true, []( double, double ) { return 2.5e-7; } },
    { "asinh", ff::asinh, []( double x ) { return std::asinh( x ); }, 0.0f, NMAX, true, []( double, double r ) { return 3e-7 + 1.1e-6*std::min( 1.0, std::fabs( r ) ) + rel( r, 5e-7 ); } },
    { "acosh", ff::acosh, []( double x ) { return std::acosh( x ); }, 1.0f, NMAX, false, []( double, double r ) { return 4e-7 + 8e-8/std::max( r, 3e-4 ) + rel( r, 5e-7 ); } },
    { "atanh", ff::atanh, []( double x ) { return std::atanh( x ); }, 0.0f, 0.9999999f, true, []( double, double r ) { return 1.5e-7 + rel( r, 5e-7 ); } },
    { "erf", ff::erf, []( double x ) { return std::erf( x ); }, 0.0f, NMAX, true, []( double, double ) { return 0.0196; } },
    { "erfc", ff::erfc, []( double x ) { return std::erfc( x ); }, 0.0f, NMAX, true, []( double, double ) { return 0.0196; } },
};
static const size_t UNARY = sizeof( unary )/sizeof( unary[ 0 ] );
}
