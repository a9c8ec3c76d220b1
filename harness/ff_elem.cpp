// P25: fast single-precision elementary functions
#include "ff_spec.hpp"
namespace pbt {
const char *const PROPERTY = "P25";
const char *const RULE = "arguments over the whole single-precision range (log-uniform in both signs, integers, ulp neighbours of range ends, multiples of pi/4, values around 1, special values) for roots, reciprocals, trigonometric, exponential, logarithmic, hyperbolic, error, power and hypotenuse functions, compared with double-precision references within a per-function error budget, plus domain errors, poles, saturation, symmetry and monotonicity over steps; non-trivial = finite non-zero argument inside the function's domain";
}
using namespace ffspec;
using pbt::Ctx;
static float nudge( Ctx &t, float x )
{
    const int64_t n = t.range( 0, 6 ) - 3;
    for ( int64_t i = 0 ; i < std::llabs( n ) ; ++i ) { x = std::nextafterf( x, n > 0 ? INFINITY : -INFINITY ); }
    return x;
}
static float drawIn( Ctx &t, float lo, float hi )
{
    float x;
    switch ( t.bits( 7 ) ) {
        case 0: x = nudge( t, t.coin() ? lo : hi ); break;
        case 1: x = nudge( t, static_cast<float>( t.range( 0, 400 ) - 200 )*0.25f ); break;
        case 2: x = nudge( t, static_cast<float>( static_cast<double>( t.range( 0, 80 ) - 40 )*M_PI/4.0 ) ); break;
        case 3: x = t.f32( -4.0f, 4.0f ); break;
        case 4: x = t.f32( -100.0f, 100.0f ); break;
        case 5: x = t.f32any(); break;
        default: {
            const float b = std::min( FLT_MAX, std::max( std::fabs( lo ), std::fabs( hi ) ) );
            const float a = ( lo > 0.0f ) ? std::max( FLT_MIN, lo ) : 1e-9f;
            x = t.f32log( std::min( a, b ), b );
            if ( lo < 0.0f ) { x = t.coin() ? -x : x; }
            break;
        }
    }
    if ( !( x >= lo ) ) { x = lo; }
    if ( x > hi ) { x = hi; }
    return x;
}
static void one( Ctx &t, const Unary &u, float x )
{
    const float g = u.f( x );
    const double r = u.ref( static_cast<double>( x ) );
    t.note( "%s(%.9g) -> %.9g, reference %.9g", u.name, static_cast<double>( x ), static_cast<double>( g ), r );
    t.near( u.name, static_cast<double>( g ), r, u.tol( static_cast<double>( x ), r ), "%s(%.9g) = %.9g, expected %.9g within %.3g", u.name, static_cast<double>( x ), static_cast<double>( g ), r, u.tol( static_cast<double>( x ), r ) );
}
static void accuracy( Ctx &t )
{
    const Unary &u = unary[ t.idx( UNARY ) ];
    const size_t n = t.size( 1, 24 );
    t.label( u.name );
    for ( size_t i = 0 ; i < n ; ++i ) {
        float x = drawIn( t, u.lo, u.hi );
        if ( u.mirror && t.coin() ) { x = -x; }
        one( t, u, x );
        if ( x != 0.0f ) { t.nontrivial(); }
    }
}
// each function swept over one whole octave, so that no interval of its
// piecewise approximation stays unvisited
static void sweep( Ctx &t )
{
    const Unary &u = unary[ t.idx( UNARY ) ];
    const int e = static_cast<int>( t.range( 1, 254 ) );
    const bool neg = t.coin();
    uint32_t m = static_cast<uint32_t>( t.bits( 0xFFFFu ) );
    t.label( u.name );
    for ( ; m < 0x800000u ; m += 0x8000u ) {
        const uint32_t b = ( static_cast<uint32_t>( e ) << 23 ) | m | ( neg ? 0x80000000u : 0u );
        float x;
        memcpy( &x, &b, 4 );
        if ( ( x >= u.lo && x <= u.hi ) || ( u.mirror && x >= -u.hi && x <= -u.lo ) ) { one( t, u, x ); t.nontrivial(); }
    }
}
static void tangent( Ctx &t )
{
    float x = drawIn( t, 0.0f, 1000.0f );
    if ( t.coin() ) { x = -x; }
    const double X = x, c = std::cos( X ), s = std::sin( X ), ref = s/c;
    const float g = ff::tan( x );
    t.note( "tan(%.9g) -> %.9g", X, static_cast<double>( g ) );
    const double ec = cosTol( X, c ), es = sinTol( X, s );
    if ( std::fabs( c ) < 1.5*ec ) { return; }
    t.near( "tan", static_cast<double>( g ), ref, ( es + std::fabs( ref )*ec )/( std::fabs( c ) - ec ) + 3e-7*std::fabs( ref ), "tan(%.9g) = %.9g, expected %.9g", X, static_cast<double>( g ), ref );
    if ( x != 0.0f ) { t.nontrivial(); }
}
static void atan2Fn( Ctx &t )
{
    const float y = t.chance( 1, 16 ) ? 0.0f : t.f32any();
    float x = t.chance( 1, 8 ) ? 0.0f : ( t.chance( 1, 8 ) ? ( t.coin() ? y : -y ) : t.f32any() );
    if ( t.chance( 1, 3 ) && y != 0.0f && std::isnormal( y ) ) { x = static_cast<float>( static_cast<double>( y )*static_cast<double>( t.f32( -8.0f, 8.0f ) ) ); }
    const float g = ff::atan2( y, x );
    t.note( "atan2(%.9g, %.9g) -> %.9g", static_cast<double>( y ), static_cast<double>( x ), static_cast<double>( g ) );
    if ( x == 0.0f && y == 0.0f ) {
        t.check( std::fabs( static_cast<double>( g ) ) <= M_PI + 1e-6, "atan2(0, 0) = %.9g leaves [-pi, pi]", static_cast<double>( g ) );
        return;
    }
    if ( std::fabs( x ) <= FLT_MIN && x != 0.0f && std::fabs( y ) < 1e-30f ) { return; } // a subnormal abscissa counts as zero
    if ( !std::isnormal( y ) && y != 0.0f ) { return; }
    const double ref = std::atan2( static_cast<double>( y ), static_cast<double>( x ) );
    double e = std::fabs( static_cast<double>( g ) - ref );
    if ( y == 0.0f && std::signbit( y ) && x < 0.0f ) { e = std::min( e, std::fabs( static_cast<double>( g ) + ref ) ); }
    t.near( "atan2", e, 0.0, 0.0063, "atan2(%.9g, %.9g) = %.9g, expected %.9g", static_cast<double>( y ), static_cast<double>( x ), static_cast<double>( g ), ref );
    if ( x != 0.0f && y != 0.0f ) { t.nontrivial(); }
}
static void power( Ctx &t )
{
    const float b = t.chance( 1, 10 ) ? 1.0f : ( t.coin() ? t.f32log( 1e-3f, 1e3f ) : t.f32log( FLT_MIN, FLT_MAX ) );
    const float e = t.coin() ? t.f32( -10.0f, 10.0f ) : ( t.coin() ? static_cast<float>( t.range( 0, 40 ) - 20 )*0.5f : t.f32( -200.0f, 200.0f ) );
    const float g = ff::pow( b, e );
    const double l = static_cast<double>( e )*std::log2( static_cast<double>( b ) );
    t.note( "pow(%.9g, %.9g) -> %.9g", static_cast<double>( b ), static_cast<double>( e ), static_cast<double>( g ) );
    const double w = 2e-7*std::fabs( l );
    if ( l > 128.0 + w + 1e-5 ) { t.check( std::isinf( g ) && g > 0, "pow(%.9g, %.9g) = %.9g instead of inf", static_cast<double>( b ), static_cast<double>( e ), static_cast<double>( g ) ); return; }
    if ( l > 128.0 - w - 1e-5 ) { return; }
    if ( l < -126.0 + w + 1e-5 ) { t.check( g >= 0.0f && g < 1.3e-38f, "pow(%.9g, %.9g) = %.9g, expected an underflow", static_cast<double>( b ), static_cast<double>( e ), static_cast<double>( g ) ); return; }
    const double ref = std::pow( static_cast<double>( b ), static_cast<double>( e ) );
    t.near( "pow", static_cast<double>( g ), ref, ref*( 4e-7 + w ), "pow(%.9g, %.9g) = %.9g, expected %.9g", static_cast<double>( b ), static_cast<double>( e ), static_cast<double>( g ), ref );
    if ( b != 1.0f && e != 0.0f ) { t.nontrivial(); }
}
static void hypotenuse( Ctx &t )
{
    const bool any = t.chance( 1, 10 );
    float x = t.f32any( any ), y = t.f32any( any );
    if ( t.coin() && std::isfinite( x ) ) { y = static_cast<float>( static_cast<double>( x )*static_cast<double>( t.f32( -3.0f, 3.0f ) ) ); }
    const float g = ff::hypot( x, y );
    t.note( "hypot(%.9g, %.9g) -> %.9g", static_cast<double>( x ), static_cast<double>( y ), static_cast<double>( g ) );
    if ( std::isinf( x ) || std::isinf( y ) ) { t.check( std::isinf( g ) && g > 0.0f, "hypot with an infinite side is %.9g", static_cast<double>( g ) ); return; }
    if ( std::isnan( x ) || std::isnan( y ) ) { t.check( std::isnan( g ), "hypot of nan is %.9g", static_cast<double>( g ) ); return; }
    const double ref = std::hypot( static_cast<double>( x ), static_cast<double>( y ) );
    if ( ref > 3.40283e38 ) { t.check( std::isinf( g ) && g > 0.0f, "hypot(%.9g, %.9g) = %.9g instead of inf", static_cast<double>( x ), static_cast<double>( y ), static_cast<double>( g ) ); return; }
    if ( ref > 3.40281e38 ) { return; }
    t.near( "hypot", static_cast<double>( g ), ref, ref*1.8e-6 + 1.5e-45, "hypot(%.9g, %.9g) = %.9g, expected %.9g", static_cast<double>( x ), static_cast<double>( y ), static_cast<double>( g ), ref );
    if ( x != 0.0f && y != 0.0f ) { t.nontrivial(); }
}
static bool nan_( float x ) { return std::isnan( x ); }
static bool pinf( float x ) { return std::isinf( x ) && x > 0.0f; }
static bool ninf( float x ) { return std::isinf( x ) && x < 0.0f; }
#define DOM( cond, call, what ) t.check( ( cond ), "%s of %.9g is %.9g, expected " what, #call, static_cast<double>( x ), static_cast<double>( ff::call( x ) ) )
static void domain( Ctx &t )
{
    const float m = t.chance( 1, 8 ) ? INFINITY : std::fabs( t.f32any() );
    float x;
    t.nontrivial();
    t.note( "magnitude %.9g", static_cast<double>( m ) );
    switch ( t.bits( 7 ) ) {
        case 0:
            x = -m;
            if ( m == 0.0f ) { return; }
            DOM( nan_( ff::sqrt( x ) ), sqrt, "nan" );
            DOM( nan_( ff::rSqrt( x ) ), rSqrt, "nan" );
            DOM( nan_( ff::log2( x ) ), log2, "nan" );
            DOM( nan_( ff::log( x ) ), log, "nan" );
            DOM( nan_( ff::log10( x ) ), log10, "nan" );
            break;
        case 1:
            x = 1.0f + m;
            if ( t.coin() ) { x = -x; }
            if ( std::fabs( x ) > 1.0f && std::isfinite( x ) ) {
                DOM( nan_( ff::asin( x ) ), asin, "nan" );
                DOM( nan_( ff::acos( x ) ), acos, "nan" );
                DOM( nan_( ff::atanh( x ) ), atanh, "nan" );
                if ( x < 0.0f ) { DOM( nan_( ff::log1p( x ) ), log1p, "nan" ); DOM( nan_( ff::acosh( x ) ), acosh, "nan" ); }
            }
            x = 1.0f - m;
            if ( x < 1.0f ) { DOM( nan_( ff::acosh( x ) ), acosh, "nan" ); }
            break;
        case 2: {
            static const float zero[] = { 0.0f, -0.0f };
            x = zero[ t.idx( 2 ) ];
            DOM( ff::sqrt( x ) == 0.0f, sqrt, "0" );
            DOM( ff::cbrt( x ) == 0.0f, cbrt, "0" );
            DOM( pinf( ff::rSqrt( x ) ), rSqrt, "inf" );
            DOM( std::isinf( ff::rCbrt( x ) ), rCbrt, "inf" );
            DOM( ninf( ff::log2( x ) ), log2, "-inf" );
            DOM( ninf( ff::log( x ) ), log, "-inf" );
            DOM( ninf( ff::log10( x ) ), log10, "-inf" );
            DOM( ff::exp2( x ) == 1.0f, exp2, "1" );
            DOM( ff::exp( x ) == 1.0f, exp, "1" );
            DOM( ff::exp10( x ) == 1.0f, exp10, "1" );
            DOM( ff::cosh( x ) == 1.0f, cosh, "1" );
            x = 1.0f;
            DOM( pinf( ff::atanh( x ) ), atanh, "inf" );
            DOM( ff::log2( x ) == 0.0f, log2, "0" );
            DOM( ff::acosh( x ) == 0.0f, acosh, "0" );
            x = -1.0f;
            DOM( ninf( ff::atanh( x ) ), atanh, "-inf" );
            DOM( ninf( ff::log1p( x ) ), log1p, "-inf" );
            break;
        }
        case 3:
            x = m;
            if ( x > 128.0f ) { DOM( pinf( ff::exp2( x ) ), exp2, "inf" ); }
            if ( x > 88.7229f ) { DOM( pinf( ff::exp( x ) ), exp, "inf" ); DOM( pinf( ff::expm1( x ) ), expm1, "inf" ); }
            if ( x > 38.5319f ) { DOM( pinf( ff::exp10( x ) ), exp10, "inf" ); }
            if ( x > 89.416f ) { DOM( pinf( ff::sinh( x ) ), sinh, "inf" ); DOM( pinf( ff::cosh( x ) ), cosh, "inf" ); }
            x = -m;
            if ( m > 89.416f ) { DOM( ninf( ff::sinh( x ) ), sinh, "-inf" ); DOM( pinf( ff::cosh( x ) ), cosh, "inf" ); }
            if ( m > 126.0f ) { DOM( ff::exp2( x ) >= 0.0f && ff::exp2( x ) < 1.2e-38f, exp2, "an underflow" ); }
            if ( m > 87.4f ) { DOM( ff::exp( x ) >= 0.0f && ff::exp( x ) < 1.2e-38f, exp, "an underflow" ); }
            if ( m > 38.0f ) { DOM( ff::exp10( x ) >= 0.0f && ff::exp10( x ) < 1.2e-38f, exp10, "an underflow" ); }
            break;
        case 4:
            x = INFINITY;
            DOM( pinf( ff::sqrt( x ) ), sqrt, "inf" );
            DOM( pinf( ff::log2( x ) ), log2, "inf" );
            DOM( pinf( ff::log( x ) ), log, "inf" );
            DOM( pinf( ff::log10( x ) ), log10, "inf" );
            DOM( pinf( ff::log1p( x ) ), log1p, "inf" );
            DOM( pinf( ff::exp( x ) ), exp, "inf" );
            DOM( pinf( ff::asinh( x ) ), asinh, "inf" );
            DOM( pinf( ff::acosh( x ) ), acosh, "inf" );
            DOM( std::fabs( static_cast<double>( ff::atan( x ) ) - M_PI_2 ) < 0.0063, atan, "pi/2" );
            DOM( ff::tanh( x ) == 1.0f, tanh, "1" );
            DOM( std::fabs( ff::erf( x ) - 1.0f ) < 1e-6f, erf, "1" );
            x = -INFINITY;
            DOM( std::fabs( static_cast<double>( ff::atan( x ) ) + M_PI_2 ) < 0.0063, atan, "-pi/2" );
            DOM( ff::tanh( x ) == -1.0f, tanh, "-1" );
            DOM( ff::exp( x ) == 0.0f, exp, "0" );
            DOM( std::fabs( ff::erf( x ) + 1.0f ) < 1e-6f, erf, "-1" );
            DOM( std::fabs( ff::erfc( x ) - 2.0f ) < 1e-6f, erfc, "2" );
            break;
        case 5: {
            x = NAN;
            const Unary &u = unary[ t.idx( UNARY ) ];
            t.check( nan_( u.f( x ) ), "%s(nan) = %.9g", u.name, static_cast<double>( u.f( x ) ) );
            t.check( nan_( ff::tan( x ) ), "tan(nan) = %.9g", static_cast<double>( ff::tan( x ) ) );
            break;
        }
        case 6: { // constants
            struct C { const char *n; float v; double r; };
            const C c[] = {
                { "e", ff::numbers::e(), M_E }, { "log2e", ff::numbers::log2e(), M_LOG2E }, { "log10e", ff::numbers::log10e(), M_LOG10E },
                { "ln2", ff::numbers::ln2(), M_LN2 }, { "ln10", ff::numbers::ln10(), M_LN10 }, { "pi", ff::numbers::pi(), M_PI },
                { "inv_pi", ff::numbers::inv_pi(), M_1_PI }, { "inv_sqrtpi", ff::numbers::inv_sqrtpi(), M_2_SQRTPI/2.0 },
                { "sqrt2", ff::numbers::sqrt2(), M_SQRT2 }, { "sqrt3", ff::numbers::sqrt3(), std::sqrt( 3.0 ) },
                { "inv_sqrt2", ff::numbers::inv_sqrt2(), M_SQRT1_2 }, { "inv_sqrt3", ff::numbers::inv_sqrt3(), 1.0/std::sqrt( 3.0 ) },
                { "egamma", ff::numbers::egamma(), 0.57721566490153286 }, { "phi", ff::numbers::phi(), ( 1.0 + std::sqrt( 5.0 ) )/2.0 },
                { "twice_pi", ff::numbers::twice_pi(), 2.0*M_PI }, { "half_pi", ff::numbers::half_pi(), M_PI_2 },
                { "quarter_pi", ff::numbers::quarter_pi(), M_PI_4 }, { "radian", ff::numbers::radian(), 180.0/M_PI },
                { "lnpi", ff::numbers::lnpi(), std::log( M_PI ) }, { "ln_sqrt_2pi", ff::numbers::ln_sqrt_2pi(), 0.5*std::log( 2.0*M_PI ) },
            };
            const C &k = c[ t.idx( sizeof( c )/sizeof( c[ 0 ] ) ) ];
            t.check( k.v == static_cast<float>( k.r ), "constant %s is %.9g, expected %.9g", k.n, static_cast<double>( k.v ), k.r );
            break;
        }
        default: // ranges
            x = t.coin() ? m : -m;
            if ( std::fabs( x ) <= 1e5f ) {
                DOM( std::fabs( ff::sin( x ) ) <= 1.00001f, sin, "a value in [-1,1]" );
                DOM( std::fabs( ff::cos( x ) ) <= 1.00001f, cos, "a value in [-1,1]" );
            }
            DOM( std::fabs( ff::atan( x ) ) <= 1.5708f, atan, "a value in [-pi/2,pi/2]" );
            DOM( std::fabs( ff::tanh( x ) ) <= 1.0f, tanh, "a value in [-1,1]" );
            DOM( std::fabs( ff::erf( x ) ) <= 1.0f, erf, "a value in [-1,1]" );
            DOM( ff::erfc( x ) >= 0.0f && ff::erfc( x ) <= 2.0f, erfc, "a value in [0,2]" );
            DOM( ff::cosh( x ) >= 1.0f, cosh, "a value not below 1" );
            DOM( !( x <= 0.0f ) || ff::exp( x ) <= 1.0f, exp, "at most 1" );
            break;
    }
}
namespace pbt {
const std::vector<Sub>& subs()
{
    static const std::vector<Sub> s = {
        { "accuracy", accuracy, 600000 }, { "octave", sweep, 150000 }, { "tangent", tangent, 400000 }, { "atan2", atan2Fn, 400000 },
        { "power", power, 400000 }, { "hypot", hypotenuse, 400000 }, { "domain", domain, 200000 },
    };
    return s;
}
}
