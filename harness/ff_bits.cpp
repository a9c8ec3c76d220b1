// P26: exact single-precision operations
#include <pbt.hpp>
#include <qlibs.h>
#include <cmath>
#include <cfloat>
namespace pbt {
const char *const PROPERTY = "P26";
const char *const RULE = "every class of single-precision bit pattern (zeros, subnormals, integers and halves with ulp neighbours, range ends, infinities, nan, uniform bits) through classification, sign, rounding, remainder, angle wrapping, exponent split/scale, neighbour and comparison functions, compared bit for bit with the C library or exact arithmetic; non-trivial = finite non-zero operands";
}
namespace ff = qlibs::ffmath;
using pbt::Ctx;
static double D( float x ) { return static_cast<double>( x ); }
static bool same( float a, float b ) { return ( std::isnan( a ) && std::isnan( b ) ) || ( a == b ); }
static bool exact( float a, float b ) { return ( std::isnan( a ) && std::isnan( b ) ) || pbt::sameBits( a, b ); }

static void classes( Ctx &t )
{
    const float x = t.f32any( true ), s = t.f32any( true );
    t.note( "x=%.9g s=%.9g", D( x ), D( s ) );
    const ff::classification c = ff::classify( x );
    ff::classification e;
    switch ( std::fpclassify( x ) ) {
        case FP_ZERO: e = ff::classification::FFP_ZERO; break;
        case FP_SUBNORMAL: e = ff::classification::FFP_SUBNORMAL; break;
        case FP_NORMAL: e = ff::classification::FFP_NORMAL; break;
        case FP_INFINITE: e = ff::classification::FFP_INFINITE; break;
        default: e = ff::classification::FFP_NAN; break;
    }
    t.check( c == e, "classify(%.9g) is %d, expected %d", D( x ), static_cast<int>( c ), static_cast<int>( e ) );
    t.check( ff::isNan( x ) == std::isnan( x ), "isNan(%.9g) is %d", D( x ), ff::isNan( x ) );
    t.check( ff::isInf( x ) == std::isinf( x ), "isInf(%.9g) is %d", D( x ), ff::isInf( x ) );
    t.check( ff::isFinite( x ) == std::isfinite( x ), "isFinite(%.9g) is %d", D( x ), ff::isFinite( x ) );
    t.check( ff::isNormal( x ) == std::isnormal( x ), "isNormal(%.9g) is %d", D( x ), ff::isNormal( x ) );
    const float cs = ff::copysign( x, s );
    t.check( exact( cs, std::copysign( x, s ) ) && ( std::signbit( cs ) == std::signbit( s ) ), "copysign(%.9g, %.9g) = %.9g", D( x ), D( s ), D( cs ) );
    t.check( exact( ff::absf( x ), std::fabs( x ) ), "absf(%.9g) = %.9g", D( x ), D( ff::absf( x ) ) );
    const float sg = ff::sign( x );
    t.check( std::isnan( x ) ? std::isnan( sg ) : ( sg == ( ( x > 0.0f ) ? 1.0f : ( ( x < 0.0f ) ? -1.0f : 0.0f ) ) ), "sign(%.9g) = %.9g", D( x ), D( sg ) );
    t.check( std::isinf( ff::getInf() ) && ff::getInf() > 0.0f && std::isnan( ff::getNan() ), "getInf/getNan are %.9g, %.9g", D( ff::getInf() ), D( ff::getNan() ) );
    if ( std::isfinite( x ) && x != 0.0f ) { t.nontrivial(); }
}
static void rounding( Ctx &t )
{
    float x = t.f32any( true );
    if ( t.chance( 1, 3 ) ) { x = static_cast<float>( D( static_cast<float>( t.range( 0, 1 << 24 ) ) )/D( static_cast<float>( 1 << t.range( 0, 24 ) ) ) ); if ( t.coin() ) { x = -x; } }
    t.note( "x=%.9g", D( x ) );
    t.check( exact( ff::floor( x ), std::floor( x ) ), "floor(%.9g) = %.9g, expected %.9g", D( x ), D( ff::floor( x ) ), D( std::floor( x ) ) );
    t.check( exact( ff::ceil( x ), std::ceil( x ) ), "ceil(%.9g) = %.9g, expected %.9g", D( x ), D( ff::ceil( x ) ), D( std::ceil( x ) ) );
    t.check( exact( ff::trunc( x ), std::trunc( x ) ), "trunc(%.9g) = %.9g, expected %.9g", D( x ), D( ff::trunc( x ) ), D( std::trunc( x ) ) );
    t.check( exact( ff::rounding( x ), std::round( x ) ), "rounding(%.9g) = %.9g, expected %.9g", D( x ), D( ff::rounding( x ) ), D( std::round( x ) ) );
    if ( std::isfinite( x ) ) { t.check( same( ff::frac( x ), x - std::trunc( x ) ), "frac(%.9g) = %.9g", D( x ), D( ff::frac( x ) ) ); }
    if ( std::isfinite( x ) && x != 0.0f ) { t.nontrivial(); }
}
// quotients up to 2^20: larger ones lose the remainder to the precision of the type
static void remainder( Ctx &t )
{
    float y = t.chance( 1, 2 ) ? static_cast<float>( t.range( 1, 1000 ) )*( t.coin() ? 1.0f : 0.25f ) : t.f32log( 1e-20f, 1e20f );
    float x;
    switch ( t.bits( 3 ) ) {
        case 0: x = static_cast<float>( D( y )*static_cast<double>( t.range( 0, 4000 ) ) ); break;             // close to a multiple
        case 1: x = static_cast<float>( D( y )*static_cast<double>( t.range( 0, 4000 ) ) ); x = std::nextafter( x, t.coin() ? INFINITY : 0.0f ); break;
        case 2: x = static_cast<float>( D( y )*D( t.chance( 1, 4 ) ? t.f32log( 1e-12f, 1e-6f ) : t.f32( 0.0f, 1.0f ) ) ); break; // also far smaller than the divisor
        default: x = static_cast<float>( D( y )*D( t.f32( 0.0f, 5000.0f ) ) ); break;
    }
    if ( t.coin() ) { x = -x; }
    if ( t.coin() ) { y = -y; }
    const double q = D( x )/D( y );
    const double slack = 1.2e-7*( std::fabs( D( x ) ) + std::fabs( D( y ) ) );
    const float r = ff::rem( x, y ), m = ff::mod( x, y );
    t.note( "x=%.9g y=%.9g rem=%.9g mod=%.9g", D( x ), D( y ), D( r ), D( m ) );
    // the remainder of a rounded quotient may be off by one divisor at a multiple
    const double er = std::fmod( D( x ), D( y ) );
    double em = er;
    if ( em != 0.0 && ( ( em < 0.0 ) != ( y < 0.0f ) ) ) { em += D( y ); }
    const double ay = std::fabs( D( y ) );
    const double dr = std::fabs( std::remainder( D( r ) - er, ay ) ), dm = std::fabs( std::remainder( D( m ) - em, ay ) );
    t.check( dr <= slack, "rem(%.9g, %.9g) = %.9g is not congruent to %.9g", D( x ), D( y ), D( r ), er );
    t.check( dm <= slack, "mod(%.9g, %.9g) = %.9g is not congruent to %.9g", D( x ), D( y ), D( m ), em );
    t.check( std::fabs( D( r ) ) <= ay + slack && ( r == 0.0f || ( r < 0.0f ) == ( x < 0.0f ) || std::fabs( D( r ) ) <= slack ), "rem(%.9g, %.9g) = %.9g does not have the sign of the dividend or exceeds the divisor", D( x ), D( y ), D( r ) );
    t.check( std::fabs( D( m ) ) < ay && ( m == 0.0f || ( m < 0.0f ) == ( y < 0.0f ) ), "mod(%.9g, %.9g) = %.9g does not have the sign of the divisor or is not smaller than it", D( x ), D( y ), D( m ) );
    // away from multiples the value is fully determined
    const double f = std::fabs( std::remainder( D( x ), D( y ) ) );
    if ( f > 2.0*slack ) {
        t.check( std::fabs( D( r ) - er ) <= slack, "rem(%.9g, %.9g) = %.9g, expected %.9g", D( x ), D( y ), D( r ), er );
        t.check( std::fabs( D( m ) - em ) <= slack, "mod(%.9g, %.9g) = %.9g, expected %.9g", D( x ), D( y ), D( m ), em );
        if ( std::fabs( q ) > 1.0 ) { t.nontrivial(); }
    }
    // zero operands
    const float z = t.coin() ? 0.0f : -0.0f;
    t.check( std::isnan( ff::rem( x, z ) ), "rem(%.9g, 0) = %.9g, expected nan", D( x ), D( ff::rem( x, z ) ) );
    t.check( same( ff::mod( x, z ), x ), "mod(%.9g, 0) = %.9g", D( x ), D( ff::mod( x, z ) ) );
    t.check( ff::rem( z, y ) == 0.0f && ff::mod( z, y ) == 0.0f, "rem(0, %.9g) = %.9g, mod(0, %.9g) = %.9g", D( y ), D( ff::rem( z, y ) ), D( y ), D( ff::mod( z, y ) ) );
}
static void wrap( Ctx &t )
{
    // degrees, multiples are exact
    float d;
    const bool mult = t.chance( 1, 3 );
    const int64_t k = t.range( 0, 200 ) - 100;
    if ( mult ) { d = 180.0f*static_cast<float>( k ); }
    else if ( t.chance( 1, 4 ) ) { d = t.f32log( 1e-4f, 1e5f ); if ( t.coin() ) { d = -d; } }
    else { d = t.coin() ? t.f32( -2000.0f, 2000.0f ) : ( t.coin() ? t.f32( -50000.0f, 50000.0f ) : static_cast<float>( t.range( 0, 4000 ) - 2000 )*0.5f ); }
    const float w1 = ff::wrapTo180( d ), w3 = ff::wrapTo360( d );
    t.note( "degrees %.9g -> %.9g, %.9g", D( d ), D( w1 ), D( w3 ) );
    const double slack = 3e-7*( std::fabs( D( d ) ) + 360.0 );
    t.check( std::fabs( w1 ) <= 180.0f, "wrapTo180(%.9g) = %.9g", D( d ), D( w1 ) );
    t.check( w3 >= 0.0f && w3 <= 360.0f, "wrapTo360(%.9g) = %.9g", D( d ), D( w3 ) );
    t.check( std::fabs( std::remainder( D( w1 ) - D( d ), 360.0 ) ) <= slack, "wrapTo180(%.9g) = %.9g is another angle", D( d ), D( w1 ) );
    t.check( std::fabs( std::remainder( D( w3 ) - D( d ), 360.0 ) ) <= slack, "wrapTo360(%.9g) = %.9g is another angle", D( d ), D( w3 ) );
    if ( std::fabs( d ) <= 180.0f ) { t.check( std::fabs( D( w1 ) - D( d ) ) <= 3e-5, "wrapTo180 changes %.9g to %.9g", D( d ), D( w1 ) ); }
    if ( d >= 0.0f && d <= 360.0f ) { t.check( std::fabs( D( w3 ) - D( d ) ) <= 3e-5, "wrapTo360 changes %.9g to %.9g", D( d ), D( w3 ) ); }
    if ( mult ) {
        if ( k & 1 ) { t.check( w1 == ( k > 0 ? 180.0f : -180.0f ), "wrapTo180(%.9g) = %.9g", D( d ), D( w1 ) ); }
        else { t.check( w1 == 0.0f, "wrapTo180(%.9g) = %.9g", D( d ), D( w1 ) ); t.check( w3 == ( k > 0 ? 360.0f : 0.0f ), "wrapTo360(%.9g) = %.9g", D( d ), D( w3 ) ); }
    }
    // radians, modulo the single-precision circle
    const double c = D( 6.28318530717958647692f ), h = D( 3.14159265358979323846f );
    float r = t.chance( 1, 4 ) ? static_cast<float>( h*static_cast<double>( t.range( 0, 8 ) - 4 ) ) : ( t.coin() ? t.f32( -20.0f, 20.0f ) : t.f32( -1000.0f, 1000.0f ) );
    if ( t.chance( 1, 5 ) ) { r = t.f32log( 1e-4f, 1e3f ); if ( t.coin() ) { r = -r; } }
    if ( t.chance( 1, 4 ) ) { r = std::nextafter( r, t.coin() ? INFINITY : -INFINITY ); }
    const float p1 = ff::wrapToPi( r ), p2 = ff::wrapTo2Pi( r );
    t.note( "radians %.9g -> %.9g, %.9g", D( r ), D( p1 ), D( p2 ) );
    const double rs = 3e-7*( std::fabs( D( r ) ) + c );
    t.check( std::fabs( D( p1 ) ) <= h*1.0000001, "wrapToPi(%.9g) = %.9g", D( r ), D( p1 ) );
    t.check( p2 >= 0.0f && D( p2 ) <= c, "wrapTo2Pi(%.9g) = %.9g", D( r ), D( p2 ) );
    t.check( std::fabs( std::remainder( D( p1 ) - D( r ), c ) ) <= rs, "wrapToPi(%.9g) = %.9g is another angle", D( r ), D( p1 ) );
    t.check( std::fabs( std::remainder( D( p2 ) - D( r ), c ) ) <= rs, "wrapTo2Pi(%.9g) = %.9g is another angle", D( r ), D( p2 ) );
    if ( std::fabs( D( r ) ) <= h ) { t.check( std::fabs( D( p1 ) - D( r ) ) <= 1e-6, "wrapToPi changes %.9g to %.9g", D( r ), D( p1 ) ); }
    if ( r >= 0.0f && D( r ) <= c ) { t.check( std::fabs( D( p2 ) - D( r ) ) <= 1e-6, "wrapTo2Pi changes %.9g to %.9g", D( r ), D( p2 ) ); }
    if ( std::fabs( D( r ) ) > c ) { t.nontrivial(); }
}
static void scale( Ctx &t )
{
    const float x = t.f32any();
    int32_t e = 12345;
    const float f = ff::rexp( x, &e );
    t.note( "rexp(%.9g) -> %.9g, %d", D( x ), D( f ), e );
    int re;
    const float rf = std::frexp( x, &re );
    t.check( same( f, rf ) && e == re, "rexp(%.9g) = %.9g and 2^%d, expected %.9g and 2^%d", D( x ), D( f ), e, D( rf ), re );
    static const int32_t wild[] = { 0, 1, -1, 127, 128, -126, -127, -149, -150, 254, 255, 256, -254, -255, -256, 300, -300, 100000, -100000, 2147483647, -2147483647 - 1 };
    const int32_t p = t.chance( 1, 4 ) ? t.pick( wild ) : ( t.coin() ? static_cast<int32_t>( t.range( 0, 600 ) ) - 300 : -e + static_cast<int32_t>( t.range( 0, 8 ) ) - ( t.coin() ? 4 : 150 ) + ( t.chance( 1, 4 ) ? 128 : 0 ) );
    const float g = ff::ldexp( x, p ), r = std::ldexp( x, p );
    t.note( "ldexp(%.9g, %d) -> %.9g", D( x ), p, D( g ) );
    t.check( same( g, r ), "ldexp(%.9g, %d) = %.9g, expected %.9g", D( x ), p, D( g ), D( r ) );
    t.check( r != 0.0f || std::signbit( g ) == std::signbit( r ) || x == 0.0f, "ldexp(%.9g, %d) changes sign", D( x ), p );
    t.check( same( ff::ldexp( f, e ), x ), "ldexp does not undo rexp for %.9g", D( x ) );
    if ( x != 0.0f ) { t.nontrivial(); }
}
static void neighbour( Ctx &t )
{
    const float x = t.f32any( true ), y = t.chance( 1, 5 ) ? x : ( t.chance( 1, 5 ) ? -x : t.f32any( true ) );
    const float g = ff::nextAfter( x, y ), r = std::nextafter( x, y );
    t.note( "nextAfter(%.9g, %.9g) -> %.9g", D( x ), D( y ), D( g ) );
    t.check( same( g, r ), "nextAfter(%.9g, %.9g) = %.9g, expected %.9g", D( x ), D( y ), D( g ), D( r ) );
    if ( std::isfinite( x ) && std::isfinite( y ) && x != y ) { t.nontrivial(); }
}
static void compare( Ctx &t )
{
    const float a = t.chance( 1, 3 ) ? static_cast<float>( t.range( 0, 64 ) - 32 )*0.125f : t.f32( -1000.0f, 1000.0f );
    const float tol = t.chance( 1, 6 ) ? 0.0f : ( t.coin() ? 0.125f*static_cast<float>( t.range( 0, 8 ) ) : t.f32( 0.0f, 10.0f ) );
    float b = a;
    switch ( t.bits( 4 ) ) {
        case 0: b = a + tol; break;
        case 1: b = a - tol; break;
        case 2: b = static_cast<float>( t.range( 0, 64 ) - 32 )*0.125f; break;
        case 3: b = std::nextafter( a, INFINITY ); break;
        default: b = t.f32( -1000.0f, 1000.0f ); break;
    }
    const bool e = std::fabs( a - b ) <= tol;
    t.note( "isEqual(%.9g, %.9g, %.9g)", D( a ), D( b ), D( tol ) );
    t.check( ff::isEqual( a, b, tol ) == e && ff::isEqual( b, a, tol ) == e, "isEqual(%.9g, %.9g, %.9g) is not %d in both orders", D( a ), D( b ), D( tol ), e );
    t.check( ff::isEqual( a, a ), "isEqual(%.9g, itself) is false", D( a ) );
    if ( std::fabs( D( a ) - D( b ) ) > 1e-20 ) { t.check( !ff::isEqual( a, b ), "isEqual(%.9g, %.9g) without tolerance", D( a ), D( b ) ); }
    t.check( !ff::isEqual( NAN, a, tol ) && !ff::isEqual( a, NAN, tol ), "isEqual with nan" );
    // extrema
    const float c = t.f32( -1000.0f, 1000.0f ), d = t.coin() ? a : t.f32( -1000.0f, 1000.0f );
    const float mx = std::max( std::max( a, b ), std::max( c, d ) ), mn = std::min( std::min( a, b ), std::min( c, d ) );
    t.check( ff::Max( a, b, c, d ) == mx && ff::Min( a, b, c, d ) == mn, "Max/Min of (%.9g, %.9g, %.9g, %.9g) are %.9g, %.9g", D( a ), D( b ), D( c ), D( d ), D( ff::Max( a, b, c, d ) ), D( ff::Min( a, b, c, d ) ) );
    t.check( ff::Max( a, c ) == std::max( a, c ) && ff::Min( a, c ) == std::min( a, c ) && ff::Max( c ) == c && ff::Min( c ) == c, "Max/Min of (%.9g, %.9g)", D( a ), D( c ) );
    const int i = static_cast<int>( t.range( 0, 100 ) ) - 50, j = static_cast<int>( t.range( 0, 100 ) ) - 50, k = static_cast<int>( t.range( 0, 100 ) ) - 50;
    t.check( ff::Max( i, j, k ) == std::max( i, std::max( j, k ) ) && ff::Min( i, j, k ) == std::min( i, std::min( j, k ) ), "Max/Min of (%d, %d, %d) are %d, %d", i, j, k, ff::Max( i, j, k ), ff::Min( i, j, k ) );
    if ( a != b ) { t.nontrivial(); }
}
const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "classes", classes, 400000 }, { "rounding", rounding, 800000 }, { "remainder", remainder, 600000 }, { "wrap", wrap, 500000 },
        { "scale", scale, 800000 }, { "neighbour", neighbour, 500000 }, { "compare", compare, 400000 } };
    return s;
}
