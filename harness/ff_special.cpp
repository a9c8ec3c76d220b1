// P28: gamma, beta, elliptic integrals, exponential integral, zeta
#include <pbt.hpp>
#include <qlibs.h>
#include <cmath>
#include <cfloat>
namespace pbt {
const char *const PROPERTY = "P28";
const char *const RULE = "arguments over the documented domains (both signs, integers, half integers, ulp neighbours of integers and of every range end, moduli up to one, amplitudes over several periods, tiny and huge values, special values), compared with double-precision references within a per-function error budget, plus functional equations, symmetries, poles and domain errors; non-trivial = finite argument inside the domain and away from a pole";
}
namespace ff = qlibs::ffmath;
using pbt::Ctx;
static double D( float x ) { return static_cast<double>( x ); }
static bool isnan_( float x ) { return std::isnan( x ); }
static bool pinf( float x ) { return std::isinf( x ) && x > 0.0f; }

static float nudge( Ctx &t, float x )
{
    const int64_t n = t.range( 0, 6 ) - 3;
    for ( int64_t i = 0 ; i < std::llabs( n ) ; ++i ) { x = std::nextafterf( x, n > 0 ? INFINITY : -INFINITY ); }
    return x;
}
static float within( Ctx &t, float lo, float hi )
{
    float x;
    switch ( t.bits( 4 ) ) {
        case 0: x = nudge( t, static_cast<float>( t.range( static_cast<int64_t>( std::floor( lo*4.0f ) ), static_cast<int64_t>( std::ceil( hi*4.0f ) ) ) )*0.25f ); break;
        case 1: x = ( lo > 0.0f ) ? t.f32log( lo, hi ) : t.f32( lo, hi ); break;
        case 2: x = t.f32( std::max( lo, -4.0f ), std::min( hi, 4.0f ) ); break;
        default: x = t.f32( lo, hi ); break;
    }
    if ( !( x >= lo ) ) { x = lo; }
    if ( x > hi ) { x = hi; }
    return x;
}
// share of the argument of the reflection sine that is lost by the fast sine
static double sinRel( double frac ) // frac in (0,1)
{
    const double s = std::sin( M_PI*frac );
    return ( std::min( 1.05e-3, 0.0135*s + 1e-7 ) + 4e-7 )/s;
}
// The reflections take their sine from the library itself (whose own error is the business of another
// property) or from anything better: a result has to agree with the outcome of one of the two.
static double either( double got, double a, double b ) { return ( std::fabs( got - a ) <= std::fabs( got - b ) ) ? a : b; }
static double libSin( double x ) { return D( ff::sin( static_cast<float>( x ) ) ); }
static void gammaPos( Ctx &t )
{
    const bool log = t.coin();
    float x;
    if ( log ) {
        x = t.chance( 1, 3 ) ? t.f32log( FLT_MIN, 4.0e36f ) : within( t, 1e-4f, 400.0f );
        const float g = ff::lgamma( x );
        const double r = std::lgamma( D( x ) );
        t.note( "lgamma(%.9g) -> %.9g", D( x ), D( g ) );
        t.near( "lgamma", D( g ), r, 5.5e-7*( 1.0 + std::fabs( r ) ), "lgamma(%.9g)", D( x ) );
    }
    else {
        x = t.chance( 1, 4 ) ? t.f32log( 3e-38f, 1.0f ) : within( t, 1e-4f, 34.9f );
        const float g = ff::tgamma( x );
        const double r = std::tgamma( D( x ) );
        t.note( "tgamma(%.9g) -> %.9g", D( x ), D( g ) );
        if ( r < 3.4e38 ) { t.near( x < 12.0f ? "tgamma<12" : "tgamma>12", D( g ), r, r*( x < 12.0f ? 1.2e-6 : 1e-6*D( x ) + 5e-6 ), "tgamma(%.9g)", D( x ) ); }
    }
    t.nontrivial();
}
static void gammaNeg( Ctx &t )
{
    const bool far = t.chance( 1, 8 );
    const float x = far ? ( t.chance( 1, 4 ) ? -t.f32log( 1.0e5f, 8388607.0f ) : -t.f32log( 60.0f, 1.0e6f ) ) : -within( t, 1e-4f, 60.0f );
    const double f = -D( x ) - std::floor( -D( x ) );
    if ( f == 0.0 ) { return; }
    const float g = ff::tgamma( x ), l = ff::lgamma( x );
    t.note( "tgamma(%.9g) -> %.9g, lgamma -> %.9g", D( x ), D( g ), D( l ) );
    const double r = std::tgamma( D( x ) ), rl = std::lgamma( D( x ) ), e = sinRel( f );
    if ( e > 0.5 ) { return; }
    const double ls = libSin( M_PI*f ), c = std::sin( M_PI*f )/ls, ea = 4e-7*M_PI*( 1.0 + 1.0/std::fabs( std::tan( M_PI*f ) ) ) + 2e-6; // c: effect of the sine, ea: of a rounded argument
    t.check( ls > 0.0, "sin(pi*%.9g) = %.9g", f, ls );
    t.near( "lgamma<0", D( l ), either( D( l ), rl, rl + std::log( c ) ), ea + 1e-6*( 1.0 + std::fabs( rl ) ), "lgamma(%.9g)", D( x ) );
    if ( far ) { t.check( std::fabs( g ) < 1.2e-38f, "tgamma(%.9g) = %.9g, expected an underflow", D( x ), D( g ) ); }
    else if ( std::fabs( r ) < 3.3e38 ) {
        t.near( x < -33.0f ? "tgamma<-33" : "tgamma<0", D( g ), either( D( g ), r, r*c ), std::fabs( r )*( ea + 6e-6 - 1e-6*D( x ) ) + 1.2e-38 + ( x < -34.0f ? 9.3e-39/std::sin( M_PI*f ) : 0.0 ), "tgamma(%.9g)", D( x ) );
    }
    if ( std::fabs( r ) > 1e-30 ) { t.check( ( g < 0.0f ) == ( r < 0.0 ), "tgamma(%.9g) = %.9g has the wrong sign", D( x ), D( g ) ); }
    t.nontrivial();
}
static void gammaEdge( Ctx &t )
{
    t.nontrivial();
    switch ( t.bits( 7 ) ) {
        case 0: t.check( isnan_( ff::tgamma( NAN ) ) && isnan_( ff::lgamma( NAN ) ), "gamma of nan: %.9g, %.9g", D( ff::tgamma( NAN ) ), D( ff::lgamma( NAN ) ) ); break;
        case 1: t.check( pinf( ff::tgamma( INFINITY ) ) && isnan_( ff::tgamma( -INFINITY ) ), "tgamma of the infinities: %.9g, %.9g", D( ff::tgamma( INFINITY ) ), D( ff::tgamma( -INFINITY ) ) );
                t.check( pinf( ff::lgamma( INFINITY ) ) && pinf( ff::lgamma( -INFINITY ) ), "lgamma of the infinities: %.9g, %.9g", D( ff::lgamma( INFINITY ) ), D( ff::lgamma( -INFINITY ) ) ); break;
        case 2: t.check( pinf( ff::tgamma( 0.0f ) ), "tgamma(0) = %.9g", D( ff::tgamma( 0.0f ) ) );
                t.check( std::isinf( ff::tgamma( -0.0f ) ) && ff::tgamma( -0.0f ) < 0.0f, "tgamma(-0) = %.9g", D( ff::tgamma( -0.0f ) ) );
                t.check( pinf( ff::lgamma( 0.0f ) ) && pinf( ff::lgamma( -0.0f ) ), "lgamma(0) = %.9g", D( ff::lgamma( 0.0f ) ) ); break;
        case 3: {
            const float x = t.coin() ? -static_cast<float>( t.range( 1, 300 ) ) : -std::trunc( t.f32log( 1.0f, 1e20f ) );
            t.note( "pole %.9g", D( x ) );
            t.check( std::isinf( ff::tgamma( x ) ), "tgamma(%.9g) = %.9g, expected an infinity", D( x ), D( ff::tgamma( x ) ) );
            t.check( pinf( ff::lgamma( x ) ), "lgamma(%.9g) = %.9g, expected inf", D( x ), D( ff::lgamma( x ) ) );
            break;
        }
        case 4: {
            const float x = t.coin() ? t.f32log( 35.05f, 200.0f ) : t.f32log( 35.05f, FLT_MAX );
            t.check( pinf( ff::tgamma( x ) ), "tgamma(%.9g) = %.9g, expected inf", D( x ), D( ff::tgamma( x ) ) );
            const float l = t.f32log( 4.1e36f, FLT_MAX );
            t.check( pinf( ff::lgamma( l ) ), "lgamma(%.9g) = %.9g, expected inf", D( l ), D( ff::lgamma( l ) ) );
            break;
        }
        case 5: t.check( std::fabs( ff::lgamma( 1.0f ) ) < 1e-7f && std::fabs( ff::lgamma( 2.0f ) ) < 1e-7f, "lgamma(1), lgamma(2) = %.9g, %.9g", D( ff::lgamma( 1.0f ) ), D( ff::lgamma( 2.0f ) ) ); break;
        default: {
            static const float out[] = { -1.0f, -0.5f, -1e-30f, -20.0f, -INFINITY };
            if ( t.chance( 1, 6 ) ) { const float b = t.pick( out ); t.check( isnan_( ff::factorial( b ) ), "factorial(%.9g) = %.9g, expected nan", D( b ), D( ff::factorial( b ) ) ); break; }
            const float x = t.chance( 1, 5 ) ? t.f32log( 35.0f, FLT_MAX ) : nudge( t, t.coin() ? static_cast<float>( t.range( 1, 34 ) ) : ( t.chance( 1, 6 ) ? t.f32log( 1e-6f, 1.0f ) : t.f32( 1.0f, 34.0f ) ) );
            const float g = ff::factorial( x );
            t.note( "factorial(%.9g) -> %.9g", D( x ), D( g ) );
            if ( x >= 35.0f ) { t.check( pinf( g ), "factorial(%.9g) = %.9g, expected inf", D( x ), D( g ) ); break; }
            if ( x > 34.0f ) { break; } // documented both as the factorial of the integer part and as an overflow
            const double r = std::tgamma( std::floor( D( x ) ) + 1.0 );
            t.near( "factorial", D( g ), r, r*1e-7, "factorial(%.9g)", D( x ) );
            break;
        }
    }
}
static void betaFn( Ctx &t )
{
    const float hi = t.coin() ? 40.0f : 3000.0f;
    const float x = t.coin() ? within( t, 1e-3f, hi ) : t.f32log( 1e-6f, hi ), y = t.coin() ? within( t, 1e-3f, hi ) : t.f32log( 1e-6f, hi );
    const float g = ff::beta( x, y ), h = ff::beta( y, x );
    const double lx = std::lgamma( D( x ) ), ly = std::lgamma( D( y ) ), ls = std::lgamma( D( x ) + D( y ) ), l = lx + ly - ls, r = std::exp( l );
    t.note( "beta(%.9g, %.9g) -> %.9g", D( x ), D( y ), D( g ) );
    // budget of the three logarithms that are subtracted, plus the shift of the rounded sum
    const double w = 4e-7*( 3.0 + std::fabs( lx ) + std::fabs( ly ) + std::fabs( ls ) ) + 6e-8*( D( x ) + D( y ) )*std::log( 1.0 + D( x ) + D( y ) ) + 4e-7;
    if ( l < 88.6 - w && l > -87.0 + w ) { t.near( "beta", D( g ), r, r*std::expm1( w ), "beta(%.9g, %.9g)", D( x ), D( y ) ); t.nontrivial(); }
    else if ( l < -88.0 - w ) { t.check( g >= 0.0f && g < 1.3e-38f, "beta(%.9g, %.9g) = %.9g, expected an underflow", D( x ), D( y ), D( g ) ); }
    t.near( "beta symmetry", D( g ), D( h ), 2.4e-7*( 1.0 + std::fabs( lx ) + std::fabs( ly ) + std::fabs( ls ) )*std::fabs( D( g ) ) + 1e-38, "beta(%.9g, %.9g) and beta(%.9g, %.9g)", D( x ), D( y ), D( y ), D( x ) );
    if ( t.chance( 1, 20 ) ) { t.check( isnan_( ff::beta( NAN, y ) ) && isnan_( ff::beta( x, NAN ) ), "beta of nan" ); }
}
// Carlson's symmetric integrals by duplication, in double precision
static double cRC( double x, double y )
{
    double a = ( x + 2.0*y )/3.0;
    for ( int i = 0 ; i < 30 ; ++i ) {
        const double l = 2.0*std::sqrt( x )*std::sqrt( y ) + y;
        x = ( x + l )/4.0; y = ( y + l )/4.0; a = ( x + 2.0*y )/3.0;
    }
    return 1.0/std::sqrt( a );
}
static double cRF( double x, double y, double z )
{
    for ( int i = 0 ; i < 30 ; ++i ) {
        const double l = std::sqrt( x*y ) + std::sqrt( y*z ) + std::sqrt( z*x );
        x = ( x + l )/4.0; y = ( y + l )/4.0; z = ( z + l )/4.0;
    }
    return 1.0/std::sqrt( ( x + y + z )/3.0 );
}
static double cRJ( double x, double y, double z, double p )
{
    double sum = 0.0, f = 1.0;
    for ( int i = 0 ; i < 30 ; ++i ) {
        const double sx = std::sqrt( x ), sy = std::sqrt( y ), sz = std::sqrt( z ), l = sx*sy + sy*sz + sz*sx;
        const double al = p*( sx + sy + sz ) + sx*sy*sz, be = p*( p + l )*( p + l );
        sum += f*cRC( al*al, be );
        f /= 4.0;
        x = ( x + l )/4.0; y = ( y + l )/4.0; z = ( z + l )/4.0; p = ( p + l )/4.0;
    }
    const double a = ( x + y + z + 2.0*p )/5.0;
    return 3.0*sum + f/( a*std::sqrt( a ) );
}
static double cRD( double x, double y, double z ) { return cRJ( x, y, z, z ); }
static float ellK( Ctx &t )
{
    float k = t.chance( 1, 4 ) ? 1.0f - t.f32log( t.chance( 1, 3 ) ? 2e-7f : 1e-4f, 1.0f ) : within( t, 0.0f, 0.9999f );
    return t.coin() ? -k : k;
}
static void ellComplete( Ctx &t )
{
    const float k = ellK( t ), nu = t.chance( 1, 5 ) ? 0.0f : ( t.coin() ? t.f32( -3.0f, 0.97f ) : ( t.coin() ? 1.0f - t.f32log( 1e-4f, 1.0f ) : -t.f32log( 0.01f, 100.0f ) ) );
    const float a = ff::comp_ellint_1( k ), b = ff::comp_ellint_2( k ), c = ff::comp_ellint_3( k, nu );
    const double K = D( k ), kc = ( 1.0 - K )*( 1.0 + K );
    const double r1 = std::comp_ellint_1( K ), r2 = std::comp_ellint_2( K ), r3 = std::comp_ellint_3( K, D( nu ) );
    t.note( "k=%.9g nu=%.9g -> %.9g, %.9g, %.9g", K, D( nu ), D( a ), D( b ), D( c ) );
    // the complementary parameter is formed in single precision
    const double w = 1.2e-7/kc;
    t.near( "comp_ellint_1", D( a ), r1, r1*7e-6 + w, "comp_ellint_1(%.9g)", K );
    t.near( "comp_ellint_2", D( b ), r2, r2*3.6e-5 + w*kc, "comp_ellint_2(%.9g)", K );
    t.near( "comp_ellint_3", D( c ), r3, ( r1 + r3 )*2.5e-3 + w*2.0, "comp_ellint_3(%.9g, %.9g)", K, D( nu ) );
    t.check( a == ff::comp_ellint_1( -k ) && b == ff::comp_ellint_2( -k ) && c == ff::comp_ellint_3( -k, nu ), "complete elliptic integrals of %.9g depend on its sign", K );
    if ( k != 0.0f ) { t.nontrivial(); }
}
// the three kinds over the reduced amplitude, from its sine and cosine
static void ellParts( double k, double nu, double s, double c, double dq, double out[ 3 ] )
{
    const double cc = c*c, q = std::max( 1e-12, 1.0 - k*k*s*s + dq ), f = s*cRF( cc, q, 1.0 );
    out[ 0 ] = f;
    out[ 1 ] = f - k*k*s*s*s*cRD( cc, q, 1.0 )/3.0;
    out[ 2 ] = f + nu*s*s*s*cRJ( cc, q, 1.0, 1.0 - nu*s*s )/3.0;
}
static void ellIncomplete( Ctx &t )
{
    const bool unit = t.chance( 1, 8 );
    const float k = unit ? ( t.coin() ? 1.0f : -1.0f ) : ellK( t ), nu = t.chance( 1, 5 ) ? 0.0f : t.f32( -2.0f, 0.95f );
    float p = unit ? t.f32( -1.4f, 1.4f ) : t.chance( 1, 4 ) ? nudge( t, static_cast<float>( static_cast<double>( t.range( 0, 16 ) - 8 )*M_PI_2 ) ) : ( t.coin() ? t.f32( -10.0f, 10.0f ) : t.f32( -1.6f, 1.6f ) );
    const float a = ff::ellint_1( k, p ), b = ff::ellint_2( k, p ), c = ff::ellint_3( k, nu, p );
    const double K = D( k ), P = D( p );
    const double KR = unit ? ( K < 0 ? -1.0 : 1.0 )*( 1.0 - 1e-13 ) : K; // the reference needs |k| < 1
    const double r1 = std::ellint_1( KR, P ), r2 = std::ellint_2( KR, P ), r3 = std::ellint_3( KR, D( nu ), P );
    t.note( "k=%.9g nu=%.9g phi=%.9g -> %.9g, %.9g, %.9g", K, D( nu ), P, D( a ), D( b ), D( c ) );
    // the fast sine and cosine of the reduced amplitude, amplified by the integrand
    const double s = std::sin( P ), q = 1.0 - K*K*s*s;
    const double n = std::floor( std::fabs( P )/M_PI + 0.5 ), kc = ( 1.0 - K )*( 1.0 + K );
    const double d1 = 1.0/std::sqrt( q ), d2 = std::sqrt( q ), d3 = d1/( 1.0 - D( nu )*s*s ), e = 1.35e-3 + 3e-7*std::fabs( P );
    const double n1 = ( n > 0 ) ? n*( 2e-6*std::comp_ellint_1( KR ) + 1.2e-7/kc )*2.0 : 0.0;
    const double n3 = ( n > 0 ) ? 2.0*n*( 3.2e-3*std::comp_ellint_3( KR, D( nu ) ) + 2.4e-7/kc ) : 0.0;
    t.near( "ellint_1", D( a ), r1, e*d1 + n1 + 1e-6*std::fabs( r1 ), "ellint_1(%.9g, %.9g)", K, P );
    t.near( "ellint_2", D( b ), r2, e*std::max( d2, 0.3 ) + n*4e-5*std::comp_ellint_2( KR ) + 1e-6*std::fabs( r2 ), "ellint_2(%.9g, %.9g)", K, P );
    t.near( "ellint_3", D( c ), r3, e*d3*1.5 + n3 + 2e-3*std::fabs( r3 ), "ellint_3(%.9g, %.9g, %.9g)", K, D( nu ), P );
    // closer: the sine and cosine of the reduced amplitude are those of the library, or anything better
    const double sn = std::floor( P/M_PI + 0.5 ), red = P - sn*M_PI;
    if ( std::fabs( std::fabs( red ) - M_PI_2 ) > 1e-5 && !unit ) {
        static const char *const name[ 3 ] = { "ellint_1 close", "ellint_2 close", "ellint_3 close" };
        const double got[ 3 ] = { D( a ), D( b ), D( c ) }, exact[ 3 ] = { r1, r2, r3 };
        const double ls = libSin( red ), lc = D( ff::cos( static_cast<float>( red ) ) ), da = 2e-7 + 3e-7*std::fabs( P );
        const double whole[ 3 ] = { 2.0*sn*std::comp_ellint_1( KR ), 2.0*sn*std::comp_ellint_2( KR ), 2.0*sn*std::comp_ellint_3( KR, D( nu ) ) };
        double m[ 3 ], x[ 3 ], y[ 3 ], z[ 3 ];
        ellParts( K, D( nu ), ls, lc, 0.0, m );
        ellParts( K, D( nu ), ls*( 1.0 - 1e-7 ) - da*lc, lc, 0.0, x );
        ellParts( K, D( nu ), ls, lc + da, 0.0, y );
        ellParts( K, D( nu ), ls, lc, 2e-7, z );
        for ( int i = 0 ; i < 3 ; ++i ) {
            const double sens = std::fabs( x[ i ] - m[ i ] ) + std::fabs( y[ i ] - m[ i ] ) + std::fabs( z[ i ] - m[ i ] );
            const double part = ( i == 0 ) ? n1 + 8e-6*std::fabs( r1 ) : ( i == 1 ) ? n*4e-5*std::comp_ellint_2( KR ) + 4e-5*std::fabs( r2 ) : n3 + 2.6e-3*( std::fabs( r3 ) );
            t.near( name[ i ], got[ i ], either( got[ i ], exact[ i ], m[ i ] + whole[ i ] ), 2.0*sens + part + 1e-7, "%s(%.9g, %.9g; %.9g)", name[ i ], K, P, D( nu ) );
        }
    }
    t.near( "ellint_1 odd", D( ff::ellint_1( k, -p ) ), -D( a ), 2e-3*d1 + 1e-5*std::fabs( r1 ), "ellint_1(%.9g, %.9g)", K, -P );
    if ( k != 0.0f && p != 0.0f ) { t.nontrivial(); }
}
static void ellEdge( Ctx &t )
{
    float k = 1.0f + t.f32log( 1.2e-7f, 1e30f );
    if ( t.coin() ) { k = -k; }
    const float nu = t.f32( -2.0f, 0.9f ), p = t.f32( -3.0f, 3.0f );
    t.nontrivial();
    t.note( "k=%.9g nu=%.9g phi=%.9g", D( k ), D( nu ), D( p ) );
    if ( t.coin() ) {
        t.check( isnan_( ff::comp_ellint_1( k ) ) && isnan_( ff::comp_ellint_2( k ) ) && isnan_( ff::comp_ellint_3( k, nu ) ), "complete elliptic integral outside |k| <= 1 (%.9g): %.9g, %.9g, %.9g", D( k ), D( ff::comp_ellint_1( k ) ), D( ff::comp_ellint_2( k ) ), D( ff::comp_ellint_3( k, nu ) ) );
        t.check( isnan_( ff::ellint_1( k, p ) ) && isnan_( ff::ellint_2( k, p ) ) && isnan_( ff::ellint_3( k, nu, p ) ), "elliptic integral outside |k| <= 1 (%.9g): %.9g, %.9g, %.9g", D( k ), D( ff::ellint_1( k, p ) ), D( ff::ellint_2( k, p ) ), D( ff::ellint_3( k, nu, p ) ) );
    }
    else {
        const float m = t.f32( -0.9f, 0.9f );
        t.check( isnan_( ff::comp_ellint_1( NAN ) ) && isnan_( ff::comp_ellint_2( NAN ) ) && isnan_( ff::comp_ellint_3( NAN, nu ) ) && isnan_( ff::comp_ellint_3( m, NAN ) ), "complete elliptic integral of nan" );
        t.check( isnan_( ff::ellint_1( NAN, p ) ) && isnan_( ff::ellint_2( NAN, p ) ) && isnan_( ff::ellint_3( NAN, nu, p ) ), "elliptic integral of modulus nan" );
        t.check( isnan_( ff::ellint_1( m, NAN ) ) && isnan_( ff::ellint_2( m, NAN ) ) && isnan_( ff::ellint_3( m, nu, NAN ) ) && isnan_( ff::ellint_3( m, NAN, p ) ), "elliptic integral of nan" );
        t.check( pinf( ff::comp_ellint_3( m, 1.0f ) ), "comp_ellint_3(%.9g, 1) = %.9g, expected inf", D( m ), D( ff::comp_ellint_3( m, 1.0f ) ) );
        t.near( "comp_ellint_2(1)", D( ff::comp_ellint_2( t.coin() ? 1.0f : -1.0f ) ), 1.0, 1e-5, "comp_ellint_2 of a unit modulus" );
    }
}
static void expint( Ctx &t )
{
    float x;
    switch ( t.bits( 5 ) ) {
        case 0: x = -t.f32log( 1e-30f, 1.0f ); break;
        case 1: x = -within( t, 0.5f, 87.0f ); break;
        case 2: x = t.f32log( 1e-30f, 1.0f ); break;
        case 3: x = within( t, 0.25f, 40.0f ); break;
        case 4: x = t.f32( 34.0f, 88.0f ); break;
        default: {
            t.check( std::isinf( ff::expint( 0.0f ) ) && ff::expint( 0.0f ) < 0.0f && std::isinf( ff::expint( -0.0f ) ) && ff::expint( -0.0f ) < 0.0f, "expint(0) = %.9g", D( ff::expint( 0.0f ) ) );
            t.check( isnan_( ff::expint( NAN ) ), "expint(nan) = %.9g", D( ff::expint( NAN ) ) );
            x = t.f32log( 94.0f, 1e30f );
            t.check( pinf( ff::expint( x ) ), "expint(%.9g) = %.9g, expected inf", D( x ), D( ff::expint( x ) ) );
            const float g = ff::expint( -x );
            t.check( g <= 0.0f && g > -1.2e-38f, "expint(%.9g) = %.9g, expected an underflow", -D( x ), D( g ) );
            t.nontrivial();
            return;
        }
    }
    const float g = ff::expint( x );
    const double r = std::expint( D( x ) ), X = std::fabs( D( x ) );
    t.note( "expint(%.9g) -> %.9g", D( x ), D( g ) );
    if ( x < 0.0f ) { t.near( x < -1.0f ? "expint<-1" : "expint<0", D( g ), r, std::fabs( r )*( ( x < -1.0f ? 7e-6 : 2e-6 ) + 2e-7*X ) + 1e-38, "expint(%.9g)", D( x ) ); }
    else { t.near( x < 36.0f ? "expint>0" : "expint>36", D( g ), r, std::fabs( r )*( 6e-7 + 1.3e-7*X ) + 7e-7*( 1.0 + std::fabs( std::log( X ) ) ), "expint(%.9g)", D( x ) ); }
    t.nontrivial();
}
static void zeta( Ctx &t )
{
    float s;
    switch ( t.bits( 4 ) ) {
        case 0: s = t.coin() ? 1.0f + t.f32log( 1e-4f, 1.0f ) : 1.0f - t.f32log( 1e-4f, 1.0f ); break;
        case 1: s = t.chance( 1, 3 ) ? t.f32( 0.0f, 1.0f ) : within( t, 1.0f, 25.0f ); break;
        case 2: s = t.coin() ? t.f32( 19.0f, 130.0f ) : t.f32log( 100.0f, FLT_MAX ); break;
        case 3: s = -within( t, 0.0625f, 20.0f ); break;
        default: s = -t.f32( 0.0f, 50.0f ); break;
    }
    if ( t.chance( 1, 30 ) ) {
        t.check( isnan_( ff::riemann_zeta( NAN ) ) && std::isinf( ff::riemann_zeta( 1.0f ) ), "riemann_zeta(nan, 1) = %.9g, %.9g", D( ff::riemann_zeta( NAN ) ), D( ff::riemann_zeta( 1.0f ) ) );
    }
    if ( s == 1.0f ) { return; }
    const float g = ff::riemann_zeta( s );
    // the float neighbours of the pole count as the pole for the library's tolerant comparison
    if ( std::fabs( D( s ) - 1.0 ) < 1.2e-7 ) { t.check( std::fabs( g ) > 2e6f, "riemann_zeta(%.9g) = %.9g next to the pole", D( s ), D( g ) ); return; }
    const double S = D( s ), r = ( S > 130.0 ) ? 1.0 : std::riemann_zeta( S );
    t.note( "riemann_zeta(%.9g) -> %.9g", S, D( g ) );
    if ( s >= 0.0f ) { t.near( s < 1.0f ? "zeta<1" : "zeta>1", D( g ), r, std::fabs( r )*2.5e-6 + 2.5e-7/std::fabs( S - 1.0 )*std::fabs( r ), "riemann_zeta(%.9g)", S ); }
    else {
        // reflection: the fast sine is the only coarse factor
        const double env = std::fabs( 2.0*std::exp( std::lgamma( 1.0 - S ) + ( S - 1.0 )*std::log( 2.0*M_PI ) )*std::riemann_zeta( 1.0 - S ) );
        const double sn = std::fabs( std::sin( M_PI_2*S ) );
        (void)sn;
        t.near( s < -19.0f ? "zeta<-19" : "zeta<0", D( g ), either( D( g ), r, env*libSin( M_PI_2*S ) ), env*( 1e-6 + 4e-7*std::fabs( S ) ) + std::fabs( r )*( 3e-6 + 2e-6*std::fabs( S ) ), "riemann_zeta(%.9g)", S );
    }
    t.nontrivial();
}
namespace pbt {
const std::vector<Sub>& subs()
{
    static const std::vector<Sub> s = {
        { "gamma, positive arguments", gammaPos, 200000 }, { "gamma, negative arguments", gammaNeg, 150000 }, { "gamma, poles and limits", gammaEdge, 60000 },
        { "beta", betaFn, 150000 }, { "complete elliptic integrals", ellComplete, 60000 }, { "incomplete elliptic integrals", ellIncomplete, 60000 },
        { "elliptic integrals, domain", ellEdge, 20000 }, { "exponential integral", expint, 150000 }, { "zeta", zeta, 20000 },
    };
    return s;
}
}
