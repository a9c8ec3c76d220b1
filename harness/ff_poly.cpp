// P30: orthogonal polynomials and spherical Legendre functions
#include <pbt.hpp>
#include <qlibs.h>
#include <cmath>
#include <cfloat>
namespace pbt {
const char *const PROPERTY = "P30";
const char *const RULE = "degrees from 0 to 300 (some to 2500) and orders from 0 to 20 (orders above the degree included), arguments over the documented domain with its ends, zero and their neighbours, compared with extended-precision recurrences within a budget of rounding errors, plus parity, values at the ends, domain errors and nan; non-trivial = degree of two or more and an interior argument";
}
namespace ff = qlibs::ffmath;
using pbt::Ctx;
typedef long double LD;
static double D( float x ) { return static_cast<double>( x ); }
static double D( LD x ) { return static_cast<double>( x ); }
static bool isnan_( float x ) { return std::isnan( x ); }
static float nudge( Ctx &t, float x )
{
    const int64_t n = t.range( 0, 6 ) - 3;
    for ( int64_t i = 0 ; i < std::llabs( n ) ; ++i ) { x = std::nextafterf( x, n > 0 ? INFINITY : -INFINITY ); }
    return x;
}
static size_t degree( Ctx &t, int64_t hi ) { return static_cast<size_t>( t.coin() ? t.range( 0, 6 ) : t.range( 0, hi ) ); }
static float unit( Ctx &t )
{
    float x;
    switch ( t.bits( 4 ) ) {
        case 0: { static const float e[] = { 0.0f, -1.0f, 1.0f, 0.5f, -0.5f }; x = nudge( t, t.pick( e ) ); break; }
        case 1: x = 1.0f - t.f32log( 1e-6f, 1.0f ); break;
        case 2: x = -1.0f + t.f32log( 1e-6f, 1.0f ); break;
        default: x = t.f32( -1.0f, 1.0f ); break;
    }
    return ( x > 1.0f ) ? 1.0f : ( ( x < -1.0f ) ? -1.0f : x );
}
static LD refLegendre( size_t l, size_t m, LD x )
{
    if ( m > l ) { return 0; }
    LD p = 1;
    const LD s = sqrtl( ( 1 - x )*( 1 + x ) );
    for ( size_t i = 1 ; i <= m ; ++i ) { p *= static_cast<LD>( 2u*i - 1u )*s; }
    if ( l == m ) { return p; }
    LD q = x*static_cast<LD>( 2u*m + 1u )*p;
    for ( size_t k = m + 2u ; k <= l ; ++k ) {
        const LD r = ( static_cast<LD>( 2u*k - 1u )*x*q - static_cast<LD>( k + m - 1u )*p )/static_cast<LD>( k - m );
        p = q;
        q = r;
    }
    return q;
}
static void legendreP( Ctx &t )
{
    const size_t n = degree( t, t.chance( 1, 6 ) ? ( t.chance( 1, 8 ) ? 2500 : 300 ) : 100 );
    const float x = unit( t ), g = ff::legendre( n, x );
    const double r = D( refLegendre( n, 0, x ) );
    t.note( "legendre(%zu, %.9g) -> %.9g", n, D( x ), D( g ) );
    t.near( "legendre", D( g ), r, 2.5e-7*( 1.0 + static_cast<double>( n ) ) + 1e-8*static_cast<double>( n*n ), "legendre(%zu, %.9g)", n, D( x ) );
    const float h = ff::legendre( n, -x );
    t.check( std::fabs( D( h ) - ( n % 2u ? -D( g ) : D( g ) ) ) <= 2.5e-7*( 1.0 + static_cast<double>( n ) ), "legendre(%zu, %.9g) = %.9g and at the opposite argument %.9g", n, D( x ), D( g ), D( h ) );
    t.near( "legendre", D( ff::assoc_legendre( n, 0, x ) ), r, 2.5e-7*( 1.0 + static_cast<double>( n ) ) + 1e-8*static_cast<double>( n*n ), "assoc_legendre(%zu, 0, %.9g)", n, D( x ) );
    const double edge = 2.5e-7*( 1.0 + static_cast<double>( n ) );
    t.check( std::fabs( D( ff::legendre( n, 1.0f ) ) - 1.0 ) <= edge && std::fabs( D( ff::legendre( n, -1.0f ) ) - ( n % 2u ? -1.0 : 1.0 ) ) <= edge, "legendre(%zu) at the ends: %.9g, %.9g", n, D( ff::legendre( n, 1.0f ) ), D( ff::legendre( n, -1.0f ) ) );
    if ( n > 1u ) { t.nontrivial(); }
}
static void legendrePm( Ctx &t )
{
    const size_t n = degree( t, t.chance( 1, 6 ) ? 300 : 40 ), m = t.chance( 1, 8 ) ? n + static_cast<size_t>( t.range( 0, 3 ) ) : static_cast<size_t>( t.range( 0, static_cast<int64_t>( std::min<size_t>( n, 20u ) ) ) );
    const float x = unit( t ), g = ff::assoc_legendre( n, m, x );
    t.note( "assoc_legendre(%zu, %zu, %.9g) -> %.9g", n, m, D( x ), D( g ) );
    if ( m > n ) { t.check( g == 0.0f, "assoc_legendre(%zu, %zu, %.9g) = %.9g, expected 0", n, m, D( x ), D( g ) ); return; }
    const double r = D( refLegendre( n, m, x ) );
    const double bound = std::exp( 0.5*( std::lgamma( static_cast<double>( n + m ) + 1.0 ) - std::lgamma( static_cast<double>( n - m ) + 1.0 ) ) );
    if ( bound > 1e34 ) { return; }
    t.near( "assoc_legendre", D( g ), r, std::fabs( r )*4e-6*static_cast<double>( m ) + bound*( 3e-7*( 1.0 + static_cast<double>( n ) ) + 1e-8*static_cast<double>( n*n ) ), "assoc_legendre(%zu, %zu, %.9g)", n, m, D( x ) );
    if ( n > 1u && m > 0u && std::fabs( x ) < 1.0f ) { t.nontrivial(); }
}
static void hermiteH( Ctx &t )
{
    const size_t n = degree( t, t.chance( 1, 4 ) ? 70 : 40 );
    float x = t.coin() ? t.f32( -4.0f, 4.0f ) : t.f32log( 1e-6f, 1000.0f );
    if ( t.coin() ) { x = -x; }
    LD a = 1, b = 2*static_cast<LD>( x ), A = 1, B = 2*fabsl( x );
    for ( size_t k = 2 ; k <= n ; ++k ) {
        const LD c = 2*( x*b - static_cast<LD>( k - 1u )*a ), C = 2*( fabsl( x )*B + static_cast<LD>( k - 1u )*A );
        a = b; b = c; A = B; B = C;
    }
    if ( n == 0u ) { b = B = 1; }
    if ( B > 1e37L || A > 1e36L ) { return; }
    const float g = ff::hermite( n, x ), h = ff::hermite( n, -x );
    t.note( "hermite(%zu, %.9g) -> %.9g", n, D( x ), D( g ) );
    t.near( "hermite", D( g ), D( b ), D( B )*( 5e-7 + 2e-8*static_cast<double>( n ) ), "hermite(%zu, %.9g)", n, D( x ) );
    t.check( std::fabs( D( h ) - ( n % 2u ? -D( g ) : D( g ) ) ) <= D( B )*( 5e-7 + 2e-8*static_cast<double>( n ) ), "hermite(%zu, %.9g) = %.9g and at the opposite argument %.9g", n, D( x ), D( g ), D( h ) );
    if ( n > 1u && x != 0.0f ) { t.nontrivial(); }
}
static void laguerreL( Ctx &t )
{
    const size_t n = degree( t, t.chance( 1, 6 ) ? ( t.chance( 1, 8 ) ? 2500 : 300 ) : 60 ), m = t.chance( 1, 3 ) ? 0u : static_cast<size_t>( t.range( 0, 20 ) );
    const float x = t.chance( 1, 8 ) ? 0.0f : ( t.coin() ? t.f32( 0.0f, 20.0f ) : t.f32log( 1e-6f, 300.0f ) );
    LD a = 1, b = 1 + static_cast<LD>( m ) - x, A = 1, B = 1 + static_cast<LD>( m ) + x;
    for ( size_t k = 2 ; k <= n ; ++k ) {
        const LD kk = static_cast<LD>( k ), mm = static_cast<LD>( m );
        const LD c = ( ( 2*kk - 1 + mm - x )*b - ( kk - 1 + mm )*a )/kk;
        const LD C = ( ( 2*kk - 1 + mm + x )*B - ( kk - 1 + mm )*A )/kk; // sum of the magnitudes of the monomials
        a = b; b = c; A = B; B = C;
    }
    if ( n == 0u ) { b = B = 1; }
    const double bound = std::exp( D( x )/2.0 + std::lgamma( static_cast<double>( n + m ) + 1.0 ) - std::lgamma( static_cast<double>( n ) + 1.0 ) - std::lgamma( static_cast<double>( m ) + 1.0 ) );
    const double cond = std::min( D( B ), bound*( 1.0 + static_cast<double>( n ) ) );
    if ( D( fabsl( b ) ) > 1e36 || cond > 1e37 ) { return; }
    const float g = ff::assoc_laguerre( n, m, x );
    t.note( "assoc_laguerre(%zu, %zu, %.9g) -> %.9g", n, m, D( x ), D( g ) );
    t.near( "assoc_laguerre", D( g ), D( b ), cond*( 5e-7*( 1.0 + static_cast<double>( n ) ) + 3e-8*static_cast<double>( n*n ) ), "assoc_laguerre(%zu, %zu, %.9g)", n, m, D( x ) );
    if ( m == 0u ) { t.near( "assoc_laguerre", D( ff::laguerre( n, x ) ), D( b ), cond*( 5e-7*( 1.0 + static_cast<double>( n ) ) + 3e-8*static_cast<double>( n*n ) ), "laguerre(%zu, %.9g)", n, D( x ) ); }
    if ( n > 1u && x != 0.0f ) { t.nontrivial(); }
}
static double refSph( size_t l, size_t m, double x )
{
    const double c = 0.5*( std::log( ( 2.0*static_cast<double>( l ) + 1.0 )/( 4.0*M_PI ) ) + std::lgamma( static_cast<double>( l - m ) + 1.0 ) - std::lgamma( static_cast<double>( l + m ) + 1.0 ) );
    return ( m % 2u ? -1.0 : 1.0 )*std::exp( c )*D( refLegendre( l, m, static_cast<LD>( x ) ) );
}
static void sphLegendre( Ctx &t )
{
    const size_t l = degree( t, t.chance( 1, 4 ) ? 90 : 20 ), m = t.chance( 1, 8 ) ? l + static_cast<size_t>( t.range( 0, 3 ) ) : static_cast<size_t>( t.range( 0, static_cast<int64_t>( l ) ) );
    float th;
    switch ( t.bits( 3 ) ) {
        case 0: { static const float e[] = { 0.0f, 3.14159265f, 1.57079633f, 0.78539816f }; th = std::fabs( nudge( t, t.pick( e ) ) ); break; }
        case 1: th = t.f32log( 1e-7f, 1.0f ); break;
        default: th = t.f32( 0.0f, 3.1415927f ); break;
    }
    const float g = ff::sph_legendre( l, m, th );
    t.note( "sph_legendre(%zu, %zu, %.9g) -> %.9g", l, m, D( th ), D( g ) );
    if ( m > l ) { t.check( g == 0.0f, "sph_legendre(%zu, %zu, %.9g) = %.9g, expected 0", l, m, D( th ), D( g ) ); return; }
    // range of the function over the uncertainty of the fast cosine
    // the cosine is that of the library (whose own error is the business of another property) or anything
    // better: the result has to agree with one of the two, within the rounding of that cosine
    double best = INFINITY, ref = 0.0, tol = 1.0;
    for ( int w = 0 ; w < 2 ; ++w ) {
        const double x = w ? std::cos( D( th ) ) : std::max( -1.0, std::min( 1.0, D( ff::cos( th ) ) ) );
        const double r = refSph( l, m, x ), d = 1.5e-7;
        const double va = refSph( l, m, std::max( -1.0, std::min( 1.0, x + d ) ) ), vb = refSph( l, m, std::max( -1.0, std::min( 1.0, x - d ) ) );
        const double tl = std::max( std::fabs( va - r ), std::fabs( vb - r ) ) + 4e-6*( 1.0 + static_cast<double>( l ) ) + 2.5e-7*static_cast<double>( l*l );
        const double q = std::fabs( D( g ) - r )/tl;
        if ( q < best ) { best = q; ref = r; tol = tl; }
    }
    t.near( "sph_legendre", D( g ), ref, tol, "sph_legendre(%zu, %zu, %.9g)", l, m, D( th ) );
    if ( l > 1u ) { t.nontrivial(); }
}
static void domain( Ctx &t )
{
    const size_t n = degree( t, 40 ), m = static_cast<size_t>( t.range( 0, 10 ) );
    float x = 1.0f + t.f32log( 1.2e-7f, 1e10f );
    if ( t.coin() ) { x = -x; }
    const float neg = -t.f32log( 1e-30f, 1e10f );
    t.nontrivial();
    t.note( "n=%zu m=%zu x=%.9g negative=%.9g", n, m, D( x ), D( neg ) );
    t.check( isnan_( ff::assoc_legendre( n, m, x ) ), "assoc_legendre(%zu, %zu, %.9g) = %.9g, expected nan", n, m, D( x ), D( ff::assoc_legendre( n, m, x ) ) );
    t.check( isnan_( ff::assoc_laguerre( n, m, neg ) ) && isnan_( ff::laguerre( n, neg ) ), "Laguerre polynomials of a negative argument %.9g: %.9g, %.9g", D( neg ), D( ff::assoc_laguerre( n, m, neg ) ), D( ff::laguerre( n, neg ) ) );
    t.check( isnan_( ff::assoc_legendre( n, m, NAN ) ) && isnan_( ff::legendre( n, NAN ) ) && isnan_( ff::hermite( n, NAN ) ) && isnan_( ff::assoc_laguerre( n, m, NAN ) ) && isnan_( ff::laguerre( n, NAN ) ) && isnan_( ff::sph_legendre( n, m, NAN ) ), "polynomials of degree %zu, order %zu at nan are not all nan", n, m );
}
namespace pbt {
const std::vector<Sub>& subs()
{
    static const std::vector<Sub> s = {
        { "Legendre", legendreP, 150000 }, { "associated Legendre", legendrePm, 150000 }, { "Hermite", hermiteH, 150000 },
        { "Laguerre", laguerreL, 150000 }, { "spherical Legendre", sphLegendre, 60000 }, { "domain", domain, 40000 },
    };
    return s;
}
}
