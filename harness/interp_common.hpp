#ifndef INTERP_COMMON_HPP
#define INTERP_COMMON_HPP
#include <pbt.hpp>
#include <qlibs.h>
using namespace qlibs;
using pbt::Ctx;
static const char *const INAME[] = { "next", "previous", "nearest", "linear", "sine", "cubic", "hermite", "spline", "constrained spline" };
static const size_t MINSIZE[] = { 2, 2, 2, 2, 2, 4, 2, 4, 4 };
struct Table {
    std::unique_ptr<float[]> x, y; // exactly sized, so that a read outside is caught
    size_t n;
    float sx{ 1.0f }; // unit of the abscissae
    explicit Table( size_t k ) : x( new float[ k ] ), y( new float[ k ] ), n( k ) {}
    std::string show() const { std::string s; char b[ 60 ]; for ( size_t i = 0; i < n; ++i ) { snprintf( b, sizeof b, " (%.9g, %.9g)", x[ i ], y[ i ] ); s += b; } return s; }
};
static Table drawTable( Ctx &t, size_t lo, size_t hi, bool scaled = true )
{
    Table T( t.size( lo, hi ) );
    const bool uniform = t.coin();
    const float h0 = t.f32log( 0.2f, 4.0f );
    float x = t.chance( 1, 6 ) ? t.f32( -300.0f, 300.0f ) : t.f32( -4.0f, 4.0f ), y = 0;
    const float A = t.f32log( 0.1f, 50.0f );
    const unsigned shape = static_cast<unsigned>( t.bits( 4 ) );
    for ( size_t i = 0; i < T.n; ++i ) {
        T.x[ i ] = x;
        x += uniform ? h0 : h0*t.f32( 0.3f, 2.0f );
        switch ( shape ) {
            case 0: y = t.f32( -A, A ); break;
            case 1: y += t.f32( 0.0f, 1.0f )*A; break;                      // non-decreasing
            case 2: y -= t.f32( 0.0f, 1.0f )*A; break;                      // non-increasing
            case 3: if ( t.coin() ) { y = t.f32( -A, A ); } break;          // plateaus
            default: y = A*static_cast<float>( t.range( -3, 3 ) ); break;   // few levels
        }
        T.y[ i ] = y;
    }
    if ( scaled && t.chance( 1, 3 ) ) { // other units: powers of two, from a millionth to a million
        T.sx = std::ldexp( 1.0f, static_cast<int>( t.range( -20, 20 ) ) );
        const float sy = std::ldexp( 1.0f, static_cast<int>( t.range( -20, 20 ) ) );
        for ( size_t i = 0; i < T.n; ++i ) { T.x[ i ] *= T.sx; T.y[ i ] *= sy; }
    }
    return T;
}
static float drawX( Ctx &t, const Table &T, int m = -1 )
{
    const float a = T.x[ 0 ], b = T.x[ T.n - 1u ];
    if ( m >= 0 && t.chance( 1, 12 ) ) { // far outside
        const bool wild = m <= INTERP1_LINEAR || m == INTERP1_HERMITE;
        const float d = wild ? ( b - a )*t.f32log( 1.0f, 1e5f ) : ( t.coin() ? b - T.x[ T.n - 2u ] : T.x[ 1 ] - a )*t.f32( 1.0f, 8.0f );
        return t.coin() ? a - d : b + d;
    }
    switch ( t.bits( 7 ) ) {
        case 0: return T.x[ t.idx( T.n ) ];
        case 1: { const float v = T.x[ t.idx( T.n ) ]; return std::nextafter( v, t.coin() ? 1e9f : -1e9f ); }
        case 2: return a - t.f32( 0.0f, 1.0f )*( T.x[ 1 ] - a );
        case 3: return b + t.f32( 0.0f, 1.0f )*( b - T.x[ T.n - 2u ] );
        case 4: { const size_t i = t.idx( T.n - 1u ); return 0.5f*( T.x[ i ] + T.x[ i + 1u ] ); }
        default: return t.f32( a, b );
    }
}
// index of the interval used for x (the end intervals extend outwards)
static size_t interval( const Table &T, double x )
{
    size_t i = 0;
    while ( i + 2u < T.n && x >= T.x[ i + 1u ] ) { ++i; }
    return i;
}
struct Ref { double y, scale; };
static double slopeC( const Table &T, size_t i ) // constrained spline: derivative at point i
{
    const size_t n = T.n - 1u;
    auto s = [&]( size_t k ) { return ( static_cast<double>( T.y[ k + 1u ] ) - T.y[ k ] )/( static_cast<double>( T.x[ k + 1u ] ) - T.x[ k ] ); };
    if ( i == 0u ) { return 1.5*s( 0 ) - 0.5*slopeC( T, 1 ); }
    if ( i == n ) { return 1.5*s( n - 1u ) - 0.5*slopeC( T, n - 1u ); }
    const double a = s( i - 1u ), b = s( i );
    return ( a*b <= 0 ) ? 0.0 : 2.0*a*b/( a + b );
}
static Ref hermitePoly( double x, double x0, double x1, double y0, double y1, double m0, double m1 )
{
    const double h = x1 - x0, s = ( x - x0 )/h, s2 = s*s, s3 = s2*s;
    const double a = 2*s3 - 3*s2 + 1, b = s3 - 2*s2 + s, c = 3*s2 - 2*s3, d = s3 - s2;
    const double as = 2*std::fabs( s3 ) + 3*s2;
    return { a*y0 + b*h*m0 + c*y1 + d*h*m1, ( as + 1 )*std::fabs( y0 ) + as*std::fabs( y1 ) + ( std::fabs( s3 ) + 2*s2 + std::fabs( s ) )*std::fabs( h*m0 ) + ( std::fabs( s3 ) + s2 )*std::fabs( h*m1 ) };
}
static Ref definition( int m, const Table &T, double x )
{
    const size_t n = T.n;
    auto X = [&]( size_t k ) { return static_cast<double>( T.x[ k ] ); };
    auto Y = [&]( size_t k ) { return static_cast<double>( T.y[ k ] ); };
    const size_t i = interval( T, x );
    const double x0 = X( i ), x1 = X( i + 1u ), y0 = Y( i ), y1 = Y( i + 1u ), h = x1 - x0, s = ( y1 - y0 )/h;
    switch ( m ) {
        case INTERP1_NEXT: { size_t k = 0; while ( k + 1u < n && x > X( k ) ) { ++k; } return { Y( k ), 0 }; }
        case INTERP1_PREVIOUS: { size_t k = n - 1u; while ( k > 0u && x < X( k ) ) { --k; } return { Y( k ), 0 }; }
        case INTERP1_NEAREST: { size_t k = 0; for ( size_t j = 1; j < n; ++j ) { if ( std::fabs( x - X( j ) ) <= std::fabs( x - X( k ) ) ) { k = j; } } return { Y( k ), 0 }; }
        case INTERP1_LINEAR: return { y0 + s*( x - x0 ), std::fabs( y0 ) + std::fabs( y1 ) + ( std::fabs( y0 ) + std::fabs( y1 ) )/h*std::fabs( x - x0 ) };
        case INTERP1_SINE: { const double w = 0.5 - 0.5*std::cos( M_PI*( x - x0 )/h ); return { y0 + w*( y1 - y0 ), ( std::fabs( y0 ) + std::fabs( y1 ) )*( 2.0 + std::fabs( x )/h ) + 3e2*std::fabs( y1 - y0 ) }; } // the library's cosine is good to 9.2e-4
        case INTERP1_CUBIC: { const double m0 = i > 0u ? ( y0 - Y( i - 1u ) )/( x0 - X( i - 1u ) ) : s; return hermitePoly( x, x0, x1, y0, y1, m0, s ); }
        case INTERP1_HERMITE: {
            if ( x < X( 0 ) || x > X( n - 1u ) ) { return definition( INTERP1_LINEAR, T, x ); }
            double v = 0, sc = 0;
            for ( size_t a = 0; a < n; ++a ) { double p = Y( a ); for ( size_t b = 0; b < n; ++b ) { if ( a != b ) { p *= ( x - X( b ) )/( X( a ) - X( b ) ); } } v += p; sc += std::fabs( p ); }
            return { v, sc*3.0 };
        }
        case INTERP1_SPLINE: {
            auto mm = [&]( size_t k ) { const size_t a = k > 0u ? k - 1u : 0u, b = k + 1u < n ? k + 1u : n - 1u; return ( Y( b ) - Y( a ) )/( X( b ) - X( a ) ); };
            return hermitePoly( x, x0, x1, y0, y1, mm( i ), mm( i + 1u ) );
        }
        default: {
            const double m0 = slopeC( T, i ), m1 = slopeC( T, i + 1u );
            Ref r = hermitePoly( x, x0, x1, y0, y1, m0, m1 );
            // the power form loses accuracy with the distance of the interval from zero
            const double q = ( std::fabs( x0 ) + std::fabs( x1 ) + std::fabs( x ) + h )/h;
            r.scale = ( std::fabs( y0 ) + std::fabs( y1 ) + h*( std::fabs( m0 ) + std::fabs( m1 ) ) )*q*q*q;
            return r;
        }
    }
}
// at a table point either neighbouring interval may be used, so the rounding
// scale covers the neighbouring values as well
static Ref reference( int m, const Table &T, double x )
{
    Ref r = definition( m, T, x );
    const size_t i = interval( T, x ), lo = i > 2u ? i - 2u : 0u, hi = std::min( T.n - 1u, i + 3u );
    double ym = 0;
    for ( size_t k = lo; k <= hi; ++k ) { ym = std::max( ym, std::fabs( static_cast<double>( T.y[ k ] ) ) ); }
    r.scale += 2.0*ym;
    return r;
}
static const double RTOL[] = { 0, 0, 0, 6e-7, 2e-6, 7e-7, 7e-7, 7e-7, 4e-7 };
#endif
