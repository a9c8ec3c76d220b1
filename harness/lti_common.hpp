#ifndef LTI_COMMON_HPP
#define LTI_COMMON_HPP
#include <pbt.hpp>
#include <qlibs.h>
using namespace qlibs;
using pbt::Ctx;
typedef std::vector<double> V;
// polynomial from roots, highest power first
static V polyMul( const V &a, const V &b )
{
    V r( a.size() + b.size() - 1u, 0.0 );
    for ( size_t i = 0; i < a.size(); ++i ) { for ( size_t j = 0; j < b.size(); ++j ) { r[ i + j ] += a[ i ]*b[ j ]; } }
    return r;
}
// heap copy of exactly the right size, so that an access past it is caught
struct Arr {
    std::unique_ptr<float[]> p;
    size_t n;
    explicit Arr( const V &v ) : p( new float[ v.size() ] ), n( v.size() ) { for ( size_t i = 0; i < n; ++i ) { p[ i ] = static_cast<float>( v[ i ] ); } }
    Arr( size_t k, float x ) : p( new float[ k ] ), n( k ) { for ( size_t i = 0; i < n; ++i ) { p[ i ] = x; } }
    float* get() { return p.get(); }
    V vec() const { V v( n ); for ( size_t i = 0; i < n; ++i ) { v[ i ] = p[ i ]; } return v; }
};
static std::string show( const V &v ) { std::string s = "["; for ( double d : v ) { char b[ 40 ]; snprintf( b, sizeof b, " %.9g", d ); s += b; } return s + " ]"; }
struct Input {
    int kind{ 0 };
    double last{ 0 };
    size_t k{ 0 };
    double unit{ 1 }; // the signals are measured in this unit
    Input() = default;
    explicit Input( Ctx &t ) { if ( t.chance( 1, 3 ) ) { unit = std::ldexp( 1.0, static_cast<int>( t.bits( 40 ) ) - 20 ); t.note( "unit %g", unit ); } }
    float next( Ctx &t )
    {
        switch ( t.bits( 7 ) ) {
            case 0: last = 0; break;
            case 1: last = 1; break;
            case 2: last = -1; break;
            case 3: case 4: break; // hold
            default: last = t.f32( -2.0f, 2.0f ); break;
        }
        ++k;
        return static_cast<float>( last*unit );
    }
};

// stable discrete denominator of degree d: roots inside radius R
static V stableDen( Ctx &t, size_t d, float R )
{
    V p{ 1.0 };
    while ( d > 0u ) {
        if ( d >= 2u && t.coin() ) {
            const double r = t.f32( 0.0f, R ), th = t.f32( 0.0f, 3.1416f );
            p = polyMul( p, V{ 1.0, -2.0*r*std::cos( th ), r*r } );
            d -= 2u;
        }
        else { p = polyMul( p, V{ 1.0, -static_cast<double>( t.f32( -R, R ) ) } ); d -= 1u; }
    }
    return p;
}
// n coefficients of which a few, among them the last, differ from zero; their absolute values add up to less than g
static V sparse( Ctx &t, size_t n, double g )
{
    V v( n, 0.0 );
    const size_t k = 2u + t.bits( 10 );
    for ( size_t i = 0; i < k; ++i ) {
        const size_t at = ( i == 0u ) ? n - 1u : ( t.coin() ? t.bits( std::min<size_t>( n - 1u, 12u ) ) : t.bits( n - 1u ) );
        v[ at ] = static_cast<float>( g*static_cast<double>( t.f32( 0.2f, 0.99f )*( t.coin() ? 1.0f : -1.0f ) )/static_cast<double>( k ) );
    }
    return v;
}
// a discrete system with its double-precision model (direct form II)
struct DModel {
    V b, a, x; // normalised; a without the leading 1
    double vmax{ 0 };
    void set( const V &num, const V &den )
    {
        b.clear(); a.clear();
        for ( double v : num ) { b.push_back( v/den[ 0 ] ); }
        for ( size_t i = 1; i < den.size(); ++i ) { a.push_back( den[ i ]/den[ 0 ] ); }
        x.assign( std::max( a.size(), b.size() ), 0.0 );
        vmax = 0;
    }
    double step( double u )
    {
        double v = u;
        for ( size_t i = 0; i < a.size(); ++i ) { v -= a[ i ]*x[ i ]; vmax = std::max( vmax, std::fabs( a[ i ]*x[ i ] ) ); }
        for ( size_t i = x.size() - 1u; i >= 1u; --i ) { x[ i ] = x[ i - 1u ]; }
        x[ 0 ] = v;
        vmax = std::max( vmax, std::max( std::fabs( v ), std::fabs( u ) ) );
        double y = 0;
        for ( size_t i = 0; i < b.size(); ++i ) { y += b[ i ]*x[ i ]; }
        return y;
    }
    double gain() const { double g = 0; for ( double v : b ) { g += std::fabs( v ); } return g; }
    double tol() const { return 2e-4*vmax*gain() + 1e-37; }
};
// other systems at work beside the one under test
struct Bystander {
    bool on;
    float dn[ 2 ] = { 0.5f, 0.25f }, dd[ 3 ] = { 2.0f, -0.6f, 0.2f }, dx[ 3 ] = { 0, 0, 0 };
    float cn[ 3 ] = { 0.0f, 1.0f, 2.0f }, cd[ 3 ] = { 2.0f, 3.0f, 4.0f };
    nState cx[ 2 ];
    float w1[ 3 ], w2[ 5 ];
    discreteSystem d{ dn, dd, dx, size_t( 2u ), size_t( 3u ) };
    continuousSystem c{ cn, cd, cx, size_t( 2u ), 0.37f };
    explicit Bystander( Ctx &t ) : on( t.chance( 1, 4 ) )
    {
        if ( on ) {
            t.check( d.isInitialized() && c.isInitialized(), "set-up" );
            if ( t.coin() ) { d.setSaturation( -0.3f, 0.2f ); c.setSaturation( -0.1f, 0.4f ); }
            if ( t.coin() ) { d.setDelay( w1, 3u, 0.7f ); c.setDelay( w2, 5u, -0.7f ); }
            if ( t.coin() ) { c.setIntegrationMethod( INTEGRATION_SIMPSON ); }
            t.note( "two other systems beside" );
        }
    }
    void poke( Ctx &t )
    {
        if ( !on || !t.chance( 1, 3 ) ) { return; }
        switch ( t.bits( 7 ) ) {
            case 0: d.setInitStates(); break;
            case 1: c.setInitStates(); break;
            case 2: d.setSaturation( -0.2f, 0.9f ); break;
            case 3: c.setSaturation( -0.7f, 0.1f ); break;
            default: (void)d.excite( t.f32( -2.0f, 2.0f ) ); (void)c.excite( t.f32( -2.0f, 2.0f ) ); break;
        }
    }
};
#endif
