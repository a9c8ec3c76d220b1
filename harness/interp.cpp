// P23: each interpolation method computes its definition, inside and beyond the table
#include "interp_common.hpp"
namespace pbt {
const char *const PROPERTY = "P23";
const char *const RULE = "random ascending tables of 2..12 points, one in 150 of up to 300 points, a few of about 65550 (uniform and irregular spacing; arbitrary, monotone, plateaued and few-level values, units from a millionth to a million) queried at table points, one ulp beside them, midpoints, inside, beyond and far beyond both ends with each of the nine methods, on exactly sized heap arrays, compared with a double-precision definition of the method; table and method are switched during a run; non-trivial = the query is strictly between two table points or beyond an end";
}
static void check( Ctx &t, interp1 &ip, const Table &T, int m )
{
    const float x = drawX( t, T, m );
    const float y = ip.get( x );
    const Ref r = reference( m, T, x );
    t.note( "%s at %.9g -> %.9g (reference %.9g), table%s", INAME[ m ], x, y, r.y, T.show().c_str() );
    if ( m == INTERP1_NEAREST ) {
        double d = 1e30;
        for ( size_t i = 0; i < T.n; ++i ) { d = std::min( d, std::fabs( static_cast<double>( x ) - T.x[ i ] ) ); }
        bool ok = false;
        for ( size_t i = 0; i < T.n; ++i ) { ok = ok || ( y == T.y[ i ] && std::fabs( static_cast<double>( x ) - T.x[ i ] ) <= d + 2e-6*( std::fabs( static_cast<double>( x ) ) + d ) ); }
        t.check( ok, "nearest at %.9g is %.9g, expected %.9g", x, y, r.y );
    }
    else if ( m == INTERP1_NEXT || m == INTERP1_PREVIOUS ) { t.check( y == static_cast<float>( r.y ), "%s at %.9g is %.9g, expected %.9g", INAME[ m ], x, y, r.y ); }
    else { t.near( INAME[ m ], y, r.y, RTOL[ m ]*r.scale + 1e-30, "table%s, x=%.9g", T.show().c_str(), x ); }
    bool knot = false;
    for ( size_t i = 0; i < T.n; ++i ) { knot = knot || x == T.x[ i ]; }
    if ( !knot ) { t.nontrivial(); }
}
template <int M> static void method( Ctx &t )
{
    static const size_t wide[] = { 127, 128, 129, 255, 256, 257, 300 };
    const size_t w = ( M != INTERP1_HERMITE && t.chance( 1, 150 ) ) ? t.pick( wide ) : 0u;
    Table T = w ? drawTable( t, w, w ) : drawTable( t, MINSIZE[ M ], M == INTERP1_HERMITE ? 7u : 12u );
    pbt::Junk<interp1> ip( static_cast<uint8_t>( t.bits( 255 ) ), T.x.get(), T.y.get(), T.n );
    if ( M != INTERP1_LINEAR || t.coin() ) { t.check( ip->setMethod( static_cast<interp1Method>( M ) ), "method refused" ); }
    const size_t q = 1u + t.bits( 5 );
    for ( size_t i = 0; i < q; ++i ) { check( t, *ip, T, M ); }
}
static void switching( Ctx &t )
{
    Table A = drawTable( t, 4, 7 ), B = drawTable( t, 4, 7 );
    pbt::Junk<interp1> ip( 0x5A, A.x.get(), A.y.get(), A.n );
    const Table *T = &A;
    int m = INTERP1_LINEAR;
    const size_t ops = t.size( 2, 30 );
    for ( size_t i = 0; i < ops; ++i ) {
        switch ( t.bits( 5 ) ) {
            case 5: { // other values in the same arrays, or a part of the table
                Table &E = ( T == &A ) ? A : B;
                if ( E.n > 4u && t.coin() ) { --E.n; }
                else { for ( size_t j = 0; j < E.n; ++j ) { E.y[ j ] *= 0.25f*static_cast<float>( t.range( -4, 4 ) ); } }
                t.check( ip->setData( E.x.get(), E.y.get(), E.n ), "table refused" );
                t.note( "table changed in place" );
                break;
            }
            case 0: m = static_cast<int>( t.bits( 8 ) ); t.check( ip->setMethod( static_cast<interp1Method>( m ) ), "method refused" ); t.note( "method %s", INAME[ m ] ); break;
            case 1: T = ( T == &A ) ? &B : &A; t.check( ip->setData( T->x.get(), T->y.get(), T->n ), "table refused" ); t.note( "other table" ); break;
            default: check( t, *ip, *T, m ); break;
        }
    }
}
// more points than a 16-bit index can reach
static void huge( Ctx &t )
{
    const size_t n = 65500u + t.bits( 100 );
    const int m = static_cast<int>( t.bits( 8 ) );
    if ( m == INTERP1_HERMITE ) { t.discard(); } // a single polynomial through all the points
    Table T( n );
    const uint64_t sd = t.bits( 255 );
    for ( size_t i = 0; i < n; ++i ) {
        T.x[ i ] = static_cast<float>( static_cast<int>( i ) - static_cast<int>( n ) + 40 ); // the far end is next to zero
        T.y[ i ] = static_cast<float>( static_cast<int>( pbt::mix64( sd*1000003u + i ) % 17u ) - 8 );
    }
    pbt::Junk<interp1> ip( 0x5A, T.x.get(), T.y.get(), T.n );
    t.check( ip->setMethod( static_cast<interp1Method>( m ) ), "method refused" );
    for ( int k = 0; k < 4; ++k ) {
        const float x = t.coin() ? t.f32( -60.0f, 40.0f ) : static_cast<float>( t.range( -60, 39 ) ) + ( t.coin() ? 0.0f : 0.25f );
        const Ref r = reference( m, T, x );
        const float y = ip->get( x );
        t.note( "%s of %zu points at %.9g -> %.9g (reference %.9g)", INAME[ m ], n, x, y, r.y );
        if ( m == INTERP1_NEAREST && std::fabs( std::fabs( x - std::floor( x ) ) - 0.5f ) < 1e-3f ) { continue; }
        t.near( INAME[ m ], y, r.y, RTOL[ m ]*r.scale + 1e-30, "%zu points, x=%.9g", n, x );
    }
    if ( n > 65560u ) { t.nontrivial(); }
}
const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "next", method<0>, 150000 }, { "previous", method<1>, 150000 }, { "nearest", method<2>, 150000 }, { "linear", method<3>, 200000 }, { "sine", method<4>, 200000 },
        { "cubic", method<5>, 200000 }, { "hermite", method<6>, 200000 }, { "spline", method<7>, 200000 }, { "cspline", method<8>, 300000 }, { "switching", switching, 100000 }, { "huge", huge, 300 } };
    return s;
}
