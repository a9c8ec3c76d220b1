// P24: interpolation keeps the shape of its table and refuses bad tables
#include "interp_common.hpp"
namespace pbt {
const char *const PROPERTY = "P24";
const char *const RULE = "random ascending tables of 4..9 points on exactly sized heap arrays: values at the table points, bounds by the neighbouring values, reproduction of straight lines, mirror/scale/shift relations between two tables, independence from points outside the neighbourhood, refused methods and tables, result conversion, and not-a-number or infinite queries; non-trivial = the query is strictly inside an interval, or a refusal was exercised after a valid table was in use";
}
static void select( Ctx &t, interp1 &ip, int m ) { t.check( ip.setMethod( static_cast<interp1Method>( m ) ), "method %s refused", INAME[ m ] ); }
static double tol( int m, const Table &T, double x ) { return m <= INTERP1_NEAREST ? 0.0 : RTOL[ m ]*reference( m, T, x ).scale + 1e-30; }
static bool knot( const Table &T, float x ) { for ( size_t i = 0; i < T.n; ++i ) { if ( T.x[ i ] == x ) { return true; } } return false; }

// every method goes through the table points, and tables are only read
static void points( Ctx &t )
{
    const int m = static_cast<int>( t.bits( 8 ) );
    Table T = drawTable( t, 4, m == INTERP1_HERMITE ? 7u : 12u );
    Table C( T.n );
    memcpy( C.x.get(), T.x.get(), T.n*sizeof( float ) );
    memcpy( C.y.get(), T.y.get(), T.n*sizeof( float ) );
    pbt::Junk<interp1> ip( static_cast<uint8_t>( t.bits( 255 ) ), T.x.get(), T.y.get(), T.n );
    select( t, *ip, m );
    for ( size_t i = 0; i < T.n; ++i ) {
        const float y = ip->get( T.x[ i ] );
        // sine at a table point: the weight is 0 or 1 up to rounding of the cosine at 0 and pi
        const double e = m == INTERP1_SINE ? 4e-6*reference( INTERP1_LINEAR, T, T.x[ i ] ).scale : tol( m, T, T.x[ i ] );
        t.near( INAME[ m ], y, T.y[ i ], e, "table%s at point %zu", T.show().c_str(), i );
    }
    t.check( memcmp( C.x.get(), T.x.get(), T.n*sizeof( float ) ) == 0 && memcmp( C.y.get(), T.y.get(), T.n*sizeof( float ) ) == 0, "the table was modified" );
    t.nontrivial();
}
// methods without overshoot stay between the two neighbouring values
static void bounded( Ctx &t )
{
    static const int ms[] = { INTERP1_NEXT, INTERP1_PREVIOUS, INTERP1_NEAREST, INTERP1_LINEAR, INTERP1_SINE, INTERP1_CONSTRAINED_SPLINE };
    const int m = t.pick( ms );
    Table T = drawTable( t, 4, 9 );
    pbt::Junk<interp1> ip( 0x5A, T.x.get(), T.y.get(), T.n );
    select( t, *ip, m );
    for ( int k = 0; k < 4; ++k ) {
        const float x = t.f32( T.x[ 0 ], T.x[ T.n - 1u ] );
        const size_t i = interval( T, x );
        const float y = ip->get( x );
        if ( knot( T, x ) ) { continue; }
        const double lo = std::min( T.y[ i ], T.y[ i + 1u ] ), hi = std::max( T.y[ i ], T.y[ i + 1u ] );
        double e = tol( m, T, x );
        t.note( "%s at %.9g -> %.9g", INAME[ m ], x, y );
        t.near( INAME[ m ], y, std::min( std::max( static_cast<double>( y ), lo ), hi ), e, "table%s x=%.9g: outside [%.9g, %.9g]", T.show().c_str(), x, lo, hi );
        if ( m <= INTERP1_NEAREST ) { t.check( y == T.y[ i ] || y == T.y[ i + 1u ], "%s at %.9g gives %.9g, not a neighbouring value", INAME[ m ], x, y ); }
        t.nontrivial();
    }
    if ( m <= INTERP1_NEAREST ) { // nothing but table values beyond the ends
        const float d = T.sx*t.f32log( 0.01f, 100.0f );
        const float a = ip->get( T.x[ 0 ] - d ), b = ip->get( T.x[ T.n - 1u ] + d );
        t.check( a == T.y[ 0 ] && b == T.y[ T.n - 1u ], "%s beyond the ends gives %.9g and %.9g, table%s", INAME[ m ], a, b, T.show().c_str() );
    }
}
// a straight line is reproduced inside and beyond the table
static void lines( Ctx &t )
{
    static const int ms[] = { INTERP1_LINEAR, INTERP1_CUBIC, INTERP1_HERMITE, INTERP1_SPLINE, INTERP1_CONSTRAINED_SPLINE };
    const int m = t.pick( ms );
    Table T = drawTable( t, 4, m == INTERP1_HERMITE ? 6u : 9u );
    const float a = t.f32( -20.0f, 20.0f ), b = t.f32( -10.0f, 10.0f );
    for ( size_t i = 0; i < T.n; ++i ) { T.y[ i ] = static_cast<float>( a + static_cast<double>( b )*T.x[ i ] ); }
    pbt::Junk<interp1> ip( 0xA5, T.x.get(), T.y.get(), T.n );
    select( t, *ip, m );
    for ( int k = 0; k < 4; ++k ) {
        const float x = drawX( t, T );
        double amp = 1.0; // the rounded table values are themselves half an ulp off the line
        if ( m != INTERP1_HERMITE ) { amp = 12.0; }
        const double r = a + static_cast<double>( b )*x;
        double ym = 0;
        for ( size_t i = 0; i < T.n; ++i ) { ym = std::max( ym, std::fabs( static_cast<double>( T.y[ i ] ) ) ); }
        t.near( INAME[ m ], ip->get( x ), r, tol( m, T, x ) + 6e-8*amp*ym*3.0 + ( m == INTERP1_HERMITE ? 6e-8*reference( m, T, x ).scale*2.0 : 0.0 ), "line %.9g%+.9g*x over%s at %.9g", a, b, T.show().c_str(), x );
        if ( !knot( T, x ) ) { t.nontrivial(); }
    }
}
// mirrored, scaled and shifted tables
static void metamorphic( Ctx &t )
{
    const int m = static_cast<int>( t.bits( 8 ) );
    Table T = drawTable( t, 4, m == INTERP1_HERMITE ? 6u : 9u, false );
    // coordinates on a coarse grid, so that mirroring, shifting and doubling are exact
    for ( size_t i = 0; i < T.n; ++i ) { T.x[ i ] = std::round( T.x[ i ]*1024.0f )/1024.0f; T.y[ i ] = std::round( T.y[ i ]*256.0f )/256.0f; }
    for ( size_t i = 1; i < T.n; ++i ) { if ( T.x[ i ] <= T.x[ i - 1u ] ) { t.discard(); } }
    float x = std::round( drawX( t, T )*1024.0f )/1024.0f;
    Table U( T.n );
    const unsigned kind = static_cast<unsigned>( t.bits( 3 ) );
    const bool units = t.coin(); // a change of units only
    const float p2 = std::ldexp( 1.0f, static_cast<int>( t.range( -20, 20 ) ) );
    const float g = units ? ( t.coin() ? -p2 : p2 ) : ( t.coin() ? -2.0f : 0.5f ), o = units ? 0.0f : static_cast<float>( t.range( -64, 64 ) ), k = units ? p2 : ( t.coin() ? 2.0f : 0.25f ), s = units ? 0.0f : static_cast<float>( t.range( -16, 16 ) );
    int m2 = m;
    float x2 = x;
    double want_g = 1, want_o = 0;
    switch ( kind ) {
        case 0: // y -> g*y + o
            for ( size_t i = 0; i < T.n; ++i ) { U.x[ i ] = T.x[ i ]; U.y[ i ] = g*T.y[ i ] + o; }
            want_g = g; want_o = o; break;
        case 1: // x -> k*x + s
            for ( size_t i = 0; i < T.n; ++i ) { U.x[ i ] = k*T.x[ i ] + s; U.y[ i ] = T.y[ i ]; }
            x2 = k*x + s; break;
        case 2: // mirror
            if ( m == INTERP1_CUBIC ) { t.discard(); } // the cubic rule is one-sided
            if ( m == INTERP1_NEAREST ) { t.discard(); }
            if ( m == INTERP1_NEXT ) { m2 = INTERP1_PREVIOUS; }
            if ( m == INTERP1_PREVIOUS ) { m2 = INTERP1_NEXT; }
            for ( size_t i = 0; i < T.n; ++i ) { U.x[ i ] = -T.x[ T.n - 1u - i ]; U.y[ i ] = T.y[ T.n - 1u - i ]; }
            x2 = -x; break;
        default: { // points outside the neighbourhood have no influence
            if ( m == INTERP1_HERMITE || knot( T, x ) ) { t.discard(); }
            const size_t i0 = interval( T, x );
            const size_t lo = i0 > 0u ? i0 - 1u : 0u, hi = i0 + 2u;
            for ( size_t i = 0; i < T.n; ++i ) { U.x[ i ] = T.x[ i ]; U.y[ i ] = T.y[ i ]; if ( i < lo || i > hi ) { U.y[ i ] = t.f32( -50.0f, 50.0f ); } }
            if ( m == INTERP1_LINEAR || m == INTERP1_SINE ) { for ( size_t i = 0; i < T.n; ++i ) { if ( i != i0 && i != i0 + 1u ) { U.y[ i ] = t.f32( -50.0f, 50.0f ); } } }
            break;
        }
    }
    pbt::Junk<interp1> A( 0x11, T.x.get(), T.y.get(), T.n ), B( 0xEE, U.x.get(), U.y.get(), U.n );
    select( t, *A, m );
    select( t, *B, m2 );
    const float ya = A->get( x ), yb = B->get( x2 );
    if ( m == INTERP1_NEAREST ) { // a tie between two points may go either way
        std::vector<double> d;
        for ( size_t i = 0; i < T.n; ++i ) { d.push_back( std::fabs( static_cast<double>( x ) - T.x[ i ] ) ); }
        std::sort( d.begin(), d.end() );
        if ( d[ 1 ] - d[ 0 ] < 1e-5 ) { t.discard(); }
    }
    const double e = std::fabs( want_g )*tol( m, T, x ) + tol( m2, U, x2 ) + ( m == INTERP1_SINE && kind == 2u ? 0.0 : 0.0 );
    t.note( "kind %u, %s: %.9g at %.9g versus %.9g at %.9g, table%s", kind, INAME[ m ], ya, x, yb, x2, T.show().c_str() );
    t.near( INAME[ m ], yb, want_g*ya + want_o, e, "relation %u does not hold, table%s x=%.9g", kind, T.show().c_str(), x );
    if ( !knot( T, x ) ) { t.nontrivial(); }
}
// refused settings leave the previous ones in force
static void refusal( Ctx &t )
{
    Table A = drawTable( t, 4, 6 ), B = drawTable( t, 4, 6 );
    pbt::Junk<interp1> ip( static_cast<uint8_t>( t.bits( 255 ) ), A.x.get(), A.y.get(), A.n );
    const Table *T = &A;
    int m = INTERP1_LINEAR;
    const size_t ops = t.size( 2, 25 );
    for ( size_t i = 0; i < ops; ++i ) {
        switch ( t.bits( 6 ) ) {
            case 0: m = static_cast<int>( t.bits( 8 ) ); select( t, *ip, m ); break;
            case 1: t.check( !ip->setMethod( INTERP1_MAX ), "a method that does not exist was accepted" ); t.nontrivial(); break;
            case 2: T = ( T == &A ) ? &B : &A; t.check( ip->setData( T->x.get(), T->y.get(), T->n ), "table refused" ); break;
            case 3: {
                const size_t n = t.bits( 3 );
                t.check( !ip->setData( B.x.get(), B.y.get(), n ), "a table of %zu points was accepted", n );
                t.nontrivial();
                break;
            }
            case 4: {
                const unsigned w = static_cast<unsigned>( t.bits( 2 ) );
                t.check( !ip->setData( w == 1u ? B.x.get() : nullptr, w == 2u ? B.y.get() : nullptr, B.n ), "a null table was accepted" );
                t.nontrivial();
                break;
            }
            default: {
                const float x = drawX( t, *T );
                const Ref r = reference( m, *T, x );
                const float y = ip->get( x );
                if ( m == INTERP1_NEAREST ) { break; }
                t.near( INAME[ m ], y, m <= INTERP1_NEAREST ? static_cast<float>( r.y ) : r.y, tol( m, *T, x ), "after refused settings: table%s x=%.9g", T->show().c_str(), x );
                break;
            }
        }
    }
}
// tables that cannot be used give not-a-number and are never read
static void unusable( Ctx &t )
{
    const int m = static_cast<int>( t.bits( 8 ) );
    Table T = drawTable( t, 4, 6 );
    const unsigned w = static_cast<unsigned>( t.bits( 3 ) );
    size_t n = T.n;
    const float *x = T.x.get(), *y = T.y.get();
    std::unique_ptr<float[]> sx, sy;
    if ( w == 0u ) { x = nullptr; }
    else if ( w == 1u ) { y = nullptr; }
    else if ( w == 2u ) { n = t.bits( MINSIZE[ m ] - 1u ); sx.reset( new float[ n ] ); sy.reset( new float[ n ] ); for ( size_t i = 0; i < n; ++i ) { sx[ i ] = T.x[ i ]; sy[ i ] = T.y[ i ]; } x = sx.get(); y = sy.get(); }
    else { x = y = nullptr; n = 0; }
    pbt::Junk<interp1> ip( 0xCC, x, y, n );
    select( t, *ip, m );
    const float v = ip->get( t.coin() ? drawX( t, T ) : t.f32( -1e6f, 1e6f ) );
    t.check( std::isnan( v ), "%s over an unusable table (%zu points) gives %.9g", INAME[ m ], n, v );
    t.nontrivial();
}
// any query stays within the table's memory
static void anyQuery( Ctx &t )
{
    const int m = static_cast<int>( t.bits( 8 ) );
    Table T = drawTable( t, MINSIZE[ m ], 6 );
    pbt::Junk<interp1> ip( 0x33, T.x.get(), T.y.get(), T.n );
    select( t, *ip, m );
    const float x = t.f32any( true );
    volatile float y = ip->get( x );
    t.note( "%s at %.9g -> %.9g", INAME[ m ], x, static_cast<double>( y ) );
    const float a = std::nextafter( T.x[ 0 ], -1e9f ), z = T.x[ T.n - 1u ];
    if ( m <= INTERP1_NEAREST && std::isfinite( x ) && ( x < a || x > z ) ) {
        if ( m != INTERP1_NEAREST || std::fabs( x ) < 1e4f*T.sx ) { t.check( y == ( x < a ? T.y[ 0 ] : T.y[ T.n - 1u ] ), "%s at %.9g gives %.9g", INAME[ m ], x, static_cast<double>( y ) ); }
    }
    if ( !std::isfinite( x ) ) { t.nontrivial(); }
}
// argument types and result
static void types( Ctx &t )
{
    const int m = static_cast<int>( t.bits( 8 ) );
    float tx[ 5 ], ty[ 5 ];
    Table T = drawTable( t, 5, 5 );
    for ( int i = 0; i < 5; ++i ) { tx[ i ] = T.x[ i ]; ty[ i ] = T.y[ i ]; }
    interp1 ip( tx, ty );
    select( t, ip, m );
    const int v = static_cast<int>( t.range( -6, 10 ) );
    const float a = ip.get( v ), b = ip.get( static_cast<double>( v ) ), c = ip.get( static_cast<float>( v ) );
    t.check( pbt::sameBits( a, c ) && pbt::sameBits( b, c ), "%s at %d: %.9g as int, %.9g as double, %.9g as float", INAME[ m ], v, a, b, c );
    float ux[ 4 ] = { 0, 1, 2, 3 }, uy[ 4 ] = { t.f32( -5, 5 ), t.f32( -5, 5 ), t.f32( -5, 5 ), t.f32( -5, 5 ) };
    t.check( ip.setData( ux, uy ), "array table refused" );
    const size_t k = t.idx( 4 );
    t.near( INAME[ m ], ip.get( k ), uy[ k ], 1e-5*40.0, "array table at %zu", k );
    t.nontrivial();
}
const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "points", points, 200000 }, { "bounded", bounded, 300000 }, { "lines", lines, 200000 }, { "metamorphic", metamorphic, 400000 }, { "refusal", refusal, 80000 },
        { "unusable", unusable, 100000 }, { "any-query", anyQuery, 200000 }, { "types", types, 50000 } };
    return s;
}
