// P13: numerical integration and differentiation of a sampled signal
#include <pbt.hpp>
#include <qlibs.h>
using namespace qlibs;
using pbt::Ctx;
namespace pbt {
const char *const PROPERTY = "P13";
const char *const RULE = "states with random initial values driven by random sample histories through integrate and derive, with and without history update, switching among the 4 integration and 3 differentiation rules and re-initialising mid-run, each result compared with the rule written in double precision; plus exactness on polynomials up to the order of each rule and the arithmetic operators on a state; non-trivial = at least 4 samples with a non-zero result";
}
static void history( Ctx &t )
{
    const double sc = t.f32log( 1e-6f, 1e6f );
    double x[ 3 ] = { 0, 0, 0 };
    float init[ 3 ];
    const int ni = static_cast<int>( t.bits( 3 ) );
    for ( int i = 0; i < 3; ++i ) { init[ i ] = static_cast<float>( sc )*t.f32( -2.0f, 2.0f ); if ( i < ni ) { x[ i ] = init[ i ]; } }
    std::unique_ptr<pbt::Junk<nState>> s;
    const uint8_t j = static_cast<uint8_t>( t.bits( 255 ) );
    switch ( ni ) {
        case 0: s.reset( new pbt::Junk<nState>( j ) ); break;
        case 1: s.reset( new pbt::Junk<nState>( j, init[ 0 ] ) ); break;
        case 2: s.reset( new pbt::Junk<nState>( j, init[ 0 ], init[ 1 ] ) ); break;
        default: s.reset( new pbt::Junk<nState>( j, init[ 0 ], init[ 1 ], init[ 2 ] ) ); break;
    }
    nState &n = **s;
    int im = INTEGRATION_TRAPEZOIDAL, dm = DERIVATION_2POINTS; // documented defaults
    double mag = 1e-30, acc = std::fabs( x[ 0 ] );
    for ( int i = 0; i < 3; ++i ) { mag = std::max( mag, std::fabs( x[ i ] ) ); }
    bool calm;
    const size_t steps = t.steps( 1, 60, calm );
    size_t useful = 0;
    t.check( n() == static_cast<float>( x[ 0 ] ), "initial value %.9g", n() );
    for ( size_t k = 0; k < steps; ++k ) {
        switch ( t.busy( calm ) ? t.bits( 15 ) : 9u ) {
            case 0: im = static_cast<int>( t.bits( 3 ) ); n.setIntegrationMethod( static_cast<integrationMethod>( im ) ); t.note( "integration rule %d", im ); break;
            case 1: dm = static_cast<int>( t.bits( 2 ) ); n.setDerivationMethod( static_cast<derivationMethod>( dm ) ); t.note( "derivation rule %d", dm ); break;
            case 2: {
                for ( int i = 0; i < 3; ++i ) { init[ i ] = static_cast<float>( sc )*t.f32( -2.0f, 2.0f ); x[ i ] = init[ i ]; mag = std::max( mag, std::fabs( x[ i ] ) ); }
                if ( t.coin() ) { n.init( init[ 0 ], init[ 1 ], init[ 2 ] ); }
                else { n.init( init[ 0 ] ); x[ 1 ] = x[ 2 ] = 0; }
                acc = std::max( acc, std::fabs( x[ 0 ] ) );
                t.note( "init(%.9g, %.9g, %.9g)", x[ 0 ], x[ 1 ], x[ 2 ] );
                break;
            }
            default: {
                const float v = static_cast<float>( sc )*t.f32( -2.0f, 2.0f ), dt = t.chance( 1, 4 ) ? t.f32log( 1e-7f, 1e4f ) : t.f32log( 1e-3f, 2.0f );
                const bool upd = !t.chance( 1, 4 ), def = upd && t.coin();
                mag = std::max( mag, std::fabs( static_cast<double>( v ) ) );
                const double d = v, h = dt;
                if ( t.coin() ) {
                    double inc;
                    switch ( im ) {
                        case INTEGRATION_RECTANGULAR: inc = d*h; break;
                        case INTEGRATION_TRAPEZOIDAL: inc = 0.5*( d + x[ 1 ] )*h; break;
                        case INTEGRATION_SIMPSON: inc = ( d + 4.0*x[ 1 ] + x[ 2 ] )*h/6.0; break;
                        default: inc = ( 5.0*d + 8.0*x[ 1 ] - x[ 2 ] )*h/12.0; break;
                    }
                    x[ 0 ] += inc;
                    acc = std::max( acc + 3.0*mag*h*1e-1, std::fabs( x[ 0 ] ) );
                    const float y = def ? n.integrate( v, dt ) : n.integrate( v, dt, upd );
                    t.note( "integrate(%.9g, %.9g, %d) -> %.9g (%.9g)", v, dt, upd, y, x[ 0 ] );
                    t.near( "integral", y, x[ 0 ], 1e-5*( acc + mag*h )*t.drift( k ) + 1e-9*mag, "step %zu rule %d", k, im );
                    t.check( y == n(), "value read back is %.9g, integrate returned %.9g", n(), y );
                    if ( y != 0.0f ) { ++useful; }
                }
                else {
                    double ds;
                    switch ( dm ) {
                        case DERIVATION_2POINTS: ds = ( d - x[ 1 ] )/h; break;
                        case DERIVATION_BACKWARD: ds = ( 3.0*d - 4.0*x[ 1 ] + x[ 2 ] )/( 2.0*h ); break;
                        default: ds = ( 4.0*x[ 1 ] - 3.0*x[ 2 ] - d )/( 2.0*h ); break;
                    }
                    const float before = n();
                    const float y = def ? n.derive( v, dt ) : n.derive( v, dt, upd );
                    t.note( "derive(%.9g, %.9g, %d) -> %.9g (%.9g)", v, dt, upd, y, ds );
                    t.near( "derivative", y, ds, 2e-6*mag/h + 1e-30, "step %zu rule %d", k, dm );
                    t.check( n() == before, "differentiation changed the state value" );
                    if ( y != 0.0f ) { ++useful; }
                }
                if ( upd ) { x[ 2 ] = x[ 1 ]; x[ 1 ] = d; }
                break;
            }
        }
    }
    const float a = t.f32( -10.0f, 10.0f ), v = n();
    t.check( pbt::eqv( n*a, v*a ) && pbt::eqv( a*n, a*v ) && pbt::eqv( n + a, v + a ) && pbt::eqv( a + n, a + v ) && pbt::eqv( n - a, v - a ) && pbt::eqv( a - n, a - v ) && pbt::eqv( n/a, v/a ) && pbt::eqv( a/n, a/v ), "arithmetic with a state of value %.9g and %.9g", v, a );
    if ( useful >= 4u ) { t.nontrivial(); }
}
// exact on the polynomials each rule is exact for
static void poly( Ctx &t )
{
    const double q = t.f32log( 1e-5f, 1e5f ), c0 = q*t.f32( -2.0f, 2.0f ), c1 = q*t.f32( -2.0f, 2.0f ), c2 = q*t.f32( -2.0f, 2.0f ), h = t.f32log( 0.01f, 0.2f );
    const int rule = static_cast<int>( t.bits( 6 ) );
    pbt::Junk<nState> s( static_cast<uint8_t>( t.bits( 255 ) ) );
    const size_t steps = 4u + t.bits( 40 );
    const bool quad = ( rule == 3 || rule == 5 || rule == 6 ), lin = quad || rule == 1 || rule == 2 || rule == 4;
    auto f = [ & ]( double x ) { return c0 + ( lin ? c1*x : 0.0 ) + ( quad ? c2*x*x : 0.0 ); };
    auto F = [ & ]( double x ) { return c0*x + ( lin ? c1*x*x/2 : 0.0 ) + ( quad ? c2*x*x*x/3 : 0.0 ); };
    auto D = [ & ]( double x ) { return ( lin ? c1 : 0.0 ) + ( quad ? 2*c2*x : 0.0 ); };
    s->init( 0.0f, static_cast<float>( f( 0 ) ), static_cast<float>( f( -h ) ) );
    double top = q;
    for ( size_t k = 0; k <= steps; ++k ) { top = std::max( top, std::fabs( f( h*static_cast<double>( k ) ) ) ); }
    if ( rule <= 3 ) {
        s->setIntegrationMethod( static_cast<integrationMethod>( rule ) );
        float y = 0;
        for ( size_t k = 1; k <= steps; ++k ) { y = s->integrate( static_cast<float>( f( h*static_cast<double>( k ) ) ), static_cast<float>( h ) ); }
        const double T = h*static_cast<double>( steps );
        // the 1/3 rule spans two steps and advances one: its window lags half a step
        const double ref = ( rule == INTEGRATION_SIMPSON ) ? F( T - h/2 ) - F( -h/2 ) : F( T );
        t.near( "polynomial integral", y, ref, 2e-5*top*( T + 1 ), "rule %d of %.9g%+.9gt%+.9gt^2 over %.9g", rule, c0, lin ? c1 : 0.0, quad ? c2 : 0.0, T );
    }
    else {
        s->setDerivationMethod( static_cast<derivationMethod>( rule - 4 ) );
        float y = 0;
        for ( size_t k = 1; k <= steps; ++k ) { y = s->derive( static_cast<float>( f( h*static_cast<double>( k ) ) ), static_cast<float>( h ) ); }
        const double T = h*static_cast<double>( steps );
        const double ref = ( rule == 6 ) ? D( T - 2*h ) : D( T ); // the forward rule gives the slope at its oldest sample
        t.near( "polynomial derivative", y, ref, 2e-6*top/h, "rule %d at %.9g", rule - 4, T );
    }
    if ( c0 != 0 ) { t.nontrivial(); }
}
const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "history", history, 400000 }, { "poly", poly, 400000 } };
    return s;
}
