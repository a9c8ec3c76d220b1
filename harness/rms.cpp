// P12: running RMS estimator
#include "smoother_common.hpp"
namespace pbt {
const char *const PROPERTY = "P12";
const char *const RULE = "random windows (1..24, now and then up to 300), forgetting and cutoff parameters (valid, boundary and invalid, changed mid-run, now and then set up again over the same or another window), histories of up to 200 samples (one in 400 up to 1260) (constants, square waves, sinusoids, noise, spikes, zeros) fed to the estimator and compared with a double-precision model, plus range, sign-blindness, scaling and steady-state value of periodic signals; non-trivial = at least 8 samples whose magnitudes are not all equal, or a periodic signal run to steady state";
}
struct MRms {
    MExpw e{ 0.99 };
    MMean w;
    MLpf1 l{ 0.75 };
    explicit MRms( size_t n ) : w( n ) {}
    double step( double x ) { return l.step( w.step( std::sqrt( e.step( x*x ) ) ) ); }
};
static float bad( Ctx &t )
{
    static const float v[] = { 0.0f, -0.1f, 1.1f, 1.0000001f, -1.0f, 50.0f };
    return t.chance( 1, 6 ) ? std::nanf( "" ) : t.pick( v );
}
static void history( Ctx &t )
{
    static const size_t wide[] = { 127, 128, 255, 256, 257, 300 };
    size_t n = t.chance( 1, 200 ) ? t.pick( wide ) : t.size( 1, 24 );
    std::unique_ptr<float[]> win( new float[ n ] );
    std::vector<std::unique_ptr<float[]>> old;
    for ( size_t i = 0; i < n; ++i ) { win[ i ] = 1e9f; }
    pbt::Junk<rms> r( static_cast<uint8_t>( t.bits( 255 ) ) );
    if ( t.chance( 1, 5 ) ) { t.check( !r->setup( nullptr, n ), "null window accepted" ); t.check( !r->setup( win.get(), 0 ), "empty window accepted" ); }
    t.check( r->setup( win.get(), n ), "valid window refused" );
    MRms m( n );
    t.note( "window %zu", n );
    Signal sg;
    sg.start( t, LPF1 );
    bool calm;
    size_t steps = t.steps( 1, 200, calm );
    if ( n > 24u ) { steps += 2u*n; }
    double lo = 1e30, hi = 0;
    for ( size_t k = 0; k < steps; ++k ) {
        if ( t.busy( calm ) && t.chance( 1, 30 ) ) {
            const bool inv = t.coin();
            float l = t.chance( 1, 6 ) ? 1.0f : ( t.chance( 1, 8 ) ? t.f32log( 1e-4f, 0.1f ) : t.f32( 0.05f, 1.0f ) ), a = unitParam( t, 0.02f, 0.99f );
            if ( inv ) { if ( t.coin() ) { l = bad( t ); } else { a = bad( t ); } }
            const bool ok = r->setParams( l, a );
            t.note( "setParams(%.9g, %.9g) -> %d", l, a, ok );
            t.check( ok == !inv, "setParams(%.9g, %.9g) returns %d", l, a, ok );
            if ( ok ) { m.e.l = l; m.l.a = a; }
        }
        if ( t.busy( calm ) && t.chance( 1, 60 ) ) { // set up again, over the same window or a longer or shorter one
            if ( t.coin() ) { n = t.size( 1, 24 ); old.push_back( std::move( win ) ); win.reset( new float[ n ] ); for ( size_t i = 0; i < n; ++i ) { win[ i ] = -1e9f; } }
            t.check( r->setup( win.get(), n ), "valid window refused" );
            t.note( "set up again, window %zu", n );
            m = MRms( n );
            lo = 1e30; hi = 0;
        }
        const float x = sg.next( t, LPF1 );
        const double e = m.step( x );
        const float y = r->update( x );
        lo = std::min( lo, static_cast<double>( std::fabs( x ) ) );
        hi = std::max( hi, static_cast<double>( std::fabs( x ) ) );
        t.note( "update(%.9g) -> %.9g (model %.9g)", x, y, e );
        t.near( "rms", y, e, 5e-5*hi*t.drift( k ) + 1e-30, "window %zu, sample %zu", n, k );
        t.check( y >= lo - 5e-4*hi && y <= hi*( 1 + 5e-4 ), "rms %.9g outside the magnitudes seen [%.9g, %.9g]", y, lo, hi );
        if ( k >= 8u && hi > lo ) { t.nontrivial(); }
    }
}
// sign-blind and homogeneous
static void symmetric( Ctx &t )
{
    const size_t n = t.size( 1, 16 ), steps = t.size( 2, 60 );
    std::vector<float> wa( n ), wb( n );
    pbt::Junk<rms> a( static_cast<uint8_t>( t.bits( 255 ) ) ), b( static_cast<uint8_t>( t.bits( 255 ) ) );
    t.check( a->setup( wa.data(), n ) && b->setup( wb.data(), n ), "setup" );
    const float g = t.coin() ? 1.0f : 4.0f;
    Signal sg;
    sg.start( t, LPF1 );
    float hi = 0, first = 0;
    bool var = false;
    for ( size_t k = 0; k < steps; ++k ) {
        const float x = sg.next( t, LPF1 );
        const bool neg = t.coin();
        const float ya = a->update( x ), yb = b->update( neg ? -g*x : g*x );
        hi = std::max( hi, std::fabs( x ) );
        if ( k == 0u ) { first = std::fabs( x ); }
        var = var || ( std::fabs( x ) != first );
        t.check( std::fabs( yb - g*ya ) <= 1e-4f*g*hi, "rms of sign-flipped samples times %g is %.9g, expected %.9g", g, yb, g*ya );
        t.check( ya >= 0.0f, "negative rms %.9g", ya );
    }
    if ( var && steps >= 8u ) { t.nontrivial(); }
}
// steady state: the estimate of a periodic signal is its root mean square
static void steady( Ctx &t )
{
    const size_t n = 4u + t.size( 0, 28 );
    std::vector<float> w( n );
    pbt::Junk<rms> r( static_cast<uint8_t>( t.bits( 255 ) ) );
    t.check( r->setup( w.data(), n ), "setup" );
    const double A = static_cast<double>( t.f32log( 1e-6f, 1e6f ) ), dc = t.coin() ? 0.0 : A*static_cast<double>( t.f32( -1.0f, 1.0f ) );
    const size_t P = 4u + t.bits( 12 );
    const int shape = static_cast<int>( t.bits( 2 ) );
    double ms = 0;
    std::vector<double> x( P );
    for ( size_t i = 0; i < P; ++i ) {
        const double ph = static_cast<double>( i )/static_cast<double>( P );
        x[ i ] = dc + ( shape == 0 ? A : ( shape == 1 ? A*std::sin( 2*M_PI*ph ) : ( ph < 0.5 ? A : -A ) ) );
        ms += x[ i ]*x[ i ]/static_cast<double>( P );
    }
    float y = 0;
    for ( size_t k = 0; k < 3000u; ++k ) { y = r->update( static_cast<float>( x[ k % P ] ) ); }
    const double ref = std::sqrt( ms );
    t.note( "shape %d A=%.9g dc=%.9g period %zu window %zu -> %.9g (rms %.9g)", shape, A, dc, P, n, y, ref );
    t.check( std::fabs( static_cast<double>( y ) - ref ) <= 0.06*ref, "steady state of a signal with rms %.9g is %.9g (shape %d, A %.9g, dc %.9g, period %zu, window %zu)", ref, y, shape, A, dc, P, n );
    t.nontrivial();
}
const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "history", history, 150000 }, { "symmetric", symmetric, 150000 }, { "steady", steady, 3000 } };
    return s;
}
