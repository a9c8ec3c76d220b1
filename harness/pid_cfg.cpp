// P18: PID configuration, gain conversions and auto-tuning
#include "pid_common.hpp"
namespace pbt {
const char *const PROPERTY = "P18";
const char *const RULE = "controllers before and after set-up given valid, boundary and invalid settings (time steps, limits, filter constants, model-reference and tuning parameters, including zero, negative and NaN): refused settings must leave a twin-identical behaviour; gain conversions against their formulas; auto-tuning of simulated first-order plants of random gain and time constant, in closed loop, must end after the requested number of steps with the gains given by the tuning rules for that plant and otherwise leave the gains alone; changing and noisy plants identified step by step against recursive least squares in double precision (with the sensitivity to rounding measured by disturbed copies of the model); tuning over more steps than 8, 16 or 31 bits can count; non-trivial = a setting was refused on a running controller, a conversion with all three gains non-zero, or a completed tuning";
}
static void unready( Ctx &t )
{
    pbt::Junk<pidController> P( static_cast<uint8_t>( t.bits( 255 ) ) );
    pidController &c = *P;
    pidAutoTuning at;
    const float w = t.f32( -100.0f, 100.0f ), y = t.f32( -100.0f, 100.0f ), ref = 1.0f;
    if ( t.coin() ) { const float bad = t.coin() ? 0.0f : ( t.coin() ? -t.f32log( 1e-3f, 10.0f ) : NAN ); t.check( !c.setup( 1.0f, 1.0f, 1.0f, bad ), "time step %.9g accepted", bad ); t.nontrivial(); }
    pidGains g = { 1.0f, 1.0f, 1.0f };
    t.check( !c.setGains( 1.0f, 1.0f, 1.0f ) && !c.setGains( g ) && !c.setParams( 1.0f, 1.0f, 1.0f ) && !c.setExtraGains( 1.0f, 1.0f ) && !c.setSeries(), "gains accepted before set-up" );
    t.check( !c.setDirection( pidDirection::PID_BACKWARD ) && !c.setMode( pidMode::PID_MANUAL ) && !c.setManualInput( 1.0f ), "mode accepted before set-up" );
    t.check( !c.setSaturation( 0.0f, 1.0f ) && !c.setEpsilon( 0.1f ) && !c.setDerivativeFilter( 0.5f ) && !c.setDerivativeFilterTimeConstant( 0.5f ) && !c.setReferenceWeighting( 1.0f, 1.0f ), "setting accepted before set-up" );
    t.check( !c.setModelReferenceControl( ref ) && !c.removeModelReferenceControl() && !c.reset() && !c.bindAutoTuning( at ), "feature accepted before set-up" );
    t.check( !c.enableAutoTuning( 10 ) && !c.isAutoTuningComplete() && !c.setAutoTuningParameters( 0.5f, 0.5f, 0.9f ) && !c.setAutoTuningControllerType( pidType::PID_TYPE_PID ) && !c.unbindAutoTuning(), "tuning accepted without a bound tuner" );
    t.check( pbt::eqv( c.control( w, y ), w ), "controller that was never set up does not pass its reference through" );
    // the same object works once set up
    const float kc = t.f32( 0.1f, 3.0f ), dt = t.f32log( 1e-3f, 1.0f );
    t.check( c.setup( kc, 0.0f, 0.0f, dt ), "set-up refused" );
    const float e = t.f32( 0.0f, 30.0f );
    t.near( "proportional action", c.control( e, 0.0f ), std::min( 100.0, static_cast<double>( kc )*e ), 1e-3, "kc %.9g error %.9g", kc, e );
}
static void refuse( Ctx &t )
{
    // twin controllers with identical histories; one of them is also given settings that must be refused
    pidController a, b;
    const float dt = t.f32log( 1e-3f, 0.5f ), kc = t.f32( -3.0f, 3.0f ), ki = t.f32( -1.0f, 1.0f ), kd = t.f32( -1.0f, 1.0f )*dt, beta = t.f32( 0.0f, 0.99f ), lo = t.f32( -5.0f, 0.0f ), hi = lo + t.f32( 0.5f, 8.0f );
    float yr = 0.5f;
    const bool mrac = t.coin(), tune = t.coin();
    pidAutoTuning ta, tb;
    for ( pidController *p : { &a, &b } ) {
        t.check( p->setup( kc, ki, kd, dt ) && p->setDerivativeFilter( beta ) && p->setSaturation( lo, hi ), "configuration refused" );
        if ( mrac ) { t.check( p->setModelReferenceControl( yr, 0.3f, 0.2f ), "model reference refused" ); }
        if ( tune ) {
            t.check( p->bindAutoTuning( p == &a ? ta : tb ), "tuner refused" );
            t.check( p->setAutoTuningParameters( 0.8f, 0.3f, 0.95f ), "tuner parameters refused" );
            t.check( p->enableAutoTuning( 40u ), "enableAutoTuning" );
        }
    }
    Sig W, Y;
    auto bad01 = [&]() { return t.coin() ? -t.f32log( 1e-6f, 10.0f ) : ( t.coin() ? NAN : 1.0f + t.f32log( 2e-7f, 10.0f ) ); };
    auto nonpos = [&]() { return t.coin() ? 0.0f : ( t.coin() ? NAN : -t.f32log( 1e-6f, 10.0f ) ); };
    const size_t steps = t.size( 2, 60 );
    for ( size_t k = 0; k < steps; ++k ) {
        if ( t.chance( 1, 5 ) ) {
            t.nontrivial();
            switch ( t.bits( 8 ) ) {
                case 0: { const float v = t.coin() ? 1.0f : bad01(); t.check( !a.setDerivativeFilter( v ), "derivative filter %.9g accepted", v ); break; }
                case 1: { const float v = t.coin() ? NAN : -t.f32log( 1e-6f, 10.0f ); t.check( !a.setDerivativeFilterTimeConstant( v ), "derivative filter time constant %.9g accepted", v ); break; }
                case 2: { const float x = t.f32( -5.0f, 5.0f ), y = t.coin() ? x : x - t.f32log( 1e-3f, 10.0f ); t.check( !a.setSaturation( x, y ), "limits [%.9g, %.9g] accepted", x, y ); break; }
                case 3: { const float v = nonpos(); const bool first = t.coin(); static const float other = 3.0f; t.check( !( first ? a.setModelReferenceControl( other, v, 0.1f ) : a.setModelReferenceControl( other, 0.1f, v ) ), "model reference parameter %.9g accepted", v ); break; }
                case 4: { const float v = nonpos(); t.check( !a.setup( 9.0f, 9.0f, 9.0f, v ), "time step %.9g accepted", v ); break; }
                case 5: if ( tune ) { const float v = nonpos(); t.check( !( t.coin() ? a.setAutoTuningParameters( 0.5f, v, 0.95f ) : a.setAutoTuningParameters( 0.5f, 0.5f, v ) ), "tuning speed or forgetting factor %.9g accepted", v ); } break;
                case 6: if ( tune ) { const float v = bad01(); t.check( !( t.coin() ? a.setAutoTuningParameters( v, 0.5f, 0.95f ) : ( t.coin() ? a.setAutoTuningParameters( 0.5f, v, 0.95f ) : a.setAutoTuningParameters( 0.5f, 0.5f, v ) ) ), "tuning parameter %.9g accepted", v ); } break;
                default: if ( !tune ) { t.check( !a.enableAutoTuning( 5 ) && !a.setAutoTuningParameters( 0.5f, 0.5f, 0.95f ) && !a.setAutoTuningControllerType( pidType::PID_TYPE_P ), "tuning accepted without a tuner" ); } break;
            }
        }
        const float w = W.next( t, 3.0f ), y = Y.next( t, 3.0f );
        yr = w;
        const float ua = a.control( w, y ), ub = b.control( w, y );
        t.note( "control(%.9g, %.9g) -> %.9g, twin %.9g", w, y, ua, ub );
        t.check( pbt::eqv( ua, ub ), "step %zu: output %.9g differs from the twin's %.9g after refused settings", k, ua, ub );
    }
}
// every valid boundary value is accepted
static void accept( Ctx &t )
{
    pidController a;
    pidAutoTuning at;
    const float tiny = t.f32log( 1e-30f, 1e-3f ), x = t.f32( -1e3f, 1e3f ), up = std::nextafter( x, 1e9f );
    t.check( a.setup( t.f32( -9.0f, 9.0f ), t.f32( -9.0f, 9.0f ), t.f32( -9.0f, 9.0f ), t.coin() ? tiny : t.f32log( 1e-3f, 1e3f ) ), "valid set-up refused" );
    t.check( a.setSaturation( x, t.coin() ? up : x + 1.0f ), "limits refused" );
    t.check( a.setDerivativeFilter( 0.0f ) && a.setDerivativeFilter( std::nextafter( 1.0f, 0.0f ) ) && a.setDerivativeFilter( t.f32( 0.0f, 0.999f ) ), "derivative filter refused" );
    t.check( a.setDerivativeFilterTimeConstant( 0.0f ) && a.setDerivativeFilterTimeConstant( t.f32log( 1e-6f, 1e3f ) ), "derivative filter time constant refused" );
    t.check( a.setModelReferenceControl( x, tiny, t.f32log( 1e-6f, 10.0f ) ) && a.setModelReferenceControl( x, t.f32log( 1e-6f, 10.0f ), tiny ) && a.setModelReferenceControl( x ) && a.removeModelReferenceControl(), "model reference refused" );
    t.check( a.setReferenceWeighting( t.f32( -2.0f, 2.0f ), t.f32( -2.0f, 2.0f ) ) && a.setEpsilon( tiny ) && a.setManualInput( x ) && a.setExtraGains( 0.0f, 0.0f ), "setting refused" );
    t.check( a.setMode( pidMode::PID_MANUAL ) && a.setDirection( pidDirection::PID_BACKWARD ) && a.reset(), "setting refused" );
    t.check( a.bindAutoTuning( at ), "tuner refused" );
    t.check( a.setAutoTuningParameters( t.chance( 1, 3 ) ? 0.0f : t.f32( 0.0f, 1.0f ), t.chance( 1, 3 ) ? 1.0f : t.f32log( 1e-3f, 1.0f ), t.chance( 1, 3 ) ? 1.0f : t.f32( 0.91f, 1.0f ) ), "valid tuning parameters refused" );
    t.check( a.enableAutoTuning( static_cast<uint32_t>( t.bits( 0xFFFFFFFFu ) ) ) && a.setAutoTuningControllerType( pidType::PID_TYPE_PD ), "tuning refused" );
    t.check( a.unbindAutoTuning() && !a.unbindAutoTuning() && !a.enableAutoTuning( 3 ), "unbinding the tuner" );
    t.nontrivial();
}
static void gains( Ctx &t )
{
    pidController c;
    const float s = t.coin() ? -1.0f : 1.0f, kc = s*t.f32log( 1e-3f, 1e3f ), ti = ( t.chance( 1, 4 ) ? -1.0f : 1.0f )*t.f32log( 1e-3f, 1e3f ), td = t.chance( 1, 6 ) ? 0.0f : ( t.chance( 1, 4 ) ? -1.0f : 1.0f )*t.f32log( 1e-4f, 1e2f );
    t.check( c.setup( 1.0f, 1.0f, 1.0f, 0.1f ), "setup" );
    t.check( c.setParams( kc, ti, td ), "setParams" );
    auto g = c.getGains();
    t.note( "setParams(%.9g, %.9g, %.9g) -> %.9g %.9g %.9g", kc, ti, td, g.Kc, g.Ki, g.Kd );
    const double K = kc, I = K/ti, D = K*td;
    t.near( "proportional gain", g.Kc, K, 1e-6*std::fabs( K ), "setParams" );
    t.near( "integral gain", g.Ki, I, 1e-6*std::fabs( I ), "setParams" );
    t.near( "derivative gain", g.Kd, D, 1e-6*std::fabs( D ), "setParams" );
    t.check( c.setSeries(), "setSeries" );
    g = c.getGains();
    t.note( "series form: %.9g %.9g %.9g", g.Kc, g.Ki, g.Kd );
    const double f = 1.0 + static_cast<double>( td )/ti;
    if ( std::fabs( f ) < 0.05 ) { return; } // the two times nearly cancel
    const double cn = ( 1.0 + std::fabs( static_cast<double>( td )/ti ) )/std::fabs( f ); // conditioning of the factor
    t.near( "series proportional gain", g.Kc, K*f, 4e-6*cn*std::fabs( K*f ), "kc %.9g ti %.9g td %.9g", kc, ti, td );
    t.near( "series integral gain", g.Ki, I, 4e-6*cn*std::fabs( I ), "kc %.9g ti %.9g td %.9g", kc, ti, td );
    t.near( "series derivative gain", g.Kd, D, 4e-6*cn*std::fabs( D ), "kc %.9g ti %.9g td %.9g", kc, ti, td );
    // reference weights outside [0,1] act as the nearest limit
    pidController p, q;
    const float b = t.f32( -2.0f, 3.0f ), cc = t.f32( -2.0f, 3.0f ), w = t.f32( -3.0f, 3.0f ), y = t.f32( -3.0f, 3.0f );
    t.check( p.setup( 1.0f, 0.5f, 0.1f, 0.1f ) && q.setup( 1.0f, 0.5f, 0.1f, 0.1f ), "setup" );
    p.setSaturation( -1e4f, 1e4f ); q.setSaturation( -1e4f, 1e4f );
    p.setReferenceWeighting( b, cc ); q.setReferenceWeighting( std::min( 1.0f, std::max( 0.0f, b ) ), std::min( 1.0f, std::max( 0.0f, cc ) ) );
    t.near( "action with out-of-range weights", p.control( w, y ), q.control( w, y ), 1e-5, "weights %.9g %.9g", b, cc );
    if ( td != 0 ) { t.nontrivial(); }
}
static void rules( pidType ty, double speed, double K, double T, double &Kc, double &Ki, double &Kd )
{
    const double td = 0.1*T;
    Ki = Kd = 0;
    switch ( ty ) { // Cohen-Coon rules for an apparent dead time of a tenth of the time constant
        case pidType::PID_TYPE_P: Kc = speed*( 1.03/K )*( T/td + 0.34 ); break;
        case pidType::PID_TYPE_PI: Kc = speed*( 0.9/K )*( T/td + 0.092 ); Ki = Kc/( 3.33*td*( T + 0.092*td )/( T + 2.22*td ) ); break;
        case pidType::PID_TYPE_PD: Kc = speed*( 1.24/K )*( T/td + 0.129 ); Kd = Kc*0.27*td*( T - 0.324*td )/( T + 0.129*td ); break;
        default: Kc = speed*( 1.35/K )*( T/td + 0.185 ); Ki = Kc/( 2.5*td*( T + 0.185*td )/( T + 0.611*td ) ); Kd = Kc*0.37*td*T/( T + 0.185*td ); break;
    }
}
static void tuning( Ctx &t )
{
    pidController c;
    pidAutoTuning at;
    const float dt = t.f32log( 1e-2f, 0.5f );
    const double T = static_cast<double>( t.f32( 4.0f, 30.0f ) )*dt, K = t.f32log( 0.3f, 4.0f );
    const double a1 = -std::exp( -dt/T ), b1 = K*( 1.0 + a1 );
    const float kc = t.f32( 0.3f, 1.0f )/static_cast<float>( K ), ki = t.f32( 0.05f, 0.3f )*kc/static_cast<float>( T );
    t.check( c.setup( kc, ki, 0.0f, dt ) && c.setSaturation( -100.0f, 100.0f ), "setup" );
    t.check( c.bindAutoTuning( at ), "bind" );
    const float mu = t.coin() ? 0.0f : t.f32( 0.0f, 0.9f ), speed = t.f32( 0.05f, 1.0f ), lambda = t.f32( 0.97f, 1.0f );
    t.check( c.setAutoTuningParameters( mu, speed, lambda ), "tuning parameters refused" );
    static const pidType ty[] = { pidType::PID_TYPE_PI, pidType::PID_TYPE_P, pidType::PID_TYPE_PD, pidType::PID_TYPE_PID };
    const size_t k = t.idx( 4 );
    if ( k != 0u || t.coin() ) { t.check( c.setAutoTuningControllerType( ty[ k ] ), "type refused" ); }
    const bool off = t.chance( 1, 5 );
    const uint32_t N = off ? 0u : ( t.chance( 1, 10 ) ? 250u + static_cast<uint32_t>( t.bits( 350 ) ) : 100u + static_cast<uint32_t>( t.bits( 150 ) ) );
    if ( !off || t.coin() ) { t.check( c.enableAutoTuning( N ), "enable" ); }
    t.note( "plant gain %.9g time constant %.9g dt %.9g; kc %.9g ki %.9g mu %.9g speed %.9g lambda %.9g type %zu steps %u", K, T, dt, kc, ki, mu, speed, lambda, k, N );
    double y = 0;
    float w = 0, u = 0;
    uint32_t n = 0;
    bool done = false;
    for ( size_t s = 0; s < N + 150u; ++s ) {
        if ( s % 7u == 0u ) { w = ( w > 0 ? -1.0f : 1.0f )*t.f32( 5.0f, 20.0f ); }
        u = c.control( w, static_cast<float>( y ) );
        y = -a1*y + b1*static_cast<double>( u );
        ++n;
        const pidGains g = c.getGains();
        if ( c.isAutoTuningComplete() ) { done = true; break; }
        t.check( g.Kc == kc && g.Ki == ki && g.Kd == 0.0f, "gains changed at step %u before tuning completed", n );
    }
    if ( off ) { t.check( !done, "tuning completed although it was not enabled" ); return; }
    t.check( done, "tuning over %u steps not complete after %u", N, n );
    t.check( n == N, "tuning over %u steps completed after %u", N, n );
    const pidGains g = c.getGains();
    double Kc, Ki, Kd;
    rules( ty[ k ], speed, K, T, Kc, Ki, Kd );
    t.note( "gains %.9g %.9g %.9g, tuning rules %.9g %.9g %.9g", g.Kc, g.Ki, g.Kd, Kc, Ki, Kd );
    const double tol = 2.0*std::pow( static_cast<double>( mu ), N );
    t.near( "tuned proportional gain", g.Kc, Kc, ( 0.0015 + tol )*Kc, "type %zu", k );
    t.near( "tuned integral gain", g.Ki, Ki, ( 0.003 + 1.5*tol )*Ki, "type %zu", k );
    t.near( "tuned derivative gain", g.Kd, Kd, ( 0.0009 + 1.5*tol )*Kd, "type %zu", k );
    const pidGains e = at.getEstimates();
    t.check( pbt::eqv( e.Kc, g.Kc ) && pbt::eqv( e.Ki, g.Ki ) && pbt::eqv( e.Kd, g.Kd ), "estimates differ from the gains set" );
    for ( int s = 0; s < 5; ++s ) { (void)c.control( 1.0f, 0.0f ); }
    const pidGains h = c.getGains();
    t.check( h.Kc == g.Kc && h.Ki == g.Ki && h.Kd == g.Kd, "gains changed after tuning completed" );
    t.check( c.isAutoTuningComplete(), "completion forgotten" );
    t.nontrivial();
}
// recursive least squares with forgetting, in double precision
struct Tuner {
    double l{ 0.9898 }, p00{ 1000 }, p01{ 0 }, p10{ 0 }, p11{ 1000 }, uk{ 0 }, yk{ 0 }, k{ 0 }, tao{ 0 }, mu{ 0.95 }, a1{ 0 }, b1{ 0 }, speed{ 0.25 };
    uint64_t left{ 0 };
    bool edge{ false };
    uint64_t rnd{ 0 }; // non-zero: every operation is disturbed by a single-precision rounding, to measure the sensitivity
    double eps( double mag ) { if ( 0u == rnd ) { return 0.0; } rnd = pbt::mix64( rnd ) | 1u; return mag*1.2e-7*( static_cast<double>( rnd >> 11 )/4503599627370496.0 - 1.0 ); }
    Tuner( double Kc, double Ki, double dt )
    {
        const double g = Kc/0.9, T = 0.27*g/Ki;
        a1 = -std::exp( -dt/T );
        b1 = g*( 1.0 + a1 );
    }
    bool step( double u, double y, double dt )
    {
        // regressor (uk, -yk), parameters (b1, a1)
        const double f0 = uk, f1 = -yk;
        const double g0 = p00*f0 + p01*f1, g1 = p10*f0 + p11*f1;
        const double r = l + f0*g0 + f1*g1 + eps( l + std::fabs( p00*f0*f0 ) + std::fabs( p01*f0*f1 ) + std::fabs( p10*f0*f1 ) + std::fabs( p11*f1*f1 ) ), l0 = g0/r, l1 = g1/r, e = y - ( b1*f0 + a1*f1 ) + eps( std::fabs( y ) + std::fabs( b1*f0 ) + std::fabs( a1*f1 ) );
        b1 += l0*e + eps( std::fabs( b1 ) ) + eps( ( std::fabs( p00*f0 ) + std::fabs( p01*f1 ) )/r*std::fabs( e ) );
        a1 += l1*e + eps( std::fabs( a1 ) ) + eps( ( std::fabs( p10*f0 ) + std::fabs( p11*f1 ) )/r*std::fabs( e ) );
        const double h0 = f0*p00 + f1*p10, h1 = f0*p01 + f1*p11;
        const double n00 = ( p00 - l0*h0 )/l + 1e-10, n01 = ( p01 - l0*h1 )/l, n10 = ( p10 - l1*h0 )/l, n11 = ( p11 - l1*h1 )/l + 1e-10;
        const double q0 = ( std::fabs( p00*f0 ) + std::fabs( p01*f1 ) )/r, q1 = ( std::fabs( p10*f0 ) + std::fabs( p11*f1 ) )/r;
        const double d00 = std::fabs( p00 )*( 1.0 + q0*std::fabs( f0 ) ) + q0*std::fabs( p10*f1 ), d01 = std::fabs( p01 )*( 1.0 + q0*std::fabs( f0 ) ) + q0*std::fabs( p11*f1 );
        const double d10 = std::fabs( p10 )*( 1.0 + q1*std::fabs( f1 ) ) + q1*std::fabs( p00*f0 ), d11 = std::fabs( p11 )*( 1.0 + q1*std::fabs( f1 ) ) + q1*std::fabs( p01*f0 );
        p00 = n00 + eps( d00 ); p01 = n01 + eps( d01 ); p10 = n10 + eps( d10 ); p11 = n11 + eps( d11 );
        yk = y; uk = u;
        const double g = b1/( 1.0 + a1 ), T = -dt/std::log( std::fabs( a1 ) );
        if ( std::fabs( std::fabs( a1 ) - 1.0 ) < 5e-3 || std::fabs( 1.0 + a1 ) < 5e-3 || std::fabs( b1 ) < 0.02*std::fabs( 1.0 + a1 )*0.3 || std::fabs( a1 ) < 0.02 ) { edge = true; }
        if ( T > 0 && g > 0 && left > 0u ) {
            k = g + mu*( k - g );
            tao = T + mu*( tao - T );
            return 0u == --left;
        }
        return false;
    }
};
static const pidType tunerTypes[] = { pidType::PID_TYPE_PI, pidType::PID_TYPE_P, pidType::PID_TYPE_PD, pidType::PID_TYPE_PID };
// plants that change while they are identified, with disturbances: the estimates follow the forgetting factor and momentum
static void tracking( Ctx &t )
{
    pidController c;
    pidAutoTuning at;
    const float dt = t.f32log( 1e-2f, 0.5f );
    double T = static_cast<double>( t.f32( 3.0f, 15.0f ) )*dt, K = t.f32log( 0.3f, 4.0f );
    const float kc = t.f32( 0.3f, 1.0f )/static_cast<float>( K ), ki = t.f32( 0.05f, 0.3f )*kc/static_cast<float>( T );
    t.check( c.setup( kc, ki, 0.0f, dt ) && c.setSaturation( -100.0f, 100.0f ), "setup" );
    if ( t.chance( 1, 3 ) ) { // the tuner has a past
        pidController o;
        t.check( o.setup( 2.0f, 1.0f, 0.0f, 0.1f ) && o.bindAutoTuning( at ) && o.setAutoTuningParameters( 0.1f, 0.9f, 0.93f ) && o.enableAutoTuning( 5u + static_cast<uint32_t>( t.bits( 20 ) ) ), "earlier use" );
        const size_t n = t.bits( 30 );
        for ( size_t i = 0; i < n; ++i ) { (void)o.control( i % 3u ? 3.0f : -2.0f, static_cast<float>( i % 4u ) ); }
        t.note( "tuner used before for %zu steps", n );
    }
    t.check( c.bindAutoTuning( at ), "bind" );
    Tuner m( kc, ki, dt );
    const size_t ty = t.idx( 4 );
    t.check( c.setAutoTuningControllerType( tunerTypes[ ty ] ), "type refused" );
    if ( t.chance( 3, 4 ) ) {
        const float mu = t.f32( 0.0f, 0.99f ), speed = t.f32( 0.05f, 1.0f ), lambda = t.f32( 0.93f, 1.0f );
        t.check( c.setAutoTuningParameters( mu, speed, lambda ), "tuning parameters refused" );
        m.mu = mu; m.speed = speed; m.l = lambda;
    }
    uint32_t N = 5u + static_cast<uint32_t>( t.bits( 150 ) );
    const bool again = t.chance( 1, 3 );
    size_t start = 0;
    t.check( c.enableAutoTuning( N ), "enable" );
    m.left = N;
    std::vector<Tuner> sh( 6, m );
    for ( size_t i = 0; i < sh.size(); ++i ) { sh[ i ].rnd = 77u + i; }
    t.note( "plant gain %.9g time constant %.9g dt %.9g; kc %.9g ki %.9g mu %.9g speed %.9g lambda %.9g type %zu steps %u", K, T, dt, kc, ki, m.mu, m.speed, m.l, ty, N );
    double y = 0;
    float w = 0;
    bool done = false, changed = false, once = false;
    pidGains last = c.getGains();
    const float noise = t.coin() ? 0.0f : t.f32( 0.01f, 0.3f );
    size_t limit = N + 60u;
    Bystander by( t );
    for ( size_t s = 0; s < limit && !done; ++s ) {
        by.poke( t );
        if ( s % 7u == 0u ) { w = ( w > 0 ? -1.0f : 1.0f )*t.f32( 5.0f, 20.0f ); }
        if ( again && !once && s % 7u == 0u && s > 0u && 0u == start && t.chance( 1, 4 ) ) { // bound again: a fresh start from the gains in use
            t.check( c.bindAutoTuning( at ), "bind" );
            m = Tuner( kc, ki, dt );
            t.check( c.setAutoTuningControllerType( tunerTypes[ ty ] ), "type refused" );
            if ( t.coin() ) { t.check( c.setAutoTuningParameters( 0.9f, 0.5f, 0.97f ), "tuning parameters refused" ); m.mu = 0.9f; m.speed = 0.5f; m.l = 0.97f; }
            N = 5u + static_cast<uint32_t>( t.bits( 60 ) );
            t.check( c.enableAutoTuning( N ), "enable" );
            m.left = N;
            std::fill( sh.begin(), sh.end(), m );
            for ( size_t i = 0; i < sh.size(); ++i ) { sh[ i ].rnd = 77u + i; }
            start = s;
            limit = s + N + 60u;
            t.note( "bound again, %u steps", N );
        }
        if ( again && t.chance( 1, 30 ) ) { // another number of steps asked for on the way, or after completion
            N = 1u + static_cast<uint32_t>( t.bits( 60 ) );
            limit = s + N + 60u;
            t.check( c.enableAutoTuning( N ), "enable" );
            m.left = N;
            for ( auto &q : sh ) { q.left = N; }
            t.note( "%u steps from here", N );
        }
        if ( t.chance( 1, 40 ) ) { K *= t.f32( 0.6f, 1.6f ); T *= t.f32( 0.7f, 1.4f ); changed = s > 10u; t.note( "plant gain %.9g time constant %.9g", K, T ); }
        const double base = start > 0u ? 2e-3 : 1e-4;
        const double pa = -std::exp( -dt/T ), pb = K*( 1.0 + pa );
        const float ym = static_cast<float>( y ) + ( noise > 0 ? noise*t.f32( -1.0f, 1.0f ) : 0.0f ), u = c.control( w, ym );
        y = -pa*y + pb*static_cast<double>( u );
        done = m.step( u, ym, dt );
        if ( start > 0u && std::fabs( u ) >= 95.0f ) { return; } // on the limits the regressors no longer tell gain and time constant apart
        double dk = 0, dT = 0;
        for ( auto &q : sh ) { (void)q.step( u, ym, dt ); dk = std::max( dk, std::fabs( q.k - m.k )/( m.k + 1e-30 ) ); dT = std::max( dT, std::fabs( q.tao - m.tao )/( m.tao + 1e-30 ) ); m.edge = m.edge || q.left != m.left; }
        t.note( "control(%.9g, %.9g) -> %.9g; estimates %.9g %.9g (sensitivity %.3g %.3g)", w, ym, u, m.k, m.tao, dk, dT );
        if ( m.edge || dk > 0.02 || dT > 0.02 ) { if ( s < 4u && 0u == start && dk < 0.02 && dT < 0.02 ) { m.edge = false; } else { return; } } // close to a discontinuity of the estimates, or too sensitive to rounding
        const pidGains g = at.getEstimates();
        double Kc, Ki, Kd;
        rules( tunerTypes[ ty ], m.speed, m.k, m.tao, Kc, Ki, Kd );
        if ( m.tao > 0 && m.k > 0 ) {
            const double rk = base + 10*dk, rT = base + 10*dT;
            t.near( "estimated proportional gain", g.Kc, Kc, rk*Kc, "step %zu", s );
            t.near( "estimated integral gain", g.Ki, Ki, ( rk + rT )*Ki, "step %zu", s );
            t.near( "estimated derivative gain", g.Kd, Kd, ( rk + rT )*Kd, "step %zu", s );
        }
        t.check( c.isAutoTuningComplete() == done, "step %zu: tuning over %u valid steps is %scomplete", s, N, done ? "not " : "" );
        const pidGains h = c.getGains();
        if ( done ) {
            t.check( pbt::eqv( h.Kc, g.Kc ) && pbt::eqv( h.Ki, g.Ki ) && pbt::eqv( h.Kd, g.Kd ), "estimates differ from the gains set" );
            if ( changed ) { t.nontrivial(); }
            if ( again && limit < 400u && t.coin() ) { // once more
                N = 1u + static_cast<uint32_t>( t.bits( 60 ) );
                limit = s + N + 60u;
                t.check( c.enableAutoTuning( N ), "enable" );
                m.left = N;
                for ( auto &q : sh ) { q.left = N; }
                done = false;
                once = true;
                last = h;
                t.note( "%u more steps", N );
            }
        }
        else { t.check( h.Kc == last.Kc && h.Ki == last.Ki && h.Kd == last.Kd, "gains changed at step %zu before tuning completed", s ); }
    }
    if ( done && changed ) { t.nontrivial(); }
}
// numbers of steps beyond 8, 16 and 31 bits
static void longTuning( Ctx &t )
{
    static const uint32_t FAR[] = { 65536u, 65537u, 65540u, 65792u, 70000u, 131072u + 3u, 1000000u, 0x01000001u, 0x7FFFFFFFu, 0x80000001u, 0xFFFF0001u, 0xFFFFFFFEu };
    const uint32_t N = t.chance( 1, 3 ) ? 255u + static_cast<uint32_t>( t.bits( 1000 ) ) : t.pick( FAR );
    pidController c;
    pidAutoTuning at;
    const float dt = t.f32log( 1e-2f, 0.5f );
    const double T = static_cast<double>( t.f32( 4.0f, 30.0f ) )*dt, K = t.f32log( 0.3f, 4.0f );
    const double a1 = -std::exp( -dt/T ), b1 = K*( 1.0 + a1 );
    const float kc = t.f32( 0.3f, 1.0f )/static_cast<float>( K ), ki = t.f32( 0.05f, 0.3f )*kc/static_cast<float>( T );
    t.check( c.setup( kc, ki, 0.0f, dt ) && c.setSaturation( -100.0f, 100.0f ) && c.bindAutoTuning( at ) && c.setAutoTuningParameters( 0.5f, 0.5f, 0.99f ) && c.enableAutoTuning( N ), "set-up" );
    t.note( "%u steps asked for; plant gain %.9g time constant %.9g dt %.9g kc %.9g ki %.9g", N, K, T, dt, kc, ki );
    double y = 0;
    float w = 0;
    const uint32_t run = N < 70001u && t.chance( 1, 2 ) ? N + 200u : std::min( N, 600u ) + 200u;
    bool done = false;
    for ( uint32_t n = 1; n <= run; ++n ) {
        if ( n % 7u == 1u ) { w = ( w > 0 ? -1.0f : 1.0f )*( n < 700u ? t.f32( 5.0f, 20.0f ) : 5.0f + static_cast<float>( n*2654435761u%15u ) ); }
        const float u = c.control( w, static_cast<float>( y ) );
        y = -a1*y + b1*static_cast<double>( u );
        done = c.isAutoTuningComplete();
        t.check( !done || n >= N, "tuning over %u steps is complete after %u", N, n );
        if ( done ) { break; }
        const pidGains g = c.getGains();
        t.check( g.Kc == kc && g.Ki == ki && g.Kd == 0.0f, "gains changed at step %u before tuning completed", n );
    }
    t.check( done || run <= N, "tuning over %u steps not complete after %u", N, run );
    t.nontrivial();
}
const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "unready", unready, 50000 }, { "refuse", refuse, 200000 }, { "accept", accept, 50000 }, { "gains", gains, 300000 }, { "tuning", tuning, 40000 }, { "tracking", tracking, 40000 }, { "longTuning", longTuning, 600 } };
    return s;
}
