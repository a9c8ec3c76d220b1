// P17: the PID control action
#include "pid_common.hpp"
namespace pbt {
const char *const PROPERTY = "P17";
const char *const RULE = "controllers with random gains of any sign, time steps, reference weights, filter constants, limits, directions, dead bands and integration/differentiation rules, driven by held, stepped and ramped references and process values for up to 150 steps (one in 400 up to 1260) while modes, limits, gains, manual input, model reference, resets and set-ups change; every output is compared with a double-precision model of the control law; metamorphic runs compare reverse action with negated gains and restarts with fresh controllers; non-trivial = the output was both inside and at the limits during the run";
}
static void draw( Ctx &t, float dt, float &kc, float &ki, float &kd )
{
    kc = t.chance( 1, 8 ) ? 0.0f : t.f32( -4.0f, 4.0f );
    ki = t.chance( 1, 6 ) ? 0.0f : t.f32( -1.0f, 1.0f )*std::min( 4.0f, 0.8f/dt );
    kd = t.chance( 1, 4 ) ? 0.0f : t.f32( -2.0f, 2.0f )*std::min( 1.0f, dt );
}
static void law( Ctx &t )
{
    pbt::Junk<pidController> P( static_cast<uint8_t>( t.bits( 255 ) ) );
    pidController &c = *P;
    PModel m;
    float dt = t.chance( 1, 4 ) ? t.f32log( 1e-6f, 20.0f ) : t.f32log( 1e-3f, 1.0f ), kc, ki, kd, yr = 0.0f;
    const float A = t.chance( 1, 3 ) ? t.f32log( 1e-4f, 1e5f ) : t.f32log( 0.1f, 100.0f );
    draw( t, dt, kc, ki, kd );
    t.check( c.setup( kc, ki, kd, dt ), "setup refused" );
    m.setup( kc, ki, kd, dt );
    t.note( "setup(%.9g, %.9g, %.9g, %.9g)", kc, ki, kd, dt );
    auto settings = [&]( unsigned k ) {
        switch ( k ) {
            case 0: { const float a = t.f32( -A, A )*2, b = t.f32( -A, A )*2; const bool ok = c.setSaturation( a, b ); t.check( ok == ( b > a ), "setSaturation(%.9g, %.9g) returns %d", a, b, ok ); if ( ok ) { m.lo = a; m.hi = b; t.note( "saturation [%.9g, %.9g]", a, b ); } break; }
            case 1: { const float a = t.f32( 0.0f, 1.0f ), b = t.f32( 0.0f, 1.0f ); t.check( c.setReferenceWeighting( a, b ), "setReferenceWeighting refused" ); m.b = a; m.c = b; t.note( "weights %.9g %.9g", a, b ); break; }
            case 2: { const float a = t.chance( 1, 4 ) ? 0.0f : t.f32( 0.0f, 0.995f ); t.check( c.setDerivativeFilter( a ), "setDerivativeFilter refused" ); m.beta = a; t.note( "filter %.9g", a ); break; }
            case 3: { const bool b = t.coin(); t.check( c.setDirection( b ? pidDirection::PID_BACKWARD : pidDirection::PID_FORWARD ), "setDirection refused" ); m.backward = b; t.note( "backward %d", b ); break; }
            case 4: { const bool b = t.coin(); t.check( c.setMode( b ? pidMode::PID_MANUAL : pidMode::PID_AUTOMATIC ), "setMode refused" ); m.manual = b; t.note( "manual %d", b ); break; }
            case 5: { const float a = t.f32( -A, A ); t.check( c.setManualInput( a ), "setManualInput refused" ); m.mIn = a; t.note( "manual input %.9g", a ); break; }
            case 6: { draw( t, dt, kc, ki, kd ); if ( t.coin() ) { t.check( c.setGains( kc, ki, kd ), "setGains refused" ); } else { pidGains g = { kc, ki, kd }; t.check( c.setGains( g ), "setGains refused" ); } m.kc = kc; m.ki = ki; m.kd = kd; t.note( "gains %.9g %.9g %.9g", kc, ki, kd ); break; }
            case 7: { const float lim = std::min( 0.8f/dt, 5.0f ), g = std::fabs( ki ) > 1e-3f ? std::min( lim, 0.8f/( std::fabs( ki )*dt ) ) : lim; const float a = t.chance( 1, 4 ) ? 0.0f : t.f32( 0.0f, 1.0f )*std::min( g, 5.0f ), b = t.f32( 0.0f, 2.0f ); t.check( c.setExtraGains( a, b ), "setExtraGains refused" ); m.kw = a; m.kt = b; t.note( "extra gains %.9g %.9g", a, b ); break; }
            case 8: { const float a = t.coin() ? A*t.f32( 0.01f, 0.3f ) : 1e-6f; t.check( c.setEpsilon( a ), "setEpsilon refused" ); m.eps = a; t.note( "epsilon %.9g", a ); break; }
            case 9: { const int im = static_cast<int>( t.bits( 3 ) ), dm = static_cast<int>( t.bits( 2 ) ); c.setIntegrationMethod( static_cast<integrationMethod>( im ) ); c.setDerivationMethod( static_cast<derivationMethod>( dm ) ); m.I.im = im; m.Dv.dm = dm; t.note( "rules %d %d", im, dm ); break; }
            case 10: {
                if ( !m.mrac || t.coin() ) {
                    const float g = t.f32log( 0.01f, 2.0f ), al = t.f32log( 0.01f, 2.0f );
                    t.check( c.setModelReferenceControl( yr, g, al ), "setModelReferenceControl refused" ); m.mrac = true; m.gamma = g; m.alpha = al; m.M.init(); t.note( "model reference %.9g %.9g", g, al );
                }
                else { t.check( c.removeModelReferenceControl(), "removeModelReferenceControl refused" ); m.mrac = false; t.note( "model reference off" ); }
                break;
            }
            case 11: { const float Tf = t.chance( 1, 4 ) ? 0.0f : t.f32log( 0.05f, 20.0f )*dt; t.check( c.setDerivativeFilterTimeConstant( Tf ), "setDerivativeFilterTimeConstant refused" ); m.beta = Tf > 0 ? std::exp( -static_cast<double>( dt )/Tf ) : 0.0; t.note( "filter time %.9g", Tf ); break; }
            case 13: { // set up again: settings return to their defaults, the rules are selected explicitly
                if ( m.mrac ) { t.check( c.removeModelReferenceControl(), "removeModelReferenceControl refused" ); m.mrac = false; }
                if ( t.coin() ) { dt = t.f32log( 1e-3f, 1.0f ); }
                draw( t, dt, kc, ki, kd );
                t.check( c.setup( kc, ki, kd, dt ), "set-up refused" );
                m.setup( kc, ki, kd, dt );
                c.setIntegrationMethod( static_cast<integrationMethod>( m.I.im ) ); c.setDerivationMethod( static_cast<derivationMethod>( m.Dv.dm ) );
                t.note( "set up again (%.9g, %.9g, %.9g, %.9g)", kc, ki, kd, dt );
                break;
            }
            default: { t.check( c.reset(), "reset" ); m.reset(); t.note( "reset" ); break; }
        }
    };
    // keeps the loop of the saturation feedback stable
    auto tame = [&]() { const double g = m.kw*std::max( 1.0, std::fabs( m.ki ) )*m.dt; if ( g > 0.85 ) { const float k = static_cast<float>( 0.8/( std::max( 1.0, std::fabs( m.ki ) )*m.dt ) ); c.setExtraGains( k, static_cast<float>( m.kt ) ); m.kw = k; } };
    const size_t nset = t.bits( 6 );
    for ( size_t i = 0; i < nset; ++i ) { settings( static_cast<unsigned>( t.bits( 13 ) ) ); }
    bool calm;
    const size_t steps = t.steps( 1, 150, calm );
    Sig W, Y, R;
    Bystander by( t );
    for ( size_t k = 0; k < steps; ++k ) {
        by.poke( t );
        if ( t.busy( calm ) && t.chance( 1, 25 ) ) { settings( static_cast<unsigned>( t.bits( 13 ) ) ); }
        tame();
        const float w = W.next( t, A ), y = Y.next( t, A );
        yr = m.mrac ? R.next( t, A ) : 0.0f;
        const double e = m.control( w, y, yr );
        const float u = c.control( w, y );
        t.note( "control(%.9g, %.9g) yr=%.9g -> %.9g (model %.9g, unsaturated %.9g)", w, y, yr, u, e, m.v );
        if ( m.edge ) { return; }
        t.check( u >= static_cast<float>( m.lo ) && u <= static_cast<float>( m.hi ), "output %.9g outside the limits [%.9g, %.9g]", u, m.lo, m.hi );
        t.near( "control action", u, e, 1e-5*t.drift( k )*( m.big + 1e-6*A ), "step %zu", k );
    }
    if ( m.wasSat && m.wasFree ) { t.nontrivial(); }
}
// output always within limits, for any finite inputs and gains
static void limits( Ctx &t )
{
    pbt::Junk<pidController> P( static_cast<uint8_t>( t.bits( 255 ) ) );
    pidController &c = *P;
    const float dt = t.f32log( 1e-3f, 10.0f );
    auto g = [&]() { const float f = t.f32log( 1e-4f, 1e4f ); return t.coin() ? -f : ( t.chance( 1, 4 ) ? 0.0f : f ); };
    t.check( c.setup( g(), g(), g(), dt ), "setup" );
    float lo = 0, hi = 100;
    if ( t.coin() ) { c.setDirection( pidDirection::PID_BACKWARD ); }
    const float k = t.f32( 0.0f, 1.0f );
    c.setExtraGains( k, 1.0f );
    bool atLimit = false;
    const size_t steps = t.size( 1, 40 );
    for ( size_t i = 0; i < steps; ++i ) {
        if ( t.chance( 1, 6 ) ) { const float a = g(), b = g(); const bool ok = c.setSaturation( a, b ); t.check( ok == ( b > a ), "setSaturation(%.9g, %.9g) returns %d", a, b, ok ); if ( ok ) { lo = a; hi = b; } }
        if ( t.chance( 1, 10 ) ) { c.setMode( t.coin() ? pidMode::PID_MANUAL : pidMode::PID_AUTOMATIC ); c.setManualInput( g() ); }
        const float w = g(), y = g(), u = c.control( w, y );
        t.note( "control(%.9g, %.9g) -> %.9g", w, y, u );
        if ( std::isnan( u ) || std::isinf( c() ) ) { t.discard(); }
        t.check( u >= lo && u <= hi, "control(%.9g, %.9g) = %.9g outside the limits [%.9g, %.9g]", w, y, u, lo, hi );
        atLimit = atLimit || u == lo || u == hi;
    }
    if ( atLimit ) { t.nontrivial(); }
}
// reverse action = the same controller with negative gains; restart = fresh controller; controllers are independent
static void relations( Ctx &t )
{
    pidController a, b, r;
    const float dt = t.f32log( 1e-3f, 0.5f );
    float kc, ki, kd;
    draw( t, dt, kc, ki, kd );
    kc = std::fabs( kc ); ki = std::fabs( ki ); kd = std::fabs( kd );
    const float A = t.f32log( 1e-3f, 1e4f ), lo = -t.f32( 0.1f, 4.0f )*A, hi = t.f32( 0.1f, 4.0f )*A, wb = t.f32( 0.0f, 1.0f ), wc = t.f32( 0.0f, 1.0f );
    const float kw = std::min( 1.0f, 0.8f/( std::max( 1.0f, ki )*dt ) );
    pidGains g = { kc, ki, kd };
    t.check( a.setup( g, dt ) && b.setup( -kc, -ki, -kd, dt ) && r.setup( g, dt ), "setup" );
    a.setDirection( pidDirection::PID_BACKWARD );
    for ( pidController *p : { &a, &b, &r } ) { p->setSaturation( lo, hi ); p->setReferenceWeighting( wb, wc ); p->setExtraGains( kw, 1.0f ); }
    // r: exercised, reset, then run again as reverse action with mirrored signals
    Sig W, Y;
    const size_t pre = t.bits( 30 ), steps = t.size( 1, 60 );
    for ( size_t i = 0; i < pre; ++i ) { const float w = W.next( t, A ), y = Y.next( t, A ); (void)r.control( w, y ); }
    t.check( r.reset(), "reset" );
    r.setDirection( pidDirection::PID_BACKWARD );
    t.check( a.getGains().Kc == kc && a.getGains().Ki == ki && a.getGains().Kd == kd, "getGains" );
    double big = 1e-6*A;
    for ( size_t i = 0; i < steps; ++i ) {
        const float w = W.next( t, A ), y = Y.next( t, A );
        const float ua = a.control( w, y ), ub = b.control( w, y ), ur = r.control( w, y );
        big = std::max( big, static_cast<double>( kc + std::fabs( a() )*ki + kd/dt )*( std::fabs( w ) + std::fabs( y ) ) + std::fabs( a()*ki ) + A );
        t.note( "control(%.9g, %.9g): reverse %.9g, negative gains %.9g, restarted %.9g", w, y, ua, ub, ur );
        t.near( "reverse action", ua, ub, 2e-5*big, "step %zu", i );
        t.near( "restarted controller", ur, ua, 2e-5*big, "step %zu after reset", i );
    }
    if ( steps > 5 ) { t.nontrivial(); }
}
// saturated for long in either direction of action, the controller leaves the limit as fast as one that never saturated
static void windup( Ctx &t )
{
    pidController c;
    const float dt = t.f32log( 1e-2f, 0.2f ), kc = t.f32( 0.2f, 3.0f ), ki = t.f32( 0.2f, 3.0f ), s = t.coin() ? -1.0f : 1.0f;
    t.check( c.setup( kc, ki, 0.0f, dt ), "setup" );
    c.setSaturation( -1.0f, 1.0f );
    if ( s < 0 ) { c.setDirection( pidDirection::PID_BACKWARD ); }
    const float e = t.f32( 2.0f, 50.0f )*( t.coin() ? 1.0f : -1.0f );
    const size_t n = 50u + t.bits( 3000 );
    float u = 0;
    for ( size_t i = 0; i < n; ++i ) { u = c.control( e, 0.0f ); }
    t.check( u == ( e*s > 0 ? 1.0f : -1.0f ), "output %.9g is not at the limit after %zu steps with error %.9g", u, n, e );
    // unsaturated action settles where kw*(u-v) cancels the error, so v - u <= |e|/kw: the opposite error brings it back promptly
    const float w2 = -e;
    size_t k = 0;
    const size_t bound = static_cast<size_t>( 3.0/( ki*dt ) ) + 5u;
    for ( ; k < bound; ++k ) { u = c.control( w2, 0.0f ); if ( ( e*s > 0 ) ? ( u < 0 ) : ( u > 0 ) ) { break; } }
    t.check( k < bound, "after %zu saturated steps (error %.9g, kc %.9g, ki %.9g, dt %.9g, direction %g) the output still has not left the limit %zu steps after the error reversed", n, e, kc, ki, dt, s, k );
    t.nontrivial();
}
const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "law", law, 500000 }, { "limits", limits, 300000 }, { "relations", relations, 200000 }, { "windup", windup, 8000 } };
    return s;
}
