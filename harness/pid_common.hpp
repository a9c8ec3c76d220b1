#ifndef PID_COMMON_HPP
#define PID_COMMON_HPP
#include <pbt.hpp>
#include <qlibs.h>
using namespace qlibs;
using pbt::Ctx;
// a second controller with its own tuner at work beside the one under test
struct Bystander {
    bool on;
    pidController c;
    pidAutoTuning at;
    float yr{ 0.0f };
    explicit Bystander( Ctx &t ) : on( t.chance( 1, 4 ) ) { if ( on ) { t.check( c.setup( 1.5f, 0.7f, 0.01f, 0.02f ), "set-up" ); t.note( "a second controller beside" ); } }
    void poke( Ctx &t )
    {
        if ( !on || !t.chance( 1, 3 ) ) { return; }
        switch ( t.bits( 15 ) ) {
            case 0: c.setMode( t.coin() ? pidMode::PID_MANUAL : pidMode::PID_AUTOMATIC ); break;
            case 1: c.setDirection( t.coin() ? pidDirection::PID_BACKWARD : pidDirection::PID_FORWARD ); break;
            case 2: c.setManualInput( t.f32( -3.0f, 3.0f ) ); break;
            case 3: c.setSaturation( -0.5f, t.f32( 0.1f, 3.0f ) ); break;
            case 4: c.setGains( 0.1f, 0.2f, 0.0f ); break;
            case 5: c.setReferenceWeighting( 0.3f, 0.6f ); break;
            case 6: c.setDerivativeFilter( 0.4f ); break;
            case 7: c.setEpsilon( 0.3f ); break;
            case 8: c.setExtraGains( 0.9f, 0.2f ); break;
            case 9: c.setModelReferenceControl( yr, 0.3f, 0.8f ); break;
            case 10: c.setIntegrationMethod( INTEGRATION_RECTANGULAR ); c.setDerivationMethod( DERIVATION_BACKWARD ); break;
            case 11: c.bindAutoTuning( at ); c.setAutoTuningParameters( 0.3f, 0.8f, 0.91f ); c.setAutoTuningControllerType( pidType::PID_TYPE_PID ); c.enableAutoTuning( 3u ); break;
            case 12: c.reset(); break;
            case 13: c.setup( 0.6f, 0.3f, 0.02f, 0.3f ); break;
            default: yr = t.f32( -2.0f, 2.0f ); (void)c.control( t.f32( -2.0f, 2.0f ), t.f32( -2.0f, 2.0f ) ); break;
        }
    }
};
// double-precision numerical state with the rules of P13
struct DState {
    double x0{ 0 }, x1{ 0 }, x2{ 0 };
    int im{ INTEGRATION_TRAPEZOIDAL }, dm{ DERIVATION_2POINTS };
    void init() { x0 = x1 = x2 = 0; }
    double integrate( double s, double dt )
    {
        switch ( im ) {
            case INTEGRATION_RECTANGULAR: x0 += s*dt; break;
            case INTEGRATION_TRAPEZOIDAL: x0 += 0.5*( s + x1 )*dt; break;
            case INTEGRATION_SIMPSON: x0 += ( s + 4.0*x1 + x2 )*dt/6.0; break;
            default: x0 += ( 5.0*s + 8.0*x1 - x2 )*dt/12.0; break;
        }
        x2 = x1; x1 = s;
        return x0;
    }
    double derive( double s, double dt )
    {
        double r;
        switch ( dm ) {
            case DERIVATION_2POINTS: r = ( s - x1 )/dt; break;
            case DERIVATION_BACKWARD: r = ( 3.0*s - 4.0*x1 + x2 )/( 2.0*dt ); break;
            default: r = ( 4.0*x1 - 3.0*x2 - s )/( 2.0*dt ); break;
        }
        x2 = x1; x1 = s;
        return r;
    }
};
// what the controller is documented to compute
struct PModel {
    double kc{ 0 }, ki{ 0 }, kd{ 0 }, dt{ 1 }, beta{ 0.98 }, eps{ 1.175494351e-38 }, lo{ 0 }, hi{ 100 }, kw{ 1 }, kt{ 1 }, b{ 1 }, c{ 0 }, mIn{ 0 };
    bool manual{ false }, backward{ false }, mrac{ false };
    double gamma{ 0.5 }, alpha{ 0.01 };
    DState I, Dv, M, B;
    double D{ 0 }, u1{ 0 }, m{ 0 }, us{ 0 };
    double big{ 0 }, v{ 0 }, topDe{ 0 }, topI{ 0 }, topM{ 0 }; // largest magnitude met so far / unsaturated action
    bool amb{ false }, edge{ false };      // the step was too close to a switching threshold to be decided in single precision
    bool wasSat{ false }, wasFree{ false };
    void reset() { I.init(); Dv.init(); M.init(); B.init(); D = u1 = m = us = 0; topDe = topI = topM = 0; amb = false; }
    void setup( double p, double i, double d, double h )
    {
        const int keepI = I.im, keepD = Dv.dm;
        kc = p; ki = i; kd = d; dt = h; beta = 0.98; eps = 1.175494351e-38; lo = 0; hi = 100; kw = kt = 1; b = 1; c = 0; mIn = 0; manual = backward = false;
        beta = static_cast<double>( 0.98f );
        reset();
        I.im = keepI; Dv.dm = keepD;
    }
    double err( double w, double y, double k )
    {
        const double e = k*w - y;
        const double slack = 4e-7*( std::fabs( k*w ) + std::fabs( y ) );
        if ( std::fabs( std::fabs( e ) - eps ) <= slack && eps > 1e-30 ) { edge = true; }
        return ( std::fabs( e ) <= eps ) ? 0.0 : e;
    }
    double control( double w, double y, double yr )
    {
        edge = false;
        double p = kc, i = ki, d = kd;
        if ( backward ) { p = p > 0 ? -p : p; i = i > 0 ? -i : i; d = d > 0 ? -d : d; }
        const double e = err( w, y, 1.0 );
        const double de = Dv.derive( err( w, y, c ), dt );
        const double ie = I.integrate( e + u1, dt );
        topDe = std::max( topDe, std::fabs( de ) );
        topI = std::max( topI, std::fabs( ie ) + dt*std::fabs( e + u1 ) );
        D = de + beta*( D - de );
        const double pe = err( w, y, b );
        v = p*pe + i*ie + d*D;
        double mag = std::fabs( p )*( std::fabs( b*w ) + std::fabs( y ) ) + std::fabs( i )*topI + std::fabs( d )*( topDe + 0.01*( std::fabs( w ) + std::fabs( y ) )/dt ) + std::fabs( i )*dt*( std::fabs( w ) + std::fabs( y ) + std::fabs( u1 ) );
        if ( mrac ) {
            double th = 0;
            edge = edge || amb;
            if ( std::fabs( u1 ) <= eps ) { th = M.integrate( -gamma*( y - yr )*yr/( alpha + yr*yr ), dt ); }
            if ( eps > 1e-30 && std::fabs( std::fabs( u1 ) - eps ) < 0.01*eps + 1e-4*big*kw ) { edge = true; }
            topM = std::max( topM, std::fabs( M.x0 ) + dt*gamma*std::fabs( ( y - yr )*yr/( alpha + yr*yr ) ) );
            mag += std::fabs( w )*topM*4;
            v += w*th;
        }
        m = B.integrate( kt*mIn + kw*( us - m ), dt );
        mag += std::fabs( m ) + std::fabs( us );
        if ( mag > big ) { big = mag; }
        const double sw = manual ? m : v;
        us = sw < lo ? lo : ( sw > hi ? hi : sw );
        if ( us != sw ) { wasSat = true; } else { wasFree = true; }
        u1 = ( i < 0 ? -1.0 : 1.0 )*kw*( us - v );
        // whether the saturation feedback is zero cannot be told in single precision
        amb = manual ? ( std::fabs( us - v ) < 1e-4*big ) : ( std::fabs( sw - lo ) < 1e-4*big || std::fabs( sw - hi ) < 1e-4*big );
        return us;
    }
};
// reference and process signals: held, stepped, ramped
struct Sig {
    float v{ 0 }, s{ 0 };
    float next( Ctx &t, float A )
    {
        switch ( t.bits( 7 ) ) {
            case 0: s = 0; v = 0; break;
            case 1: s = 0; v = t.f32( -A, A ); break;
            case 2: s = t.f32( -A, A )*0.05f; break;
            case 3: s = 0; break;
            default: break;
        }
        v += s;
        if ( v > A ) { v = A; }
        if ( v < -A ) { v = -A; }
        return v;
    }
};
#endif
