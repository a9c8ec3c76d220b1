#ifndef SMOOTHER_COMMON_HPP
#define SMOOTHER_COMMON_HPP
#include <pbt.hpp>
#include <qlibs.h>
#include <deque>
using namespace qlibs;
using pbt::Ctx;

// Reference models: the defining recursion of each filter in double precision
struct Model {
    bool first{ true };
    bool ambiguous{ false }; // a decision was too close to call
    int events{ 0 };         // outliers replaced, ...
    virtual ~Model() {}
    void reset() { first = true; }
    virtual double step( double x ) = 0;
};
struct MLpf1 : Model {
    double a, y{ 0 };
    explicit MLpf1( double al ) : a( al ) {}
    double step( double x ) override { if ( first ) { y = x; first = false; } y = x + a*( y - x ); return y; }
};
struct MLpf2 : Model {
    double k, a1, a2, y1{ 0 }, y2{ 0 }, x1{ 0 }, x2{ 0 };
    explicit MLpf2( double a )
    {
        const double aa = a*a, p = std::sqrt( 2.0*a ), r = 1.0 + p + aa;
        k = aa/r; a1 = 2.0*( aa - 1.0 )/r; a2 = ( 1.0 - p + aa )/r;
    }
    double step( double x ) override
    {
        if ( first ) { y1 = y2 = x1 = x2 = x; first = false; }
        const double y = k*( x + 2.0*x1 + x2 ) - a1*y1 - a2*y2;
        x2 = x1; x1 = x; y2 = y1; y1 = y;
        return y;
    }
};
struct MMean : Model {
    size_t n; std::deque<double> w;
    explicit MMean( size_t k ) : n( k ) {}
    double step( double x ) override
    {
        if ( first ) { w.assign( n, x ); first = false; }
        w.push_front( x ); w.pop_back();
        double s = 0; for ( double v : w ) { s += v; }
        return s/static_cast<double>( n );
    }
};
struct MOutlier : Model {
    size_t n; double a, m{ 0 }; std::deque<double> w;
    MOutlier( size_t k, double al ) : n( k ), a( al ) {}
    double step( double x ) override
    {
        if ( first ) { w.assign( n, x ); m = x; first = false; }
        const double d = std::fabs( m - x ), lim = a*std::fabs( m );
        if ( std::fabs( d - lim ) <= 1e-4*( std::fabs( m ) + std::fabs( x ) ) && !( d == 0.0 && lim > 0.0 ) ) { ambiguous = true; }
        double xx = x;
        if ( d > lim ) { xx = m; ++events; }
        w.push_front( xx ); w.pop_back();
        double s = 0; for ( double v : w ) { s += v; }
        m = s/static_cast<double>( n );
        return xx;
    }
};
struct MGauss : Model {
    std::vector<double> k; std::deque<double> w;
    MGauss( double sg, double c, size_t n )
    {
        double s = 0;
        for ( size_t i = 0; i < n; ++i ) { const double d = static_cast<double>( i ) - c; k.push_back( std::exp( -d*d/( 2.0*sg*sg ) ) ); s += k.back(); }
        for ( double &v : k ) { v /= s; }
    }
    double step( double x ) override
    {
        if ( first ) { w.assign( k.size(), x ); first = false; }
        w.push_front( x ); w.pop_back();
        double s = 0; for ( size_t i = 0; i < k.size(); ++i ) { s += k[ i ]*w[ i ]; }
        return s;
    }
};
struct MExpw : Model {
    double l, m{ 0 }, w{ 1 };
    explicit MExpw( double la ) : l( la ) {}
    double step( double x ) override
    {
        if ( first ) { m = x; w = 1.0; first = false; }
        w = l*w + 1.0;
        m = m*( 1.0 - 1.0/w ) + x/w;
        return m;
    }
};
struct MKalman : Model {
    double q, r, p, xs{ 0 };
    MKalman( double qq, double rr, double pp ) : q( qq ), r( rr ), p( pp ) {}
    double step( double x ) override
    {
        if ( first ) { xs = x; first = false; }
        p += q;
        const double g = p/( r + p );
        xs += g*( x - xs );
        p = ( r/( r + p ) )*p;
        return xs;
    }
};
struct MHolt : Model {
    double a, b, n, l{ 0 }, t{ 0 };
    MHolt( double aa, double bb, double nn ) : a( aa ), b( bb ), n( nn ) {}
    double step( double x ) override
    {
        if ( first ) { l = x; t = x; first = false; }
        const double l1 = l;
        l = ( 1.0 - a )*l1 + a*x;
        t = ( 1.0 - b )*t + b*( l - l1 );
        return l + n*t;
    }
};
struct MLms : Model {
    double a, mu; size_t n; std::deque<double> x; std::vector<double> w, w1;
    MLms( double aa, double m, size_t k ) : a( aa ), mu( m ), n( k ) {}
    double step( double u ) override
    {
        if ( first ) { x.assign( n, u ); w.assign( n, 1.0/static_cast<double>( n ) ); w1 = w; first = false; }
        x.push_front( u ); x.pop_back();
        double xe = 0;
        for ( size_t i = 0; i < n; ++i ) { xe += w[ i ]*x[ i ]; }
        for ( size_t i = 0; i < n; ++i ) {
            const double w0 = w[ i ];
            w[ i ] += a*( u - xe )*x[ i ] + mu*( w0 - w1[ i ] );
            w1[ i ] = w0;
        }
        return xe;
    }
};

enum Kind { LPF1, LPF2, MWM1, MWM2, MOR1, MOR2, GMWF, EXPW, KLMN, DESF, ALNF, NKINDS };
static const char *const KNAME[] = { "LPF1", "LPF2", "MWM1", "MWM2", "MOR1", "MOR2", "GMWF", "EXPW", "KLMN", "DESF", "ALNF" };

// parameters in (0,1), now and then close to either end
static float unitParam( Ctx &t, float lo, float hi )
{
    if ( t.chance( 1, 8 ) ) { const float d = t.f32log( 1e-5f, 0.02f ); return t.coin() ? d : 1.0f - d; }
    return t.f32( lo, hi );
}
// a filter under test with its model, and the storage the filter works in
struct Pair {
    Kind kind;
    std::string desc;
    std::unique_ptr<float[]> win, ker, ker2;
    std::vector<std::unique_ptr<float[]>> old;
    uint8_t junk{ 0 };
    std::unique_ptr<pbt::Junk<smootherLPF1>> f0;
    std::unique_ptr<pbt::Junk<smootherLPF2>> f1;
    std::unique_ptr<pbt::Junk<smootherMWM1>> f2;
    std::unique_ptr<pbt::Junk<smootherMWM2>> f3;
    std::unique_ptr<pbt::Junk<smootherMOR1>> f4;
    std::unique_ptr<pbt::Junk<smootherMOR2>> f5;
    std::unique_ptr<pbt::Junk<smootherGMWF>> f6;
    std::unique_ptr<pbt::Junk<smootherEXPW>> f7;
    std::unique_ptr<pbt::Junk<smootherKLMN>> f8;
    std::unique_ptr<pbt::Junk<smootherDESF>> f9;
    std::unique_ptr<pbt::Junk<smootherALNF>> f10;
    smoother *s{ nullptr };
    std::unique_ptr<Model> m;
    size_t n{ 1 };
    double scale{ 1 };
    double relTol{ 1e-4 };
    bool same{ false }; // set up again over the same arrays, which hold whatever the filter left in them

    float* fresh( std::unique_ptr<float[]> &p, size_t k )
    {
        if ( same && p ) { return p.get(); }
        if ( p ) { old.push_back( std::move( p ) ); }
        p.reset( new float[ k ] );
        for ( size_t i = 0; i < k; ++i ) { p[ i ] = 1e9f; }
        return p.get();
    }
    void construct( Ctx &t, Kind k )
    {
        kind = k;
        junk = static_cast<uint8_t>( t.bits( 255 ) );
        switch ( k ) {
            case LPF1: f0.reset( new pbt::Junk<smootherLPF1>( junk ) ); s = &**f0; break;
            case LPF2: f1.reset( new pbt::Junk<smootherLPF2>( junk ) ); s = &**f1; break;
            case MWM1: f2.reset( new pbt::Junk<smootherMWM1>( junk ) ); s = &**f2; break;
            case MWM2: f3.reset( new pbt::Junk<smootherMWM2>( junk ) ); s = &**f3; break;
            case MOR1: f4.reset( new pbt::Junk<smootherMOR1>( junk ) ); s = &**f4; break;
            case MOR2: f5.reset( new pbt::Junk<smootherMOR2>( junk ) ); s = &**f5; break;
            case GMWF: f6.reset( new pbt::Junk<smootherGMWF>( junk ) ); s = &**f6; break;
            case EXPW: f7.reset( new pbt::Junk<smootherEXPW>( junk ) ); s = &**f7; break;
            case KLMN: f8.reset( new pbt::Junk<smootherKLMN>( junk ) ); s = &**f8; break;
            case DESF: f9.reset( new pbt::Junk<smootherDESF>( junk ) ); s = &**f9; break;
            default: f10.reset( new pbt::Junk<smootherALNF>( junk ) ); s = &**f10; break;
        }
    }
    // set up with valid random parameters; false if the filter refused them
    bool setup( Ctx &t, size_t force = 0 )
    {
        static const size_t wide[] = { 127, 128, 255, 256, 257, 300 };
        const size_t before = m ? n : 0u;
        same = m && t.coin();
        n = t.chance( 1, 150 ) ? t.pick( wide ) : t.size( 1, 24 );
        if ( same ) { n = before; }
        else { for ( auto p : { &win, &ker, &ker2 } ) { if ( *p ) { old.push_back( std::move( *p ) ); } } }
        if ( force ) { n = force; }
        char d[ 200 ];
        bool ok = false;
        relTol = 2e-5;
        switch ( kind ) {
            case LPF1: { const float a = unitParam( t, 0.005f, 0.99f ); ok = ( *f0 )->setup( a ); m.reset( new MLpf1( a ) ); snprintf( d, sizeof d, "a=%.9g", a ); relTol = 2e-5; break; }
            case LPF2: { const float a = t.chance( 1, 4 ) ? t.f32log( 0.002f, 0.1f ) : t.f32( 0.1f, 0.999f ); ok = ( *f1 )->setup( a ); m.reset( new MLpf2( a ) ); snprintf( d, sizeof d, "a=%.9g", a ); relTol = 1.2e-5/static_cast<double>( a ); break; }
            case MWM1: { ok = ( *f2 )->setup( fresh( win, n ), n ); m.reset( new MMean( n ) ); snprintf( d, sizeof d, "n=%zu", n ); break; }
            case MWM2: { ok = ( *f3 )->setup( fresh( win, n ), n ); m.reset( new MMean( n ) ); snprintf( d, sizeof d, "n=%zu", n ); break; }
            case MOR1: { const float a = unitParam( t, 0.05f, 0.97f ); ok = ( *f4 )->setup( fresh( win, n ), n, a ); m.reset( new MOutlier( n, a ) ); snprintf( d, sizeof d, "n=%zu a=%.9g", n, a ); break; }
            case MOR2: { const float a = unitParam( t, 0.05f, 0.97f ); ok = ( *f5 )->setup( fresh( win, n ), n, a ); m.reset( new MOutlier( n, a ) ); snprintf( d, sizeof d, "n=%zu a=%.9g", n, a ); break; }
            case GMWF: {
                if ( n < 2u ) { n = 2; }
                const float sg = t.chance( 1, 8 ) ? t.f32log( 1.0f, 1e3f ) : t.f32( 0.25f, 6.0f );
                const float c = std::max( 0.01f, std::min( static_cast<float>( n ) - 1.01f, t.f32( 0.0f, 1.0f )*static_cast<float>( n - 1 ) ) );
                ok = ( *f6 )->setup( sg, c, fresh( win, n ), fresh( ker, n ), n );
                m.reset( new MGauss( sg, c, n ) );
                snprintf( d, sizeof d, "sigma=%.9g c=%.9g n=%zu", sg, c, n );
                relTol = 1e-4;
                break;
            }
            case EXPW: { const float l = unitParam( t, 0.01f, 0.995f ); ok = ( *f7 )->setup( l ); m.reset( new MExpw( l ) ); snprintf( d, sizeof d, "lambda=%.9g", l ); relTol = 2e-5; break; }
            case KLMN: { const float r = t.chance( 1, 4 ) ? t.f32log( 1e-8f, 1e8f ) : t.f32log( 1e-2f, 1e2f ), q = r*t.f32log( 1e-3f, 50.0f ), p = r*t.f32log( 1e-3f, 50.0f ); ok = ( *f8 )->setup( q, r, p ); m.reset( new MKalman( q, r, p ) ); snprintf( d, sizeof d, "q=%.9g r=%.9g p=%.9g", q, r, p ); relTol = 5e-5; break; }
            case DESF: { const float a = unitParam( t, 0.02f, 0.98f ), b = unitParam( t, 0.02f, 0.98f ); n = t.bits( 10 ); ok = ( *f9 )->setup( a, b, n ); m.reset( new MHolt( a, b, static_cast<double>( n ) ) ); snprintf( d, sizeof d, "a=%.9g b=%.9g n=%zu", a, b, n ); relTol = 2e-5*static_cast<double>( 1 + n ); break; }
            default: {
                const float a = t.f32( 0.01f, 0.3f )/static_cast<float>( n ), mu = t.chance( 1, 3 ) ? 0.0f : t.f32( 0.01f, 0.5f );
                const bool w1 = mu > 0.0f;
                ok = ( *f10 )->setup( a, mu, n, fresh( win, n ), fresh( ker, n ), w1 ? fresh( ker2, n ) : nullptr );
                m.reset( new MLms( a, mu, n ) );
                snprintf( d, sizeof d, "a=%.9g mu=%.9g n=%zu", a, mu, n );
                relTol = 1e-4;
                break;
            }
        }
        if ( n > 24u ) { relTol *= 1.0 + static_cast<double>( n )/50.0; }
        desc = std::string( KNAME[ kind ] ) + "(" + d + ")" + ( same ? " over the same arrays" : "" );
        same = false;
        return ok;
    }
};

// next sample of a signal that mixes levels, ramps, noise, spikes and repeats
struct Signal {
    double scale{ 1 }, base{ 0 };
    float last{ 0 };
    void start( Ctx &t, Kind k )
    {
        scale = static_cast<double>( ( k == ALNF ) ? ( t.coin() ? 1.0f : t.f32log( 1e-3f, 1.0f ) ) : ( t.chance( 1, 4 ) ? t.f32log( 1e-8f, 1e8f ) : t.f32log( 1e-3f, 1e3f ) ) );
        base = t.chance( 1, 3 ) ? 0.0 : static_cast<double>( t.f32( -1.0f, 1.0f ) );
    }
    float next( Ctx &t, Kind k )
    {
        double v;
        switch ( t.bits( 7 ) ) {
            case 0: v = base; break;
            case 1: return last;
            case 2: v = static_cast<double>( t.range( -4, 4 ) )*0.25; break;
            case 3: v = base*( 1.0 + 0.3*static_cast<double>( t.f32( -1.0f, 1.0f ) ) ); break;
            case 4: v = ( k == ALNF ) ? 1.0 : static_cast<double>( t.f32( -10.0f, 10.0f ) ); break;
            default: v = base + 0.2*static_cast<double>( t.f32( -1.0f, 1.0f ) ); break;
        }
        if ( k == ALNF ) { v = std::max( -1.0, std::min( 1.0, v ) ); }
        last = static_cast<float>( v*scale );
        return last;
    }
    double amp( Kind k ) const { return scale*( k == ALNF ? 1.0 : 10.0 ); }
};
#endif
