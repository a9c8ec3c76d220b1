// P15: continuous transfer functions
#include "lti_common.hpp"
namespace pbt {
const char *const PROPERTY = "P15";
const char *const RULE = "random stable continuous transfer functions of order 1..4, now and then 5..8 (real and complex poles, arbitrary leading coefficient, proper and strictly proper numerators) under each integration rule, driven by random inputs (histories of up to 1260 samples) with state changes, changes of the rule and repeated set-ups, compared with a double-precision evaluation of the canonical state equations; smooth and step responses compared with a fine Runge-Kutta solution of the differential equation; steady state compared with the DC gain; orders of 255 to 520 for a few samples; non-trivial = non-zero input for at least 8 samples";
}
struct CModel {
    V a, b; double b0{ 0 };
    struct St { double x, s1, s2; };
    std::vector<St> st;
    int method{ INTEGRATION_TRAPEZOIDAL };
    double dt{ 1 }, big{ 0 };
    void set( const V &num, const V &den, double h )
    {
        a.clear(); b.clear();
        for ( size_t i = 1; i < den.size(); ++i ) { a.push_back( den[ i ]/den[ 0 ] ); b.push_back( num[ i ]/den[ 0 ] ); }
        b0 = num[ 0 ]/den[ 0 ];
        dt = h;
        st.assign( a.size(), St{ 0, 0, 0 } );
        big = 0;
    }
    void integ( St &s, double v )
    {
        switch ( method ) {
            case INTEGRATION_RECTANGULAR: s.x += v*dt; break;
            case INTEGRATION_TRAPEZOIDAL: s.x += 0.5*( v + s.s1 )*dt; break;
            case INTEGRATION_QUADRATIC: s.x += ( 5.0*v + 8.0*s.s1 - s.s2 )*dt/12.0; break;
            default: s.x += ( v + 4.0*s.s1 + s.s2 )*dt/6.0; break;
        }
        s.s2 = s.s1;
        s.s1 = v;
    }
#if defined( LTISYS_EVAL_MODEL_OBSERVABLE )
    double step( double u ) // observable canonical form
    {
        const size_t n = a.size();
        V old( n );
        for ( size_t i = 0; i < n; ++i ) { old[ i ] = st[ i ].x; }
        for ( size_t i = 0; i < n; ++i ) {
            integ( st[ i ], -a[ i ]*old[ 0 ] + ( ( i + 1u < n ) ? old[ i + 1u ] : 0.0 ) + ( b[ i ] - a[ i ]*b0 )*u );
            big = std::max( big, std::fabs( st[ i ].x ) + ( std::fabs( b[ i ] ) + std::fabs( a[ i ]*b0 ) )*std::fabs( u )*dt );
        }
        big = std::max( big, std::fabs( b0*u ) );
        return st[ 0 ].x + b0*u;
    }
#else
    double step( double u ) // controllable canonical form (default build)
    {
        const size_t n = a.size();
        V old( n );
        double dx = u, y = 0;
        for ( size_t i = 0; i < n; ++i ) { old[ i ] = st[ i ].x; dx -= a[ i ]*old[ i ]; }
        double mag = std::fabs( b0*u );
        integ( st[ 0 ], dx );
        for ( size_t i = 1; i < n; ++i ) { integ( st[ i ], old[ i - 1u ] ); }
        for ( size_t i = 0; i < n; ++i ) { y += ( b[ i ] - a[ i ]*b0 )*st[ i ].x; mag += ( std::fabs( b[ i ] ) + std::fabs( a[ i ]*b0 ) )*std::fabs( st[ i ].x ); }
        y += b0*u;
        big = std::max( big, mag );
        return y;
    }
#endif
};
// tu: unit of time, by which every pole is multiplied
static void draw( Ctx &t, V &num, V &den, double &pmax, double &tu )
{
    const size_t n = t.chance( 1, 12 ) ? 5u + t.bits( 3 ) : 1u + t.bits( 3 );
    V p{ 1.0 };
    size_t d = n;
    pmax = 0.2;
    while ( d > 0u ) {
        if ( d >= 2u && t.coin() ) {
            const double wn = t.f32( 0.4f, 3.0f ), z = t.f32( 0.3f, 1.0f );
            p = polyMul( p, V{ 1.0, 2.0*z*wn, wn*wn } );
            pmax = std::max( pmax, wn );
            d -= 2u;
        }
        else {
            const double r = t.f32( 0.3f, 3.0f );
            p = polyMul( p, V{ 1.0, r } );
            pmax = std::max( pmax, r );
            d -= 1u;
        }
    }
    num.assign( n + 1u, 0.0 );
    for ( size_t i = 0; i <= n; ++i ) { num[ i ] = ( ( i == 0u && t.coin() ) || t.chance( 1, 5 ) ) ? 0.0 : static_cast<double>( t.f32( -3.0f, 3.0f ) ); }
    const double g = t.chance( 1, 3 ) ? 1.0 : static_cast<double>( t.f32log( 0.2f, 5.0f ) )*( t.coin() ? 1.0 : -1.0 );
    den = p;
    for ( auto &v : den ) { v = static_cast<float>( v*g ); }
    const double q = t.chance( 1, 4 ) ? std::ldexp( 1.0, static_cast<int>( t.bits( 40 ) ) - 20 ) : 1.0; // output in another unit
    for ( auto &v : num ) { v = static_cast<float>( v*q ); }
    const int e = t.chance( 1, 4 ) ? static_cast<int>( t.bits( 20 ) ) - 10 : 0;
    tu = std::ldexp( 1.0, e );
    for ( size_t i = 0; i <= n; ++i ) { num[ i ] = std::ldexp( num[ i ], e*static_cast<int>( i ) ); den[ i ] = std::ldexp( den[ i ], e*static_cast<int>( i ) ); }
    pmax *= tu;
}
static void history( Ctx &t )
{
    V num, den;
    double pm, tu;
    draw( t, num, den, pm, tu );
    std::vector<std::unique_ptr<Arr>> keep;
    std::vector<std::unique_ptr<nState[]>> keepS;
    auto arr = [ & ]( const V &v ) { keep.emplace_back( new Arr( v ) ); return keep.back()->get(); };
    auto st = [ & ]( size_t n ) { keepS.emplace_back( new nState[ n ] ); return keepS.back().get(); };
    const float h0 = static_cast<float>( static_cast<double>( t.f32( 0.002f, 0.05f ) )/pm );
    CModel m;
    m.set( num, den, h0 );
    t.note( "num=%s den=%s dt=%.9g", show( num ).c_str(), show( den ).c_str(), h0 );
    size_t cxn = num.size() - 1u;
    float *cn = arr( num ), *cd = arr( den ); // arrays in use
    nState *cx = st( cxn );
    pbt::Junk<continuousSystem> sys( static_cast<uint8_t>( t.bits( 255 ) ), cn, cd, cx, num.size() - 1u, h0 );
    t.check( sys->isInitialized() && sys->getType() == LTISYS_TYPE_CONTINUOUS, "system not initialised by its constructor" );
    Input in( t );
    bool calm;
    const size_t steps = t.steps( 1, 120, calm );
    size_t run = 0, nz = 0;
    if ( t.chance( 2, 3 ) ) {
        m.method = static_cast<int>( t.bits( 2 ) );
        t.check( sys->setIntegrationMethod( static_cast<integrationMethod>( m.method ) ), "integration rule refused" );
        t.note( "rule %d", m.method );
    }
    Bystander by( t );
    for ( size_t k = 0; k < steps; ++k ) {
        by.poke( t );
        const unsigned op = t.busy( calm ) ? static_cast<unsigned>( t.bits( 49 ) ) : 0u;
        if ( op == 47u ) { // another rule in the middle of a run; the fourth one need not be supported
            static const int R[] = { INTEGRATION_RECTANGULAR, INTEGRATION_TRAPEZOIDAL, INTEGRATION_SIMPSON, INTEGRATION_QUADRATIC, 4, 77, -1 };
            const size_t w = t.bits( 6 );
            const bool ok = sys->setIntegrationMethod( static_cast<integrationMethod>( R[ w ] ) );
            t.note( "rule %d -> %d", R[ w ], ok );
            t.check( w == 3u || ok == ( w < 3u ), "integration rule %d is %s", R[ w ], ok ? "accepted" : "refused" );
            if ( ok ) { m.method = R[ w ]; }
            continue;
        }
        if ( op == 49u ) {
            if ( t.coin() ) {
                t.check( sys->setInitStates(), "setInitStates" );
                for ( auto &s : m.st ) { s = CModel::St{ 0, 0, 0 }; }
            }
            else {
                V xi( m.st.size() );
                for ( auto &v : xi ) { v = in.unit*static_cast<double>( t.f32( -1.0f, 1.0f ) ); }
                Arr a( xi );
                t.check( sys->setInitStates( a.get() ), "setInitStates" );
                xi = a.vec();
                for ( size_t i = 0; i < xi.size(); ++i ) { m.st[ i ] = CModel::St{ xi[ i ], xi[ i ], xi[ i ] }; }
                t.note( "states set to %s", show( xi ).c_str() );
            }
            run = 0;
            continue;
        }
        if ( op == 48u ) {
            V n2, d2;
            double p2, tu2;
            draw( t, n2, d2, p2, tu2 );
            if ( t.coin() ) {
                Arr a( n2 ), b( d2 );
                std::unique_ptr<nState[]> c( new nState[ n2.size() ] );
                bool r;
                switch ( t.bits( 3 ) ) {
                    case 0: r = sys->setup( nullptr, b.get(), c.get(), n2.size() - 1u, 0.01f ); break;
                    case 1: r = sys->setup( a.get(), nullptr, c.get(), n2.size() - 1u, 0.01f ); break;
                    case 2: r = sys->setup( a.get(), b.get(), nullptr, n2.size() - 1u, 0.01f ); break;
                    default: r = sys->setup( a.get(), b.get(), c.get(), 0, 0.01f ); break;
                }
                t.check( !r, "invalid set-up accepted" );
            }
            else {
                bool reused = false;
                switch ( t.bits( 2 ) ) {
                    case 0: // other coefficients of the same number written into the same arrays, the same states
                        for ( auto &v : num ) { v = static_cast<float>( v*static_cast<double>( t.f32( -2.0f, 2.0f ) ) ); }
                        { const double g = t.f32( 0.5f, 2.0f ); for ( auto &v : den ) { v = static_cast<float>( v*g ); } }
                        for ( size_t i = 0; i < num.size(); ++i ) { cn[ i ] = static_cast<float>( num[ i ] ); cd[ i ] = static_cast<float>( den[ i ] ); }
                        reused = true;
                        t.note( "same arrays" );
                        break;
                    case 1: // other coefficients, the same states
                        num = n2; den = d2; pm = p2;
                        cn = arr( num ); cd = arr( den );
                        if ( num.size() - 1u > cxn ) { cxn = num.size() - 1u; cx = st( cxn ); }
                        else { reused = true; t.note( "same states" ); }
                        break;
                    default:
                        num = n2; den = d2; pm = p2;
                        cn = arr( num ); cd = arr( den );
                        cxn = num.size() - 1u;
                        cx = st( cxn );
                        break;
                }
                const float h = static_cast<float>( static_cast<double>( t.f32( 0.002f, 0.05f ) )/pm );
                t.check( sys->setup( cn, cd, cx, num.size() - 1u, h ), "valid set-up refused" );
                m.set( num, den, h );
                m.method = INTEGRATION_TRAPEZOIDAL;
                if ( reused ) { t.check( sys->setIntegrationMethod( INTEGRATION_TRAPEZOIDAL ), "integration rule refused" ); } // states may keep the rule they had
                t.note( "set up again num=%s den=%s dt=%.9g", show( num ).c_str(), show( den ).c_str(), h );
                run = 0;
            }
            continue;
        }
        const float u = in.next( t );
        const double e = m.step( u );
        const float y = sys->excite( u );
        ++run;
        if ( u != 0.0f ) { ++nz; }
        t.note( "excite(%.9g) -> %.9g (%.9g)", u, y, e );
        t.near( "output", y, e, 1e-4*m.big*t.drift( k ) + 1e-37, "num=%s den=%s dt=%.9g rule %d sample %zu", show( num ).c_str(), show( den ).c_str(), m.dt, m.method, run );
        if ( nz >= 8u ) { t.nontrivial(); }
    }
}
// fine Runge-Kutta solution of the differential equation, controllable form
static double rk( const V &a, const V &b, double b0, double T, double w, double &peak )
{
    const size_t n = a.size();
    const int N = 4000;
    const double h = T/N;
    V x( n, 0.0 );
    auto u = [ & ]( double tt ) { return w > 0 ? std::sin( w*tt ) : 1.0; };
    auto f = [ & ]( const V &s, double tt ) { V d( n ); d[ 0 ] = u( tt ); for ( size_t i = 0; i < n; ++i ) { d[ 0 ] -= a[ i ]*s[ i ]; } for ( size_t i = 1; i < n; ++i ) { d[ i ] = s[ i - 1u ]; } return d; };
    double y = 0;
    peak = std::fabs( b0 );
    for ( int k = 0; k < N; ++k ) {
        const double tt = h*k;
        V k1 = f( x, tt ), s( n );
        for ( size_t i = 0; i < n; ++i ) { s[ i ] = x[ i ] + h/2*k1[ i ]; }
        V k2 = f( s, tt + h/2 );
        for ( size_t i = 0; i < n; ++i ) { s[ i ] = x[ i ] + h/2*k2[ i ]; }
        V k3 = f( s, tt + h/2 );
        for ( size_t i = 0; i < n; ++i ) { s[ i ] = x[ i ] + h*k3[ i ]; }
        V k4 = f( s, tt + h );
        for ( size_t i = 0; i < n; ++i ) { x[ i ] += h/6*( k1[ i ] + 2*k2[ i ] + 2*k3[ i ] + k4[ i ] ); }
        y = b0*u( tt + h );
        double mg = std::fabs( y );
        for ( size_t i = 0; i < n; ++i ) { const double c = ( b[ i ] - a[ i ]*b0 )*x[ i ]; y += c; mg += std::fabs( c ); }
        peak = std::max( peak, mg );
    }
    return y;
}
static void physics( Ctx &t )
{
    V num, den;
    double pm, tu;
    draw( t, num, den, pm, tu );
    const float h = static_cast<float>( 0.004/pm );
    const size_t n = num.size() - 1u;
    Arr a( num ), b( den );
    std::unique_ptr<nState[]> st( new nState[ n ] );
    pbt::Junk<continuousSystem> sys( 3, a.get(), b.get(), st.get(), n, h );
    const int method = static_cast<int>( t.bits( 2 ) );
    t.check( sys->setIntegrationMethod( static_cast<integrationMethod>( method ) ), "rule refused" );
    const double w = t.coin() ? 0.0 : tu*static_cast<double>( t.f32( 0.3f, 2.0f ) );
    const size_t steps = 200u + t.bits( 800 );
    const double unit = Input( t ).unit;
    float y = 0;
    for ( size_t k = 0; k < steps; ++k ) { y = sys->excite( static_cast<float>( unit*( w > 0 ? std::sin( w*static_cast<double>( h )*static_cast<double>( k ) ) : 1.0 ) ) ); }
    CModel m;
    m.set( num, den, h );
    double peak = 0;
    const double T = static_cast<double>( h )*static_cast<double>( steps );
    const double ref = rk( m.a, m.b, m.b0, T, w, peak );
    double ref0 = 0; // size of the response to be expected after the transient
    for ( size_t i = 0; i < n; ++i ) { ref0 += std::fabs( m.b[ i ] )/std::pow( tu, static_cast<double>( i + 1u ) ); }
    t.near( "response", y, unit*ref, unit*( 0.05*peak + 1e-3*ref0 ) + 1e-37, "num=%s den=%s %s after %.9g s, rule %d", show( num ).c_str(), show( den ).c_str(), w > 0 ? "sinusoid" : "step", T, method );
    t.nontrivial();
}
static void dcGain( Ctx &t )
{
    V num, den;
    double pm, tu;
    draw( t, num, den, pm, tu );
    const float h = static_cast<float>( 0.05/pm );
    const size_t n = num.size() - 1u;
    Arr a( num ), b( den );
    std::unique_ptr<nState[]> st( new nState[ n ] );
    pbt::Junk<continuousSystem> sys( 9, a.get(), b.get(), st.get(), n, h );
    CModel m;
    m.set( num, den, h );
    m.method = static_cast<int>( t.bits( 2 ) );
    t.check( sys->setIntegrationMethod( static_cast<integrationMethod>( m.method ) ), "rule refused" );
    const float u = static_cast<float>( Input( t ).unit )*t.f32( -3.0f, 3.0f );
    const size_t steps = static_cast<size_t>( 120.0/( tu*static_cast<double>( h ) ) );
    float y = 0;
    for ( size_t k = 0; k < steps; ++k ) { y = sys->excite( u ); m.step( u ); }
    t.near( "steady state", y, u*num[ n ]/den[ n ], 1e-3*m.big + 1e-37, "num=%s den=%s input %.9g rule %d", show( num ).c_str(), show( den ).c_str(), u, m.method );
    if ( u != 0.0f ) { t.nontrivial(); }
}
static void typed( Ctx &t )
{
    const float k = t.f32( -3.0f, 3.0f ), wn = t.f32( 0.4f, 3.0f ), z = t.f32( 0.3f, 1.0f ), g = t.f32( 0.5f, 2.0f ), h = 0.02f;
    const float num[ 3 ] = { t.coin() ? 0.0f : 0.7f, 0.5f, k }, den[ 3 ] = { g, g*2.0f*z*wn, g*wn*wn };
    CModel m;
    m.set( V{ num[ 0 ], num[ 1 ], num[ 2 ] }, V{ den[ 0 ], den[ 1 ], den[ 2 ] }, h );
    continuousTF<2> tf( num, den ), tf2( num, den );
    float n3[ 3 ] = { num[ 0 ], num[ 1 ], num[ 2 ] }, d3[ 3 ] = { den[ 0 ], den[ 1 ], den[ 2 ] };
    nState x3[ 2 ];
    pbt::Junk<continuousSystem> s1( 1, tf, h ), s2( 2, n3, d3, x3, 2, h ), s3( 3, nullptr, nullptr, nullptr, 1, h );
    t.check( !s3->isInitialized() && s3->excite( 1.0f ) == 0.0f && !s3->setInitStates() && !s3->setIntegrationMethod( INTEGRATION_RECTANGULAR ), "uninitialised system" );
    t.check( s3->setup( tf2, h ), "set-up from a transfer function" );
    Input in( t );
    const size_t steps = t.size( 1, 60 );
    for ( size_t i = 0; i < steps; ++i ) {
        const float u = in.next( t );
        const double e = m.step( u );
        t.near( "output", s1->excite( u ), e, 1e-4*m.big + 1e-37, "sample %zu", i );
        t.near( "output", s2->excite( u ), e, 1e-4*m.big + 1e-37, "sample %zu", i );
        t.near( "output", s3->excite( u ), e, 1e-4*m.big + 1e-37, "sample %zu", i );
    }
    if ( steps > 8u ) { t.nontrivial(); }
}
// more states than an 8-bit index can reach: a few samples from a given state
static void huge( Ctx &t )
{
    static const size_t N[] = { 255, 256, 257, 258, 300, 511, 520 };
    const size_t n = t.pick( N );
    V num = sparse( t, n + 1u, 2.0 ), den = sparse( t, n + 1u, 0.8 );
    const double g = t.coin() ? 1.0 : 2.0;
    den[ 0 ] = 1.0;
    for ( auto &v : den ) { v *= g; }
    const float dt = t.f32( 0.01f, 0.2f );
    Arr pn( num ), pd( den );
    std::unique_ptr<nState[]> xs( new nState[ n ] );
    CModel m;
    m.set( num, den, dt );
    pbt::Junk<continuousSystem> sys( 3, pn.get(), pd.get(), xs.get(), n, dt );
    t.check( sys->isInitialized(), "system not initialised by its constructor" );
    m.method = static_cast<int>( t.bits( 2 ) );
    t.check( sys->setIntegrationMethod( static_cast<integrationMethod>( m.method ) ), "integration rule refused" );
    t.note( "order %zu rule %d dt %.9g", n, m.method, dt );
    const size_t steps = 4u + t.bits( 12 );
    for ( size_t k = 0; k < steps; ++k ) {
        if ( k == 3u ) {
            Arr xi( n, 0.0f );
            for ( size_t i = 0; i < n; ++i ) { xi.get()[ i ] = t.f32( -1.0f, 1.0f ); m.st[ i ] = CModel::St{ xi.get()[ i ], xi.get()[ i ], xi.get()[ i ] }; }
            t.check( sys->setInitStates( xi.get() ), "setInitStates" );
            t.note( "states set" );
        }
        const float u = t.f32( -2.0f, 2.0f );
        const double e = m.step( u );
        const float y = sys->excite( u );
        t.note( "excite(%.9g) -> %.9g (%.9g)", u, y, e );
        t.near( "output", y, e, 2e-4*( 1.0 + m.big ), "order %zu rule %d dt %.9g sample %zu", n, m.method, dt, k );
    }
    t.check( sys->setInitStates(), "setInitStates" );
    t.check( sys->excite( 0.0f ) == 0.0f, "order %zu: states not cleared", n );
    if ( n > 256u ) { t.nontrivial(); }
}
const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "history", history, 200000 }, { "physics", physics, 2000 }, { "dcGain", dcGain, 3000 }, { "typed", typed, 60000 }, { "huge", huge, 300 } };
    return s;
}
