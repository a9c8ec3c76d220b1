// P14: discrete transfer functions obey their difference equation
#include "lti_common.hpp"
namespace pbt {
const char *const PROPERTY = "P14";
const char *const RULE = "random stable transfer functions (numerator 1..6 and denominator 1..6 coefficients in every combination, one in 12 of higher order up to 13 or with up to 290 numerator coefficients, arbitrary leading coefficient) on exactly sized arrays, driven by random inputs for up to 120 samples (one in 400 up to 1260) with state changes, refused and repeated set-ups in between; each output compared with the difference equation in double precision, plus superposition, time invariance, DC gain and the stand-alone FIR update (windows and coefficient arrays also of about 65540 elements); non-trivial = at least as many samples as the order plus 4 with a non-zero input and a system with memory";
}
static void draw( Ctx &t, V &num, V &den )
{
    size_t nb = 1u + t.bits( 5 ), na = 1u + t.bits( 5 );
    float R = na > 4u ? 0.7f : 0.85f;
    if ( t.chance( 1, 12 ) ) { // higher orders, poles near the origin; rarely very long numerators
        na = 1u + t.bits( 12 );
        nb = t.chance( 1, 8 ) ? 250u + t.bits( 40 ) : 1u + t.bits( 16 );
        R = na > 5u ? 0.35f : 0.7f;
        if ( nb > 200u ) { na = 1u + t.bits( 3 ); R = 0.5f; }
    }
    den = stableDen( t, na - 1u, R );
    num.assign( nb, 0.0 );
    for ( auto &v : num ) { v = t.chance( 1, 5 ) ? 0.0 : static_cast<double>( t.f32( -2.0f, 2.0f ) ); }
    const double g = t.chance( 1, 3 ) ? 1.0 : static_cast<double>( t.f32log( 0.2f, 5.0f ) )*( t.coin() ? 1.0 : -1.0 );
    for ( auto &v : den ) { v = static_cast<float>( v*g ); }
    const double q = t.chance( 1, 4 ) ? std::ldexp( 1.0, static_cast<int>( t.bits( 40 ) ) - 20 ) : 1.0; // output in another unit
    for ( auto &v : num ) { v = static_cast<float>( v*q ); }
}
static void history( Ctx &t )
{
    V num, den;
    draw( t, num, den );
    std::vector<std::unique_ptr<Arr>> keep;
    auto arr = [ & ]( const V &v ) { keep.emplace_back( new Arr( v ) ); return keep.back()->get(); };
    auto st = [ & ]( size_t n ) { keep.emplace_back( new Arr( n, 33.0f ) ); return keep.back()->get(); };
    DModel m;
    m.set( num, den );
    t.note( "num=%s den=%s", show( num ).c_str(), show( den ).c_str() );
    float *pn = arr( num ), *pd = arr( den );
    const uint8_t j = static_cast<uint8_t>( t.bits( 255 ) );
    size_t cxn = std::max( num.size(), den.size() );
    float *cn = pn, *cd = pd, *cx = st( cxn ); // arrays in use
    pbt::Junk<discreteSystem> sys( j, pn, pd, cx, num.size(), den.size() );
    t.check( sys->isInitialized() && sys->getType() == LTISYS_TYPE_DISCRETE, "system not initialised by its constructor" );
    for ( size_t i = 0; i < num.size(); ++i ) { t.near( "normalised numerator", pn[ i ], num[ i ]/den[ 0 ], 1e-6*std::fabs( num[ i ]/den[ 0 ] ), "coefficient %zu", i ); }
    for ( size_t i = 0; i < den.size(); ++i ) { t.near( "normalised denominator", pd[ i ], den[ i ]/den[ 0 ], 1e-6*std::fabs( den[ i ]/den[ 0 ] ), "coefficient %zu", i ); }
    // independent memory for the difference equation
    V us, ys;
    bool eqValid = true; // zero initial state: the direct difference equation applies
    Input in( t );
    bool calm;
    size_t steps = t.steps( 1, 120, calm ), run = 0;
    if ( num.size() > 100u ) { steps += 2u*num.size(); }
    bool nz = false;
    Bystander by( t );
    for ( size_t k = 0; k < steps; ++k ) {
        by.poke( t );
        const unsigned op = t.busy( calm ) ? static_cast<unsigned>( t.bits( 49 ) ) : 0u;
        if ( op == 49u ) {
            if ( t.coin() ) {
                t.check( sys->setInitStates(), "setInitStates" );
                std::fill( m.x.begin(), m.x.end(), 0.0 );
                eqValid = true;
                t.note( "states cleared" );
            }
            else {
                V xi( m.x.size() );
                for ( auto &v : xi ) { v = in.unit*static_cast<double>( t.f32( -1.0f, 1.0f ) ); }
                Arr a( xi );
                t.check( sys->setInitStates( a.get() ), "setInitStates" );
                m.x = a.vec();
                eqValid = false;
                t.note( "states set to %s", show( m.x ).c_str() );
            }
            us.clear(); ys.clear();
            m.vmax = 0;
            for ( double v : m.x ) { m.vmax = std::max( m.vmax, std::fabs( v ) ); }
            run = 0;
            continue;
        }
        if ( op == 48u ) {
            V n2, d2;
            draw( t, n2, d2 );
            if ( t.coin() ) { // refused
                Arr a( n2 ), b( d2 ), c( std::max( n2.size(), d2.size() ), 0.0f );
                bool r;
                switch ( t.bits( 4 ) ) {
                    case 0: r = sys->setup( nullptr, b.get(), c.get(), n2.size(), d2.size() ); break;
                    case 1: r = sys->setup( a.get(), nullptr, c.get(), n2.size(), d2.size() ); break;
                    case 2: r = sys->setup( a.get(), b.get(), nullptr, n2.size(), d2.size() ); break;
                    case 3: r = sys->setup( a.get(), b.get(), c.get(), 0, d2.size() ); break;
                    default: r = sys->setup( a.get(), b.get(), c.get(), n2.size(), 0 ); break;
                }
                t.check( !r, "invalid set-up accepted" );
            }
            else {
                switch ( t.bits( 3 ) ) {
                    case 0: // other coefficients of the same number written into the same arrays, the same states
                        for ( auto &v : num ) { v = static_cast<float>( v*static_cast<double>( t.f32( -2.0f, 2.0f ) ) ); }
                        { const double g = t.f32( 0.5f, 2.0f ); for ( auto &v : den ) { v = static_cast<float>( v*g ); } }
                        for ( size_t i = 0; i < num.size(); ++i ) { cn[ i ] = static_cast<float>( num[ i ] ); }
                        for ( size_t i = 0; i < den.size(); ++i ) { cd[ i ] = static_cast<float>( den[ i ] ); }
                        t.note( "same arrays" );
                        break;
                    case 1: // the same coefficients, as the system left them
                        t.note( "same arrays as they are" );
                        break;
                    case 2: // other coefficients, the same states
                        num = n2; den = d2;
                        cn = arr( num ); cd = arr( den );
                        if ( std::max( num.size(), den.size() ) > cxn ) { cxn = std::max( num.size(), den.size() ); cx = st( cxn ); }
                        else { t.note( "same states" ); }
                        break;
                    default:
                        num = n2; den = d2;
                        cn = arr( num ); cd = arr( den );
                        cxn = std::max( num.size(), den.size() );
                        cx = st( cxn );
                        break;
                }
                t.check( sys->setup( cn, cd, cx, num.size(), den.size() ), "valid set-up refused" );
                m.set( num, den );
                us.clear(); ys.clear();
                eqValid = true;
                run = 0;
                t.note( "set up again num=%s den=%s", show( num ).c_str(), show( den ).c_str() );
            }
            continue;
        }
        const float u = in.next( t );
        nz = nz || ( u != 0.0f );
        const double e = m.step( u );
        const float y = sys->excite( u );
        ++run;
        t.note( "excite(%.9g) -> %.9g (%.9g)", u, y, e );
        t.near( "output", y, e, m.tol()*t.drift( k ), "num=%s den=%s sample %zu", show( num ).c_str(), show( den ).c_str(), run );
        if ( eqValid ) {
            us.insert( us.begin(), u );
            double d = 0;
            for ( size_t i = 0; i < num.size() && i < us.size(); ++i ) { d += num[ i ]*us[ i ]; }
            for ( size_t i = 1; i < den.size() && i <= ys.size(); ++i ) { d -= den[ i ]*ys[ i - 1u ]; }
            d /= den[ 0 ];
            ys.insert( ys.begin(), d );
            t.near( "difference equation", y, d, m.tol(), "num=%s den=%s sample %zu", show( num ).c_str(), show( den ).c_str(), run );
        }
        if ( nz && run >= std::max( num.size(), den.size() ) + 4u && ( num.size() > 1u || den.size() > 1u ) ) { t.nontrivial(); }
    }
}
// superposition and time invariance of two systems with the same coefficients
static void linear( Ctx &t )
{
    V num, den;
    draw( t, num, den );
    const size_t n = std::max( num.size(), den.size() );
    Arr n1( num ), n2( num ), n3( num ), d1( den ), d2( den ), d3( den ), x1( n, 0 ), x2( n, 0 ), x3( n, 0 );
    pbt::Junk<discreteSystem> a( 1, n1.get(), d1.get(), x1.get(), num.size(), den.size() ), b( 2, n2.get(), d2.get(), x2.get(), num.size(), den.size() ), c( 3, n3.get(), d3.get(), x3.get(), num.size(), den.size() );
    DModel m;
    m.set( num, den );
    const float k1 = t.f32( -2.0f, 2.0f ), k2 = t.f32( -2.0f, 2.0f );
    const size_t steps = t.size( 1, 40 ), shift = t.bits( 6 );
    Input i1( t ), i2;
    i2.unit = i1.unit;
    for ( size_t s = 0; s < shift; ++s ) { c->excite( 0.0f ); } // a delayed start changes nothing
    for ( size_t s = 0; s < steps; ++s ) {
        const float u = i1.next( t ), v = i2.next( t );
        const float ya = a->excite( u ), yb = b->excite( v ), yc = c->excite( k1*u + k2*v );
        m.step( std::fabs( u ) + std::fabs( v ) );
        m.vmax = std::max( m.vmax, 4.0*i1.unit );
        const double ref = static_cast<double>( k1 )*ya + static_cast<double>( k2 )*yb;
        t.near( "superposition", yc, ref, 8*m.tol(), "num=%s den=%s sample %zu", show( num ).c_str(), show( den ).c_str(), s );
    }
    if ( steps > 6u && n > 1u ) { t.nontrivial(); }
}
static void dcGain( Ctx &t )
{
    V num, den;
    draw( t, num, den );
    const size_t n = std::max( num.size(), den.size() );
    Arr n1( num ), d1( den ), x1( n, 0 );
    pbt::Junk<discreteSystem> a( 5, n1.get(), d1.get(), x1.get(), num.size(), den.size() );
    double sb = 0, sa = 0;
    for ( double v : num ) { sb += v; }
    for ( double v : den ) { sa += v; }
    const float u = static_cast<float>( Input( t ).unit )*t.f32( -3.0f, 3.0f );
    DModel m;
    m.set( num, den );
    float y = 0;
    for ( int i = 0; i < 700; ++i ) { y = a->excite( u ); m.step( u ); }
    t.near( "steady state", y, u*sb/sa, 3*m.tol(), "num=%s den=%s input %.9g", show( num ).c_str(), show( den ).c_str(), u );
    if ( u != 0.0f && n > 1u ) { t.nontrivial(); }
}
static void fir( Ctx &t )
{
    static const size_t wide[] = { 127, 128, 129, 255, 256, 257, 300 };
    const size_t n = t.chance( 1, 100 ) ? t.pick( wide ) : t.size( 1, 20 );
    V w0( n ), c0( n );
    const float su = static_cast<float>( Input( t ).unit ), sc = static_cast<float>( Input( t ).unit );
    for ( auto &v : w0 ) { v = su*t.f32( -2.0f, 2.0f ); }
    for ( auto &v : c0 ) { v = sc*t.f32( -2.0f, 2.0f ); }
    Arr w( w0 ), c( c0 );
    V m = w.vec();
    const bool useC = t.coin();
    const size_t steps = ( n > 20u ? n : 0u ) + t.size( 1, 30 );
    for ( size_t k = 0; k < steps; ++k ) {
        const float x = su*t.f32( -3.0f, 3.0f );
        const float y = useC ? discreteSystem::updateFIR( w.get(), n, x, c.get() ) : discreteSystem::updateFIR( w.get(), n, x );
        m.insert( m.begin(), x );
        m.pop_back();
        double e = 0;
        for ( size_t i = 0; i < n; ++i ) { e += m[ i ]*( useC ? c0[ i ] : 1.0 ); }
        t.near( "FIR output", y, e, 2e-5*static_cast<double>( n )*su*( useC ? sc : 1.0f ), "window %zu step %zu", n, k );
        for ( size_t i = 0; i < n; ++i ) { t.check( w.get()[ i ] == static_cast<float>( m[ i ] ), "window position %zu of %zu is %.9g, expected %.9g", i, n, w.get()[ i ], m[ i ] ); }
    }
    if ( n > 1u && steps > n ) { t.nontrivial(); }
}
// more coefficients than a 16-bit index can reach
static void huge( Ctx &t )
{
    const size_t nb = t.chance( 1, 3 ) ? 1u + t.bits( 300 ) : 65500u + t.bits( 100 ), na = t.chance( 1, 3 ) ? 1u + t.bits( 300 ) : 65500u + t.bits( 100 ), n = std::max( na, nb );
    V num = sparse( t, nb, 2.0 ), den = sparse( t, na, 0.8 );
    den[ 0 ] = 1.0;
    const double g = t.coin() ? 1.0 : 2.0;
    for ( auto &v : den ) { v *= g; }
    Arr pn( num ), pd( den ), px( n, 7.0f );
    DModel m;
    m.set( num, den );
    t.note( "%zu numerator and %zu denominator coefficients", nb, na );
    pbt::Junk<discreteSystem> sys( 3, pn.get(), pd.get(), px.get(), nb, na );
    t.check( sys->isInitialized(), "system not initialised by its constructor" );
    for ( size_t i = 0; i < nb; ++i ) { if ( num[ i ] != 0.0 ) { t.near( "normalised numerator", pn.get()[ i ], num[ i ]/g, 1e-6*std::fabs( num[ i ] ), "coefficient %zu of %zu", i, nb ); } }
    const size_t steps = 4u + t.bits( 12 );
    for ( size_t k = 0; k < steps; ++k ) {
        if ( k == 3u ) {
            if ( m.x.size() < n ) { m.x.resize( n, 0.0 ); }
            Arr xi( n, 0.0f );
            for ( size_t i = 0; i < n; ++i ) { xi.get()[ i ] = static_cast<float>( ( i*37u ) % 101u )/50.0f - 1.0f; }
            t.check( sys->setInitStates( xi.get() ), "setInitStates" );
            m.x = xi.vec();
            t.note( "states set" );
        }
        const float u = t.f32( -2.0f, 2.0f );
        const double e = m.step( u );
        const float y = sys->excite( u );
        t.note( "excite(%.9g) -> %.9g (%.9g)", u, y, e );
        t.near( "output", y, e, 1e-4*( 1.0 + m.gain() ), "%zu numerator and %zu denominator coefficients, sample %zu", nb, na, k );
    }
    t.check( sys->setInitStates(), "setInitStates" );
    t.check( sys->excite( 0.0f ) == 0.0f, "%zu numerator and %zu denominator coefficients: states not cleared", nb, na );
    if ( n > 65536u ) { t.nontrivial(); }
}
static void hugeFir( Ctx &t )
{
    const size_t n = 65500u + t.bits( 100 );
    Arr c( sparse( t, n, 2.0 ) ), w( n, 0.0f );
    for ( size_t i = 0; i < n; ++i ) { w.get()[ i ] = static_cast<float>( ( i*37u ) % 101u )/50.0f - 1.0f; }
    V m = w.vec();
    const bool useC = t.coin();
    const V c0 = c.vec();
    for ( size_t k = 0; k < 6u; ++k ) {
        const float x = t.f32( -3.0f, 3.0f );
        const float y = useC ? discreteSystem::updateFIR( w.get(), n, x, c.get() ) : discreteSystem::updateFIR( w.get(), n, x );
        m.insert( m.begin(), x );
        m.pop_back();
        double e = 0;
        for ( size_t i = 0; i < n; ++i ) { e += m[ i ]*( useC ? c0[ i ] : 1.0 ); }
        t.near( "FIR output", y, e, useC ? 1e-4 : 0.05, "window %zu step %zu", n, k );
        for ( size_t i = 0; i < n; ++i ) { if ( w.get()[ i ] != static_cast<float>( m[ i ] ) ) { t.check( false, "window position %zu of %zu is %.9g, expected %.9g", i, n, w.get()[ i ], m[ i ] ); } }
    }
    if ( n > 65536u ) { t.nontrivial(); }
}
// the typed transfer function and array set-ups describe the same system
static void typed( Ctx &t )
{
    float num[ 2 ] = { t.f32( -2.0f, 2.0f ), t.f32( -2.0f, 2.0f ) }, den[ 3 ] = { t.f32( 0.5f, 2.0f ), 0, 0 };
    const V d = stableDen( t, 2, 0.85f );
    const float a0 = den[ 0 ];
    den[ 1 ] = static_cast<float>( d[ 1 ] )*a0;
    den[ 2 ] = static_cast<float>( d[ 2 ] )*a0;
    DModel m;
    m.set( V{ num[ 0 ], num[ 1 ] }, V{ den[ 0 ], den[ 1 ], den[ 2 ] } );
    discreteTF<2, 3> tf( num, den ), tf2( num, den );
    float n3[ 2 ] = { num[ 0 ], num[ 1 ] }, d3[ 3 ] = { den[ 0 ], den[ 1 ], den[ 2 ] };
    float x3[ 3 ] = { 9, 9, 9 };
    pbt::Junk<discreteSystem> s1( 7, tf ), s2( 9, n3, d3, static_cast<float*>( x3 ) );
    pbt::Junk<discreteSystem> s3( 9, nullptr, nullptr, nullptr, 1, 1 );
    t.check( !s3->isInitialized() && s3->excite( 1.0f ) == 0.0f && !s3->setInitStates(), "uninitialised system" );
    t.check( s3->setup( tf2 ) && s3->isInitialized(), "set-up from a transfer function" );
    Input in( t );
    const size_t steps = t.size( 1, 40 );
    for ( size_t k = 0; k < steps; ++k ) {
        const float u = in.next( t );
        const double e = m.step( u );
        t.near( "output", s1->excite( u ), e, m.tol(), "sample %zu", k );
        t.near( "output", s2->excite( u ), e, m.tol(), "sample %zu", k );
        t.near( "output", s3->excite( u ), e, m.tol(), "sample %zu", k );
    }
    if ( steps > 6u ) { t.nontrivial(); }
}
const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "history", history, 100000 }, { "linear", linear, 100000 }, { "dcGain", dcGain, 20000 }, { "fir", fir, 150000 }, { "typed", typed, 80000 }, { "huge", huge, 40 }, { "hugeFir", hugeFir, 40 } };
    return s;
}
