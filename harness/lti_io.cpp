// P16: output limits, input delays and pure delays of LTI systems
#include "lti_common.hpp"
#include <deque>
namespace pbt {
const char *const PROPERTY = "P16";
const char *const RULE = "discrete and continuous systems with output limits and input delay lines configured, changed (one-sided and infinite limits included) and refused mid-run, between new states and new set-ups, while random inputs are applied: every output must equal the response of an identical unlimited system to the delayed input, clipped to the limits; pure delay blocks of several lengths (up to 65540 samples) compared with a queue; non-trivial = some outputs were clipped and some were not, or a delay line wrapped around";
}
template <class S, class F> static void run( Ctx &t, S &sys, S &ref, double gain, size_t order, F again )
{
    // sys has limits and delays, ref is the same system without them
    double lo = -1e38, hi = 1e38;
    std::deque<float> q; // delay model, empty = none
    std::vector<std::unique_ptr<Arr>> keep;
    Input in( t );
    gain *= in.unit;
    bool calm;
    size_t steps = t.steps( 1, 80, calm );
    bool clipped = false, free = false, wrapped = false;
    size_t ins = 0;
    Bystander by( t );
    for ( size_t k = 0; k < steps; ++k ) {
        by.poke( t );
        const unsigned op = ( ( q.size() > 12u && t.chance( 29, 30 ) ) || !t.busy( calm ) ) ? 0u : static_cast<unsigned>( t.bits( 19 ) );
        if ( op == 19u ) {
            float a = static_cast<float>( gain )*t.f32( -1.0f, 1.0f ), b = static_cast<float>( gain )*t.f32( -1.0f, 1.0f );
            if ( t.chance( 1, 6 ) ) { // one-sided, equal or no limits at all
                switch ( t.bits( 4 ) ) {
                    case 0: a = -INFINITY; break;
                    case 1: b = INFINITY; break;
                    case 2: b = a; break;
                    case 3: ( t.coin() ? a : b ) = NAN; break;
                    default: a = -INFINITY; b = INFINITY; break;
                }
            }
            const bool ok = sys.setSaturation( a, b );
            t.note( "setSaturation(%.9g, %.9g) -> %d", a, b, ok );
            t.check( ok == ( b > a ), "setSaturation(%.9g, %.9g) returns %d", a, b, ok );
            if ( ok ) { lo = a; hi = b; }
            continue;
        }
        if ( op == 18u && t.chance( 1, 2 ) ) {
            static const size_t wide[] = { 127, 128, 129, 255, 256, 257, 300 };
            const size_t n = ( !keep.empty() && t.chance( 1, 3 ) ) ? keep.back()->n : ( t.chance( 1, 60 ) ? t.pick( wide ) : t.size( 1, 12 ) );
            if ( n > 12u ) { steps = std::max<size_t>( steps, k + 2u*n ); }
            const float v = t.coin() ? 0.0f : static_cast<float>( in.unit )*t.f32( -1.0f, 1.0f );
            if ( !keep.empty() && n <= keep.back()->n && t.coin() ) { t.note( "over the same window" ); } // which holds earlier samples
            else { keep.emplace_back( new Arr( n, 55.0f ) ); }
            t.check( sys.setDelay( keep.back()->get(), n, v ), "setDelay" );
            t.note( "setDelay(%zu, %.9g)", n, v );
            q.assign( n, v );
            ins = 0;
            continue;
        }
        if ( op == 17u && t.chance( 1, 3 ) ) { // new states or a new set-up: limits and delay stay
            if ( t.coin() ) { again(); t.note( "set up again" ); }
            else if ( t.coin() ) { t.check( sys.setInitStates() && ref.setInitStates(), "setInitStates" ); t.note( "states cleared" ); }
            else {
                Arr xi( order, 0.0f );
                for ( size_t i = 0; i < order; ++i ) { xi.get()[ i ] = static_cast<float>( in.unit )*t.f32( -1.0f, 1.0f ); }
                t.check( sys.setInitStates( xi.get() ) && ref.setInitStates( xi.get() ), "setInitStates" );
                t.note( "states set" );
            }
            continue;
        }
        const float u = in.next( t );
        float ud = u;
        if ( !q.empty() ) { q.push_front( u ); q.pop_back(); ud = q.back(); ++ins; wrapped = wrapped || ( ins > q.size() && q.size() > 1u ); }
        const float y = sys.excite( u );
        const double r = ref.excite( ud );
        const double e = r < lo ? lo : ( r > hi ? hi : r );
        t.note( "excite(%.9g) -> %.9g (unlimited %.9g, limits [%.9g, %.9g])", u, y, r, lo, hi );
        t.check( y >= static_cast<float>( lo ) && y <= static_cast<float>( hi ), "output %.9g leaves the limits [%.9g, %.9g]", y, lo, hi );
        t.near( "limited delayed output", y, e, 1e-5*gain, "sample %zu", k );
        if ( e != r ) { clipped = true; } else { free = true; }
    }
    if ( ( clipped && free ) || wrapped ) { t.nontrivial(); }
}
static void discrete( Ctx &t )
{
    const size_t na = 1u + t.bits( 3 ), nb = 1u + t.bits( 3 );
    V den = stableDen( t, na - 1u, 0.8f ), num( nb );
    for ( auto &v : num ) { v = t.f32( -2.0f, 2.0f ); }
    const size_t n = std::max( na, nb );
    Arr n1( num ), n2( num ), d1( den ), d2( den ), x1( n, 0 ), x2( n, 0 );
    pbt::Junk<discreteSystem> a( static_cast<uint8_t>( t.bits( 255 ) ), n1.get(), d1.get(), x1.get(), nb, na ), b( 0, n2.get(), d2.get(), x2.get(), nb, na );
    double g = 1;
    for ( double v : num ) { g += 2.0*std::fabs( v ); }
    t.note( "discrete num=%s den=%s", show( num ).c_str(), show( den ).c_str() );
    run( t, *a, *b, g, std::max( na - 1u, nb ), [&]() { x2 = Arr( n, 0 ); t.check( a->setup( n1.get(), d1.get(), x1.get(), nb, na ) && b->setup( n2.get(), d2.get(), x2.get(), nb, na ), "set-up" ); } );
}
static void continuous( Ctx &t )
{
    const double p = t.f32( 0.5f, 2.0f ), r = t.f32( 0.5f, 2.0f );
    V den{ 1.0, p + r, p*r }, num{ t.coin() ? 0.0 : static_cast<double>( t.f32( -2.0f, 2.0f ) ), static_cast<double>( t.f32( -2.0f, 2.0f ) ), static_cast<double>( t.f32( -2.0f, 2.0f ) ) };
    Arr n1( num ), n2( num ), d1( den ), d2( den );
    nState x1[ 2 ], x2[ 2 ];
    pbt::Junk<continuousSystem> a( static_cast<uint8_t>( t.bits( 255 ) ), n1.get(), d1.get(), x1, 2, 0.05f ), b( 0, n2.get(), d2.get(), x2, 2, 0.05f );
    run( t, *a, *b, 3.0, 2, [&]() { t.check( a->setup( n1.get(), d1.get(), x1, 2, 0.05f ) && b->setup( n2.get(), d2.get(), x2, 2, 0.05f ), "set-up" ); } );
}
static void unset( Ctx &t )
{
    pbt::Junk<discreteSystem> a( static_cast<uint8_t>( t.bits( 255 ) ), nullptr, nullptr, nullptr, 1, 1 );
    float w[ 4 ];
    t.check( !a->setSaturation( -1.0f, 1.0f ), "limits accepted by an uninitialised system" );
    t.check( !a->setDelay( w, 4 ), "delay accepted by an uninitialised system" );
    t.check( a->excite( t.f32( -1.0f, 1.0f ) ) == 0.0f, "uninitialised system produces output" );
    t.check( a->getType() == LTISYS_TYPE_UNKNOWN, "type of an uninitialised system" );
    // negative outputs are not clipped unless limits are set
    float num[ 1 ] = { 1.0f }, den[ 1 ] = { 1.0f }, x[ 1 ];
    t.check( a->setup( num, den, x, 1, 1 ), "set-up" );
    const float u = t.f32any();
    t.check( pbt::eqv( a->excite( u ), u ), "unit gain of %.9g gives a different output", u );
    t.nontrivial();
}
template <size_t N> static void pure( Ctx &t )
{
    const bool def = t.coin();
    const float iv = def ? 0.0f : t.f32any();
    std::unique_ptr<pbt::Junk<transportDelay<N>>> d;
    const uint8_t j = static_cast<uint8_t>( t.bits( 255 ) );
    if ( def ) { d.reset( new pbt::Junk<transportDelay<N>>( j ) ); } else { d.reset( new pbt::Junk<transportDelay<N>>( j, iv ) ); }
    std::deque<float> q( N, iv );
    const size_t steps = t.size( 1, 3u*N + 4u );
    const bool two = t.coin();
    transportDelay<N> other( 5.0f ); // one of the same length beside
    for ( size_t k = 0; k < steps; ++k ) {
        if ( two && t.coin() ) { (void)other( t.f32( 6.0f, 9.0f ) ); }
        const float u = t.f32any();
        q.push_front( u );
        const float e = q.back();
        q.pop_back();
        const float y = ( **d )( u );
        t.check( pbt::sameBits( y, e ), "delay of %zu samples: output %zu is %.9g, expected %.9g", N, k, y, e );
    }
    if ( steps > N + 1u ) { t.nontrivial(); }
}
static void pureDelay( Ctx &t )
{
    switch ( t.bits( 5 ) ) {
        case 0: pure<1>( t ); break;
        case 1: pure<2>( t ); break;
        case 2: pure<3>( t ); break;
        case 3: pure<8>( t ); break;
        case 4: pure<17>( t ); break;
        default: pure<delayFromTime( 2.5f, 0.1f )>( t ); break;
    }
}
// delays longer than 8- and 16-bit counters
template <size_t N> static void longN( Ctx &t )
{
    std::unique_ptr<transportDelay<N>> d( new transportDelay<N>( -1.0f ) );
    const uint64_t seed = t.bits( UINT64_MAX );
    const size_t steps = t.size( N, 2u*N + 20u );
    for ( size_t k = 0; k < steps; ++k ) {
        const float y = ( *d )( static_cast<float>( pbt::mix64( seed + k ) >> 40 ) );
        const float e = k < N ? -1.0f : static_cast<float>( pbt::mix64( seed + k - N ) >> 40 );
        t.check( y == e, "delay of %zu samples: output %zu is %.9g, expected %.9g", N, k, y, e );
    }
    t.nontrivial();
}
static void longDelay( Ctx &t )
{
    switch ( t.bits( 4 ) ) {
        case 0: longN<127>( t ); break;
        case 1: longN<255>( t ); break;
        case 2: longN<256>( t ); break;
        case 3: longN<1000>( t ); break;
        default: longN<65540>( t ); break;
    }
}
static void fromTime( Ctx &t )
{
    const float dt = t.f32log( 1e-3f, 1.0f );
    const size_t k = t.chance( 1, 4 ) ? t.bits( 100000 ) : t.bits( 2000 );
    const float fr = t.f32( -0.45f, 0.45f );
    const float T = static_cast<float>( ( static_cast<double>( k ) + ( k ? static_cast<double>( fr ) : 0.0 ) )*static_cast<double>( dt ) );
    t.check( delayFromTime( T, dt ) == k, "delayFromTime(%.9g, %.9g) is %zu, expected %zu", T, dt, delayFromTime( T, dt ), k );
    if ( k ) { t.nontrivial(); }
}
const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "discrete", discrete, 250000 }, { "continuous", continuous, 150000 }, { "unset", unset, 50000 }, { "pureDelay", pureDelay, 150000 }, { "longDelay", longDelay, 2000 }, { "fromTime", fromTime, 200000 } };
    return s;
}
