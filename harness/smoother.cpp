// P10: smoothing filters follow their defining recursions over every history
#include "smoother_common.hpp"
namespace pbt {
const char *const PROPERTY = "P10";
const char *const RULE = "for each of the 11 filter kinds: random valid parameters and window lengths 1..24 (now and then up to 300, a few of about 65540), histories of up to 120 samples (one in 400 up to 1260) (levels, ramps, noise, spikes, repeats) with resets and re-configurations in between, two filters interleaved in a third of the cases, every output compared with a double-precision model of the filter's defining recursion; a case stops early when an outlier decision is too close to call; non-trivial = at least 8 samples that are not all equal were compared (and more samples than the window holds for window filters)";
}
static void history( Ctx &t, Kind kind )
{
    const size_t nf = t.chance( 1, 3 ) ? 2u : 1u;
    Pair f[ 2 ];
    Signal sg[ 2 ];
    size_t since[ 2 ] = { 0, 0 };
    bool varied[ 2 ] = { false, false };
    float firstX[ 2 ] = { 0, 0 };
    double peak[ 2 ] = { 0, 0 };
    bool stop[ 2 ] = { false, false };
    for ( size_t i = 0; i < nf; ++i ) {
        f[ i ].construct( t, kind );
        t.check( f[ i ].setup( t ), "%s: valid parameters were refused", f[ i ].desc.c_str() );
        sg[ i ].start( t, kind );
        t.note( "filter %zu: %s", i, f[ i ].desc.c_str() );
    }
    bool calm;
    size_t steps = t.steps( 1, 120, calm );
    if ( f[ 0 ].n > 24u ) { steps += 2u*f[ 0 ].n; }
    for ( size_t k = 0; k < steps; ++k ) {
        const size_t i = ( nf == 2u ) ? t.bits( 1 ) : 0u;
        if ( stop[ i ] ) { continue; }
        const unsigned op = ( ( f[ i ].n > 24u && t.chance( 9, 10 ) ) || !t.busy( calm ) ) ? 0u : static_cast<unsigned>( t.bits( 39 ) );
        if ( op == 39u ) {
            t.note( "filter %zu: reset", i );
            t.check( f[ i ].s->reset(), "reset failed" );
            f[ i ].m->reset();
            since[ i ] = 0;
            varied[ i ] = false;
            if ( kind != KLMN ) { peak[ i ] = 0; }
            continue;
        }
        if ( op == 38u ) {
            t.check( f[ i ].setup( t ), "%s: valid parameters were refused when set up again", f[ i ].desc.c_str() );
            t.note( "filter %zu: set up again as %s", i, f[ i ].desc.c_str() );
            since[ i ] = 0;
            varied[ i ] = false;
            peak[ i ] = 0;
            continue;
        }
        const float x = sg[ i ].next( t, kind );
        if ( since[ i ] == 0u ) { firstX[ i ] = x; }
        varied[ i ] = varied[ i ] || ( x != firstX[ i ] );
        peak[ i ] = std::max( peak[ i ], static_cast<double>( std::fabs( x ) ) );
        const double e = f[ i ].m->step( x );
        const float y = f[ i ].s->smooth( x );
        ++since[ i ];
        t.note( "filter %zu: smooth(%.9g) -> %.9g (model %.9g)", i, x, y, e );
        if ( f[ i ].m->ambiguous ) { t.label( "ambiguous" ); stop[ i ] = true; continue; }
        const double tolv = f[ i ].relTol*( peak[ i ] + 1e-30 )*( ( kind == MWM2 || kind == MOR2 ) ? 1.0 + static_cast<double>( since[ i ] )*0.05 : 1.0 );
        t.near( KNAME[ kind ], y, e, tolv*t.drift( k ), "%s: output %zu after (re)start", f[ i ].desc.c_str(), since[ i ] );
        const bool win = ( kind >= MWM1 && kind <= GMWF ) || kind == ALNF;
        if ( since[ i ] >= 8u && varied[ i ] && ( !win || since[ i ] > f[ i ].n ) ) { t.nontrivial(); }
        if ( f[ i ].m->events ) { t.label( "outlier" ); }
    }
}
// windows longer than a 16-bit index can reach: levels whose effect on the window is known well enough
static void huge( Ctx &t )
{
    static const Kind K[] = { MWM1, MWM2, MOR1, MOR2, GMWF, ALNF };
    const Kind kind = t.pick( K );
    const size_t n = 65500u + t.bits( 100 );
    Pair f;
    f.construct( t, kind );
    const float c = std::ldexp( t.coin() ? 1.0f : -1.0f, static_cast<int>( t.bits( 6 ) ) - 3 );
    if ( kind == GMWF ) {
        const float sg = t.f32( 2.0f, 40.0f ), ce = ( t.coin() ? 0.5f : static_cast<float>( n ) - 20.0f ) + static_cast<float>( t.bits( 1152 ) )/64.0f; // in steps that single precision resolves at this length
        t.check( ( *f.f6 )->setup( sg, ce, f.fresh( f.win, n ), f.fresh( f.ker, n ), n ), "valid parameters were refused" );
        f.m.reset( new MGauss( sg, ce, n ) );
        f.n = n;
        t.note( "GMWF sigma=%.9g c=%.9g n=%zu", sg, ce, n );
    }
    else if ( kind == MOR1 || kind == MOR2 ) {
        const float a = 0.2f;
        t.check( ( kind == MOR1 ) ? ( *f.f4 )->setup( f.fresh( f.win, n ), n, a ) : ( *f.f5 )->setup( f.fresh( f.win, n ), n, a ), "valid parameters were refused" );
        f.m.reset( new MOutlier( n, a ) );
        f.n = n;
        t.note( "%s n=%zu", KNAME[ kind ], n );
    }
    else {
        t.check( f.setup( t, n ), "%s: valid parameters were refused", f.desc.c_str() );
        t.note( "%s", f.desc.c_str() );
    }
    static const float mean[] = { 1, 4096, 1, -4096, 8192, 0, 1, 2048 }, outl[] = { 1, 1.125f, 1.125f, 1.125f, 1.125f, 1.125f, 1.3125f, 1, 0.5f, 1.125f }, lms[] = { 1, 0.5f, -0.25f, 1, 0, 0.75f };
    const float *sig = ( kind == MOR1 || kind == MOR2 ) ? outl : ( kind == ALNF ? lms : mean );
    const size_t ns = ( kind == MOR1 || kind == MOR2 ) ? 10u : ( kind == ALNF ? 6u : 8u );
    const float unit = ( kind == ALNF ) ? 1.0f : c;
    for ( int round = 0; round < 2; ++round ) {
        const size_t off = round ? t.bits( 1 ) : 0u;
        for ( size_t i = off; i < ns; ++i ) {
            const float x = unit*sig[ i ];
            const double e = f.m->step( x );
            const float y = f.s->smooth( x );
            t.note( "smooth(%.9g) -> %.9g (%.9g)", x, y, e );
            t.near( "long window", y, e, ( ( kind == GMWF ) ? 1.0 : ( kind == ALNF ) ? 0.02 : 0.01 )*std::fabs( static_cast<double>( unit ) ), "%s with a window of %zu, sample %zu", KNAME[ kind ], n, i );
        }
        if ( t.coin() ) { break; }
        t.check( f.s->reset(), "reset failed" );
        f.m->reset();
        t.note( "reset" );
    }
    if ( n > 65536u ) { t.nontrivial(); }
}
#define H( K ) static void h##K( Ctx &t ) { history( t, K ); }
H( LPF1 ) H( LPF2 ) H( MWM1 ) H( MWM2 ) H( MOR1 ) H( MOR2 ) H( GMWF ) H( EXPW ) H( KLMN ) H( DESF ) H( ALNF )
const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "LPF1", hLPF1, 40000 }, { "LPF2", hLPF2, 40000 }, { "MWM1", hMWM1, 40000 }, { "MWM2", hMWM2, 40000 },
        { "MOR1", hMOR1, 60000 }, { "MOR2", hMOR2, 60000 }, { "GMWF", hGMWF, 40000 }, { "EXPW", hEXPW, 40000 }, { "KLMN", hKLMN, 40000 }, { "DESF", hDESF, 40000 }, { "ALNF", hALNF, 40000 }, { "huge", huge, 60 } };
    return s;
}
