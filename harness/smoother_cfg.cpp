// P11: smoothing filters: validation, restart, constants, range, scaling
#include "smoother_common.hpp"
namespace pbt {
const char *const PROPERTY = "P11";
const char *const RULE = "for each filter kind: random valid and invalid configurations (boundaries 0 and 1, NaN, negative, null arrays, zero sizes) with a live filter in place to show that a refused configuration changes nothing; first-sample and constant-signal behaviour, output range, restart and sign/scale symmetry over random histories; non-trivial = an invalid parameter was offered to a running filter, or the history has at least 8 samples that are not all equal";
}
static float bad01( Ctx &t )
{
    static const float v[] = { 0.0f, 1.0f, -0.5f, 1.5f, -1.0f, 100.0f, 1.0000001f, -1e-9f };
    if ( t.chance( 1, 6 ) ) { return std::nanf( "" ); }
    if ( t.chance( 1, 6 ) ) { return t.coin() ? INFINITY : -INFINITY; }
    return t.pick( v );
}
static float good01( Ctx &t )
{
    static const float v[] = { 0.5f, 1e-6f, 0.9999999f, 0.01f, 0.99f };
    return t.chance( 1, 3 ) ? t.pick( v ) : t.f32( 0.001f, 0.999f );
}
static float badPos( Ctx &t )
{
    static const float v[] = { 0.0f, -0.0f, -1.0f, -1e-9f, -100.0f };
    return t.chance( 1, 6 ) ? std::nanf( "" ) : t.pick( v );
}

// a refused configuration reports false and leaves the running filter alone
static void refuse( Ctx &t )
{
    const Kind k = static_cast<Kind>( t.idx( NKINDS ) );
    Pair f;
    f.construct( t, k );
    Signal sg;
    sg.start( t, k );
    const bool live = t.chance( 2, 3 );
    if ( live ) {
        t.check( f.setup( t ), "%s refused", f.desc.c_str() );
        const size_t warm = t.size( 0, 10 );
        for ( size_t i = 0; i < warm; ++i ) { const float x = sg.next( t, k ); f.s->smooth( x ); f.m->step( x ); }
    }
    const size_t n = t.size( 1, 12 );
    std::unique_ptr<float[]> a( new float[ n ] ), b( new float[ n ] ), c( new float[ n ] );
    bool r = true;
    std::string what;
    switch ( k ) {
        case LPF1: r = ( *f.f0 )->setup( bad01( t ) ); what = "a outside (0,1)"; break;
        case LPF2: r = ( *f.f1 )->setup( bad01( t ) ); what = "a outside (0,1)"; break;
        case MWM1: if ( t.coin() ) { r = ( *f.f2 )->setup( nullptr, n ); what = "null window"; } else { r = ( *f.f2 )->setup( a.get(), 0 ); what = "empty window"; } break;
        case MWM2: if ( t.coin() ) { r = ( *f.f3 )->setup( nullptr, n ); what = "null window"; } else { r = ( *f.f3 )->setup( a.get(), 0 ); what = "empty window"; } break;
        case MOR1: switch ( t.bits( 2 ) ) { case 0: r = ( *f.f4 )->setup( nullptr, n, 0.5f ); what = "null window"; break; case 1: r = ( *f.f4 )->setup( a.get(), 0, 0.5f ); what = "empty window"; break; default: r = ( *f.f4 )->setup( a.get(), n, bad01( t ) ); what = "a outside (0,1)"; break; } break;
        case MOR2: switch ( t.bits( 2 ) ) { case 0: r = ( *f.f5 )->setup( nullptr, n, 0.5f ); what = "null window"; break; case 1: r = ( *f.f5 )->setup( a.get(), 0, 0.5f ); what = "empty window"; break; default: r = ( *f.f5 )->setup( a.get(), n, bad01( t ) ); what = "a outside (0,1)"; break; } break;
        case GMWF: switch ( t.bits( 4 ) ) {
            case 0: r = ( *f.f6 )->setup( 1.0f, 0.5f, nullptr, b.get(), n ); what = "null window"; break;
            case 1: r = ( *f.f6 )->setup( 1.0f, 0.5f, a.get(), nullptr, n ); what = "null kernel"; break;
            case 2: r = ( *f.f6 )->setup( 1.0f, 0.0f, a.get(), b.get(), 0 ); what = "empty window"; break;
            case 3: r = ( *f.f6 )->setup( badPos( t ), 0.5f, a.get(), b.get(), n ); what = "sigma not positive"; break;
            default: r = ( *f.f6 )->setup( 1.0f, static_cast<float>( n ) + static_cast<float>( t.bits( 4 ) ), a.get(), b.get(), n ); what = "centre outside the window"; break;
        } break;
        case EXPW: r = ( *f.f7 )->setup( bad01( t ) ); what = "lambda outside (0,1)"; break;
        case KLMN: { const uint64_t w = t.bits( 2 ); const float v = badPos( t ); r = ( *f.f8 )->setup( w == 0u ? v : 1.0f, w == 1u ? v : 1.0f, w == 2u ? v : 1.0f ); what = "covariance not positive"; break; }
        case DESF: { const bool w = t.coin(); const float v = bad01( t ); r = ( *f.f9 )->setup( w ? v : 0.5f, w ? 0.5f : v, 3 ); what = "weight outside (0,1)"; break; }
        default: switch ( t.bits( 4 ) ) {
            case 0: r = ( *f.f10 )->setup( 0.1f, 0.5f, n, nullptr, b.get(), c.get() ); what = "null window"; break;
            case 1: r = ( *f.f10 )->setup( 0.1f, 0.5f, n, a.get(), nullptr, c.get() ); what = "null weights"; break;
            case 2: r = ( *f.f10 )->setup( 0.1f, 0.5f, 0, a.get(), b.get(), c.get() ); what = "empty window"; break;
            case 3: r = ( *f.f10 )->setup( bad01( t ), 0.5f, n, a.get(), b.get(), c.get() ); what = "learning rate outside (0,1)"; break;
            default: { float m = bad01( t ); if ( m == 0.0f ) { m = 1.0f; } r = ( *f.f10 )->setup( 0.1f, m, n, a.get(), b.get(), c.get() ); what = "momentum outside [0,1)"; break; }
        } break;
    }
    t.note( "%s: %s%s", KNAME[ k ], what.c_str(), live ? " on a running filter" : "" );
    t.check( !r, "%s: configuration with %s was accepted", KNAME[ k ], what.c_str() );
    if ( live ) {
        const size_t more = t.size( 1, 12 );
        for ( size_t i = 0; i < more; ++i ) {
            const float x = sg.next( t, k );
            const double e = f.m->step( x );
            const float y = f.s->smooth( x );
            if ( f.m->ambiguous ) { return; }
            t.check( std::fabs( static_cast<double>( y ) - e ) <= f.relTol*1.5*sg.amp( k ), "%s: after a refused configuration (%s) output is %.9g, expected %.9g", f.desc.c_str(), what.c_str(), y, e );
        }
        t.nontrivial();
    }
}

static void accept( Ctx &t )
{
    const Kind k = static_cast<Kind>( t.idx( NKINDS ) );
    Pair f;
    f.construct( t, k );
    const size_t n = t.size( 1, 12 );
    std::unique_ptr<float[]> a( new float[ n ] ), b( new float[ n ] ), c( new float[ n ] );
    bool r = false;
    float arr[ 3 ], arr2[ 3 ], arr3[ 3 ];
    switch ( k ) {
        case LPF1: r = ( *f.f0 )->setup( good01( t ) ); break;
        case LPF2: r = ( *f.f1 )->setup( good01( t ) ); break;
        case MWM1: r = t.coin() ? ( *f.f2 )->setup( a.get(), n ) : ( *f.f2 )->setup( arr ); break;
        case MWM2: r = t.coin() ? ( *f.f3 )->setup( a.get(), n ) : ( *f.f3 )->setup( arr ); break;
        case MOR1: r = t.coin() ? ( *f.f4 )->setup( a.get(), n, good01( t ) ) : ( *f.f4 )->setup( arr, good01( t ) ); break;
        case MOR2: r = t.coin() ? ( *f.f5 )->setup( a.get(), n, good01( t ) ) : ( *f.f5 )->setup( arr, good01( t ) ); break;
        case GMWF: r = t.coin() ? ( *f.f6 )->setup( t.f32log( 0.2f, 50.0f ), static_cast<float>( n - 1 )*0.5f, a.get(), b.get(), n ) : ( *f.f6 )->setup( 0.8f, 1.0f, arr, arr2 ); break;
        case EXPW: r = ( *f.f7 )->setup( good01( t ) ); break;
        case KLMN: r = ( *f.f8 )->setup( t.f32log( 1e-6f, 1e6f ), t.f32log( 1e-6f, 1e6f ), t.f32log( 1e-6f, 1e6f ) ); break;
        case DESF: r = ( *f.f9 )->setup( good01( t ), good01( t ), t.bits( 20 ) ); break;
        default:
            switch ( t.bits( 2 ) ) {
                case 0: r = ( *f.f10 )->setup( good01( t ), good01( t ), n, a.get(), b.get(), c.get() ); break;
                case 1: r = ( *f.f10 )->setup( good01( t ), arr, arr2 ); break;
                default: r = ( *f.f10 )->setup( good01( t ), good01( t ), arr, arr2, arr3 ); break;
            }
            break;
    }
    t.check( r, "%s: a valid configuration was refused", KNAME[ k ] );
    // the first sample passes through, a constant stays constant
    const float x = t.chance( 1, 8 ) ? 0.0f : ( ( k == ALNF ) ? t.f32( -0.2f, 0.2f ) : t.f32( -100.0f, 100.0f ) );
    const size_t steps = t.size( 1, 30 );
    if ( k != DESF ) {
        for ( size_t i = 0; i < steps; ++i ) {
            const float y = f.s->smooth( x );
            t.check( std::fabs( y - x ) <= 2e-4f*std::fabs( x )*( k == LPF2 ? 10.0f : 1.0f ), "%s: sample %zu of the constant %.9g gives %.9g", KNAME[ k ], i, x, y );
        }
        if ( x != 0.0f && steps > 2u ) { t.nontrivial(); }
    }
}

// outputs of the averaging filters stay between the smallest and largest
// sample seen; negating every sample negates every output, scaling scales
static void rangeSym( Ctx &t )
{
    static const Kind ks[] = { LPF1, MWM1, MWM2, MOR1, MOR2, GMWF, EXPW, KLMN, LPF2, DESF };
    const Kind k = t.pick( ks );
    Pair f;
    f.construct( t, k );
    t.check( f.setup( t ), "%s refused", f.desc.c_str() );
    Signal sg;
    sg.start( t, k );
    const size_t n = t.size( 2, 60 );
    std::vector<float> x( n ), y( n );
    for ( auto &v : x ) { v = sg.next( t, k ); }
    const bool hull = ( k != LPF2 ) && ( k != DESF );
    float lo = x[ 0 ], hi = x[ 0 ], pk = 0;
    for ( size_t i = 0; i < n; ++i ) {
        lo = std::min( lo, x[ i ] );
        hi = std::max( hi, x[ i ] );
        pk = std::max( pk, std::fabs( x[ i ] ) );
        y[ i ] = f.s->smooth( x[ i ] );
        const float slack = 1e-4f*pk;
        if ( hull ) { t.check( y[ i ] >= lo - slack && y[ i ] <= hi + slack, "%s: output %zu is %.9g, outside the samples seen [%.9g, %.9g]", f.desc.c_str(), i, y[ i ], lo, hi ); }
    }
    if ( k == KLMN ) { if ( hi > lo && n >= 8u ) { t.nontrivial(); } return; } // its gain schedule survives a restart
    // after a restart the same samples give the same outputs, and the negated ones the negated outputs
    t.check( f.s->reset(), "reset" );
    const int mode = static_cast<int>( t.bits( 2 ) );
    const float g = ( mode == 0 ) ? 1.0f : ( ( mode == 1 ) ? -1.0f : 4.0f ); // exact factors
    for ( size_t i = 0; i < n; ++i ) {
        const float z = f.s->smooth( g*x[ i ] );
        t.check( std::fabs( z - g*y[ i ] ) <= 1e-5f*std::fabs( g )*pk, "%s: restart with samples times %g: output %zu is %.9g, expected %.9g", f.desc.c_str(), g, i, z, g*y[ i ] );
    }
    if ( hi > lo && n >= 8u ) { t.nontrivial(); }
}

const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "refuse", refuse, 400000 }, { "accept", accept, 400000 }, { "rangeSym", rangeSym, 200000 } };
    return s;
}
