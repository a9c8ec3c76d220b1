// P03: tapped delay line
#include <pbt.hpp>
#include <qlibs.h>
#include <deque>
using namespace qlibs;
namespace pbt {
const char *const PROPERTY = "P03";
const char *const RULE = "random histories of insert / flush / re-setup on delay lines of 1..40 taps (a part of the cases: up to 66000), every tap read back through every access form (index, subscript, oldest, newest, -1, out of range) after each step and compared with a bounded deque model; non-trivial = more inserts than taps (the line has wrapped) and at least 2 taps";
}
using pbt::Ctx;

static bool fewTaps( Ctx &t, size_t n, size_t i ) { (void)t; return n <= 400u || i < 40u || i + 40u >= n || ( i & 255u ) < 2u || ( i & 255u ) > 253u || i % 997u == 0u; }
template <class L> static void verify( Ctx &t, L &l, const std::deque<float> &m, const char *after )
{
    const size_t n = m.size();
    t.check( pbt::sameBits( l.getRecent(), m.front() ), "after %s: newest is %g, expected %g", after, l.getRecent(), m.front() );
    t.check( pbt::sameBits( l.getOldest(), m.back() ), "after %s: oldest is %g, expected %g", after, l.getOldest(), m.back() );
    t.check( pbt::sameBits( l[ -1 ], m.back() ), "after %s: [-1] is %g, expected %g", after, l[ -1 ], m.back() );
    for ( size_t i = 0; i < n; ++i ) {
        if ( !fewTaps( t, n, i ) ) { continue; }
        t.check( pbt::sameBits( l.getAtIndex( i ), m[ i ] ), "after %s: getAtIndex(%zu) of %zu is %g, expected %g", after, i, n, l.getAtIndex( i ), m[ i ] );
        t.check( pbt::sameBits( l[ static_cast<int>( i ) ], m[ i ] ), "after %s: [%zu] of %zu is %g, expected %g", after, i, n, l[ static_cast<int>( i ) ], m[ i ] );
    }
    const int oob = static_cast<int>( n ) + static_cast<int>( t.bits( 70 ) );
    t.check( std::isnan( l[ oob ] ), "[%d] beyond %zu taps is not undefined", oob, n );
    const int neg = -2 - static_cast<int>( t.bits( 70 ) );
    t.check( std::isnan( l[ neg ] ), "[%d] is not undefined", neg );
}

static void history( Ctx &t )
{
    size_t n = t.chance( 1, 6 ) ? t.size( 1, 3 ) : t.size( 1, 40 );
    const size_t slack = t.bits( 3 );
    std::unique_ptr<float[]> area( new float[ n ] ), area2;
    for ( size_t i = 0; i < n; ++i ) { area[ i ] = 777.0f; }
    (void)slack;
    const uint8_t junk = static_cast<uint8_t>( t.bits( 255 ) );
    float init = t.coin() ? 0.0f : t.f32any();
    std::unique_ptr<pbt::Junk<tdl>> l;
    const bool viaSetup = t.coin();
    if ( viaSetup ) {
        l.reset( new pbt::Junk<tdl>( junk ) );
        t.check( !( *l )->isInitialized(), "fresh line claims to be initialised" );
        ( *l )->setup( area.get(), n, init );
    }
    else { l.reset( new pbt::Junk<tdl>( junk, area.get(), n, init ) ); }
    t.check( ( *l )->isInitialized(), "line not initialised after setup" );
    t.note( "taps=%zu init=%g", n, init );
    std::deque<float> m( n, init );
    verify( t, **l, m, "setup" );
    const size_t ops = t.size( 1, 60 );
    size_t ins = 0;
    // a second line lives beside the first
    const bool beside = t.chance( 1, 3 );
    const size_t on = t.size( 1, 9 );
    std::unique_ptr<float[]> oarea( new float[ on ] );
    tdl other;
    std::deque<float> om( on, -2.0f );
    if ( beside ) { other.setup( oarea.get(), on, -2.0f ); verify( t, **l, m, "set-up of another line" ); }
    for ( size_t k = 0; k < ops; ++k ) {
        const unsigned op = static_cast<unsigned>( t.bits( 15 ) );
        if ( beside && t.coin() ) {
            const float v = -3.0f - static_cast<float>( k );
            other.insertSample( v );
            om.push_front( v );
            om.pop_back();
            verify( t, other, om, "insert into the other line" );
            verify( t, **l, m, "insert into another line" );
        }
        if ( op == 15u ) {
            const float v = t.coin() ? 0.0f : t.f32any();
            t.note( "flush(%g)", v );
            ( *l )->flush( v );
            std::fill( m.begin(), m.end(), v );
            ins = 0;
            verify( t, **l, m, "flush" );
        }
        else if ( op == 14u ) {
            const bool same = t.chance( 1, 3 ); // over the same area, or a part of it
            n = same ? ( t.coin() ? n : t.size( 1, n ) ) : t.size( 1, 40 );
            const float v = t.f32any();
            if ( same ) { ( *l )->setup( area.get(), n, v ); }
            else {
                area2.reset( new float[ n ] );
                ( *l )->setup( area2.get(), n, v );
                area.swap( area2 );
            }
            m.assign( n, v );
            ins = 0;
            t.note( "setup(taps=%zu, %g)", n, v );
            verify( t, **l, m, "re-setup" );
        }
        else {
            const float v = t.chance( 1, 8 ) ? t.f32any( true ) : static_cast<float>( k ) + 0.25f;
            if ( op & 1u ) { ( **l )( v ); }
            else { ( *l )->insertSample( v ); }
            m.push_front( v );
            m.pop_back();
            ++ins;
            t.note( "insert(%g)", v );
            verify( t, **l, m, "insert" );
            if ( ins > n && n >= 2u ) { t.nontrivial(); }
        }
    }
}

template <size_t N> static void fixedN( Ctx &t )
{
    float area[ N ];
    const float init = t.f32any();
    pbt::Junk<tdl> l( static_cast<uint8_t>( t.bits( 255 ) ), area, init );
    std::deque<float> m( N, init );
    verify( t, *l, m, "array constructor" );
    const size_t ops = t.size( 1, 20 );
    for ( size_t k = 0; k < ops; ++k ) {
        const float v = t.f32any();
        l->insertSample( v );
        m.push_front( v );
        m.pop_back();
        verify( t, *l, m, "insert" );
    }
    if ( ops > N && N > 1 ) { t.nontrivial(); }
    l->setup( area, 2.5f );
    m.assign( N, 2.5f );
    verify( t, *l, m, "array setup" );
}
// lines longer than 8- and 16-bit counters
static void longLine( Ctx &t )
{
    static const size_t len[] = { 127, 128, 129, 255, 256, 257, 300, 1000, 32769, 65535, 65536, 65537, 66000 };
    const size_t n = t.pick( len );
    const uint64_t seed = t.bits( UINT64_MAX );
    std::unique_ptr<float[]> area( new float[ n ] );
    for ( size_t i = 0; i < n; ++i ) { area[ i ] = 777.0f; }
    pbt::Junk<tdl> l( static_cast<uint8_t>( t.bits( 255 ) ), area.get(), n, 0.5f );
    std::deque<float> m( n, 0.5f );
    t.note( "taps=%zu", n );
    const size_t total = t.size( 1, 2u*n + 10u );
    for ( size_t k = 0; k < total; ++k ) {
        const float v = static_cast<float>( pbt::mix64( seed + k ) >> 40 );
        l->insertSample( v );
        m.push_front( v );
        m.pop_back();
        t.check( pbt::sameBits( l->getOldest(), m.back() ) && pbt::sameBits( l->getRecent(), v ), "%zu taps: ends differ after %zu inserts", n, k + 1u );
        if ( n <= 300u && k % 37u == 0u ) { verify( t, *l, m, "insert" ); }
    }
    verify( t, *l, m, "all inserts" );
    if ( total > n ) { t.nontrivial(); }
}
static void fixedArrays( Ctx &t )
{
    switch ( t.bits( 3 ) ) {
        case 0: fixedN<1>( t ); break;
        case 1: fixedN<2>( t ); break;
        case 2: fixedN<3>( t ); break;
        default: fixedN<7>( t ); break;
    }
}

const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "history", history, 150000 }, { "fixedArrays", fixedArrays, 50000 }, { "longLine", longLine, 400 } };
    return s;
}
