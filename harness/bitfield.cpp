// P01: bit-field storage behaves as an array of independent bits
#include <pbt.hpp>
#include <qlibs.h>
using namespace qlibs;
namespace pbt {
const char *const PROPERTY = "P01";
const char *const RULE = "random operation histories (set/clear/toggle/write/read of single bits, 1..32-bit words and floats at any in-range offset, clear-all, set-all, dump, re-setup) over areas of 1..12 words (up to 2100 words in a part of the cases, about 65550 in a few), compared bit for bit with a bool-array model after every operation; non-trivial = the history has >=3 writes of which at least one crosses a 32-bit word boundary or ends on the last bit";
}
using pbt::Ctx;

struct Model {
    std::vector<bool> b;
    uint32_t rd( size_t i, size_t n ) const
    {
        uint32_t v = 0;
        for ( size_t k = 0; k < n; ++k ) { if ( b[ i + k ] ) { v |= 1u << k; } }
        return v;
    }
    void wr( size_t i, size_t n, uint32_t v )
    {
        for ( size_t k = 0; k < n; ++k ) { b[ i + k ] = ( v >> k ) & 1u; }
    }
};

// bit i of the area is bit i%32 of 32-bit word i/32 (host order): that is what
// dump() exposes
static void compareAll( Ctx &t, bitfield &bf, const Model &m, const uint32_t *area, size_t words, const char *after )
{
    for ( size_t w = 0; w < words; ++w ) {
        const uint32_t e = m.rd( w*32u, 32u );
        t.check( area[ w ] == e, "after %s: storage word %zu is %08x, model %08x", after, w, area[ w ], e );
    }
    (void)bf;
}

static void run( Ctx &t, size_t words, size_t maxOps )
{
    const size_t bits = words*32u;
    std::unique_ptr<uint32_t[]> mem( new uint32_t[ words ] );
    std::vector<std::unique_ptr<uint32_t[]>> old;
    const uint64_t fill = t.bits( UINT64_MAX );
    for ( size_t i = 0; i < words; ++i ) { mem[ i ] = ( words > 12u ) ? static_cast<uint32_t>( pbt::mix64( fill + i ) ) : t.u32any(); }
    Model m;
    m.b.resize( bits );
    for ( size_t w = 0; w < words; ++w ) { m.wr( w*32u, 32u, mem[ w ] ); }
    pbt::Junk<bitfield> bf( static_cast<uint8_t>( t.bits( 255 ) ) );
    t.check( bf->setup( mem.get(), words*4u ), "setup refused a valid area" );
    compareAll( t, *bf, m, mem.get(), words, "setup" );
    // another field beside
    const bool beside = t.chance( 1, 4 );
    uint32_t omem[ 2 ] = { 0u, 0xFFFFFFFFu };
    bitfield other;
    if ( beside ) { t.check( other.setup( omem, sizeof( omem ) ), "setup refused a valid area" ); }
    const size_t nops = t.size( 1, maxOps );
    unsigned writes = 0, special = 0;
    for ( size_t k = 0; k < nops; ++k ) {
        const unsigned op = static_cast<unsigned>( t.bits( 13 ) );
        if ( beside && t.coin() ) { t.check( other.toggleBit( t.idx( 64 ) ), "bit refused" ); if ( t.chance( 1, 8 ) ) { t.check( other.clearAll() && omem[ 0 ] == 0u && omem[ 1 ] == 0u, "the other field is not cleared" ); } }
        auto anyIdx = [&]() -> size_t {
            switch ( t.bits( 3 ) ) {
                case 0: return 0;
                case 1: return bits - 1u;
                case 2: { size_t w = t.idx( words )*32u; return ( t.coin() && w ) ? w - 1u : w; }
                default: return t.idx( bits );
            }
        };
        switch ( op ) {
            case 0: { size_t i = anyIdx(); t.note( "setBit(%zu)", i ); t.check( bf->setBit( i ), "setBit false" ); m.b[ i ] = true; ++writes; break; }
            case 1: { size_t i = anyIdx(); t.note( "clearBit(%zu)", i ); t.check( bf->clearBit( i ), "clearBit false" ); m.b[ i ] = false; ++writes; break; }
            case 2: { size_t i = anyIdx(); t.note( "toggleBit(%zu)", i ); t.check( bf->toggleBit( i ), "toggleBit false" ); m.b[ i ] = !m.b[ i ]; ++writes; break; }
            case 3: { size_t i = anyIdx(); bool v = t.coin(); t.note( "writeBit(%zu,%d)", i, v ); t.check( bf->writeBit( i, v ), "writeBit false" ); m.b[ i ] = v; ++writes; break; }
            case 4: { size_t i = anyIdx(); t.check( bf->readBit( i ) == m.b[ i ], "readBit(%zu) = %d", i, !m.b[ i ] ); break; }
            case 5: case 6: case 7: {
                const size_t n = ( t.bits( 3 ) == 0u ) ? ( t.coin() ? 32u : 31u ) : static_cast<size_t>( t.range( 1, 32 ) );
                size_t i = t.chance( 1, 3 ) ? bits - n : t.idx( bits - n + 1u );
                uint32_t v = t.u32any();
                if ( n == 1u ) { v &= 1u; } // whether a 1-bit write takes bit 0 or "non-zero" is unspecified
                t.note( "writeUINTn(%zu,%zu,%08x)", i, n, v );
                t.check( bf->writeUINTn( i, n, v ), "writeUINTn(%zu,%zu) false", i, n );
                m.wr( i, n, v );
                ++writes;
                if ( ( i/32u != ( i + n - 1u )/32u ) || ( i + n == bits ) ) { ++special; }
                const uint32_t back = bf->readUINTn( i, n );
                const uint32_t e = ( n == 32u ) ? v : ( v & ( ( 1u << n ) - 1u ) );
                t.check( back == e, "readUINTn(%zu,%zu) = %08x after writing %08x", i, n, back, v );
                break;
            }
            case 8: {
                const size_t n = static_cast<size_t>( t.range( 1, 32 ) );
                size_t i = t.chance( 1, 3 ) ? bits - n : t.idx( bits - n + 1u );
                const uint32_t r = bf->readUINTn( i, n ), e = m.rd( i, n );
                t.check( r == e, "readUINTn(%zu,%zu) = %08x, model %08x", i, n, r, e );
                break;
            }
            case 9: {
                size_t i = t.chance( 1, 3 ) ? bits - 32u : t.idx( bits - 31u );
                float f = t.f32any( true );
                uint32_t u;
                memcpy( &u, &f, 4 );
                t.note( "writeFloat(%zu,%08x)", i, u );
                t.check( bf->writeFloat( i, f ), "writeFloat false" );
                m.wr( i, 32u, u );
                ++writes;
                if ( i % 32u ) { ++special; }
                float b = bf->readFloat( i );
                uint32_t ub;
                memcpy( &ub, &b, 4 );
                t.check( ub == u, "readFloat(%zu) = %08x after writing %08x", i, ub, u );
                size_t j = t.idx( bits - 31u );
                b = bf->readFloat( j );
                memcpy( &ub, &b, 4 );
                t.check( ub == m.rd( j, 32u ), "readFloat(%zu) = %08x, model %08x", j, ub, m.rd( j, 32u ) );
                break;
            }
            case 10: {
                const bool all = t.coin();
                t.note( "%s", all ? "setAll" : "clearAll" );
                t.check( all ? bf->setAll() : bf->clearAll(), "setAll/clearAll false" );
                std::fill( m.b.begin(), m.b.end(), all );
                ++writes;
                break;
            }
            case 11: {
                const size_t n = t.chance( 1, 4 ) ? words*4u : static_cast<size_t>( t.range( 0, static_cast<int64_t>( words*4u ) ) );
                std::vector<uint8_t> dst( n + 8u, 0x5A );
                void *r = bf->dump( dst.data(), n );
                t.check( r == dst.data(), "dump(%zu) did not return the destination", n );
                for ( size_t q = 0; q < n; ++q ) {
                    uint8_t e = static_cast<uint8_t>( m.rd( ( q/4u )*32u, 32u ) >> ( 8u*( q % 4u ) ) );
                    t.check( dst[ q ] == e, "dump byte %zu = %02x, expected %02x", q, dst[ q ], e );
                }
                for ( size_t q = n; q < n + 8u; ++q ) { t.check( dst[ q ] == 0x5A, "dump wrote past the %zu bytes asked for", n ); }
                break;
            }
            case 13: { // set up again, over the same area or another one
                if ( !t.chance( 1, 3 ) ) { break; }
                if ( t.coin() ) { old.push_back( std::move( mem ) ); mem.reset( new uint32_t[ words ] ); for ( size_t q = 0; q < words; ++q ) { mem[ q ] = static_cast<uint32_t>( pbt::mix64( fill + k + q ) ); m.wr( q*32u, 32u, mem[ q ] ); } }
                t.note( "setup again" );
                t.check( bf->setup( mem.get(), words*4u ), "setup refused a valid area" );
                break;
            }
            default: {
                std::vector<uint8_t> dst( words*4u + 64u, 0x5A );
                const size_t n = words*4u + 1u + t.idx( 40 );
                t.check( bf->dump( dst.data(), n ) == nullptr, "dump of more bytes than the field holds was accepted" );
                for ( uint8_t x : dst ) { t.check( x == 0x5A, "refused dump wrote to the destination" ); }
                t.check( bf->dump( nullptr, 4 ) == nullptr, "dump to null accepted" );
                const uint32_t before = bf->readUINTn( 0, 32 );
                const size_t big = 33u + t.idx( 40 );
                t.check( !bf->writeUINTn( 0, big, t.u32any() ), "writeUINTn of %zu bits accepted", big );
                t.check( bf->readUINTn( 0, big ) == 0u, "readUINTn of %zu bits not refused", big );
                t.check( before == bf->readUINTn( 0, 32 ), "refused write changed the field" );
                break;
            }
        }
        compareAll( t, *bf, m, mem.get(), words, "operation" );
    }
    if ( writes >= 3u && special ) { t.nontrivial(); }
    for ( size_t i = 0; i < bits; ++i ) { t.check( bf->readBit( i ) == m.b[ i ], "final readBit(%zu) differs", i ); }
}

static void history( Ctx &t ) { run( t, t.size( 1, 12 ), 40 ); }
static void largeArea( Ctx &t )
{
    static const size_t w[] = { 9, 65, 257, 300, 2049, 2100 }; // beyond 8- and 16-bit bit, byte and word indices
    run( t, t.pick( w ), 12 );
}

// more words than a 16-bit index can reach: the words around each access are compared, the whole area at the end
static void huge( Ctx &t )
{
    const size_t words = 65530u + t.bits( 40 ), bits = words*32u;
    std::unique_ptr<uint32_t[]> mem( new uint32_t[ words ] );
    std::vector<uint32_t> ref( words );
    for ( size_t i = 0; i < words; ++i ) { mem[ i ] = ref[ i ] = static_cast<uint32_t>( pbt::mix64( i ) ); }
    pbt::Junk<bitfield> bf( 0x77 );
    t.check( bf->setup( mem.get(), words*4u ), "setup refused a valid area of %zu words", words );
    auto put = [ & ]( size_t i, size_t n, uint32_t v ) { for ( size_t k = 0; k < n; ++k ) { const size_t b = i + k; ref[ b/32u ] = ( ref[ b/32u ] & ~( 1u << ( b % 32u ) ) ) | ( ( ( v >> k ) & 1u ) << ( b % 32u ) ); } };
    auto get = [ & ]( size_t i, size_t n ) { uint32_t v = 0; for ( size_t k = 0; k < n; ++k ) { const size_t b = i + k; v |= ( ( ref[ b/32u ] >> ( b % 32u ) ) & 1u ) << k; } return v; };
    const size_t ops = 4u + t.bits( 12 );
    for ( size_t k = 0; k < ops; ++k ) {
        const size_t n = static_cast<size_t>( t.range( 2, 32 ) );
        const size_t i = t.chance( 1, 3 ) ? bits - n : ( t.coin() ? bits - 1u - n - t.bits( 2000 ) : t.idx( bits - n ) );
        switch ( t.bits( 5 ) ) {
            case 0: t.note( "setBit(%zu)", i ); t.check( bf->setBit( i ), "setBit false" ); put( i, 1, 1 ); break;
            case 1: t.note( "clearBit(%zu)", i ); t.check( bf->clearBit( i ), "clearBit false" ); put( i, 1, 0 ); break;
            case 2: t.note( "toggleBit(%zu)", i ); t.check( bf->toggleBit( i ), "toggleBit false" ); put( i, 1, get( i, 1 ) ^ 1u ); break;
            case 3: { const uint32_t v = t.u32any(); t.note( "writeUINTn(%zu,%zu,%08x)", i, n, v ); t.check( bf->writeUINTn( i, n, v ), "writeUINTn false" ); put( i, n, v ); break; }
            case 4: t.check( bf->readUINTn( i, n ) == get( i, n ), "readUINTn(%zu,%zu) = %08x, expected %08x", i, n, bf->readUINTn( i, n ), get( i, n ) ); break;
            default: t.check( bf->readBit( i ) == ( get( i, 1 ) != 0u ), "readBit(%zu)", i ); break;
        }
        for ( size_t w = i/32u; w <= ( i + n - 1u )/32u; ++w ) { t.check( mem[ w ] == ref[ w ], "word %zu of %zu is %08x, expected %08x", w, words, mem[ w ], ref[ w ] ); }
    }
    if ( t.chance( 1, 4 ) ) { const bool all = t.coin(); t.check( all ? bf->setAll() : bf->clearAll(), "setAll/clearAll" ); std::fill( ref.begin(), ref.end(), all ? 0xFFFFFFFFu : 0u ); }
    for ( size_t w = 0; w < words; ++w ) { if ( mem[ w ] != ref[ w ] ) { t.check( false, "word %zu of %zu is %08x at the end, expected %08x", w, words, mem[ w ], ref[ w ] ); } }
    if ( words > 65536u ) { t.nontrivial(); }
}
static void zeroWidth( Ctx &t )
{
    // a zero-bit word touches nothing and reads as zero
    const size_t words = t.size( 1, 6 );
    std::unique_ptr<uint32_t[]> mem( new uint32_t[ words ] );
    std::vector<uint32_t> ref( words );
    for ( size_t i = 0; i < words; ++i ) { mem[ i ] = ref[ i ] = t.u32any(); }
    bitfield bf;
    t.check( bf.setup( mem.get(), words*4u ), "setup" );
    const size_t i = t.idx( words*32u );
    const uint32_t v = t.u32any();
    t.note( "zero-bit access at %zu value %08x", i, v );
    t.check( bf.readUINTn( i, 0 ) == 0u, "readUINTn(%zu,0) = %08x, zero bits read must be 0", i, bf.readUINTn( i, 0 ) );
    t.check( !bf.writeUINTn( i, 0, v ), "writeUINTn(%zu,0,..) reports a write", i );
    for ( size_t k = 0; k < words; ++k ) { t.check( mem[ k ] == ref[ k ], "writeUINTn(%zu,0,..) changed word %zu", i, k ); }
    t.nontrivial();
}

static void unready( Ctx &t )
{
    pbt::Junk<bitfield> bf( static_cast<uint8_t>( t.bits( 255 ) ) );
    uint32_t mem[ 2 ] = { 0x12345678u, 0x9ABCDEF0u };
    uint8_t dst[ 8 ] = { 0 };
    const size_t i = t.idx( 64 );
    if ( t.coin() ) { t.check( !bf->setup( nullptr, 8 ), "setup(null) accepted" ); }
    if ( t.coin() ) { t.check( !bf->setup( mem, 0 ), "setup(size 0) accepted" ); }
    t.check( !bf->setBit( i ) && !bf->clearBit( i ) && !bf->toggleBit( i ) && !bf->writeBit( i, t.coin() ), "operation on an unconfigured field reported success" );
    t.check( !bf->readBit( i ) && bf->readUINTn( i, 8 ) == 0u && bf->readFloat( i ) == 0.0f, "read of an unconfigured field is not zero" );
    t.check( !bf->writeUINTn( i, 8, 1 ) && !bf->writeFloat( i, 1.0f ) && !bf->setAll() && !bf->clearAll(), "operation on an unconfigured field reported success" );
    t.check( bf->dump( dst, 4 ) == nullptr, "dump of an unconfigured field" );
    t.check( mem[ 0 ] == 0x12345678u && mem[ 1 ] == 0x9ABCDEF0u, "rejected setup touched the area" );
    t.nontrivial();
}

const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "history", history, 400000 }, { "largeArea", largeArea, 3000 }, { "huge", huge, 200 }, { "zeroWidth", zeroWidth, 20000 }, { "unready", unready, 5000 } };
    return s;
}
