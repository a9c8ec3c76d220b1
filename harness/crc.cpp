// P02: CRC engine and presets
#include <pbt.hpp>
#include <qlibs.h>
using namespace qlibs;
namespace pbt {
const char *const PROPERTY = "P02";
const char *const RULE = "random messages (0..300 bytes, one in 2000 up to 70000, biased to short and repeated ones, at any alignment) and random parameter sets (width, polynomial, init, reflections, final xor) against a bit-serial shift-register reference; every named preset against its published catalogue parameters and check value; linearity, burst-error detection; non-trivial = message of >=2 bytes, not all equal";
}
using pbt::Ctx;

static uint32_t refCrc( unsigned w, const uint8_t *p, size_t n, uint32_t poly, uint32_t init, bool ri, bool ro, uint32_t xo )
{
    const uint64_t mask = ( w == 32u ) ? 0xFFFFFFFFull : ( ( 1ull << w ) - 1ull );
    uint64_t reg = init & mask;
    for ( size_t i = 0; i < n; ++i ) {
        for ( unsigned b = 0; b < 8u; ++b ) {
            const unsigned bit = ri ? ( ( p[ i ] >> b ) & 1u ) : ( ( p[ i ] >> ( 7u - b ) ) & 1u );
            const unsigned top = static_cast<unsigned>( reg >> ( w - 1u ) ) & 1u;
            reg = ( reg << 1 ) & mask;
            if ( top ^ bit ) { reg ^= ( poly & mask ); }
        }
    }
    if ( ro ) {
        uint64_t r = 0;
        for ( unsigned b = 0; b < w; ++b ) { if ( ( reg >> b ) & 1u ) { r |= 1ull << ( w - 1u - b ); } }
        reg = r;
    }
    return static_cast<uint32_t>( ( reg ^ xo ) & mask );
}

struct Preset { const char *name; unsigned w; uint32_t poly, init; bool ri, ro; uint32_t xo, chk; uint32_t ( *fn )( const void*, size_t ); };
#define PS( f, w, poly, init, ri, ro, xo, chk ) { #f, w, poly, init, ri, ro, xo, chk, []( const void *p, size_t n ) -> uint32_t { return crc::f( p, n ); } }
static const Preset presets[] = {
    PS( crc8, 8, 0x07, 0x00, false, false, 0x00, 0xF4 ),
    PS( crc8_CDMA2000, 8, 0x9B, 0xFF, false, false, 0x00, 0xDA ),
    PS( crc8_DARC, 8, 0x39, 0x00, true, true, 0x00, 0x15 ),
    PS( crc8_DVS_S2, 8, 0xD5, 0x00, false, false, 0x00, 0xBC ),
    PS( crc8_EBU, 8, 0x1D, 0xFF, true, true, 0x00, 0x97 ),
    PS( crc8_I_CODE, 8, 0x1D, 0xFD, false, false, 0x00, 0x7E ),
    PS( crc8_ITU, 8, 0x07, 0x00, false, false, 0x55, 0xA1 ),
    PS( crc8_MAXIM, 8, 0x31, 0x00, true, true, 0x00, 0xA1 ),
    PS( crc8_ROHC, 8, 0x07, 0xFF, true, true, 0x00, 0xD0 ),
    PS( crc8_WCDMA, 8, 0x9B, 0x00, true, true, 0x00, 0x25 ),
    PS( crc16_CCITT_FALSE, 16, 0x1021, 0xFFFF, false, false, 0, 0x29B1 ),
    PS( crc16_ARC, 16, 0x8005, 0, true, true, 0, 0xBB3D ),
    PS( crc16_AUG_CCITT, 16, 0x1021, 0x1D0F, false, false, 0, 0xE5CC ),
    PS( crc16_BUYPASS, 16, 0x8005, 0, false, false, 0, 0xFEE8 ),
    PS( crc16_CDMA2000, 16, 0xC867, 0xFFFF, false, false, 0, 0x4C06 ),
    PS( crc16_DDS_110, 16, 0x8005, 0x800D, false, false, 0, 0x9ECF ),
    PS( crc16_DECT_R, 16, 0x0589, 0, false, false, 1, 0x007E ),
    PS( crc16_DECT_X, 16, 0x0589, 0, false, false, 0, 0x007F ),
    PS( crc16_DNP, 16, 0x3D65, 0, true, true, 0xFFFF, 0xEA82 ),
    PS( crc16_EN_13757, 16, 0x3D65, 0, false, false, 0xFFFF, 0xC2B7 ),
    PS( crc16_GENIBUS, 16, 0x1021, 0xFFFF, false, false, 0xFFFF, 0xD64E ),
    PS( crc16_MAXIM, 16, 0x8005, 0, true, true, 0xFFFF, 0x44C2 ),
    PS( crc16_MCRF4XX, 16, 0x1021, 0xFFFF, true, true, 0, 0x6F91 ),
    PS( crc16_RIELLO, 16, 0x1021, 0xB2AA, true, true, 0, 0x63D0 ),
    PS( crc16_T10_DIF, 16, 0x8BB7, 0, false, false, 0, 0xD0DB ),
    PS( crc16_TELEDISK, 16, 0xA097, 0, false, false, 0, 0x0FB3 ),
    PS( crc16_TMS37157, 16, 0x1021, 0x89EC, true, true, 0, 0x26B1 ),
    PS( crc16_USB, 16, 0x8005, 0xFFFF, true, true, 0xFFFF, 0xB4C8 ),
    PS( crc16_A, 16, 0x1021, 0xC6C6, true, true, 0, 0xBF05 ),
    PS( crc16_KERMIT, 16, 0x1021, 0, true, true, 0, 0x2189 ),
    PS( crc16_MODBUS, 16, 0x8005, 0xFFFF, true, true, 0, 0x4B37 ),
    PS( crc16_X_25, 16, 0x1021, 0xFFFF, true, true, 0xFFFF, 0x906E ),
    PS( crc16_XMODEM, 16, 0x1021, 0, false, false, 0, 0x31C3 ),
    PS( crc32, 32, 0x04C11DB7, 0xFFFFFFFF, true, true, 0xFFFFFFFF, 0xCBF43926 ),
    PS( crc32_BZIP2, 32, 0x04C11DB7, 0xFFFFFFFF, false, false, 0xFFFFFFFF, 0xFC891918 ),
    PS( crc32_C, 32, 0x1EDC6F41, 0xFFFFFFFF, true, true, 0xFFFFFFFF, 0xE3069283 ),
    PS( crc32_D, 32, 0xA833982B, 0xFFFFFFFF, true, true, 0xFFFFFFFF, 0x87315576 ),
    PS( crc32_JAMCRC, 32, 0x04C11DB7, 0xFFFFFFFF, true, true, 0, 0x340BC6D9 ),
    PS( crc32_MPEG2, 32, 0x04C11DB7, 0xFFFFFFFF, false, false, 0, 0x0376E6E7 ),
    PS( crc32_POSIX, 32, 0x04C11DB7, 0, false, false, 0xFFFFFFFF, 0x765E7680 ),
    PS( crc32_Q, 32, 0x814141AB, 0, false, false, 0, 0x3010BF7F ),
    PS( crc32_XFER, 32, 0x000000AF, 0, false, false, 0, 0xBD0BE338 ),
};

static std::vector<uint8_t> message( Ctx &t, size_t maxn )
{
    size_t n;
    switch ( t.bits( 5 ) ) {
        case 0: n = t.idx( 4 ); break;
        case 1: { static const size_t sp[] = { 255, 256, 257, 128, 64, 63, 65, 300 }; n = std::min( t.pick( sp ), maxn ); break; }
        default: n = t.idx( maxn + 1u ); break;
    }
    if ( maxn >= 300u && t.chance( 1, 2000 ) ) { // beyond 16-bit lengths
        static const size_t big[] = { 4096, 32768, 65535, 65536, 65537, 70000 };
        n = t.pick( big );
        const uint64_t seed = t.bits( UINT64_MAX );
        std::vector<uint8_t> m( n );
        for ( size_t i = 0; i < n; ++i ) { m[ i ] = static_cast<uint8_t>( pbt::mix64( seed + i ) ); }
        t.nontrivial();
        return m;
    }
    std::vector<uint8_t> m( n );
    const unsigned kind = static_cast<unsigned>( t.bits( 4 ) );
    const uint8_t c = static_cast<uint8_t>( t.bits( 255 ) );
    for ( size_t i = 0; i < n; ++i ) { m[ i ] = ( kind == 0u ) ? c : static_cast<uint8_t>( t.bits( 255 ) ); }
    if ( n >= 2u && std::any_of( m.begin(), m.end(), [&]( uint8_t x ) { return x != m[ 0 ]; } ) ) { t.nontrivial(); }
    return m;
}
struct Buf { // exact-size heap copy at a random alignment, so that over-reads trap
    std::unique_ptr<uint8_t[]> p; uint8_t *q; std::vector<uint8_t> keep;
    Buf( Ctx &t, const std::vector<uint8_t> &m ) : keep( m )
    {
        const size_t of = t.idx( 8 );
        p.reset( new uint8_t[ of + m.size() ] );
        q = p.get() + of;
        if ( !m.empty() ) { memcpy( q, m.data(), m.size() ); }
    }
    bool intact() const { return keep.empty() || 0 == memcmp( q, keep.data(), keep.size() ); }
};

static void generic( Ctx &t )
{
    static const crcMode modes[ 3 ] = { CRC8, CRC16, CRC32 };
    static const unsigned ws[ 3 ] = { 8, 16, 32 };
    const size_t k = t.idx( 3 );
    std::vector<uint8_t> m = message( t, 300 );
    const uint32_t poly = t.u32any(), init = t.u32any(), xo = t.u32any();
    const bool ri = t.coin(), ro = t.coin();
    Buf b( t, m );
    t.note( "crc%u poly=%08x init=%08x refin=%d refout=%d xorout=%08x len=%zu", ws[ k ], poly, init, ri, ro, xo, m.size() );
    const uint32_t got = crc::generic( modes[ k ], b.q, m.size(), poly, init, ri, ro, xo );
    const uint32_t e = m.empty() ? 0u : refCrc( ws[ k ], m.data(), m.size(), poly, init, ri, ro, xo );
    t.check( got == e, "generic width %u len %zu poly %08x init %08x ri %d ro %d xo %08x: %08x, reference %08x", ws[ k ], m.size(), poly, init, ri, ro, xo, got, e );
    t.check( b.intact(), "message modified" );
    t.check( crc::generic( modes[ k ], b.q, m.size(), poly, init, ri, ro, xo ) == got, "second call over the same data differs" );
}

static void preset( Ctx &t )
{
    const Preset &p = t.pick( presets );
    std::vector<uint8_t> m = message( t, 300 );
    if ( t.chance( 1, 8 ) ) { m.assign( { '1', '2', '3', '4', '5', '6', '7', '8', '9' } ); t.label( "check-string" ); }
    Buf b( t, m );
    t.note( "%s over %zu bytes", p.name, m.size() );
    t.label( p.name );
    const uint32_t got = p.fn( b.q, m.size() );
    if ( m.empty() ) { t.check( got == 0u, "%s of an empty block is %08x", p.name, got ); return; }
    const uint32_t e = refCrc( p.w, m.data(), m.size(), p.poly, p.init, p.ri, p.ro, p.xo );
    t.check( got == e, "%s len %zu: %08x, catalogue definition gives %08x", p.name, m.size(), got, e );
    if ( m.size() == 9u && 0 == memcmp( m.data(), "123456789", 9 ) ) { t.check( got == p.chk, "%s check value %08x, catalogue %08x", p.name, got, p.chk ); }
    t.check( p.fn( nullptr, m.size() ) == 0u, "%s of a null block", p.name );
}

static void errors( Ctx &t )
{
    // every non-zero burst no longer than the width changes the CRC
    const Preset &p = t.pick( presets );
    std::vector<uint8_t> m = message( t, 120 );
    if ( m.empty() ) { t.discard(); }
    std::vector<uint8_t> e( m );
    const size_t nb = m.size()*8u;
    const size_t len = std::min<size_t>( nb, static_cast<size_t>( t.range( 1, p.w ) ) );
    const size_t at = t.idx( nb - len + 1u );
    auto flip = [&]( size_t bit ) { // in transmission order of the preset
        const size_t by = bit/8u, bi = bit % 8u;
        e[ by ] = static_cast<uint8_t>( e[ by ] ^ ( 1u << ( p.ri ? bi : 7u - bi ) ) );
    };
    flip( at );
    for ( size_t i = 1; i + 1 < len; ++i ) { if ( t.coin() ) { flip( at + i ); } }
    if ( len > 1 ) { flip( at + len - 1u ); }
    t.note( "%s: burst of %zu bits at bit %zu of %zu bytes", p.name, len, at, m.size() );
    if ( ( p.poly & 1u ) == 0u ) { return; }
    t.check( p.fn( m.data(), m.size() ) != p.fn( e.data(), e.size() ), "%s: burst of %zu bits at bit %zu not detected", p.name, len, at );
}

const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "generic", generic, 250000 }, { "preset", preset, 250000 }, { "errors", errors, 100000 } };
    return s;
}
