// Choice-sequence property-based testing engine (Hypothesis style), used by
// every harness in /verif/harness.
//
//  * a property is a function `void f(pbt::Ctx &t)` which draws every random
//    decision from `t`; the sequence of draws *is* the test case
//  * cases are generated purely from (seed, property, sub-test, index)
//  * worker processes run the cases; a crash, sanitizer abort or hang of a
//    worker is attributed to the case it was running and becomes a failure
//  * a failing sequence is shrunk (chunk deletion, zeroing, value
//    minimisation), every candidate running in its own forked child
//  * the shrunk sequence is the replay file
//  * the same functions can be driven by libFuzzer (-DPBT_LIBFUZZER)
#ifndef PBT_HPP
#define PBT_HPP

#include <cfloat>
#include <cinttypes>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

inline uint64_t mix64( uint64_t z )
{
    z += 0x9E3779B97F4A7C15ull;
    z = ( z ^ ( z >> 30 ) )*0xBF58476D1CE4E5B9ull;
    z = ( z ^ ( z >> 27 ) )*0x94D049BB133111EBull;
    return z ^ ( z >> 31 );
}

inline uint64_t hashStr( const char *s )
{
    uint64_t h = 1469598103934665603ull;
    for ( ; *s; ++s ) { h ^= static_cast<unsigned char>( *s ); h *= 1099511628211ull; }
    return mix64( h );
}

struct Rng {
    uint64_t s;
    explicit Rng( uint64_t seed ) : s( seed ) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix64( s ); }
};

struct Fail { std::string msg; };
struct Discard {};

inline std::string vfmt( const char *f, va_list ap )
{
    char b[ 4096 ];
    vsnprintf( b, sizeof b, f, ap );
    return b;
}

class Ctx {
    public:
        enum Mode { GENERATE, REPLAY, BYTES };
        Mode mode;
        Rng rng;
        const std::vector<uint64_t> *replay{ nullptr };
        const uint8_t *bytes{ nullptr };
        size_t nbytes{ 0 };
        size_t pos{ 0 };
        std::vector<uint64_t> rec;
        bool verbose{ false };
        bool isNontrivial{ false };
        std::string notes;
        std::vector<const char*> labels;
        std::vector<std::string> knowns;

        explicit Ctx( uint64_t seed ) : mode( GENERATE ), rng( seed ) { rec.reserve( 256 ); }
        explicit Ctx( const std::vector<uint64_t> &r ) : mode( REPLAY ), rng( 0 ), replay( &r ) {}
        Ctx( const uint8_t *d, size_t n ) : mode( BYTES ), rng( 0 ), bytes( d ), nbytes( n ) {}

        // one choice in [0, maxv]
        uint64_t bits( uint64_t maxv )
        {
            uint64_t v = 0;
            if ( rec.size() > 200000u ) { throw Discard(); }
            if ( maxv != 0u ) {
                if ( GENERATE == mode ) {
                    v = rng.next();
                    v = ( UINT64_MAX == maxv ) ? v : v % ( maxv + 1u );
                }
                else if ( REPLAY == mode ) {
                    v = ( pos < replay->size() ) ? ( *replay )[ pos ] : 0u;
                    ++pos;
                    v = ( UINT64_MAX == maxv ) ? v : v % ( maxv + 1u );
                }
                else {
                    int need = 0;
                    for ( uint64_t m = maxv; m; m >>= 8 ) { ++need; }
                    for ( int i = 0; i < need; ++i ) {
                        v = ( v << 8 ) | ( ( pos < nbytes ) ? bytes[ pos ] : 0u );
                        ++pos;
                    }
                    v = ( UINT64_MAX == maxv ) ? v : v % ( maxv + 1u );
                }
            }
            else if ( REPLAY == mode ) {
                ++pos;
            }
            rec.push_back( v );
            return v;
        }
        bool exhausted() const { return ( BYTES == mode ) && ( pos >= nbytes ); }

        // integers in [lo,hi]; shrinks towards lo
        int64_t range( int64_t lo, int64_t hi )
        {
            return lo + static_cast<int64_t>( bits( static_cast<uint64_t>( hi ) - static_cast<uint64_t>( lo ) ) );
        }
        size_t idx( size_t n ) { return static_cast<size_t>( bits( n - 1u ) ); }
        bool coin() { return bits( 1 ) == 1u; }
        // true with probability num/den, shrinks to false
        bool chance( unsigned num, unsigned den ) { return bits( den - 1u ) >= den - num; }
        template <class T> const T& pick( const std::vector<T> &v ) { return v[ idx( v.size() ) ]; }
        template <class T, size_t N> const T& pick( const T (&v)[ N ] ) { return v[ idx( N ) ]; }
        // small-biased size in [lo,hi]
        // length of a history; now and then a long one with few interruptions (calm)
        size_t steps( size_t lo, size_t hi, bool &calm )
        {
            calm = chance( 1, 400 );
            return calm ? 260u + static_cast<size_t>( bits( 1000 ) ) : size( lo, hi );
        }
        // rounding errors may add up over a long history
        static double drift( size_t k ) { return 1.0 + static_cast<double>( k > 150u ? k - 150u : 0u )/100.0; }
        bool busy( bool calm ) { return !calm || chance( 1, 150 ); }
        size_t size( size_t lo, size_t hi )
        {
            size_t v = static_cast<size_t>( range( static_cast<int64_t>( lo ), static_cast<int64_t>( hi ) ) );
            if ( bits( 3 ) == 0u ) { // bias small
                size_t span = std::min<size_t>( hi - lo, 4u );
                v = lo + ( v - lo ) % ( span + 1u );
            }
            return v;
        }
        uint32_t u32any()
        {
            switch ( bits( 5 ) ) {
                case 0: return static_cast<uint32_t>( bits( 16 ) );
                case 1: return 1u << bits( 31 );
                case 2: return ( 1u << bits( 31 ) ) - 1u;
                case 3: return ~static_cast<uint32_t>( bits( 16 ) );
                default: return static_cast<uint32_t>( bits( 0xFFFFFFFFu ) );
            }
        }
        // any float bit pattern, biased towards special ones; finite unless any=true
        float f32any( bool any = false )
        {
            uint32_t u;
            switch ( bits( 9 ) ) {
                case 0: { // small integers and halves
                    float f = static_cast<float>( range( 0, 64 ) )*0.5f;
                    return coin() ? -f : f;
                }
                case 1: { // specials
                    static const uint32_t sp[] = { 0x00000000u, 0x80000000u, 0x00000001u, 0x80000001u,
                        0x007FFFFFu, 0x807FFFFFu, 0x00800000u, 0x80800000u, 0x7F7FFFFFu, 0xFF7FFFFFu,
                        0x3F800000u, 0xBF800000u, 0x3F7FFFFFu, 0x3F800001u, 0x3F000000u, 0xBF000000u,
                        0x3EFFFFFFu, 0xBEFFFFFFu, 0x4B000000u, 0xCB000000u, 0x4AFFFFFFu, 0x4B800000u,
                        0x4F000000u, 0xCF000000u, 0x4EFFFFFFu,
                        0x7F800000u, 0xFF800000u, 0x7FC00000u, 0xFFC00000u, 0x7F800001u };
                    u = sp[ bits( any ? 29 : 24 ) ];
                    break;
                }
                case 2: { // integer +- ulps
                    float f = static_cast<float>( range( 0, 70000 ) );
                    if ( coin() ) { f += 0.5f; }
                    memcpy( &u, &f, 4 );
                    if ( u > 8u ) { u += static_cast<uint32_t>( range( 0, 4 ) ) - 2u; }
                    if ( coin() ) { u |= 0x80000000u; }
                    break;
                }
                case 3: { // moderate magnitude
                    u = ( static_cast<uint32_t>( bits( 0x7FFFFFu ) ) ) | ( static_cast<uint32_t>( range( 110, 150 ) ) << 23 )
                        | ( coin() ? 0x80000000u : 0u );
                    break;
                }
                case 4: { // subnormals
                    u = static_cast<uint32_t>( bits( 0x7FFFFFu ) ) | ( coin() ? 0x80000000u : 0u );
                    break;
                }
                default: u = static_cast<uint32_t>( bits( 0xFFFFFFFFu ) ); break;
            }
            if ( !any && ( ( u & 0x7F800000u ) == 0x7F800000u ) ) { u &= ~0x40000000u; }
            float f;
            memcpy( &f, &u, 4 );
            return f;
        }
        // float in [lo,hi]
        float f32( float lo, float hi )
        {
            const uint64_t k = bits( 7 );
            if ( k == 0u ) { // integers
                double a = std::ceil( static_cast<double>( lo ) ), b = std::floor( static_cast<double>( hi ) );
                if ( b >= a && ( b - a ) < 1e15 ) {
                    const int64_t lo_i = static_cast<int64_t>( a ), hi_i = static_cast<int64_t>( b );
                    const int64_t org = ( lo_i > 0 ) ? lo_i : ( ( hi_i < 0 ) ? hi_i : 0 );
                    const uint64_t w = bits( static_cast<uint64_t>( hi_i - lo_i ) );
                    int64_t r = org + static_cast<int64_t>( w );
                    if ( r > hi_i ) { r = lo_i + ( r - hi_i - 1 ); }
                    return static_cast<float>( r );
                }
                return lo;
            }
            if ( k == 1u ) { return bits( 1 ) ? hi : lo; }
            const double f = static_cast<double>( bits( ( 1u << 24 ) ) )/static_cast<double>( 1u << 24 );
            double v = static_cast<double>( lo ) + ( static_cast<double>( hi ) - static_cast<double>( lo ) )*f;
            float r = static_cast<float>( v );
            return ( r < lo ) ? lo : ( ( r > hi ) ? hi : r );
        }
        // log-uniform positive float in [lo,hi]
        float f32log( float lo, float hi )
        {
            const double f = static_cast<double>( bits( ( 1u << 24 ) ) )/static_cast<double>( 1u << 24 );
            double v = std::exp( std::log( static_cast<double>( lo ) ) + f*( std::log( static_cast<double>( hi ) ) - std::log( static_cast<double>( lo ) ) ) );
            float r = static_cast<float>( v );
            return ( r < lo ) ? lo : ( ( r > hi ) ? hi : r );
        }

        void label( const char *l ) { labels.push_back( l ); }
        void nontrivial() { isNontrivial = true; }
        void note( const char *f, ... ) __attribute__(( format( printf, 2, 3 ) ))
        {
            if ( verbose ) {
                va_list ap;
                va_start( ap, f );
                notes += vfmt( f, ap );
                notes += "\n";
                va_end( ap );
            }
        }
        [[noreturn]] void fail( const char *f, ... ) __attribute__(( format( printf, 2, 3 ) ))
        {
            va_list ap;
            va_start( ap, f );
            Fail e{ vfmt( f, ap ) };
            va_end( ap );
            throw e;
        }
        void check( bool c, const char *f, ... ) __attribute__(( format( printf, 3, 4 ) ))
        {
            if ( !c ) {
                va_list ap;
                va_start( ap, f );
                Fail e{ vfmt( f, ap ) };
                va_end( ap );
                throw e;
            }
        }
        // numerical comparison: |got - ref| <= tol; remembers the largest share
        // of the tolerance ever used (development aid, PBT_MARGIN=1)
        void near( const char *what, double got, double ref, double tol, const char *f, ... ) __attribute__(( format( printf, 6, 7 ) ))
        {
            const bool special = std::isnan( ref ) || std::isinf( ref );
            bool ok;
            if ( special ) { ok = std::isnan( ref ) ? std::isnan( got ) : ( got == ref ); }
            else { ok = std::fabs( got - ref ) <= tol; }
            if ( !special && tol > 0 ) {
                double &m = margins()[ what ];
                const double r = std::fabs( got - ref )/tol;
                if ( r > m ) { m = r; }
            }
            if ( !ok ) {
                va_list ap;
                va_start( ap, f );
                std::string m = vfmt( f, ap );
                va_end( ap );
                char b[ 200 ];
                snprintf( b, sizeof b, "%s is %.9g, expected %.9g (allowed error %.3g): ", what, got, ref, tol );
                throw Fail{ b + m };
            }
        }
        static std::map<std::string, double>& margins() { static std::map<std::string, double> m; return m; }
        [[noreturn]] void discard() { throw Discard(); }
};

typedef void ( *PropFn )( Ctx & );
struct Sub { const char *name; PropFn fn; uint64_t cases; };

// supplied by the harness
extern const char *const PROPERTY;
extern const char *const RULE;
extern const std::vector<Sub>& subs();

// object constructed over deterministic junk, so that a member that is never
// initialised shows up the same way in every run
template <class T>
class Junk {
        typename std::aligned_storage<sizeof( T ), alignof( T )>::type mem;
        T *p;
    public:
        template <class... A>
        explicit Junk( uint8_t pattern, A&&... a )
        {
            memset( static_cast<void*>( &mem ), pattern, sizeof mem );
            asm volatile( "" : : "r"( &mem ) : "memory" );
            p = new ( static_cast<void*>( &mem ) ) T( std::forward<A>( a )... );
        }
        ~Junk() { p->~T(); }
        Junk( const Junk& ) = delete;
        Junk& operator=( const Junk& ) = delete;
        T& operator*() { return *p; }
        T* operator->() { return p; }
};

inline bool sameBits( float a, float b )
{
    uint32_t x, y;
    memcpy( &x, &a, 4 );
    memcpy( &y, &b, 4 );
    return x == y;
}

// float equality where all NaNs are alike and +0 == -0
inline bool eqv( float a, float b )
{
    if ( std::isnan( a ) || std::isnan( b ) ) { return std::isnan( a ) && std::isnan( b ); }
    return a == b;
}

inline bool close( double got, double ref, double rtol, double atol )
{
    if ( std::isnan( ref ) ) { return std::isnan( got ); }
    if ( std::isinf( ref ) ) { return got == ref; }
    return std::fabs( got - ref ) <= ( atol + ( rtol*std::fabs( ref ) ) );
}

} // namespace pbt
#endif
