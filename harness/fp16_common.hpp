#ifndef FP16_COMMON_HPP
#define FP16_COMMON_HPP
#include <pbt.hpp>
#include <qlibs.h>
using namespace qlibs;
using pbt::Ctx;
static const int64_t ONE = 65536;
static const int64_t RMAX = 2147483647;
static const int64_t RMIN = -2147483647;
static const int64_t OVF = -2147483648ll;
static inline fp16 mk( int64_t raw ) { return fp16::from( static_cast<double>( raw )/65536.0 ); }
static inline double val( int64_t raw ) { return static_cast<double>( raw )/65536.0; }
static inline double LSB() { return 1.0/65536.0; }
// any valid (non-overflow) raw value, biased to the interesting ones
static int64_t drawRaw( Ctx &t )
{
    int64_t r;
    switch ( t.bits( 9 ) ) {
        case 0: r = t.range( 0, 40 ); break;                                   // tiny
        case 1: r = ONE*t.range( 0, 32767 ); break;                            // integers
        case 2: r = ( ONE*t.range( 0, 32767 ) ) + 32768 + t.range( 0, 4 ) - 2; break; // halves
        case 3: r = ( 1ll << t.range( 0, 30 ) ) + t.range( 0, 4 ) - 2; break;   // powers of 2
        case 4: r = RMAX - t.range( 0, 70000 ); break;                         // top
        case 5: r = t.range( 0, 4*ONE ); break;
        case 6: r = t.range( 0, 64*ONE ); break;
        default: r = t.range( 0, RMAX ) >> t.range( 0, 24 ); break;
    }
    if ( r < 0 ) { r = 0; }
    if ( r > RMAX ) { r = RMAX; }
    return t.coin() ? -r : r;
}
static inline int64_t rdiv( int64_t n, int64_t d ) // round half away from zero
{
    const bool neg = ( n < 0 ) != ( d < 0 );
    const uint64_t a = static_cast<uint64_t>( n < 0 ? -n : n ), b = static_cast<uint64_t>( d < 0 ? -d : d );
    const uint64_t q = ( a + b/2u )/b; // exact for even b; odd b: a/b + 1/2 - eps, still nearest
    return neg ? -static_cast<int64_t>( q ) : static_cast<int64_t>( q );
}
static inline int64_t fit( int64_t r ) { return ( r > RMAX || r < RMIN ) ? OVF : r; }
#endif
