// P07: Q16.16 arithmetic is exactly rounded and flags overflow
#include "fp16_common.hpp"
namespace pbt {
const char *const PROPERTY = "P07";
const char *const RULE = "operand pairs over the whole Q16.16 range (tiny, integers, halves, powers of two +-2, top of the range, log-uniform) pushed through every arithmetic operator in value and compound form, plus random chains of operations on an accumulator, compared bit for bit with a 64-bit integer model (round half away from zero; overflow marker iff the rounded result leaves the range); non-trivial = both operands non-zero and the exact result either needs rounding or does not fit";
}

static int64_t model( char op, int64_t a, int64_t b, bool &rounded )
{
    rounded = false;
    switch ( op ) {
        case '+': return fit( a + b );
        case '-': return fit( a - b );
        case '*': rounded = ( ( a*b ) % ONE ) != 0; return fit( rdiv( a*b, ONE ) );
        default:
            if ( b == 0 ) { return RMIN; }
            rounded = ( ( a*ONE ) % b ) != 0;
            return fit( rdiv( a*ONE, b ) );
    }
}

static fp16 apply( char op, int64_t a, int64_t b, bool compound )
{
    fp16 x = mk( a );
    const fp16 y = mk( b );
    if ( compound ) {
        switch ( op ) {
            case '+': return x += y;
            case '-': return x -= y;
            case '*': return x *= y;
            default: return x /= y;
        }
    }
    switch ( op ) {
        case '+': return x + y;
        case '-': return x - y;
        case '*': return x*y;
        default: return x/y;
    }
}

static void checkOp( Ctx &t, char op, int64_t a, int64_t b, bool compound )
{
    bool rounded;
    const int64_t e = model( op, a, b, rounded );
    const fp16 r = apply( op, a, b, compound );
    t.note( "%.17g %c%s %.17g (raw %lld, %lld) -> raw %d, expected %lld", val( a ), op, compound ? "=" : "", val( b ), (long long)a, (long long)b, r.raw(), (long long)e );
    t.check( r.raw() == e, "%.17g %c %.17g: raw %d, expected %lld", val( a ), op, val( b ), r.raw(), (long long)e );
    t.check( r.isOverflow() == ( e == OVF ), "overflow flag of %.17g %c %.17g", val( a ), op, val( b ) );
    if ( ( a != 0 ) && ( b != 0 ) && ( rounded || e == OVF ) ) { t.nontrivial(); }
}

static void pairs( Ctx &t )
{
    static const char ops[] = { '+', '-', '*', '/' };
    const char op = t.pick( ops );
    const int64_t a = drawRaw( t );
    int64_t b = drawRaw( t );
    if ( t.chance( 1, 3 ) ) {
        // aim at the limits of the range and at rounding ties
        switch ( op ) {
            case '+': b = ( a > 0 ? RMAX - a : RMIN - a ) + t.range( 0, 4 ) - 2; break;
            case '-': b = ( a > 0 ? a - RMAX : a - RMIN ) + t.range( 0, 4 ) - 2; break;
            case '*': if ( a != 0 ) { b = ( RMAX*ONE )/a + t.range( 0, 4 ) - 2; } break;
            default: if ( t.coin() ) { b = ( a*ONE )/RMAX + t.range( 0, 4 ) - 2; } else { b = 2*( a/2 + t.range( 0, 3 ) ); } break;
        }
        b = std::max( RMIN, std::min( RMAX, b ) );
    }
    checkOp( t, op, a, b, t.coin() );
}

static void incdec( Ctx &t )
{
    const int64_t a = drawRaw( t );
    fp16 x = mk( a );
    t.check( x.raw() == a, "raw of %.17g", val( a ) );
    t.check( ( -x ).raw() == -a, "negation of %.17g gives raw %d", val( a ), ( -x ).raw() );
    switch ( t.bits( 3 ) ) {
        case 0: { fp16 r = ++x; t.check( r.raw() == fit( a + ONE ) && x.raw() == fit( a + ONE ), "++x of %.17g", val( a ) ); break; }
        case 1: { fp16 r = x++; t.check( r.raw() == a && x.raw() == fit( a + ONE ), "x++ of %.17g", val( a ) ); break; }
        case 2: { fp16 r = --x; t.check( r.raw() == fit( a - ONE ) && x.raw() == fit( a - ONE ), "--x of %.17g", val( a ) ); break; }
        default: { fp16 r = x--; t.check( r.raw() == a && x.raw() == fit( a - ONE ), "x-- of %.17g", val( a ) ); break; }
    }
    const fp16 c( x );
    t.check( c.raw() == x.raw(), "copy" );
    fp16 d;
    t.check( d.raw() == 0, "default value is raw %d", d.raw() );
    d = x;
    t.check( d.raw() == x.raw(), "assignment" );
    if ( a != 0 ) { t.nontrivial(); }
}

static void chain( Ctx &t )
{
    static const char ops[] = { '+', '-', '*', '/' };
    int64_t m = drawRaw( t );
    fp16 acc = mk( m );
    const size_t n = t.size( 1, 16 );
    for ( size_t i = 0; i < n; ++i ) {
        const char op = t.pick( ops );
        const int64_t b = drawRaw( t );
        const fp16 y = mk( b );
        bool r;
        const int64_t e = model( op, m, b, r );
        switch ( op ) {
            case '+': if ( t.coin() ) { acc += y; } else { acc = acc + y; } break;
            case '-': if ( t.coin() ) { acc -= y; } else { acc = acc - y; } break;
            case '*': if ( t.coin() ) { acc *= y; } else { acc = acc*y; } break;
            default:  if ( t.coin() ) { acc /= y; } else { acc = acc/y; } break;
        }
        t.note( "raw %lld %c %lld -> %d (%lld)", (long long)m, op, (long long)b, acc.raw(), (long long)e );
        t.check( acc.raw() == e, "step %zu: raw %lld %c raw %lld gives %d, expected %lld", i, (long long)m, op, (long long)b, acc.raw(), (long long)e );
        if ( r ) { t.nontrivial(); }
        if ( e == OVF ) { t.check( acc.isOverflow(), "overflow flag" ); break; }
        m = e;
    }
}

const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "pairs", pairs, 6000000 }, { "incdec", incdec, 500000 }, { "chain", chain, 700000 } };
    return s;
}
