// P08: Q16.16 conversions, integer parts, ordering and text
#include "fp16_common.hpp"
#include <sstream>
namespace pbt {
const char *const PROPERTY = "P08";
const char *const RULE = "fixed-point values over the whole range and in-range ints / floats / doubles (ties, subnormals, 24-bit edges) converted to fixed point, back to int / float / double, to text with every decimal count, floored / ceiled / rounded / absolute and compared, each against exact integer arithmetic; non-trivial = the value has a fractional part (something is lost or rounded)";
}

static void toOther( Ctx &t )
{
    const int64_t a = drawRaw( t );
    const fp16 x = mk( a );
    if ( a % ONE ) { t.nontrivial(); }
    t.note( "x=%.17g raw=%lld", val( a ), (long long)a );
    t.check( x.raw() == a, "from double: %.17g has raw %d, expected %lld", val( a ), x.raw(), (long long)a );
    t.check( fp16::toDouble( x ) == val( a ), "toDouble of raw %lld is %.17g", (long long)a, fp16::toDouble( x ) );
    t.check( fp16::toFloat( x ) == static_cast<float>( val( a ) ), "toFloat of raw %lld is %.9g", (long long)a, fp16::toFloat( x ) );
    const int64_t ri = rdiv( a, ONE );
    t.check( fp16::toInt( x ) == ri, "toInt of %.17g is %d, expected %lld", val( a ), fp16::toInt( x ), (long long)ri );
    // integer parts
    const int64_t fl = ( a >= 0 ) ? ( a/ONE )*ONE : -( ( ( -a ) + ONE - 1 )/ONE )*ONE;
    const int64_t ce = ( a % ONE ) ? fl + ONE : fl;
    t.check( fp16::floor( x ).raw() == fl, "floor of %.17g is %.17g", val( a ), fp16::toDouble( fp16::floor( x ) ) );
    t.check( fp16::ceil( x ).raw() == fit( ce ), "ceil of %.17g is raw %d", val( a ), fp16::ceil( x ).raw() );
    const int64_t up = fit( ce ), dn = fl, r = fp16::rounding( x ).raw();
    const int64_t frac = a - fl;
    const bool okR = ( frac < 32768 ) ? ( r == dn ) : ( ( frac > 32768 ) ? ( r == up ) : ( r == dn || r == up ) );
    t.check( okR, "rounding of %.17g is raw %lld", val( a ), (long long)r );
    t.check( fp16::absolute( x ).raw() == ( a < 0 ? -a : a ), "absolute of %.17g is raw %d", val( a ), fp16::absolute( x ).raw() );
    t.check( !x.isOverflow(), "in-range value flagged as overflow" );
}

static void fromOther( Ctx &t )
{
    switch ( t.bits( 3 ) ) {
        case 0: {
            const int i = static_cast<int>( t.range( 0, 65534 ) ) - 32767;
            fp16 y;
            y = i;
            t.check( fp16::from( i ).raw() == i*ONE && y.raw() == i*ONE, "from int %d: raw %d / %d", i, fp16::from( i ).raw(), y.raw() );
            t.check( fp16::toInt( fp16::from( i ) ) == i, "int %d does not survive the round trip", i );
            if ( i ) { t.nontrivial(); }
            break;
        }
        case 1: { // float
            float f;
            switch ( t.bits( 3 ) ) {
                case 0: f = t.f32( -32767.0f, 32767.0f ); break;
                case 1: f = static_cast<float>( val( drawRaw( t ) ) ); break;
                case 2: { int64_t r = t.range( 0, 1 << 24 ); f = static_cast<float>( r )*( 1.0f/65536.0f ); if ( t.coin() ) { f = -f; } break; }
                default: f = t.f32log( 1e-9f, 32767.0f ); if ( t.coin() ) { f = -f; } break;
            }
            if ( std::fabs( f ) > 32767.99f ) { t.discard(); }
            const double s = static_cast<double>( f )*65536.0;
            const int64_t e = static_cast<int64_t>( s < 0 ? -std::floor( -s + 0.5 ) : std::floor( s + 0.5 ) );
            fp16 y;
            y = f;
            t.note( "float %.9g", f );
            t.check( fp16::from( f ).raw() == e, "from float %.9g: raw %d, expected %lld", f, fp16::from( f ).raw(), (long long)e );
            t.check( y.raw() == e, "assign float %.9g: raw %d, expected %lld", f, y.raw(), (long long)e );
            if ( s != std::floor( s ) ) { t.nontrivial(); }
            break;
        }
        default: { // double
            double d = val( drawRaw( t ) );
            const int64_t k = t.range( 0, 1000 );
            d += ( static_cast<double>( k ) - 500.0 )*( 1.0/65536.0/500.0 );
            if ( std::fabs( d ) > 32767.99998 ) { t.discard(); }
            const double s = d*65536.0; // exact
            const double fl = std::floor( std::fabs( s ) ), fr = std::fabs( s ) - fl;
            const int64_t e0 = static_cast<int64_t>( fr < 0.5 ? fl : fl + 1.0 );
            const int64_t e = ( s < 0 ) ? -e0 : e0;
            fp16 y;
            y = d;
            t.note( "double %.17g", d );
            t.check( fp16::from( d ).raw() == e, "from double %.17g: raw %d, expected %lld", d, fp16::from( d ).raw(), (long long)e );
            t.check( y.raw() == e, "assign double %.17g: raw %d, expected %lld", d, y.raw(), (long long)e );
            if ( s != std::floor( s ) ) { t.nontrivial(); }
            break;
        }
    }
}

static void ordering( Ctx &t )
{
    const int64_t a = drawRaw( t );
    const int64_t b = t.chance( 1, 3 ) ? std::max( RMIN, std::min( RMAX, a + t.range( 0, 4 ) - 2 ) ) : drawRaw( t );
    const fp16 x = mk( a ), y = mk( b );
    t.check( ( x < y ) == ( a < b ) && ( x <= y ) == ( a <= b ) && ( x > y ) == ( a > b ) && ( x >= y ) == ( a >= b ) && ( x == y ) == ( a == b ) && ( x != y ) == ( a != b ),
             "ordering of raw %lld and %lld", (long long)a, (long long)b );
    if ( a != b ) { t.nontrivial(); }
}

static void text( Ctx &t )
{
    const int64_t a = drawRaw( t );
    const int dec = static_cast<int>( t.range( 0, 9 ) ) - 2;
    const int d = std::min( 5, std::max( 0, dec ) );
    const fp16 x = mk( a );
    char buf[ 24 ];
    memset( buf, '#', sizeof buf );
    std::string s;
    if ( t.chance( 1, 4 ) && dec >= 0 ) {
        std::ostringstream os;
        os.precision( dec );
        os << x;
        s = os.str();
    }
    else {
        char *r = fp16::toASCII( x, buf, dec );
        t.check( r == buf, "toASCII does not return its buffer" );
        t.check( memchr( buf, 0, sizeof buf ) != nullptr, "text is not terminated within %zu characters", sizeof buf );
        s = buf;
    }
    t.note( "raw=%lld decimals=%d -> \"%s\"", (long long)a, dec, s.c_str() );
    // exact expectation: |a|/65536 rounded half away to d decimals
    int64_t p10 = 1;
    for ( int i = 0; i < d; ++i ) { p10 *= 10; }
    const int64_t mag = ( a < 0 ) ? -a : a;
    const int64_t q = ( mag*p10*2 + ONE )/( 2*ONE );
    char ex[ 40 ];
    if ( d > 0 ) { snprintf( ex, sizeof ex, "%s%lld.%0*lld", a < 0 ? "-" : "", (long long)( q/p10 ), d, (long long)( q % p10 ) ); }
    else { snprintf( ex, sizeof ex, "%s%lld", a < 0 ? "-" : "", (long long)q ); }
    std::string alt = ( q == 0 && a < 0 ) ? std::string( ex + 1 ) : std::string( ex ); // "-0.0" and "0.0" are both fine
    t.check( s == ex || s == alt, "text of raw %lld with %d decimals is \"%s\", expected \"%s\"", (long long)a, dec, s.c_str(), ex );
    if ( a % ONE ) { t.nontrivial(); }
}

static void overflowText( Ctx &t )
{
    fp16 x = mk( RMAX - t.range( 0, 1000 ) );
    x += mk( RMAX - t.range( 0, 1000 ) );
    t.check( x.isOverflow(), "overflow not flagged" );
    char buf[ 24 ];
    fp16::toASCII( x, buf, static_cast<int>( t.range( 0, 5 ) ) );
    t.check( std::string( buf ) == "overflow", "text of an overflowed value is \"%s\"", buf );
    t.nontrivial();
}

static void constants( Ctx &t )
{
    struct { fp16 v; double d; } c[] = {
        { FP_E, 2.718281828459045 }, { FP_LOG2E, 1.4426950408889634 }, { FP_LOG10E, 0.4342944819032518 }, { FP_LN2, 0.6931471805599453 },
        { FP_LN10, 2.302585092994046 }, { FP_PI, M_PI }, { FP_PI_2, M_PI/2 }, { FP_PI_4, M_PI/4 }, { FP_1_PI, 1/M_PI }, { FP_2_PI, 2/M_PI },
        { FP_2_SQRTPI, 1.1283791670955126 }, { FP_SQRT2, M_SQRT2 }, { FP_SQRT1_2, M_SQRT1_2 }, { 12_fp, 12.0 }, { 0.5_fp, 0.5 }, { 1.25_fp, 1.25 },
        { 32767_fp, 32767.0 }, { 100.00001525878906_fp, 100.0 + 1.0/65536.0 } };
    const size_t i = t.idx( sizeof c/sizeof c[ 0 ] );
    t.check( c[ i ].v.raw() == static_cast<int64_t>( std::floor( c[ i ].d*65536.0 + 0.5 ) ), "constant %zu (%.9g) has raw %d", i, c[ i ].d, c[ i ].v.raw() );
    t.nontrivial();
}

const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "toOther", toOther, 2000000 }, { "fromOther", fromOther, 2000000 }, { "ordering", ordering, 500000 },
        { "text", text, 1000000 }, { "overflowText", overflowText, 20000 }, { "literals", constants, 2000 } };
    return s;
}
