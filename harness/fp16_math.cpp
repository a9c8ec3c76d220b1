// P09: Q16.16 elementary functions
#include "fp16_common.hpp"
namespace pbt {
const char *const PROPERTY = "P09";
const char *const RULE = "arguments over the whole Q16.16 range (tiny, integers, +-1, multiples of pi, range limits, log-uniform) for square root, exponential, logarithms, trigonometric, hyperbolic, inverse, power and angle-unit functions, compared with double-precision references within a stated per-function error budget (exact rounding for the square root), plus domain errors and saturation; non-trivial = finite non-zero argument inside the function's domain";
}
static double err( const fp16 &r, double ref ) { return std::fabs( fp16::toDouble( r ) - ref ); }
static double tol( double lsb ) { return lsb*LSB(); }
#define CK( name, r, a, ref, budget ) t.check( err( r, ref ) <= ( budget ), "%s(%.17g) = %.9g, expected %.9g (allowed error %.3g)", name, val( a ), fp16::toDouble( r ), ( ref ), ( budget ) )

static void sqrtFn( Ctx &t )
{
    int64_t a = drawRaw( t );
    if ( t.chance( 3, 4 ) ) { a = std::llabs( a ); }
    if ( t.chance( 1, 6 ) ) { const int64_t k = t.range( 0, 11863283 ); a = std::min( RMAX, ( k*k )/ONE + t.range( 0, 1 ) ); } // around exact squares
    const fp16 r = fp16::sqrt( mk( a ) );
    t.note( "sqrt(raw %lld) -> raw %d", (long long)a, r.raw() );
    if ( a < 0 ) { t.check( r.isOverflow(), "sqrt of negative %.9g is raw %d, not overflow", val( a ), r.raw() ); return; }
    const long double s = sqrtl( static_cast<long double>( a )*65536.0L );
    t.check( fabsl( static_cast<long double>( r.raw() ) - s ) <= 0.51L, "sqrt(%.17g) has raw %d, exact root is raw %.4Lf", val( a ), r.raw(), s );
    if ( a ) { t.nontrivial(); }
}

static const double EXPMAX = 681391.0/65536.0;
static void expFn( Ctx &t )
{
    int64_t a = drawRaw( t );
    if ( t.chance( 2, 3 ) ) { a = t.range( -700000, 700000 ); }
    const fp16 r = fp16::exp( mk( a ) );
    const double x = val( a );
    t.note( "exp(%.9g) -> %.9g", x, fp16::toDouble( r ) );
    if ( x >= EXPMAX ) { t.check( r.raw() == RMAX, "exp(%.9g) does not saturate: raw %d", x, r.raw() ); return; }
    if ( x <= -EXPMAX ) { t.check( r.raw() == 0, "exp(%.9g) is raw %d, expected 0", x, r.raw() ); return; }
    const double e = std::exp( x );
    CK( "exp", r, a, e, ( x <= 0 ? tol( 4 ) : tol( 9 ) + 6e-5*e ) );
    if ( a ) { t.nontrivial(); }
}

static void logFn( Ctx &t )
{
    int64_t a = drawRaw( t );
    if ( t.chance( 5, 6 ) ) { a = std::llabs( a ); }
    const fp16 r = fp16::log( mk( a ) ), r2 = fp16::log2( mk( a ) );
    t.note( "log(raw %lld) -> %.9g log2 -> %.9g", (long long)a, fp16::toDouble( r ), fp16::toDouble( r2 ) );
    if ( a <= 0 ) {
        t.check( r.isOverflow() && r2.isOverflow(), "logarithm of %.9g is not overflow", val( a ) );
        return;
    }
    CK( "log", r, a, std::log( val( a ) ), tol( 10.0 + 1000.0/static_cast<double>( a ) ) );
    CK( "log2", r2, a, std::log2( val( a ) ), tol( 5 ) );
    t.nontrivial();
}

static int64_t drawAngle( Ctx &t )
{
    if ( t.chance( 1, 3 ) ) {
        const double k = static_cast<double>( t.range( 0, 40 ) ) - 20.0;
        const int64_t r = static_cast<int64_t>( std::llround( k*M_PI/4.0*65536.0 ) ) + t.range( 0, 8 ) - 4;
        return r;
    }
    if ( t.chance( 1, 2 ) ) { return t.range( 0, 2*411775 ) - 411775; }
    return drawRaw( t );
}
// accumulated error of the angle reduction, LSBs
static double wrapErr( int64_t a ) { return 2.0 + 0.2*( std::fabs( val( a ) )/( 2.0*M_PI ) ); }
static double taylor( double xr ) { return 1.3*std::pow( std::fabs( xr ), 13.0 )/6227020800.0; }
static double red( double x ) { return std::remainder( x, 2.0*M_PI ); }

static void trig( Ctx &t )
{
    const int64_t a = drawAngle( t );
    const double x = val( a );
    const fp16 s = fp16::sin( mk( a ) ), c = fp16::cos( mk( a ) ), tn = fp16::tan( mk( a ) );
    t.note( "x=%.9g sin=%.9g cos=%.9g tan=%.9g", x, fp16::toDouble( s ), fp16::toDouble( c ), fp16::toDouble( tn ) );
    const double es = tol( 8 + wrapErr( a ) ) + taylor( red( x ) ), ec = tol( 8 + wrapErr( a ) ) + taylor( red( x + M_PI/2 ) );
    // close to +-pi the reduced angle may land on either side
    const double edge = 0.0008;
    const double bs = ( std::fabs( red( x ) ) > 3.1 ) ? es + edge : es, bc = ( std::fabs( red( x + M_PI/2 ) ) > 3.1 ) ? ec + edge : ec;
    CK( "sin", s, a, std::sin( x ), bs );
    CK( "cos", c, a, std::cos( x ), bc );
    const double cx = std::cos( x );
    if ( std::fabs( cx ) > 0.05 + bc ) {
        const double ref = std::tan( x );
        const double bt = ( bs + std::fabs( ref )*bc )/( std::fabs( cx ) - bc ) + tol( 2 );
        CK( "tan", tn, a, ref, bt );
    }
    if ( a ) { t.nontrivial(); }
}

static void inverse( Ctx &t )
{
    switch ( t.bits( 3 ) ) {
        case 0: {
            const int64_t a = t.chance( 1, 4 ) ? ( t.coin() ? ONE - t.range( 0, 3 ) : -ONE + t.range( 0, 3 ) ) : t.range( 0, 2*ONE ) - ONE;
            const fp16 r = fp16::asin( mk( a ) ), q = fp16::acos( mk( a ) );
            CK( "asin", r, a, std::asin( val( a ) ), 0.0115 );
            CK( "acos", q, a, std::acos( val( a ) ), 0.0115 );
            if ( a ) { t.nontrivial(); }
            break;
        }
        case 1: {
            const int64_t a = drawRaw( t );
            CK( "atan", fp16::atan( mk( a ) ), a, std::atan( val( a ) ), 0.0115 );
            if ( a ) { t.nontrivial(); }
            break;
        }
        default: {
            const int64_t y = drawRaw( t ), x = t.chance( 1, 6 ) ? ( t.coin() ? 0 : ( t.coin() ? y : -y ) ) : drawRaw( t );
            const fp16 r = fp16::atan2( mk( y ), mk( x ) );
            t.note( "atan2(%.9g, %.9g) -> %.9g", val( y ), val( x ), fp16::toDouble( r ) );
            const double ref = std::atan2( val( y ), val( x ) == 0.0 ? 0.0 : val( x ) );
            double e = err( r, ref );
            if ( y == 0 && x < 0 ) { e = std::min( e, err( r, -ref ) ); }
            // both operands are only known to one LSB of angle when they are tiny
            const double res = ( std::max( std::llabs( x ), std::llabs( y ) ) > RMAX/2 ) ? 2e-9 : 0.0;
            t.check( e <= 0.0115 + res, "atan2(%.9g, %.9g) = %.9g, expected %.9g", val( y ), val( x ), fp16::toDouble( r ), ref );
            t.check( std::fabs( fp16::toDouble( r ) ) <= M_PI + 0.0115, "atan2 leaves [-pi, pi]: %.9g", fp16::toDouble( r ) );
            if ( x && y ) { t.nontrivial(); }
            break;
        }
    }
}

static void hyper( Ctx &t )
{
    int64_t a = t.chance( 3, 4 ) ? t.range( 0, 1400000 ) - 700000 : drawRaw( t );
    if ( t.chance( 1, 12 ) ) { a = 0; }
    const double x = val( a );
    const fp16 c = fp16::cosh( mk( a ) ), s = fp16::sinh( mk( a ) ), h = fp16::tanh( mk( a ) );
    t.note( "x=%.9g cosh=%.9g sinh=%.9g tanh=%.9g", x, fp16::toDouble( c ), fp16::toDouble( s ), fp16::toDouble( h ) );
    if ( std::fabs( x ) >= EXPMAX ) {
        t.check( c.raw() == RMAX, "cosh(%.9g) does not saturate: raw %d", x, c.raw() );
        t.check( s.raw() == ( x > 0 ? RMAX : RMIN ), "sinh(%.9g) does not saturate: raw %d", x, s.raw() );
    }
    else {
        CK( "cosh", c, a, std::cosh( x ), tol( 9 ) + 6e-5*std::cosh( x ) );
        CK( "sinh", s, a, std::sinh( x ), tol( 9 ) + 6e-5*std::cosh( x ) );
    }
    CK( "tanh", h, a, std::tanh( x ), tol( 8 ) );
    if ( a ) { t.nontrivial(); }
}

static void power( Ctx &t )
{
    if ( t.coin() ) { // integer exponents
        const int64_t n = t.range( 0, 24 ) - 12;
        int64_t a = drawRaw( t );
        if ( t.chance( 2, 3 ) ) { a = t.range( 0, 8*ONE ) - 4*ONE; }
        if ( n <= 0 && a == 0 ) { t.discard(); }
        const fp16 r = fp16::pow( mk( a ), mk( n*ONE ) );
        const double x = val( a ), ref = std::pow( x, static_cast<double>( n ) );
        t.note( "pow(%.9g, %lld) -> %.9g", x, (long long)n, fp16::toDouble( r ) );
        if ( n > 0 ) {
            // repeated multiplication, half an LSB lost at each step
            double b = 0.0, p = std::fabs( x );
            for ( int64_t i = 1; i < n; ++i ) { b = b*std::fabs( x ) + LSB(); p *= std::fabs( x ); }
            b += LSB();
            if ( p > 32768.0 + b ) { t.check( r.isOverflow(), "pow(%.9g, %lld) overflows but gives %.9g", x, (long long)n, fp16::toDouble( r ) ); t.nontrivial(); return; }
            if ( p > 32767.9 - b ) { return; }
            CK( "pow n>0", r, a, ref, b );
            if ( n == 1 ) { t.check( r.raw() == a, "pow(%.9g, 1) is raw %d", x, r.raw() ); }
        }
        else {
            const double ax = std::fabs( x );
            const double e = static_cast<double>( -n )*tol( 11.0 + 1000.0/( ax*65536.0 ) ) + tol( 2 );
            const double aref = std::fabs( ref );
            if ( e > 0.3 ) { return; }
            if ( aref*( 1 + 2*e ) > 32000.0 ) { return; }
            CK( "pow n<=0", r, a, ref, tol( 10 ) + aref*( 2*e + 6e-5 ) );
            if ( n == 0 ) { t.check( r.raw() == ONE, "pow(%.9g, 0) is raw %d", x, r.raw() ); }
        }
        t.nontrivial();
    }
    else { // positive base, any exponent
        const int64_t a = 1 + t.range( 0, RMAX - 1 )/( 1ll << t.range( 0, 20 ) );
        const int64_t b = t.range( 0, 16*ONE ) - 8*ONE;
        if ( ( b % ONE ) == 0 ) { t.discard(); }
        const double x = val( a ), y = val( b ), ref = std::pow( x, y );
        const fp16 r = fp16::pow( mk( a ), mk( b ) );
        t.note( "pow(%.9g, %.9g) -> %.9g", x, y, fp16::toDouble( r ) );
        const double e = std::fabs( y )*tol( 11.0 + 1000.0/static_cast<double>( a ) ) + tol( 2 );
        if ( e > 0.3 ) { return; }
        if ( ref*( 1 - 2*e ) >= 32768.0 ) { t.check( r.raw() == RMAX || r.isOverflow(), "pow(%.9g, %.9g) = %.9g does not saturate", x, y, fp16::toDouble( r ) ); t.nontrivial(); return; }
        if ( ref*( 1 + 2*e ) > 32000.0 ) { return; }
        CK( "pow", r, a, ref, tol( 10 ) + ref*( 2*e + 6e-5 ) );
        t.nontrivial();
    }
}

static void angles( Ctx &t )
{
    int64_t a = drawAngle( t );
    const fp16 w = fp16::wrapToPi( mk( a ) );
    const double x = val( a ), wv = fp16::toDouble( w );
    t.note( "x=%.9g wrapToPi=%.9g", x, wv );
    t.check( std::fabs( wv ) <= M_PI + tol( 2 ), "wrapToPi(%.9g) = %.9g leaves [-pi, pi]", x, wv );
    t.check( std::fabs( red( wv - x ) ) <= tol( wrapErr( a ) ), "wrapToPi(%.9g) = %.9g is another angle", x, wv );
    if ( std::llabs( a ) < 205886 ) { t.check( w.raw() == a, "wrapToPi changes %.9g, which is in range, to %.9g", x, wv ); }
    t.check( std::fabs( std::remainder( fp16::toDouble( fp16::radToDeg( mk( a ) ) ) - x*180.0/M_PI, 360.0 ) ) <= tol( 60*wrapErr( a ) ), "radToDeg(%.9g) = %.9g", x, fp16::toDouble( fp16::radToDeg( mk( a ) ) ) );
    // degrees
    if ( t.coin() ) { a = t.chance( 1, 2 ) ? ( t.range( 0, 80 ) - 40 )*45*ONE + t.range( 0, 4 ) - 2 : drawRaw( t ); }
    const fp16 d = fp16::wrapTo180( mk( a ) );
    const int64_t dr = d.raw();
    t.check( std::llabs( dr ) <= 180*ONE, "wrapTo180(%.9g) = %.9g leaves [-180, 180]", val( a ), val( dr ) );
    t.check( ( ( dr - a ) % ( 360*ONE ) ) == 0, "wrapTo180(%.9g) = %.9g is another angle", val( a ), val( dr ) );
    if ( std::llabs( a ) < 180*ONE ) { t.check( dr == a, "wrapTo180 changes %.9g", val( a ) ); }
    const double rd = std::remainder( fp16::toDouble( fp16::degToRad( mk( a ) ) ) - val( a )*M_PI/180.0, 2.0*M_PI );
    t.check( std::fabs( rd ) <= tol( 40 ), "degToRad(%.9g) = %.9g", val( a ), fp16::toDouble( fp16::degToRad( mk( a ) ) ) );
    if ( a ) { t.nontrivial(); }
}

const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "sqrt", sqrtFn, 3000000 }, { "exp", expFn, 1500000 }, { "log", logFn, 400000 }, { "trig", trig, 600000 },
        { "inverse", inverse, 1500000 }, { "hyper", hyper, 600000 }, { "power", power, 400000 }, { "angles", angles, 600000 } };
    return s;
}
