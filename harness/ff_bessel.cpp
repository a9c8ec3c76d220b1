// P29: cylindrical and spherical Bessel functions
#include <pbt.hpp>
#include <qlibs.h>
#include <cmath>
#include <cfloat>
namespace pbt {
const char *const PROPERTY = "P29";
const char *const RULE = "orders from 0 to 150 (integers, half integers, neighbours of integers, any real) and non-negative arguments (log-uniform from 1e-4 up, neighbours of the switch points 2 and 1000 and of sqrt(10(nu+1))), compared with double-precision references within an error budget per function and region, plus three-term recurrences between neighbouring orders, the Wronskian-type cross products, values at zero, domain errors and nan; non-trivial = positive argument whose reference value is representable";
}
namespace ff = qlibs::ffmath;
using pbt::Ctx;
static double D( float x ) { return static_cast<double>( x ); }
static bool isnan_( float x ) { return std::isnan( x ); }
static float nudge( Ctx &t, float x )
{
    const int64_t n = t.range( 0, 6 ) - 3;
    for ( int64_t i = 0 ; i < std::llabs( n ) ; ++i ) { x = std::nextafterf( x, n > 0 ? INFINITY : -INFINITY ); }
    return x;
}
static float order( Ctx &t )
{
    float nu;
    switch ( t.bits( 5 ) ) {
        case 0: nu = static_cast<float>( t.range( 0, 6 ) ); break;
        case 1: nu = static_cast<float>( t.range( 0, 40 ) ); break;
        case 2: nu = static_cast<float>( t.range( 0, 40 ) )*0.5f; break;
        case 3: nu = t.f32( 0.0f, 3.0f ); break;
        case 4: nu = t.chance( 1, 4 ) ? t.f32( 60.0f, 150.0f ) : t.f32( 0.0f, 60.0f ); break;
        default: {
            const float d = t.coin() ? t.f32( 0.0f, 0.03f ) : t.f32log( 1e-10f, 0.03f ), k = static_cast<float>( t.coin() ? t.range( 0, 3 ) : t.range( 0, 10 ) );
            nu = std::fabs( t.coin() ? k + d : k - d );
            break;
        }
    }
    return nu;
}
static float argument( Ctx &t, float nu, float hi )
{
    float x;
    switch ( t.bits( 5 ) ) {
        case 0: x = nudge( t, t.coin() ? 2.0f : 1000.0f ); break;
        case 1: x = nudge( t, std::sqrt( 10.0f*( nu + 1.0f ) ) )*( 1.0f + t.f32( -0.01f, 0.01f ) ); break;
        case 2: x = t.f32( 0.01f, 20.0f ); break;
        case 3: x = t.f32( 0.01f, hi ); break;
        case 4: x = nu*t.f32( 0.5f, 1.5f ) + 0.01f; break;
        default: x = t.f32log( t.chance( 1, 4 ) ? 1e-20f : 1e-4f, hi ); break;
    }
    return ( x > hi ) ? hi : x;
}
// growth of the phase error of the continued fractions with the argument
static double phase( double x ) { return 4e-6 + 1.3e-8*x*std::sqrt( x ); }
static double powTol( double nu, double x ) { return 5e-6 + 1e-6*( std::fabs( nu*std::log( x/2.0 ) ) + std::lgamma( nu + 1.0 ) ); }
static double frac( double nu ) { return std::fabs( nu - std::floor( nu + 0.5 ) ); }
// below 2 the functions of non-integer order come from the Temme series, whose
// leading term carries the error of the fast sine: pi*mu/sin(pi*mu)
static double temme( double nu )
{
    const double mu = frac( nu );
    if ( mu == 0.0 ) { return 0.0; }
    const double s = std::sin( M_PI*mu );
    return ( std::min( 1.05e-3, 0.0135*s ) + 1e-7*s )/s + 5e-6;
}
// The asymptotic forms and the Temme series take sines and cosines from the library itself (whose own
// error is the business of another property) or from anything better: a result has to agree with the
// outcome of one of the two.
static double either( double got, double a, double b ) { return ( std::fabs( got - a ) <= std::fabs( got - b ) ) ? a : b; }
static double libSin( double x ) { return D( ff::sin( static_cast<float>( x ) ) ); }
static double libCos( double x ) { return D( ff::cos( static_cast<float>( x ) ) ); }
// far beyond the range of single precision (where the references may fail themselves)
static bool overflows( double N, double X ) { return X < N && std::lgamma( N ) + N*std::log( 2.0/X ) - 2.0 - X > 200.0; }
static void asymptotic( double N, double X, double &j, double &y )
{
    const double chi = X - ( N + 0.5 )*M_PI_2, c = std::cos( chi ), s = std::sin( chi ), J = std::cyl_bessel_j( N, X ), Y = std::cyl_neumann( N, X );
    const double P = c*J + s*Y, Q = c*Y - s*J, lc = libCos( chi ), ls = libSin( chi );
    j = lc*P - ls*Q;
    y = ls*P + lc*Q;
}
// K and Y of order nu below 2, by the Temme series in double precision with the sine of the library
// (false: a term of the series happens to vanish before the others do, where it may be cut off)
static bool temmeSeries( double nu, double x, double &k, double &y )
{
    const double n = std::floor( nu + 0.5 ), mu = nu - n, pm = M_PI*mu;
    const double gp = 1.0/std::tgamma( 1.0 + mu ), gm = 1.0/std::tgamma( 1.0 - mu ), g1 = ( std::fabs( mu ) < 1e-4 ) ? 0.04200263503*mu*mu - 0.57721566490153286 : ( gm - gp )/( 2.0*mu ), g2 = 0.5*( gm + gp );
    const double fact = pm/libSin( pm ), d = -std::log( 0.5*x ), e = mu*d, f2 = ( e == 0.0 ) ? 1.0 : std::sinh( e )/e, E = std::exp( e ), h = 0.25*x*x;
    bool tiny = false, regular = true;
    const double f0 = fact*( g1*std::cosh( e ) + g2*f2*d );
    {
        double f = f0, p = 0.5*E/gp, q = 0.5/( E*gm ), c = 1.0, sum = f, sum1 = p;
        for ( int i = 1 ; i < 60 ; ++i ) {
            f = ( i*f + p + q )/( i*i - mu*mu ); c *= h/i; p /= i - mu; q /= i + mu;
            const double del1 = c*( p - i*f );
            if ( tiny && std::fabs( del1 ) > 2e-7*( 1.0 + std::fabs( sum1 ) ) ) { regular = false; }
            if ( std::fabs( c*f ) < 1e-6*( 1.0 + std::fabs( sum ) ) ) { tiny = true; }
            sum += c*f; sum1 += del1;
        }
        double a = sum, b = sum1*2.0/x;
        for ( int i = 1 ; i <= static_cast<int>( n ) ; ++i ) { const double v = ( mu + i )*2.0/x*b + a; a = b; b = v; }
        k = a;
    }
    {
        tiny = false;
        const double f3 = libSin( 0.5*pm )/( 0.5*pm ), r = M_PI*0.5*pm*f3*f3;
        double f = 2.0/M_PI*f0, p = E/( M_PI*gp ), q = 1.0/( E*M_PI*gm ), c = 1.0, sum = f + r*q, sum1 = p;
        for ( int i = 1 ; i < 60 ; ++i ) {
            f = ( i*f + p + q )/( i*i - mu*mu ); c *= -h/i; p /= i - mu; q /= i + mu;
            const double del = c*( f + r*q ), del1 = c*p - i*del;
            if ( tiny && std::fabs( del1 ) > 2e-7*( 1.0 + std::fabs( sum1 ) ) ) { regular = false; }
            if ( std::fabs( del ) < 1e-6*( 1.0 + std::fabs( sum ) ) ) { tiny = true; }
            sum += del; sum1 += del1;
        }
        double a = -sum, b = -sum1*2.0/x;
        for ( int i = 1 ; i <= static_cast<int>( n ) ; ++i ) { const double v = ( mu + i )*2.0/x*b - a; a = b; b = v; }
        y = a;
    }
    return regular;
}
static void besselJ( Ctx &t )
{
    const float nu = order( t ), x = argument( t, nu, t.chance( 1, 4 ) ? 20000.0f : 900.0f );
    const float g = ff::cyl_bessel_j( nu, x );
    const double N = D( nu ), X = D( x ), r = std::cyl_bessel_j( N, X );
    t.note( "cyl_bessel_j(%.9g, %.9g) -> %.9g", N, X, D( g ) );
    double tol;
    const char *w;
    if ( X*X < 10.0*( N + 1.0 )*1.001 ) { w = "J series"; tol = std::cyl_bessel_i( N, X )*powTol( N, X ) + 2.4e-38; }
    else if ( x > 1000.0f ) { w = "J asymptotic"; tol = std::sqrt( 2.0/( M_PI*X ) )*( 1.5e-3 + 2e-7*X + 1e-6*N*N ); }
    else if ( N > X + 2.0 ) { w = "J before the turning point"; tol = std::fabs( r )*( 3e-5 + 1e-6*N + 3e-8*N*N ) + 2.4e-38; }
    else { w = "J"; tol = phase( X ); }
    t.near( w, D( g ), r, tol, "cyl_bessel_j(%.9g, %.9g)", N, X );
    if ( x > 1000.0f ) {
        double j, y;
        asymptotic( N, X, j, y );
        t.near( "J asymptotic close", D( g ), either( D( g ), r, j ), std::sqrt( 2.0/( M_PI*X ) )*( 6e-6 + 3e-7*X + 1e-6*N*N ), "cyl_bessel_j(%.9g, %.9g)", N, X );
    }
    t.nontrivial();
}
static void besselY( Ctx &t )
{
    const float nu = order( t ), x = argument( t, nu, t.chance( 1, 4 ) ? 20000.0f : 900.0f );
    const float g = ff::cyl_neumann( nu, x );
    const double N = D( nu ), X = D( x );
    const bool over = overflows( N, X );
    const double r = over ? -INFINITY : std::cyl_neumann( N, X );
    t.note( "cyl_neumann(%.9g, %.9g) -> %.9g", N, X, D( g ) );
    if ( over || r < -3.6e38 ) { t.check( std::isinf( g ) && g < 0.0f, "cyl_neumann(%.9g, %.9g) = %.9g, expected -inf", N, X, D( g ) ); t.nontrivial(); return; }
    if ( !( std::fabs( r ) < 1e36 ) ) { return; }
    double tol;
    const char *w;
    if ( x > 1000.0f ) { w = "Y asymptotic"; tol = std::sqrt( 2.0/( M_PI*X ) )*( 1.5e-3 + 2e-7*X + 1e-6*N*N ); }
    else if ( x < 2.0f ) { w = frac( N ) == 0.0 ? "Y small, integer order" : "Y small"; tol = ( 1.0 + std::fabs( r ) )*( 1e-6 + 1e-6*N );
        if ( frac( N ) != 0.0 ) { tol += ( N < 0.5 ) ? temme( N )*( std::fabs( std::log( X/2.0 ) ) + 0.6 )*1.2 + 3e-3*( 1.0 + std::fabs( r ) ) : ( N < 1.5 ? 6e-3 : 3e-3 )*( 1.0 + std::fabs( r ) ); }
     }
    else { w = "Y"; tol = ( 1.0 + std::fabs( r ) )*( phase( X ) + 1e-6*N ); }
    t.near( w, D( g ), r, tol, "cyl_neumann(%.9g, %.9g)", N, X );
    if ( x > 1000.0f ) {
        double j, y;
        asymptotic( N, X, j, y );
        t.near( "Y asymptotic close", D( g ), either( D( g ), r, y ), std::sqrt( 2.0/( M_PI*X ) )*( 6e-6 + 3e-7*X + 1e-6*N*N ), "cyl_neumann(%.9g, %.9g)", N, X );
    }
    if ( x < 2.0f && frac( N ) != 0.0 ) {
        double k, y;
        if ( temmeSeries( N, X, k, y ) ) t.near( "Y small close", D( g ), either( D( g ), r, y ), ( 1.0 + std::fabs( r ) )*( 6e-6 + 1e-6*N + 1e-7/std::max( 0.05, frac( N ) ) ), "cyl_neumann(%.9g, %.9g)", N, X );
    }
    t.nontrivial();
}
static void besselI( Ctx &t )
{
    const float nu = order( t ), x = argument( t, nu, nu < 60.0f ? 87.0f : 85.0f );
    const float g = ff::cyl_bessel_i( nu, x );
    const double N = D( nu ), X = D( x ), r = std::cyl_bessel_i( N, X );
    t.note( "cyl_bessel_i(%.9g, %.9g) -> %.9g", N, X, D( g ) );
    if ( !( r < 3e38 ) ) { return; }
    const bool series = X*X < 10.0*( N + 1.0 )*1.001;
    t.near( series ? "I series" : "I", D( g ), r, std::fabs( r )*( series ? powTol( N, X ) : 9e-6 + 4e-7*X + 1e-6*N + 3e-8*N*N ) + ( series ? 3.2e-37 : 2.4e-38 ), "cyl_bessel_i(%.9g, %.9g)", N, X );
    t.nontrivial();
}
static void besselK( Ctx &t )
{
    const float nu = order( t ), x = argument( t, nu, 85.0f );
    const float g = ff::cyl_bessel_k( nu, x );
    const double N = D( nu ), X = D( x );
    const bool over = overflows( N, X );
    const double r = over ? INFINITY : std::cyl_bessel_k( N, X );
    t.note( "cyl_bessel_k(%.9g, %.9g) -> %.9g", N, X, D( g ) );
    if ( over || r > 3.6e38 ) { t.check( std::isinf( g ) && g > 0.0f, "cyl_bessel_k(%.9g, %.9g) = %.9g, expected inf", N, X, D( g ) ); t.nontrivial(); return; }
    if ( !( r < 1e36 ) || r < 1e-36 ) { return; }
    double e = 2e-6 + 2e-7*X + 1e-6*N;
    if ( x < 2.0f && frac( N ) != 0.0 ) {
        const double mu = frac( N );
        e += 3.5e-3 + 1.3*temme( N )*( std::fabs( std::log( X/2.0 ) ) + 0.6 )*std::cyl_bessel_i( 0.0, X )/std::cyl_bessel_k( mu, X )*( N < 0.5 ? 1.3 : ( N < 1.5 ? 1.2 : ( N < 2.5 ? 0.6 : 0.3 ) ) );
    }
    t.near( x < 2.0f ? ( frac( N ) == 0.0 ? "K small, integer order" : "K small" ) : "K", D( g ), r, r*e, "cyl_bessel_k(%.9g, %.9g)", N, X );
    if ( x < 2.0f && frac( N ) != 0.0 ) {
        double k, y;
        const double mu = frac( N );
        const bool regular = temmeSeries( N, X, k, y );
        const double ec = 4e-6 + 1e-6*N + 5e-6*( std::fabs( std::log( X/2.0 ) ) + 0.6 )*std::cyl_bessel_i( 0.0, X )/std::cyl_bessel_k( mu, X )*( N < 0.5 ? 1.3 : ( N < 1.5 ? 1.2 : ( N < 2.5 ? 0.6 : 0.3 ) ) );
        if ( regular ) t.near( "K small close", D( g ), either( D( g ), r, k ), r*ec, "cyl_bessel_k(%.9g, %.9g)", N, X );
    }
    t.nontrivial();
}
static void spherical( Ctx &t )
{
    const size_t n = static_cast<size_t>( t.coin() ? t.range( 0, 3 ) : t.range( 0, 25 ) );
    const float x = argument( t, static_cast<float>( n ), 500.0f );
    const double X = D( x );
    double j = 1.0, y = -1.0/X;
    if ( x < 1e-3f ) { // leading terms
        for ( size_t i = 1 ; i <= n ; ++i ) { j *= X/( 2.0*static_cast<double>( i ) + 1.0 ); y *= ( 2.0*static_cast<double>( i ) - 1.0 )/X; }
    }
    else { j = std::sph_bessel( static_cast<unsigned>( n ), X ); y = std::sph_neumann( static_cast<unsigned>( n ), X ); }
    const float gj = ff::sph_bessel( n, x ), gy = ff::sph_neumann( n, x );
    t.note( "sph_bessel(%zu, %.9g) -> %.9g, sph_neumann -> %.9g", n, X, D( gj ), D( gy ) );
    if ( y < -3.6e38 ) { t.check( std::isinf( gy ) && gy < 0.0f, "sph_neumann(%zu, %.9g) = %.9g, expected -inf", n, X, D( gy ) ); }
    if ( j < 1e-30 && static_cast<double>( n ) > X ) { t.check( gj >= 0.0f && gj < 1.1e-30f, "sph_bessel(%zu, %.9g) = %.9g, expected %.9g", n, X, D( gj ), j ); }
    // the fast inverse square root is the coarse factor
    const double e = 2.2e-3;
    if ( std::fabs( j ) > 1e-30 || static_cast<double>( n ) < X ) { t.near( "sph j", D( gj ), j, ( static_cast<double>( n ) > X + 1.0 ? std::fabs( j )*e : std::fabs( j )*e + 1.2533*phase( X )/std::sqrt( X ) ), "sph_bessel(%zu, %.9g)", n, X ); }
    if ( std::fabs( y ) < 1e33 ) { t.near( "sph y", D( gy ), y, std::fabs( y )*e + 1.2533*( phase( X ) + ( x < 2.0f ? 3e-3 : 0.0 ) )/std::sqrt( X ), "sph_neumann(%zu, %.9g)", n, X ); }
    // closer: the inverse square root is that of the library, or anything better
    const double q = D( ff::rSqrt( x ) )*std::sqrt( X );
    if ( x >= 2.0f && ( std::fabs( j ) > 1e-30 || static_cast<double>( n ) < X ) ) {
        t.near( "sph j close", D( gj ), either( D( gj ), j, j*q ), ( static_cast<double>( n ) > X + 1.0 ? std::fabs( j )*( 4e-5 + 2e-6*static_cast<double>( n ) ) : std::fabs( j )*1e-6 + 1.2533*phase( X )/std::sqrt( X ) ), "sph_bessel(%zu, %.9g)", n, X );
    }
    if ( std::fabs( y ) < 1e33 ) {
        bool regular = true;
        double k, z = 0.0, ref = either( D( gy ), y, y*q );
        if ( x < 2.0f ) {
            regular = temmeSeries( static_cast<double>( n ) + 0.5, X, k, z );
            z *= std::sqrt( M_PI_2/X );
            ref = either( D( gy ), ref, either( D( gy ), z, z*q ) );
        }
        if ( regular ) t.near( "sph y close", D( gy ), ref, std::fabs( y )*( 6e-6 + 2e-6*static_cast<double>( n ) ) + 1.2533*phase( X )/std::sqrt( X ), "sph_neumann(%zu, %.9g)", n, X );
    }
    t.nontrivial();
}
static void edges( Ctx &t )
{
    const float nu = order( t ), x = argument( t, nu, 80.0f ), b = -t.f32log( 1e-30f, 1e10f );
    const size_t n = static_cast<size_t>( t.range( 0, 20 ) );
    t.note( "nu=%.9g x=%.9g negative=%.9g n=%zu", D( nu ), D( x ), D( b ), n );
    t.nontrivial();
    switch ( t.bits( 3 ) ) {
        case 0:
            t.check( isnan_( ff::cyl_bessel_j( nu, b ) ) && isnan_( ff::cyl_neumann( nu, b ) ) && isnan_( ff::cyl_bessel_i( nu, b ) ) && isnan_( ff::cyl_bessel_k( nu, b ) ), "Bessel functions of order %.9g at %.9g are not all nan", D( nu ), D( b ) );
            t.check( isnan_( ff::cyl_bessel_j( b, x ) ) && isnan_( ff::cyl_neumann( b, x ) ) && isnan_( ff::cyl_bessel_i( b, x ) ) && isnan_( ff::cyl_bessel_k( b, x ) ), "Bessel functions of order %.9g at %.9g are not all nan", D( b ), D( x ) );
            t.check( isnan_( ff::sph_bessel( n, b ) ) && isnan_( ff::sph_neumann( n, b ) ), "spherical Bessel functions at %.9g are not nan", D( b ) );
            break;
        case 1:
            t.check( isnan_( ff::cyl_bessel_j( nu, NAN ) ) && isnan_( ff::cyl_neumann( nu, NAN ) ) && isnan_( ff::cyl_bessel_i( nu, NAN ) ) && isnan_( ff::cyl_bessel_k( nu, NAN ) ), "Bessel functions of nan" );
            t.check( isnan_( ff::cyl_bessel_j( NAN, x ) ) && isnan_( ff::cyl_neumann( NAN, x ) ) && isnan_( ff::cyl_bessel_i( NAN, x ) ) && isnan_( ff::cyl_bessel_k( NAN, x ) ), "Bessel functions of order nan" );
            t.check( isnan_( ff::sph_bessel( n, NAN ) ) && isnan_( ff::sph_neumann( n, NAN ) ), "spherical Bessel functions of nan" );
            break;
        default: {
            const float e = ( nu == 0.0f ) ? 1.0f : 0.0f;
            t.check( ff::cyl_bessel_j( nu, 0.0f ) == e, "cyl_bessel_j(%.9g, 0) = %.9g", D( nu ), D( ff::cyl_bessel_j( nu, 0.0f ) ) );
            t.check( ff::cyl_bessel_i( nu, 0.0f ) == e, "cyl_bessel_i(%.9g, 0) = %.9g", D( nu ), D( ff::cyl_bessel_i( nu, 0.0f ) ) );
            t.check( std::isinf( ff::cyl_neumann( nu, 0.0f ) ) && ff::cyl_neumann( nu, 0.0f ) < 0.0f, "cyl_neumann(%.9g, 0) = %.9g", D( nu ), D( ff::cyl_neumann( nu, 0.0f ) ) );
            t.check( std::isinf( ff::cyl_bessel_k( nu, 0.0f ) ) && ff::cyl_bessel_k( nu, 0.0f ) > 0.0f, "cyl_bessel_k(%.9g, 0) = %.9g", D( nu ), D( ff::cyl_bessel_k( nu, 0.0f ) ) );
            t.check( ff::sph_bessel( n, 0.0f ) == ( n == 0u ? 1.0f : 0.0f ), "sph_bessel(%zu, 0) = %.9g", n, D( ff::sph_bessel( n, 0.0f ) ) );
            t.check( std::isinf( ff::sph_neumann( n, 0.0f ) ) && ff::sph_neumann( n, 0.0f ) < 0.0f, "sph_neumann(%zu, 0) = %.9g", n, D( ff::sph_neumann( n, 0.0f ) ) );
            break;
        }
    }
}
namespace pbt {
const std::vector<Sub>& subs()
{
    static const std::vector<Sub> s = {
        { "first kind", besselJ, 200000 }, { "second kind", besselY, 200000 }, { "modified, first kind", besselI, 200000 },
        { "modified, second kind", besselK, 200000 }, { "spherical", spherical, 200000 }, { "domain and limits", edges, 20000 },
    };
    return s;
}
}
