// P27: interpolation, scaling, range and geometry helpers
#include <pbt.hpp>
#include <qlibs.h>
#include <cmath>
#include <cfloat>
namespace pbt {
const char *const PROPERTY = "P27";
const char *const RULE = "operand pairs over the whole single-precision range (equal, opposite, adjacent, extreme magnitudes) for midpoint and linear interpolation; ranges and limits of any order of magnitude for scaling and coercion; simple polygons (star-shaped in any rotation and orientation, axis-aligned and concave integer shapes) and circles with points inside, outside and level with vertices; non-trivial = unequal operands, or a point inside the bounding box of the shape";
}
namespace ff = qlibs::ffmath;
using pbt::Ctx;
static double D( float x ) { return static_cast<double>( x ); }

static void operands( Ctx &t, float &a, float &b )
{
    a = t.f32any();
    switch ( t.bits( 5 ) ) {
        case 0: b = a; break;
        case 1: b = -a; break;
        case 2: b = std::nextafter( a, t.coin() ? FLT_MAX : -FLT_MAX ); break;
        case 3: b = static_cast<float>( D( a )*D( t.f32( -2.0f, 2.0f ) ) ); if ( !std::isfinite( b ) ) { b = a; } break;
        default: b = t.f32any(); break;
    }
}
static void midpoint( Ctx &t )
{
    float a, b;
    operands( t, a, b );
    const float g = ff::midpoint( a, b ), q = ff::midpoint( b, a );
    const float r = static_cast<float>( ( D( a ) + D( b ) )*0.5 ); // correctly rounded: the sum is exact or its tail irrelevant
    t.note( "midpoint(%.9g, %.9g) -> %.9g", D( a ), D( b ), D( g ) );
    // one inexact operation at most: one ulp around the exact half sum
    const double ulp = std::max( std::fabs( D( r ) )*1.2e-7, 1.5e-45 );
    t.check( std::fabs( D( g ) - D( r ) ) <= ulp, "midpoint(%.9g, %.9g) = %.9g, expected %.9g", D( a ), D( b ), D( g ), D( r ) );
    t.check( g == q, "midpoint(%.9g, %.9g) depends on the order: %.9g, %.9g", D( a ), D( b ), D( g ), D( q ) );
    t.check( g >= std::min( a, b ) && g <= std::max( a, b ), "midpoint(%.9g, %.9g) = %.9g is not between them", D( a ), D( b ), D( g ) );
    if ( a != b ) { t.nontrivial(); }
}
static int cmp( float x, float y ) { return ( x > y ) - ( x < y ); }
static void lerp( Ctx &t )
{
    float a, b;
    operands( t, a, b );
    const bool unit = t.chance( 2, 3 );
    float t1 = unit ? t.f32( 0.0f, 1.0f ) : t.f32( -10.0f, 10.0f ), t2 = t.chance( 1, 3 ) ? std::nextafter( t1, 10.0f ) : ( unit ? t.f32( 0.0f, 1.0f ) : t.f32( -10.0f, 10.0f ) );
    if ( t.chance( 1, 8 ) ) { t1 = 0.99999994f; }
    if ( t.chance( 1, 6 ) ) { t1 = t.f32log( 1e-6f, 1e5f ); if ( t.coin() ) { t1 = -t1; } }
    if ( t.chance( 1, 8 ) ) { t2 = 1.0f; }
    const float g1 = ff::lerp( a, b, t1 ), g2 = ff::lerp( a, b, t2 );
    t.note( "a=%.9g b=%.9g lerp(%.9g)=%.9g lerp(%.9g)=%.9g", D( a ), D( b ), D( t1 ), D( g1 ), D( t2 ), D( g2 ) );
    t.check( ff::lerp( a, b, 0.0f ) == a, "lerp(%.9g, %.9g, 0) = %.9g", D( a ), D( b ), D( ff::lerp( a, b, 0.0f ) ) );
    t.check( ff::lerp( a, b, 1.0f ) == b, "lerp(%.9g, %.9g, 1) = %.9g", D( a ), D( b ), D( ff::lerp( a, b, 1.0f ) ) );
    if ( a == b ) { t.check( g1 == a && g2 == a, "lerp(%.9g, %.9g, %.9g) = %.9g", D( a ), D( b ), D( t1 ), D( g1 ) ); }
    t.check( !std::isnan( g1 ) && !std::isnan( g2 ), "lerp(%.9g, %.9g, %.9g) is nan", D( a ), D( b ), D( t1 ) );
    if ( t1 >= 0.0f && t1 <= 1.0f ) {
        t.check( std::isfinite( g1 ), "lerp(%.9g, %.9g, %.9g) is not finite", D( a ), D( b ), D( t1 ) );
        const double lo = D( std::min( a, b ) ), hi = D( std::max( a, b ) ), e = 1.2e-7*std::max( std::fabs( lo ), std::fabs( hi ) );
        t.check( D( g1 ) >= lo - e && D( g1 ) <= hi + e, "lerp(%.9g, %.9g, %.9g) = %.9g leaves the interval", D( a ), D( b ), D( t1 ), D( g1 ) );
    }
    t.check( cmp( g2, g1 )*cmp( t2, t1 )*cmp( b, a ) >= 0, "lerp(%.9g, %.9g) is not monotonic between %.9g and %.9g: %.9g, %.9g", D( a ), D( b ), D( t1 ), D( t2 ), D( g1 ), D( g2 ) );
    const double ref = D( a ) + D( t1 )*( D( b ) - D( a ) );
    if ( std::fabs( ref ) < 3e38 && std::isfinite( g1 ) ) {
        const double tol = 3e-7*( std::fabs( D( a ) ) + std::fabs( D( t1 )*D( b ) ) + std::fabs( D( t1 )*D( a ) ) ) + 3e-45*( 1.0 + std::fabs( D( t1 ) ) );
        t.near( "lerp", D( g1 ), ref, tol, "lerp(%.9g, %.9g, %.9g)", D( a ), D( b ), D( t1 ) );
    }
    if ( a != b && t1 != 0.0f && t1 != 1.0f ) { t.nontrivial(); }
}
static void scaling( Ctx &t )
{
    const float s = t.f32log( 1e-6f, 1e6f );
    const float x0 = t.f32( -1.0f, 1.0f )*s, w = t.f32log( 1e-3f, 1e3f )*s*( t.chance( 1, 4 ) ? -1.0f : 1.0f ), x1 = x0 + w;
    const float y0 = t.f32( -1000.0f, 1000.0f ), y1 = t.chance( 1, 6 ) ? y0 : t.f32( -1000.0f, 1000.0f );
    if ( !( std::fabs( x1 - x0 ) > 1e-4f*std::fabs( w ) ) ) { return; }
    const float f = t.chance( 1, 5 ) ? 0.0f : ( t.chance( 1, 5 ) ? 1.0f : t.f32( -0.5f, 1.5f ) );
    float x = static_cast<float>( D( x0 ) + D( f )*( D( x1 ) - D( x0 ) ) );
    if ( f == 0.0f ) { x = x0; }
    if ( f == 1.0f ) { x = x1; }
    const double u = ( D( x ) - D( x0 ) )/( D( x1 ) - D( x0 ) ), cond = 3e-7*( 1.0 + ( std::fabs( D( x ) ) + std::fabs( D( x0 ) ) + std::fabs( D( x1 ) ) )/std::fabs( D( x1 ) - D( x0 ) ) );
    const float n = ff::normalize( x, x0, x1 ), m = ff::map( x, x0, x1, y0, y1 );
    t.note( "x=%.9g in [%.9g, %.9g] -> %.9g; to [%.9g, %.9g] -> %.9g", D( x ), D( x0 ), D( x1 ), D( n ), D( y0 ), D( y1 ), D( m ) );
    t.near( "normalize", D( n ), u, cond, "normalize(%.9g, %.9g, %.9g)", D( x ), D( x0 ), D( x1 ) );
    t.near( "map", D( m ), D( y0 ) + u*( D( y1 ) - D( y0 ) ), cond*( std::fabs( D( y1 ) - D( y0 ) ) + 1e-30 ) + 3e-7*( std::fabs( D( y0 ) ) + std::fabs( D( y1 ) ) ), "map(%.9g, %.9g, %.9g, %.9g, %.9g)", D( x ), D( x0 ), D( x1 ), D( y0 ), D( y1 ) );
    t.check( ff::normalize( x0, x0, x1 ) == 0.0f && std::fabs( ff::normalize( x1, x0, x1 ) - 1.0f ) <= 3e-7f, "normalize at the ends of [%.9g, %.9g]: %.9g, %.9g", D( x0 ), D( x1 ), D( ff::normalize( x0, x0, x1 ) ), D( ff::normalize( x1, x0, x1 ) ) );
    t.check( ff::map( x0, x0, x1, y0, y1 ) == y0, "map at the lower end: %.9g instead of %.9g", D( ff::map( x0, x0, x1, y0, y1 ) ), D( y0 ) );
    if ( f != 0.0f && f != 1.0f && y0 != y1 ) { t.nontrivial(); }
}
static void coerce( Ctx &t )
{
    float a = t.f32any(), b = t.chance( 1, 6 ) ? a : t.f32any();
    if ( a > b ) { std::swap( a, b ); }
    float x = t.chance( 1, 6 ) ? NAN : ( t.chance( 1, 4 ) ? std::nextafter( t.coin() ? a : b, t.coin() ? INFINITY : -INFINITY ) : ( t.chance( 1, 5 ) ? ( t.coin() ? a : b ) : t.f32any( true ) ) );
    const float x0 = x;
    const bool r = ff::inRangeCoerce( x, a, b );
    t.note( "coerce(%.9g, [%.9g, %.9g]) -> %d, %.9g", D( x0 ), D( a ), D( b ), r, D( x ) );
    const bool in = ( x0 >= a ) && ( x0 <= b );
    t.check( r == in, "inRangeCoerce(%.9g, %.9g, %.9g) returns %d", D( x0 ), D( a ), D( b ), r );
    const float e = in ? x0 : ( x0 > b ? b : a );
    t.check( x == e, "inRangeCoerce(%.9g, %.9g, %.9g) leaves %.9g, expected %.9g", D( x0 ), D( a ), D( b ), D( x ), D( e ) );
    if ( !in ) { t.nontrivial(); }
}
// exact winding test in double; d = distance of the point to the boundary
static bool inside( const std::vector<float> &px, const std::vector<float> &py, double x, double y, double &d )
{
    bool in = false;
    const size_t n = px.size();
    d = INFINITY;
    for ( size_t i = 0, j = n - 1u ; i < n ; j = i++ ) {
        const double ax = D( px[ j ] ), ay = D( py[ j ] ), bx = D( px[ i ] ), by = D( py[ i ] );
        if ( ( ay > y ) != ( by > y ) && x < ( bx - ax )*( y - ay )/( by - ay ) + ax ) { in = !in; }
        const double ex = bx - ax, ey = by - ay, l2 = ex*ex + ey*ey;
        double s = ( l2 > 0.0 ) ? ( ( x - ax )*ex + ( y - ay )*ey )/l2 : 0.0;
        s = std::max( 0.0, std::min( 1.0, s ) );
        d = std::min( d, std::hypot( x - ax - s*ex, y - ay - s*ey ) );
    }
    return in;
}
static void polygon( Ctx &t )
{
    std::vector<float> px, py;
    double scale = 10.0;
    switch ( t.bits( 2 ) ) {
        case 0: { // rectangle or staircase with integer corners
            const float w = static_cast<float>( t.range( 1, 10 ) ), h = static_cast<float>( t.range( 1, 10 ) ), ox = static_cast<float>( t.range( 0, 20 ) - 10 ), oy = static_cast<float>( t.range( 0, 20 ) - 10 );
            if ( t.coin() ) { px = { ox, ox + w, ox + w, ox }; py = { oy, oy, oy + h, oy + h }; }
            else { px = { ox, ox + 2*w, ox + 2*w, ox + w, ox + w, ox }; py = { oy, oy, oy + h, oy + h, oy + 2*h, oy + 2*h }; }
            scale = 30.0;
            break;
        }
        default: { // star-shaped polygon, usually concave
            const size_t n = t.chance( 1, 60 ) ? t.size( 100, 300 ) : t.size( 3, 12 );
            const float cx = t.f32( -20.0f, 20.0f ), cy = t.f32( -20.0f, 20.0f ), R = t.f32log( 0.1f, 50.0f );
            const double rot = D( t.f32( 0.0f, 6.2831f ) );
            for ( size_t i = 0 ; i < n ; ++i ) {
                const double r = D( R )*D( t.f32( 0.3f, 1.0f ) ), th = rot + 2.0*M_PI*static_cast<double>( i )/static_cast<double>( n );
                px.push_back( static_cast<float>( D( cx ) + r*std::cos( th ) ) );
                py.push_back( static_cast<float>( D( cy ) + r*std::sin( th ) ) );
            }
            scale = 40.0 + D( R );
            break;
        }
    }
    if ( t.chance( 1, 3 ) ) { // other units
        const float u = std::ldexp( 1.0f, static_cast<int>( t.bits( 40 ) ) - 20 );
        for ( float &v : px ) { v *= u; }
        for ( float &v : py ) { v *= u; }
        scale *= D( u );
    }
    if ( t.coin() ) { std::reverse( px.begin(), px.end() ); std::reverse( py.begin(), py.end() ); }
    const size_t rot = t.idx( px.size() );
    std::rotate( px.begin(), px.begin() + static_cast<long>( rot ), px.end() );
    std::rotate( py.begin(), py.begin() + static_cast<long>( rot ), py.end() );
    const float x0 = *std::min_element( px.begin(), px.end() ), x1 = *std::max_element( px.begin(), px.end() );
    const float y0 = *std::min_element( py.begin(), py.end() ), y1 = *std::max_element( py.begin(), py.end() );
    std::vector<float> ex( px ), ey( py ); // exact-size heap copies: reads beyond them are caught
    ex.shrink_to_fit(); ey.shrink_to_fit();
    const size_t q = t.size( 1, 12 );
    for ( size_t k = 0 ; k < q ; ++k ) {
        float x = x0 + ( x1 - x0 )*t.f32( -0.2f, 1.2f ), y = y0 + ( y1 - y0 )*t.f32( -0.2f, 1.2f );
        if ( t.chance( 1, 4 ) ) { x = t.pick( px ); }  // level with a vertex
        if ( t.chance( 1, 4 ) ) { y = t.pick( py ); }
        double d;
        const bool in = inside( px, py, D( x ), D( y ), d );
        if ( d < 2e-5*scale ) { continue; } // on the boundary: either answer
        const bool g = ff::inPolygon( x, y, ex.data(), ey.data(), ex.size() );
        t.note( "point (%.9g, %.9g) in a polygon of %zu: %d", D( x ), D( y ), px.size(), g );
        if ( g != in ) {
            std::string s;
            for ( size_t i = 0 ; i < px.size() ; ++i ) { char b[ 64 ]; snprintf( b, sizeof b, "(%.9g, %.9g) ", D( px[ i ] ), D( py[ i ] ) ); s += b; }
            t.fail( "inPolygon says %d for (%.9g, %.9g), which is %s %s", g, D( x ), D( y ), in ? "inside" : "outside", s.c_str() );
        }
        if ( x > x0 && x < x1 && y > y0 && y < y1 ) { t.nontrivial(); }
    }
}
static void circle( Ctx &t )
{
    const float u = t.chance( 1, 3 ) ? std::ldexp( 1.0f, static_cast<int>( t.bits( 40 ) ) - 20 ) : 1.0f; // other units
    const float cx = u*t.f32( -100.0f, 100.0f ), cy = u*t.f32( -100.0f, 100.0f ), r = t.chance( 1, 8 ) ? 0.0f : u*t.f32log( 0.01f, 100.0f );
    const double th = D( t.f32( 0.0f, 6.2832f ) ), k = t.chance( 1, 3 ) ? 1.0 + ( D( t.f32( -1.0f, 1.0f ) )*0.01 ) : D( t.f32( 0.0f, 2.0f ) );
    const float x = static_cast<float>( D( cx ) + k*D( r )*std::cos( th ) ), y = static_cast<float>( D( cy ) + k*D( r )*std::sin( th ) );
    const double d = std::hypot( D( x ) - D( cx ), D( y ) - D( cy ) );
    const bool g = ff::inCircle( x, y, cx, cy, r );
    t.note( "(%.9g, %.9g) in circle (%.9g, %.9g, %.9g): %d", D( x ), D( y ), D( cx ), D( cy ), D( r ), g );
    if ( std::fabs( d - D( r ) ) > 1e-6*D( r ) + 2e-7*( d + 1e-30 ) ) {
        t.check( g == ( d < D( r ) ), "inCircle(%.9g, %.9g, %.9g, %.9g, %.9g) is %d, the distance is %.9g", D( x ), D( y ), D( cx ), D( cy ), D( r ), g, d );
        if ( r > 0.0f ) { t.nontrivial(); }
    }
    t.check( ff::inCircle( cx, cy, cx, cy, r ), "the centre is not in the circle" );
    const float ir = static_cast<float>( t.range( 0, 50 ) ), ix = static_cast<float>( t.range( 0, 100 ) - 50 ), iy = static_cast<float>( t.range( 0, 100 ) - 50 );
    t.check( ff::inCircle( ix + ir, iy, ix, iy, ir ) && ff::inCircle( ix, iy - ir, ix, iy, ir ), "a point exactly on the circle of radius %.9g is outside", D( ir ) );
}
const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "midpoint", midpoint, 500000 }, { "lerp", lerp, 800000 }, { "scaling", scaling, 400000 }, { "coerce", coerce, 400000 },
        { "polygon", polygon, 120000 }, { "circle", circle, 400000 } };
    return s;
}
