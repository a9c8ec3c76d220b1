// P31: fixed-size matrices
#include <pbt.hpp>
#include <iostream>
#include <sstream>
#include <qlibs.h>
#include <include/mat.hpp>
#include <cmath>
namespace pbt {
const char *const PROPERTY = "P31";
const char *const RULE = "matrices of shapes from 1x1 to 18x18, square and not, with integer, fractional, zero and large entries; random sequences of up to 25 operations (elementwise and scalar arithmetic in every operand order, compound assignment, pre/post increment and decrement, negation, transposition, product, element access, copy and self-assignment, operands that are the matrix itself or one of its elements) against a reference model; inverses of well-conditioned matrices with zeros and permutations on the diagonal; non-trivial = more than one operation on a matrix with more than one element, or a non-diagonal inverse";
}
using qlibs::mat;
using pbt::Ctx;
static double D( float x ) { return static_cast<double>( x ); }

template <size_t R, size_t C>
struct Model { float a[ R ][ C ]; };

static float entry( Ctx &t, int kind )
{
    switch ( kind ) {
        case 0: return static_cast<float>( t.range( 0, 20 ) - 10 );
        case 1: return t.f32( -10.0f, 10.0f );
        case 2: return t.chance( 1, 2 ) ? 0.0f : t.f32( -1000.0f, 1000.0f );
        default: return t.f32log( 1e-9f, 1e9f )*( t.coin() ? 1.0f : -1.0f );
    }
}
template <size_t R, size_t C>
static void fill( Ctx &t, mat<R, C> &m, Model<R, C> &d )
{
    const int kind = static_cast<int>( t.bits( 3 ) );
    for ( size_t i = 0 ; i < R ; ++i ) {
        for ( size_t j = 0 ; j < C ; ++j ) {
            d.a[ i ][ j ] = entry( t, kind );
            switch ( ( i + j ) % 3u ) { // every way of writing an element
                case 0: m( i, j ) = d.a[ i ][ j ]; break;
                case 1: m[ i ][ j ] = d.a[ i ][ j ]; break;
                default: m( i*C + j ) = d.a[ i ][ j ]; break;
            }
        }
    }
}
template <size_t R, size_t C>
static void same( Ctx &t, const char *what, const mat<R, C> &m, const Model<R, C> &d )
{
    mat<R, C> w( m );
    for ( size_t i = 0 ; i < R ; ++i ) {
        for ( size_t j = 0 ; j < C ; ++j ) {
            t.check( m[ i ][ j ] == d.a[ i ][ j ], "%s: element (%zu, %zu) of a %zux%zu matrix is %.9g, expected %.9g", what, i, j, R, C, D( m[ i ][ j ] ), D( d.a[ i ][ j ] ) );
            t.check( w( i, j ) == d.a[ i ][ j ] && m( i*C + j ) == d.a[ i ][ j ] && w( i*C + j ) == d.a[ i ][ j ] && w[ i ][ j ] == d.a[ i ][ j ], "%s: accessors of element (%zu, %zu) of a %zux%zu matrix disagree", what, i, j, R, C );
        }
    }
}
#define EACH( expr ) for ( size_t i = 0 ; i < R ; ++i ) { for ( size_t j = 0 ; j < C ; ++j ) { expr; } }

template <size_t R, size_t C, size_t N>
static void product( Ctx &t, const mat<R, C> &m, const Model<R, C> &d )
{
    mat<C, N> o;
    Model<C, N> e;
    fill( t, o, e );
    const mat<R, N> p = m*o;
    for ( size_t i = 0 ; i < R ; ++i ) {
        for ( size_t j = 0 ; j < N ; ++j ) {
            double s = 0, b = 0;
            for ( size_t k = 0 ; k < C ; ++k ) { s += D( d.a[ i ][ k ] )*D( e.a[ k ][ j ] ); b += std::fabs( D( d.a[ i ][ k ] )*D( e.a[ k ][ j ] ) ); }
            t.near( "product", D( p[ i ][ j ] ), s, b*( static_cast<double>( C ) + 1.0 )*6e-8 + 1e-40, "product %zux%zu by %zux%zu, element (%zu, %zu)", R, C, C, N, i, j );
        }
    }
    same( t, "left factor after a product", m, d );
    same( t, "right factor after a product", o, e );
}
template <size_t R, size_t C>
static void history( Ctx &t )
{
    pbt::Junk<mat<R, C>> jm( static_cast<uint8_t>( t.bits( 255 ) ) );
    mat<R, C> &m = *jm;
    Model<R, C> d, e;
    EACH( d.a[ i ][ j ] = 0.0f );
    same( t, "default constructor", m, d );
    fill( t, m, d );
    const size_t n = t.size( 1, 25 );
    t.note( "%zux%zu, %zu operations", R, C, n );
    if ( n > 1u && R*C > 1u ) { t.nontrivial(); }
    for ( size_t s = 0 ; s < n ; ++s ) {
        mat<R, C> o, q;
        fill( t, o, e );
        // the scalar operand may be an element of the matrix itself
        const bool own = t.chance( 1, 4 );
        const size_t at = own ? t.idx( R*C ) : 0u;
        const float k = own ? d.a[ at/C ][ at % C ] : ( t.coin() ? static_cast<float>( t.range( 0, 8 ) - 4 ) : t.f32( -3.0f, 3.0f ) );
        const float &kr = own ? m( at ) : k;
        const Model<R, C> b = d;
        Model<R, C> r;
        const uint64_t op = t.bits( 25 );
        t.note( "op %d, scalar %.9g%s", static_cast<int>( op ), D( k ), own ? " (an element of the matrix)" : "" );
        bool back = false;
        switch ( op ) {
            case 0: q = m + o; EACH( r.a[ i ][ j ] = b.a[ i ][ j ] + e.a[ i ][ j ] ); same( t, "matrix + matrix", q, r ); back = true; break;
            case 1: q = m - o; EACH( r.a[ i ][ j ] = b.a[ i ][ j ] - e.a[ i ][ j ] ); same( t, "matrix - matrix", q, r ); back = true; break;
            case 2: q = m*kr; EACH( r.a[ i ][ j ] = b.a[ i ][ j ]*k ); same( t, "matrix * scalar", q, r ); back = true; break;
            case 3: q = kr*m; EACH( r.a[ i ][ j ] = b.a[ i ][ j ]*k ); same( t, "scalar * matrix", q, r ); back = true; break;
            case 4: if ( k != 0.0f ) { q = m/kr; EACH( t.near( "matrix / scalar", D( q[ i ][ j ] ), D( b.a[ i ][ j ] )/D( k ), 2e-7*std::fabs( D( b.a[ i ][ j ] )/D( k ) ), "matrix / scalar" ) ); } break;
            case 5: q = m + kr; EACH( r.a[ i ][ j ] = b.a[ i ][ j ] + k ); same( t, "matrix + scalar", q, r ); break;
            case 6: q = kr + m; EACH( r.a[ i ][ j ] = b.a[ i ][ j ] + k ); same( t, "scalar + matrix", q, r ); break;
            case 7: q = m - kr; EACH( r.a[ i ][ j ] = b.a[ i ][ j ] - k ); same( t, "matrix - scalar", q, r ); break;
            case 8: q = kr - m; EACH( r.a[ i ][ j ] = k - b.a[ i ][ j ] ); same( t, "scalar - matrix", q, r ); break;
            case 9: q = -m; EACH( r.a[ i ][ j ] = -b.a[ i ][ j ] ); same( t, "negation", q, r ); break;
            case 10: { mat<R, C> &x = ++m; EACH( d.a[ i ][ j ] += 1.0f ); t.check( &x == &m, "++matrix returns another object" ); break; }
            case 11: { const mat<R, C> x = m++; EACH( d.a[ i ][ j ] += 1.0f ); same( t, "value of matrix++", x, b ); break; }
            case 12: { mat<R, C> &x = --m; EACH( d.a[ i ][ j ] -= 1.0f ); t.check( &x == &m, "--matrix returns another object" ); break; }
            case 13: { const mat<R, C> x = m--; EACH( d.a[ i ][ j ] -= 1.0f ); same( t, "value of matrix--", x, b ); break; }
            case 14: { mat<R, C> &x = ( m += o ); EACH( d.a[ i ][ j ] += e.a[ i ][ j ] ); t.check( &x == &m, "matrix += matrix returns another object" ); break; }
            case 15: { mat<R, C> &x = ( m -= o ); EACH( d.a[ i ][ j ] -= e.a[ i ][ j ] ); t.check( &x == &m, "matrix -= matrix returns another object" ); break; }
            case 16: { mat<R, C> &x = ( m *= kr ); EACH( d.a[ i ][ j ] *= k ); t.check( &x == &m, "matrix *= scalar returns another object" ); break; }
            case 17: if ( k != 0.0f ) { m /= kr; EACH( t.near( "matrix /= scalar", D( m[ i ][ j ] ), D( b.a[ i ][ j ] )/D( k ), 2e-7*std::fabs( D( b.a[ i ][ j ] )/D( k ) ), "matrix /= scalar" ); d.a[ i ][ j ] = m[ i ][ j ] ); } break;
            case 18: m += kr; EACH( d.a[ i ][ j ] += k ); break;
            case 19: m -= kr; EACH( d.a[ i ][ j ] -= k ); break;
            case 20: {
                const mat<C, R> x = !m;
                Model<C, R> y;
                EACH( y.a[ j ][ i ] = b.a[ i ][ j ] );
                same( t, "transposition", x, y );
                same( t, "double transposition", !x, b );
                break;
            }
            case 21: { // copies are independent, self-assignment is harmless
                mat<R, C> x( m ), y;
                y = m;
                mat<R, C> &self = m;
                m = self;
                x += 1.0f;
                y( 0u, 0u ) = 77.0f;
                break;
            }
            case 22: product<R, C, 1>( t, m, d ); product<R, C, 3>( t, m, d ); product<R, C, R>( t, m, d ); break;
            case 23: { // an operand that is the matrix itself
                if ( t.coin() ) { m += m; EACH( d.a[ i ][ j ] = b.a[ i ][ j ] + b.a[ i ][ j ] ); } else { m -= m; EACH( d.a[ i ][ j ] = b.a[ i ][ j ] - b.a[ i ][ j ] ); }
                break;
            }
            case 24: { // product in place with a square matrix on the right
                mat<C, C> f;
                Model<C, C> g;
                fill( t, f, g );
                m *= f;
                for ( size_t i = 0 ; i < R ; ++i ) {
                    for ( size_t j = 0 ; j < C ; ++j ) {
                        double sum = 0, w = 0;
                        for ( size_t l = 0 ; l < C ; ++l ) { sum += D( b.a[ i ][ l ] )*D( g.a[ l ][ j ] ); w += std::fabs( D( b.a[ i ][ l ] )*D( g.a[ l ][ j ] ) ); }
                        t.near( "product in place", D( m[ i ][ j ] ), sum, w*( static_cast<double>( C ) + 1.0 )*6e-8 + 1e-40, "%zux%zu matrix *= %zux%zu matrix, element (%zu, %zu)", R, C, C, C, i, j );
                        d.a[ i ][ j ] = m[ i ][ j ];
                    }
                }
                same( t, "right factor after a product in place", f, g );
                break;
            }
            default: {
                double mx = 0;
                for ( size_t i = 0 ; i < R ; ++i ) { double sum = 0; for ( size_t j = 0 ; j < C ; ++j ) { sum += std::fabs( D( b.a[ i ][ j ] ) ); } mx = std::max( mx, sum ); }
                if ( t.chance( 1, 4 ) ) { // what it prints: the elements, a row per line
                    std::ostringstream os;
                    std::streambuf *keep = std::cout.rdbuf( os.rdbuf() );
                    m.display();
                    std::cout.rdbuf( keep );
                    std::istringstream is( os.str() );
                    std::string line;
                    size_t row = 0;
                    while ( std::getline( is, line ) ) {
                        std::istringstream ls( line );
                        double v;
                        size_t col = 0;
                        while ( ls >> v ) {
                            t.check( row < R && col < C, "a %zux%zu matrix is printed as:\n%s", R, C, os.str().c_str() );
                            t.check( std::fabs( v - D( d.a[ row ][ col ] ) ) <= 1e-5*std::fabs( D( d.a[ row ][ col ] ) ), "element (%zu, %zu) = %.9g is printed as %.9g", row, col, D( d.a[ row ][ col ] ), v );
                            ++col;
                        }
                        if ( col > 0u ) { t.check( col == C, "row %zu of a %zux%zu matrix is printed with %zu elements", row, R, C, col ); ++row; }
                    }
                    t.check( row == R, "a %zux%zu matrix is printed in %zu rows", R, C, row );
                }
                t.near( "normInf", D( m.normInf() ), mx, mx*6e-8*static_cast<double>( C + 1u ), "infinity norm of a %zux%zu matrix", R, C );
                break;
            }
        }
        same( t, "matrix after the operation", m, d );
        same( t, "other operand after the operation", o, e );
        if ( back ) { m = q; d = r; same( t, "assignment", m, d ); }
        for ( size_t i = 0 ; i < R ; ++i ) { for ( size_t j = 0 ; j < C ; ++j ) { const float v = std::fabs( d.a[ i ][ j ] ); if ( !( v < 1e12f ) || ( v > 0.0f && v < 1e-18f ) ) { return; } } }
    }
}
template <size_t N>
static void square( Ctx &t )
{
    const float v = t.f32( -5.0f, 5.0f );
    const mat<N, N> id( qlibs::MAT_IDENTITY ), sc( qlibs::MAT_IDENTITY, v ), all( qlibs::MAT_ALL, v ), one( qlibs::MAT_ALL ), zero( qlibs::MAT_ZERO );
    for ( size_t i = 0 ; i < N ; ++i ) {
        for ( size_t j = 0 ; j < N ; ++j ) {
            t.check( id[ i ][ j ] == ( i == j ? 1.0f : 0.0f ) && sc[ i ][ j ] == ( i == j ? v : 0.0f ) && all[ i ][ j ] == v && one[ i ][ j ] == 1.0f && zero[ i ][ j ] == 0.0f, "special %zux%zu matrix, element (%zu, %zu): identity %.9g, scaled %.9g, filled %.9g, ones %.9g, zero %.9g", N, N, i, j, D( id[ i ][ j ] ), D( sc[ i ][ j ] ), D( all[ i ][ j ] ), D( one[ i ][ j ] ), D( zero[ i ][ j ] ) );
        }
    }
    // product in place
    mat<N, N> m, o;
    Model<N, N> d, e;
    fill( t, m, d );
    fill( t, o, e );
    const mat<N, N> p = m*o;
    mat<N, N> q( m );
    q *= o;
    for ( size_t i = 0 ; i < N ; ++i ) {
        for ( size_t j = 0 ; j < N ; ++j ) {
            double b = 0;
            for ( size_t k = 0 ; k < N ; ++k ) { b += std::fabs( D( d.a[ i ][ k ] )*D( e.a[ k ][ j ] ) ); }
            t.near( "product in place", D( q[ i ][ j ] ), D( p[ i ][ j ] ), b*1e-6 + 1e-40, "matrix *= matrix %zux%zu, element (%zu, %zu)", N, N, i, j );
        }
    }
    same( t, "factor after *=", o, e );
    mat<N, N> sq( m );
    sq *= sq;
    for ( size_t i = 0 ; i < N ; ++i ) {
        for ( size_t j = 0 ; j < N ; ++j ) {
            double b = 0, v2 = 0;
            for ( size_t k = 0 ; k < N ; ++k ) { v2 += D( d.a[ i ][ k ] )*D( d.a[ k ][ j ] ); b += std::fabs( D( d.a[ i ][ k ] )*D( d.a[ k ][ j ] ) ); }
            t.near( "square in place", D( sq[ i ][ j ] ), v2, b*1e-6 + 1e-40, "matrix *= itself %zux%zu, element (%zu, %zu)", N, N, i, j );
        }
    }
    const mat<N, N> x = id*m, y = m*id;
    same( t, "identity * matrix", x, d );
    same( t, "matrix * identity", y, d );
    if ( N > 1u ) { t.nontrivial(); }
}
template <size_t N>
static void inverse( Ctx &t )
{
    // P*(L*U) or diagonally dominant or an orthogonal-like permutation
    double a[ N ][ N ];
    size_t perm[ N ];
    for ( size_t i = 0 ; i < N ; ++i ) { perm[ i ] = i; }
    if ( t.coin() ) { for ( size_t i = N ; i-- > 1u ; ) { std::swap( perm[ i ], perm[ t.idx( i + 1u ) ] ); } }
    const int kind = static_cast<int>( t.bits( 2 ) );
    for ( size_t i = 0 ; i < N ; ++i ) {
        for ( size_t j = 0 ; j < N ; ++j ) {
            double v = 0;
            if ( kind == 0 ) { v = ( i == j ) ? ( t.coin() ? 1.0 : D( t.f32( 1.0f, 9.0f ) ) ) : 0.0; }
            else if ( kind == 1 ) { v = static_cast<double>( t.range( 0, 10 ) ) - 5.0; }
            else { v = D( t.f32( -2.0f, 2.0f ) ) + ( i == j ? 5.0 : 0.0 ); }
            a[ perm[ i ] ][ j ] = v;
        }
    }
    const double scale = t.chance( 1, 3 ) ? D( t.f32log( 1e-9f, 1e9f ) ) : 1.0;
    mat<N, N> m;
    for ( size_t i = 0 ; i < N ; ++i ) { for ( size_t j = 0 ; j < N ; ++j ) { m( i, j ) = static_cast<float>( a[ i ][ j ]*scale ); a[ i ][ j ] = D( m( i, j ) ); } }
    // reference: Gauss-Jordan with full pivoting in extended precision
    long double w[ N ][ 2*N ];
    for ( size_t i = 0 ; i < N ; ++i ) { for ( size_t j = 0 ; j < N ; ++j ) { w[ i ][ j ] = a[ i ][ j ]; w[ i ][ N + j ] = ( i == j ) ? 1.0L : 0.0L; } }
    for ( size_t i = 0 ; i < N ; ++i ) {
        size_t p = i;
        for ( size_t k = i ; k < N ; ++k ) { if ( fabsl( w[ k ][ i ] ) > fabsl( w[ p ][ i ] ) ) { p = k; } }
        if ( fabsl( w[ p ][ i ] ) < 1e-12L*scale ) { return; } // singular
        for ( size_t j = 0 ; j < 2u*N ; ++j ) { std::swap( w[ i ][ j ], w[ p ][ j ] ); }
        const long double v = w[ i ][ i ];
        for ( size_t j = 0 ; j < 2u*N ; ++j ) { w[ i ][ j ] /= v; }
        for ( size_t k = 0 ; k < N ; ++k ) { if ( k != i ) { const long double f = w[ k ][ i ]; for ( size_t j = 0 ; j < 2u*N ; ++j ) { w[ k ][ j ] -= f*w[ i ][ j ]; } } }
    }
    double na = 0, ni = 0;
    for ( size_t i = 0 ; i < N ; ++i ) {
        double s = 0, q = 0;
        for ( size_t j = 0 ; j < N ; ++j ) { s += std::fabs( a[ i ][ j ] ); q += std::fabs( static_cast<double>( w[ i ][ N + j ] ) ); }
        na = std::max( na, s );
        ni = std::max( ni, q );
    }
    const double cond = na*ni;
    t.note( "%zux%zu inverse, condition %.3g", N, N, cond );
    if ( cond > 3000.0 ) { return; }
    const mat<N, N> r = m.inv();
    for ( size_t i = 0 ; i < N ; ++i ) {
        for ( size_t j = 0 ; j < N ; ++j ) {
            t.near( "inverse", D( r[ i ][ j ] ), static_cast<double>( w[ i ][ N + j ] ), ni*cond*2e-7*static_cast<double>( N ), "inverse of a %zux%zu matrix of condition %.3g, element (%zu, %zu)", N, N, cond, i, j );
            t.check( D( m( i, j ) ) == a[ i ][ j ], "inverting a %zux%zu matrix changes its element (%zu, %zu)", N, N, i, j );
        }
    }
    if ( N > 1u && kind != 0 ) { t.nontrivial(); }
}
static void historyAny( Ctx &t )
{
    switch ( t.bits( 12 ) ) {
        case 0: history<1, 1>( t ); break;
        case 1: history<2, 2>( t ); break;
        case 2: history<3, 3>( t ); break;
        case 3: history<4, 4>( t ); break;
        case 4: history<1, 4>( t ); break;
        case 5: history<4, 1>( t ); break;
        case 6: history<2, 3>( t ); break;
        case 7: history<3, 2>( t ); break;
        case 8: history<5, 3>( t ); break;
        case 9: history<2, 6>( t ); break;
        case 10: if ( t.chance( 1, 6 ) ) { history<17, 12>( t ); } else { history<3, 7>( t ); } break;
        case 11: history<1, 9>( t ); break;
        default: history<6, 6>( t ); break;
    }
}
static void squareAny( Ctx &t )
{
    switch ( t.bits( 5 ) ) {
        case 0: square<1>( t ); break;
        case 1: square<2>( t ); break;
        case 2: square<3>( t ); break;
        case 3: square<4>( t ); break;
        case 4: if ( t.chance( 1, 6 ) ) { square<18>( t ); } else { square<7>( t ); } break;
        default: square<6>( t ); break;
    }
}
static void inverseAny( Ctx &t )
{
    switch ( t.bits( 6 ) ) {
        case 0: inverse<1>( t ); break;
        case 1: inverse<2>( t ); break;
        case 2: inverse<3>( t ); break;
        case 3: inverse<4>( t ); break;
        case 4: inverse<5>( t ); break;
        case 5: if ( t.chance( 1, 6 ) ) { inverse<16>( t ); } else { inverse<8>( t ); } break;
        default: inverse<6>( t ); break;
    }
}
static void lists( Ctx &t )
{
    float v[ 6 ];
    for ( float &x : v ) { x = t.f32( -100.0f, 100.0f ); }
    const int k = static_cast<int>( t.range( 0, 100 ) );
    mat<2, 3> a( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], v[ 4 ], v[ 5 ] );
    mat<3, 2> b( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], v[ 4 ], v[ 5 ] );
    mat<2, 2> c( k, v[ 1 ], 2.5, v[ 3 ] );
    for ( size_t i = 0 ; i < 6u ; ++i ) {
        t.check( a( i/3u, i % 3u ) == v[ i ] && b( i/2u, i % 2u ) == v[ i ], "element %zu of a matrix built from a list is %.9g or %.9g, expected %.9g", i, D( a( i ) ), D( b( i ) ), D( v[ i ] ) );
    }
    t.check( c( 0u, 0u ) == static_cast<float>( k ) && c( 0u, 1u ) == v[ 1 ] && c( 1u, 0u ) == 2.5f && c( 1u, 1u ) == v[ 3 ], "matrix built from a mixed list" );
    t.nontrivial();
}
namespace pbt {
const std::vector<Sub>& subs()
{
    static const std::vector<Sub> s = {
        { "operation sequences", historyAny, 60000 }, { "special matrices and products", squareAny, 60000 }, { "inverse", inverseAny, 150000 }, { "element lists", lists, 20000 },
    };
    return s;
}
}
