// P05: in-place array transformations
#include "alg_common.hpp"
namespace pbt {
const char *const PROPERTY = "P05";
const char *const RULE = "random arrays (int, 64-bit int, float, double, byte, record, self-referring object) and inclusive sub-ranges through reverse / rotate (any integer shift, both signs, beyond the length) / fill / replace / replace_if / for_each / swap, each compared element by element with an index-formula model; heap redzones catch accesses outside the array; non-trivial = >=2 elements affected";
}
static int g_calls;
static std::vector<const void*> g_seen; // the elements visited, in order
template <class T, size_t N> static void rev( Ctx &t )
{
    Arr<T, N> A( t );
    Rng2 r = sub<N>( t );
    t.note( "reverse n=%zu [%zu,%zu]", N, r.first, r.last );
    if ( r.dflt ) { algorithm::reverse( A.a ); } else { algorithm::reverse( A.a, r.first, r.last ); }
    for ( size_t i = 0; i < N; ++i ) {
        const size_t j = ( i < r.first || i > r.last ) ? i : r.first + r.last - i;
        t.check( ident( A.a[ i ], A.orig[ j ] ), "reverse [%zu,%zu] of %zu: element %zu wrong", r.first, r.last, N, i );
    }
    if ( r.last > r.first ) { t.nontrivial(); }
}
template <class T, size_t N> static void rot( Ctx &t )
{
    Arr<T, N> A( t );
    int64_t k;
    switch ( t.bits( 5 ) ) {
        case 5: k = ( 1ll << 31 ) - t.range( 0, 3 ); break;
        case 0: k = t.range( 0, 3 ); break;
        case 1: k = static_cast<int64_t>( N )*t.range( 0, 5 ); break;
        case 2: k = static_cast<int64_t>( t.bits( 0x7FFFFFFFu ) ); break;
        default: k = t.range( 0, static_cast<int64_t>( 3*N + 2 ) ); break;
    }
    if ( t.coin() || k > INT32_MAX ) { k = -k; }
    t.note( "rotate n=%zu k=%lld", N, static_cast<long long>( k ) );
    if ( k == 1 && t.coin() ) { algorithm::rotate( A.a ); } else { algorithm::rotate( A.a, static_cast<int>( k ) ); }
    const int64_t n = static_cast<int64_t>( N );
    for ( int64_t i = 0; i < n; ++i ) { // positive k rotates to the right
        const int64_t j = ( ( ( i - k ) % n ) + n ) % n;
        t.check( ident( A.a[ i ], A.orig[ static_cast<size_t>( j ) ] ), "rotate by %lld of %zu elements: element %lld wrong", static_cast<long long>( k ), N, static_cast<long long>( i ) );
    }
    if ( N > 1 && ( k % n ) ) { t.nontrivial(); }
}
template <class T, size_t N> static void fll( Ctx &t )
{
    Arr<T, N> A( t );
    Rng2 r = sub<N>( t );
    T v;
    gen( t, v, 1, 1000 );
    t.note( "fill n=%zu [%zu,%zu]", N, r.first, r.last );
    if ( r.dflt ) { algorithm::fill( A.a, v ); } else { algorithm::fill( A.a, v, r.first, r.last ); }
    for ( size_t i = 0; i < N; ++i ) {
        const bool in = ( i >= r.first && i <= r.last );
        t.check( ident( A.a[ i ], in ? v : A.orig[ i ] ), "fill [%zu,%zu] of %zu: element %zu wrong", r.first, r.last, N, i );
    }
    if ( r.last > r.first ) { t.nontrivial(); }
}
template <class T> static bool small( const T &x ) { return std::fabs( num( x ) ) < 1.4; }
template <class T, size_t N> static void rep( Ctx &t )
{
    Arr<T, N> A( t );
    Rng2 r = sub<N>( t );
    T nv, ov = A.a[ t.idx( N ) ];
    gen( t, nv, 1, 2000 );
    if ( t.chance( 1, 4 ) ) { gen( t, ov, 0, 3000 ); }
    const bool pred = t.coin();
    t.note( "%s n=%zu [%zu,%zu] %g -> %g in %s", pred ? "replace_if" : "replace", N, r.first, r.last, num( ov ), num( nv ), A.str().c_str() );
    if ( pred ) {
        if ( r.dflt ) { algorithm::replace_if( A.a, small<T>, nv ); } else { algorithm::replace_if( A.a, small<T>, nv, r.first, r.last ); }
    }
    else {
        if ( r.dflt ) { algorithm::replace( A.a, ov, nv ); } else { algorithm::replace( A.a, ov, nv, r.first, r.last ); }
    }
    size_t cnt = 0;
    for ( size_t i = 0; i < N; ++i ) {
        const bool in = ( i >= r.first && i <= r.last ) && ( pred ? small<T>( A.orig[ i ] ) : ( A.orig[ i ] == ov ) );
        cnt += in;
        t.check( ident( A.a[ i ], in ? nv : A.orig[ i ] ), "%s [%zu,%zu] of %zu: element %zu wrong (was %g, is %g)", pred ? "replace_if" : "replace", r.first, r.last, N, i, num( A.orig[ i ] ), num( A.a[ i ] ) );
    }
    if ( cnt >= 2u ) { t.nontrivial(); }
}
template <class T> static void bump( T &x );
template <> void bump<int>( int &x ) { x = static_cast<int>( static_cast<unsigned>( x ) + 1u ); ++g_calls; g_seen.push_back( &x ); }
template <> void bump<float>( float &x ) { x = -x; ++g_calls; g_seen.push_back( &x ); }
template <> void bump<uint8_t>( uint8_t &x ) { x = static_cast<uint8_t>( x ^ 0x55 ); ++g_calls; g_seen.push_back( &x ); }
template <> void bump<Rec>( Rec &x ) { x.id += 10; ++g_calls; g_seen.push_back( &x ); }
template <> void bump<Own>( Own &x ) { x.id += 10; ++g_calls; g_seen.push_back( &x ); }
template <> void bump<int64_t>( int64_t &x ) { x ^= 0x5500000055ll; ++g_calls; g_seen.push_back( &x ); }
template <> void bump<double>( double &x ) { x = -x; ++g_calls; g_seen.push_back( &x ); }
template <class T, size_t N> static void fe( Ctx &t )
{
    Arr<T, N> A( t );
    Rng2 r = sub<N>( t );
    t.note( "for_each n=%zu [%zu,%zu]", N, r.first, r.last );
    g_calls = 0;
    g_seen.clear();
    if ( r.dflt ) { algorithm::for_each( A.a, bump<T> ); } else { algorithm::for_each( A.a, bump<T>, r.first, r.last ); }
    t.check( g_calls == static_cast<int>( r.last - r.first + 1u ), "for_each called the function %d times over [%zu,%zu]", g_calls, r.first, r.last );
    for ( size_t i = r.first; i <= r.last; ++i ) { t.check( g_seen[ i - r.first ] == &A.a[ i ], "for_each visited another element than %zu as number %zu", i, i - r.first ); }
    for ( size_t i = 0; i < N; ++i ) {
        T e = A.orig[ i ];
        if ( i >= r.first && i <= r.last ) { bump( e ); }
        t.check( ident( A.a[ i ], e ), "for_each [%zu,%zu]: element %zu wrong", r.first, r.last, i );
    }
    if ( r.last > r.first ) { t.nontrivial(); }
    T x = A.orig[ 0 ], y = A.orig[ N - 1 ];
    algorithm::swap( x, y );
    t.check( ident( x, A.orig[ N - 1 ] ) && ident( y, A.orig[ 0 ] ), "swap did not exchange its arguments" );
}
ALG_DISPATCH( rev )
ALG_DISPATCH( rot )
ALG_DISPATCH( fll )
ALG_DISPATCH( rep )
ALG_DISPATCH( fe )
ALG_HUGE( rev )
ALG_HUGE( rot )
ALG_HUGE( fll )
ALG_HUGE( rep )
ALG_HUGE( fe )
const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "reverse", rev_all, 300000 }, { "rotate", rot_all, 500000 }, { "fill", fll_all, 300000 }, { "replace", rep_all, 500000 }, { "for_each", fe_all, 300000 },
        { "reverse, huge array", rev_huge, 100 }, { "rotate, huge array", rot_huge, 100 }, { "fill, huge array", fll_huge, 100 }, { "replace, huge array", rep_huge, 100 }, { "for_each, huge array", fe_huge, 100 } };
    return s;
}
