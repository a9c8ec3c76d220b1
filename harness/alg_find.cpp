// P06: array queries
#include "alg_common.hpp"
namespace pbt {
const char *const PROPERTY = "P06";
const char *const RULE = "random arrays (int, 64-bit int, float, double, byte, record, self-referring object) and inclusive sub-ranges through find / find_if / any_of / all_of / count_if / binary_search (on a sorted range), results compared with a linear scan; arrays must be left unchanged; non-trivial = range of >=2 elements with both matching and non-matching ones (for the searches: key present)";
}
template <class T> static bool small( const T x ) { return std::fabs( num( x ) ) < 1.4; }
template <class T> static bool even( const T x ) { return std::fmod( std::fabs( num( x ) ), 2.0 ) < 0.75; }
template <class T> static bool never( const T ) { return false; }
template <class T> static bool always( const T ) { return true; }
template <class T, size_t N> static void preds( Ctx &t )
{
    Arr<T, N> A( t );
    Rng2 r = sub<N>( t );
    typedef bool ( *P )( const T );
    static const P ps[] = { small<T>, even<T>, never<T>, always<T> };
    const size_t pi = t.bits( 5 ) < 3u ? 0 : t.idx( 4 );
    P p = ps[ pi ];
    size_t cnt = 0, firstHit = N, total = r.last - r.first + 1u;
    for ( size_t i = r.first; i <= r.last; ++i ) { if ( p( A.a[ i ] ) ) { ++cnt; if ( firstHit == N ) { firstHit = i; } } }
    t.note( "n=%zu [%zu,%zu] predicate %zu: %zu of %zu match, data %s", N, r.first, r.last, pi, cnt, total, A.str().c_str() );
    if ( cnt && cnt < total ) { t.nontrivial(); }
    const bool any = r.dflt ? algorithm::any_of( A.a, p ) : algorithm::any_of( A.a, p, r.first, r.last );
    const bool all = r.dflt ? algorithm::all_of( A.a, p ) : algorithm::all_of( A.a, p, r.first, r.last );
    const size_t c = r.dflt ? algorithm::count_if( A.a, p ) : algorithm::count_if( A.a, p, r.first, r.last );
    T *f = r.dflt ? algorithm::find_if( A.a, p ) : algorithm::find_if( A.a, p, r.first, r.last );
    t.check( any == ( cnt > 0u ), "any_of = %d with %zu matches", any, cnt );
    t.check( all == ( cnt == total ), "all_of = %d with %zu of %zu matches", all, cnt, total );
    t.check( c == cnt, "count_if = %zu, expected %zu", c, cnt );
    t.check( f == ( ( firstHit == N ) ? nullptr : &A.a[ firstHit ] ), "find_if returned element %td, first match is %zu", f ? f - A.a : -1, firstHit );
    for ( size_t i = 0; i < N; ++i ) { t.check( ident( A.a[ i ], A.orig[ i ] ), "query modified element %zu", i ); }
}
template <class T, size_t N> static void find( Ctx &t )
{
    Arr<T, N> A( t );
    Rng2 r = sub<N>( t );
    T key = A.a[ t.idx( N ) ];
    if ( t.chance( 1, 4 ) ) { gen( t, key, static_cast<unsigned>( t.bits( 1 ) ), 99 ); }
    size_t hit = N;
    for ( size_t i = r.first; i <= r.last && hit == N; ++i ) { if ( A.a[ i ] == key ) { hit = i; } }
    t.note( "find n=%zu [%zu,%zu] key %g in %s", N, r.first, r.last, num( key ), A.str().c_str() );
    T *f = r.dflt ? algorithm::find( A.a, key ) : algorithm::find( A.a, key, r.first, r.last );
    t.check( f == ( ( hit == N ) ? nullptr : &A.a[ hit ] ), "find returned element %td, first match is %zu", f ? f - A.a : -1, hit );
    for ( size_t i = 0; i < N; ++i ) { t.check( ident( A.a[ i ], A.orig[ i ] ), "query modified element %zu", i ); }
    if ( hit < N && hit != r.first ) { t.nontrivial(); }
}
template <class T, size_t N> static void bins( Ctx &t )
{
    Arr<T, N> A( t );
    Rng2 r = sub<N>( t );
    std::sort( A.a + r.first, A.a + r.last + 1u );
    A.snap();
    T key = A.a[ t.idx( N ) ];
    if ( t.chance( 1, 3 ) ) { gen( t, key, static_cast<unsigned>( t.bits( 2 ) ), 99 ); }
    bool present = false;
    for ( size_t i = r.first; i <= r.last; ++i ) { present = present || ( A.a[ i ] == key ); }
    t.note( "binary_search n=%zu [%zu,%zu] key %g in %s", N, r.first, r.last, num( key ), A.str().c_str() );
    T *f = r.dflt ? algorithm::binary_search( A.a, key ) : algorithm::binary_search( A.a, key, r.first, r.last );
    if ( present ) {
        t.check( f != nullptr, "binary_search missed a key that is in the range" );
        t.check( f >= &A.a[ r.first ] && f <= &A.a[ r.last ] && ( *f == key ), "binary_search returned a wrong element %td", f - A.a );
        if ( r.last > r.first ) { t.nontrivial(); }
    }
    else { t.check( f == nullptr, "binary_search returned element %td for an absent key", f - A.a ); }
    for ( size_t i = 0; i < N; ++i ) { t.check( ident( A.a[ i ], A.orig[ i ] ), "query modified element %zu", i ); }
}
ALG_DISPATCH( preds )
ALG_DISPATCH( find )
ALG_DISPATCH( bins )
ALG_HUGE( preds )
ALG_HUGE( find )
ALG_HUGE( bins )
const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "predicates", preds_all, 800000 }, { "find", find_all, 500000 }, { "binary_search", bins_all, 800000 },
        { "predicates, huge array", preds_huge, 150 }, { "find, huge array", find_huge, 150 }, { "binary_search, huge array", bins_huge, 150 } };
    return s;
}
