// P04: in-place sort
#include "alg_common.hpp"
namespace pbt {
const char *const PROPERTY = "P04";
const char *const RULE = "random arrays (int, 64-bit int, float, double, byte, record, self-referring object; lengths 1..70; few distinct keys, presorted, reversed, arbitrary) sorted over the whole array or a random inclusive sub-range, natural order or with a caller-supplied ordering; result must be ordered, a permutation of the same elements, and identical outside the range; non-trivial = range of >=3 elements not already ordered";
}
template <class T> static bool desc( const T &a, const T &b ) { return b < a; }
template <class T> static bool asc( const T &a, const T &b ) { return a < b; }
template <class T> static bool byMod( const T &a, const T &b )
{
    return std::fmod( std::fabs( num( a ) ), 7.0 ) < std::fmod( std::fabs( num( b ) ), 7.0 );
}
template <class T, size_t N> static void srt( Ctx &t )
{
    Arr<T, N> A( t );
    Rng2 r = sub<N>( t );
    typedef bool ( *Cmp )( const T&, const T& );
    static const Cmp cmps[] = { nullptr, desc<T>, asc<T>, byMod<T> };
    const size_t c = t.idx( 4 );
    Cmp cmp = cmps[ c ];
    auto lt = [&]( const T &x, const T &y ) { return cmp ? cmp( x, y ) : ( x < y ); };
    t.note( "n=%zu range=[%zu,%zu] comparator=%zu data=%s", N, r.first, r.last, c, A.str().c_str() );
    if ( ( r.last - r.first ) >= 2u && !std::is_sorted( A.a + r.first, A.a + r.last + 1u, lt ) ) { t.nontrivial(); }
    if ( r.dflt && !cmp ) { algorithm::sort( A.a ); }
    else if ( !cmp ) { algorithm::sort( A.a, r.first, r.last ); }
    else { algorithm::sort( A.a, r.first, r.last, cmp ); }
    for ( size_t i = 0; i < N; ++i ) {
        if ( i < r.first || i > r.last ) { t.check( ident( A.a[ i ], A.orig[ i ] ), "element %zu outside the sorted range changed", i ); }
    }
    for ( size_t i = r.first; i < r.last; ++i ) {
        t.check( !lt( A.a[ i + 1 ], A.a[ i ] ), "elements %zu,%zu out of order (%g, %g), comparator %zu", i, i + 1, num( A.a[ i ] ), num( A.a[ i + 1 ] ), c );
    }
    std::vector<bool> used( N, false );
    for ( size_t i = r.first; i <= r.last; ++i ) {
        bool ok = false;
        for ( size_t j = r.first; j <= r.last && !ok; ++j ) {
            if ( !used[ j ] && ident( A.a[ i ], A.orig[ j ] ) ) { used[ j ] = true; ok = true; }
        }
        t.check( ok, "result is not a permutation of the input (element %zu = %g)", i, num( A.a[ i ] ) );
    }
}
ALG_DISPATCH( srt )
// long adversarial patterns for the partition stack
static void bigSort( Ctx &t )
{
    static const size_t N = 600;
    std::unique_ptr<int[]> p( new int[ N ] );
    int ( &a )[ N ] = *reinterpret_cast<int(*)[ N ]>( p.get() );
    const unsigned kind = static_cast<unsigned>( t.bits( 5 ) );
    const int m = static_cast<int>( t.range( 1, 700 ) );
    for ( size_t i = 0; i < N; ++i ) {
        const int x = static_cast<int>( i );
        a[ i ] = ( kind == 0 ) ? x : ( kind == 1 ) ? -x : ( kind == 2 ) ? 5 : ( kind == 3 ) ? x % m : ( kind == 4 ) ? ( ( x & 1 ) ? x : -x ) : static_cast<int>( pbt::mix64( i + static_cast<size_t>( m ) ) );
    }
    std::vector<int> e( a, a + N );
    std::sort( e.begin(), e.end() );
    algorithm::sort( a );
    for ( size_t i = 0; i < N; ++i ) { t.check( a[ i ] == e[ i ], "600-element sort, pattern %u/%d wrong at %zu", kind, m, i ); }
    t.note( "600 elements, pattern %u, modulus %d", kind, m );
    t.nontrivial();
}
// more elements than a 16-bit index can address
static void hugeSort( Ctx &t )
{
    static const size_t N = 70001;
    std::unique_ptr<int[]> p( new int[ N ] );
    int ( &a )[ N ] = *reinterpret_cast<int(*)[ N ]>( p.get() );
    const uint64_t sd = t.bits( 0xFFFF );
    const uint64_t mod = t.coin() ? 1000u : 0x7FFFFFFFu;
    for ( size_t i = 0; i < N; ++i ) { a[ i ] = static_cast<int>( pbt::mix64( i + ( sd << 20 ) ) % mod ) - 500; }
    std::vector<int> e( a, a + N );
    const size_t first = t.coin() ? 0u : t.idx( N ), last = t.coin() ? N - 1u : first + t.idx( N - first );
    t.note( "%zu elements, range [%zu,%zu]", N, first, last );
    std::sort( e.begin() + static_cast<long>( first ), e.begin() + static_cast<long>( last ) + 1 );
    algorithm::sort( a, first, last );
    for ( size_t i = 0; i < N; ++i ) { if ( a[ i ] != e[ i ] ) { t.check( false, "sort of [%zu,%zu] of %zu elements wrong at %zu", first, last, N, i ); } }
    if ( last - first > 65536u ) { t.nontrivial(); }
}
const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "sort", srt_all, 1000000 }, { "bigSort", bigSort, 3000 }, { "hugeSort", hugeSort, 60 } };
    return s;
}
