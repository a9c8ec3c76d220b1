#pragma once
#include <pbt.hpp>
#include <qlibs.h>
#include <include/algorithm.hpp>
using namespace qlibs;
using pbt::Ctx;

struct Rec { int key; int id; };
inline bool operator<( const Rec &a, const Rec &b ) { return a.key < b.key; }
inline bool operator==( const Rec &a, const Rec &b ) { return a.key == b.key; }

// an element type that owns something: it knows where it lives and must be copied or moved properly
struct Own {
    int key{ 0 };
    int id{ 0 };
    const Own *self{ this };
    Own() = default;
    Own( const Own &o ) : key( o.key ), id( o.id ) {}
    Own( Own &&o ) : key( o.key ), id( o.id ) { o.key = -77777; o.id = -1; }
    Own& operator=( const Own &o ) { key = o.key; id = o.id; return *this; }
    Own& operator=( Own &&o ) { if ( this != &o ) { key = o.key; id = o.id; o.key = -77777; o.id = -1; } return *this; }
};
inline bool operator<( const Own &a, const Own &b ) { return a.key < b.key; }
inline bool operator==( const Own &a, const Own &b ) { return a.key == b.key; }
inline bool ident( const Own &a, const Own &b ) { return a.key == b.key && a.id == b.id && a.self == &a && b.self == &b; }
inline bool ident( int64_t a, int64_t b ) { return a == b; }
inline bool ident( double a, double b ) { return memcmp( &a, &b, sizeof a ) == 0; }
inline double num( const Own &a ) { return a.key; }
inline double num( int64_t a ) { return static_cast<double>( a ); }
inline double num( double a ) { return a; }
inline bool ident( int a, int b ) { return a == b; }
inline bool ident( float a, float b ) { return pbt::sameBits( a, b ); }
inline bool ident( uint8_t a, uint8_t b ) { return a == b; }
inline bool ident( const Rec &a, const Rec &b ) { return a.key == b.key && a.id == b.id; }
inline double num( int a ) { return a; }
inline double num( float a ) { return static_cast<double>( a ); }
inline double num( uint8_t a ) { return a; }
inline double num( const Rec &a ) { return a.key; }

inline void gen( Ctx &t, int &x, unsigned style, int i )
{
    x = ( style == 0u ) ? static_cast<int>( t.range( 0, 3 ) ) : ( style == 1u ) ? static_cast<int>( t.range( -100, 100 ) ) : static_cast<int>( t.u32any() );
    (void)i;
}
inline void gen( Ctx &t, float &x, unsigned style, int i )
{
    if ( style < 2u ) { int v; gen( t, v, style, i ); x = static_cast<float>( v )*0.5f; }
    else { x = t.f32any(); }
    if ( x == 0.0f ) { x = 0.0f; }
}
inline void gen( Ctx &t, uint8_t &x, unsigned style, int i ) { int v; gen( t, v, style ? 2u : 0u, i ); x = static_cast<uint8_t>( v ); }
inline void gen( Ctx &t, Rec &x, unsigned style, int i ) { gen( t, x.key, style, i ); x.id = i; }

inline void gen( Ctx &t, Own &x, unsigned style, int i ) { gen( t, x.key, style, i ); x.id = i; }
inline void gen( Ctx &t, int64_t &x, unsigned style, int i ) // differ in the upper or the lower half only, now and then
{
    int v;
    gen( t, v, style ? 1u : 0u, i );
    x = ( style < 2u ) ? v : ( t.coin() ? static_cast<int64_t>( v )*( 1ll << 32 ) + static_cast<int64_t>( t.bits( 3 ) ) : ( 1ll << 53 ) + v );
}
inline void gen( Ctx &t, double &x, unsigned style, int i ) { int v; gen( t, v, style ? 1u : 0u, i ); x = ( style < 2u ) ? v*0.5 : 1.0 + v*1e-12; }
inline void setKey( Own &x, int k, int i ) { x.key = k; x.id = i; }
inline void setKey( int64_t &x, int k, int ) { x = k*( 1ll << 31 ); }
inline void setKey( double &x, int k, int ) { x = 1.0 + k*1e-12; }
inline void setKey( int &x, int k, int ) { x = k; }
inline void setKey( float &x, int k, int ) { x = static_cast<float>( k )*0.5f; }
inline void setKey( uint8_t &x, int k, int ) { x = static_cast<uint8_t>( k ); }
inline void setKey( Rec &x, int k, int i ) { x.key = k; x.id = i; }

// array in its own exact-size heap block: any access outside traps
template <class T, size_t N> struct Arr {
    std::unique_ptr<T[]> p;
    std::vector<T> orig;
    T ( &a )[ N ];
    explicit Arr( Ctx &t ) : p( new T[ N ] ), a( *reinterpret_cast<T(*)[ N ]>( p.get() ) )
    {
        const unsigned style = static_cast<unsigned>( t.bits( 2 ) );
        if ( N > 128u ) { // long arrays: one draw determines the contents
            const uint64_t seed = t.bits( 0xFFFFu ), mod = t.coin() ? 97u : 100003u;
            for ( size_t i = 0; i < N; ++i ) { setKey( a[ i ], static_cast<int>( pbt::mix64( i + ( seed << 20 ) ) % mod ), static_cast<int>( i ) ); }
        }
        else { for ( size_t i = 0; i < N; ++i ) { gen( t, a[ i ], style, static_cast<int>( i ) ); } }
        const unsigned pre = static_cast<unsigned>( t.bits( 7 ) );
        if ( pre == 6u ) { std::sort( a, a + N ); }
        if ( pre == 7u ) { std::sort( a, a + N ); std::reverse( a, a + N ); }
        snap();
    }
    void snap() { orig.assign( a, a + N ); }
    std::string str() const
    {
        std::string s;
        for ( size_t i = 0; i < N && i < 24; ++i ) { char b[ 40 ]; snprintf( b, sizeof b, "%s%g", i ? "," : "", num( orig[ i ] ) ); s += b; }
        return s;
    }
};

struct Rng2 { size_t first, last; bool dflt; };
template <size_t N> Rng2 sub( Ctx &t )
{
    Rng2 r{ 0, N - 1, false };
    if ( t.chance( 2, 3 ) ) {
        r.first = N > 65536u && t.coin() ? 65000u + t.idx( N - 65000u ) : t.idx( N ); // also beyond 16 bits
        r.last = r.first + t.idx( N - r.first );
    }
    else { r.dflt = t.coin(); }
    return r;
}

#define ALG_DISPATCH( F ) \
template <class T> static void F##_t( Ctx &t ) { \
    if ( t.chance( 1, 150 ) ) { t.label( "long array" ); F<T, 300>( t ); return; } \
    switch ( t.bits( 8 ) ) { \
        case 0: F<T, 1>( t ); break; case 1: F<T, 2>( t ); break; case 2: F<T, 3>( t ); break; \
        case 3: F<T, 4>( t ); break; case 4: F<T, 7>( t ); break; case 5: F<T, 8>( t ); break; \
        case 6: F<T, 16>( t ); break; case 7: F<T, 33>( t ); break; default: F<T, 70>( t ); break; } } \
static void F##_all( Ctx &t ) { \
    switch ( t.bits( 6 ) ) { case 0: F##_t<int>( t ); break; case 4: F##_t<Own>( t ); break; case 5: F##_t<int64_t>( t ); break; case 6: F##_t<double>( t ); break; case 1: F##_t<float>( t ); break; \
        case 2: F##_t<uint8_t>( t ); break; default: F##_t<Rec>( t ); break; } }
// arrays with more elements than a 16-bit index can address
#define ALG_HUGE( F ) static void F##_huge( Ctx &t ) { t.label( "huge array" ); F<int, 70001>( t ); }
