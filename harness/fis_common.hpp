#ifndef FIS_COMMON_HPP
#define FIS_COMMON_HPP
#include <pbt.hpp>
#include <qlibs.h>
using namespace qlibs;
using pbt::Ctx;
static double clip( double v, double lo = 0.0, double hi = 1.0 ) { return ( v < lo ) ? lo : ( ( v > hi ) ? hi : v ); }
static const char *const MFNAME[] = { "custommf", "trimf", "trapmf", "gbellmf", "gaussmf", "gauss2mf", "sigmf", "dsigmf", "psigmf", "pimf", "smf", "zmf", "singletonmf",
    "concavemf", "spikemf", "linsmf", "linzmf", "rectmf", "cosmf", "constantmf", "linearmf", "tlinsmf", "tlinzmf", "tconcavemf", "tsigmf", "tsmf", "tzmf", "trampmf" };
static const int NPOINTS[] = { 1, 3, 4, 3, 2, 4, 2, 4, 4, 4, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1, -1, 2, 2, 2, 2, 2, 2, 2 };
// accuracy of the elementary functions the shape is built on
static const double MFTOL[] = { 1e-6, 3e-6, 3e-6, 2e-5, 6e-6, 9e-6, 6e-6, 9e-6, 9e-6, 4e-6, 4e-6, 4e-6, 0, 3e-6, 6e-6, 3e-6, 3e-6, 0, 6e-4 };

static double sMF( double x, double a, double b )
{
    if ( x <= a ) { return 0; }
    if ( x >= b ) { return 1; }
    const double u = ( x - a )/( b - a );
    return ( u <= 0.5 ) ? 2*u*u : 1 - 2*( 1 - u )*( 1 - u );
}
// membership grade of x, straight from the definition of the shape
static double shapeOf( int s, double x, const std::vector<float> &q )
{
    std::vector<double> p( q.begin(), q.end() );
    auto gauss = [&]( double sg, double c ) { const double u = ( x - c )/sg; return std::exp( -0.5*u*u ); };
    auto sig = [&]( double a, double c ) { return 1.0/( 1.0 + std::exp( -a*( x - c ) ) ); };
    auto up = [&]( double a, double b ) { return ( x < a ) ? 0.0 : ( ( x >= b ) ? 1.0 : ( x - a )/( b - a ) ); };     // rising edge
    auto down = [&]( double a, double b ) { return ( x <= a ) ? 1.0 : ( ( x > b ) ? 0.0 : ( ( a == b ) ? 1.0 : ( b - x )/( b - a ) ) ); };
    switch ( s ) {
        case fis::trimf: return std::min( up( p[ 0 ], p[ 1 ] ), down( p[ 1 ], p[ 2 ] ) );
        case fis::trapmf: return std::min( up( p[ 0 ], p[ 1 ] ), down( p[ 2 ], p[ 3 ] ) );
        case fis::gbellmf: return 1.0/( 1.0 + std::pow( std::fabs( ( x - p[ 2 ] )/p[ 0 ] ), 2.0*p[ 1 ] ) );
        case fis::gaussmf: return gauss( p[ 0 ], p[ 1 ] );
        case fis::gauss2mf: return ( x <= p[ 1 ] ? gauss( p[ 0 ], p[ 1 ] ) : 1.0 )*( x >= p[ 3 ] ? gauss( p[ 2 ], p[ 3 ] ) : 1.0 );
        case fis::sigmf: return sig( p[ 0 ], p[ 1 ] );
        case fis::dsigmf: return std::fabs( sig( p[ 0 ], p[ 1 ] ) - sig( p[ 2 ], p[ 3 ] ) );
        case fis::psigmf: return sig( p[ 0 ], p[ 1 ] )*sig( p[ 2 ], p[ 3 ] );
        case fis::pimf: return sMF( x, p[ 0 ], p[ 1 ] )*( 1 - sMF( x, p[ 2 ], p[ 3 ] ) );
        case fis::smf: return sMF( x, p[ 0 ], p[ 1 ] );
        case fis::zmf: return 1 - sMF( x, p[ 0 ], p[ 1 ] );
        case fis::singletonmf: return x == p[ 0 ] ? 1 : 0;
        case fis::concavemf: { const double i = p[ 0 ], e = p[ 1 ]; if ( i <= e ) { return x < e ? ( e - i )/( 2*e - i - x ) : 1.0; } return x > e ? ( i - e )/( i - 2*e + x ) : 1.0; }
        case fis::spikemf: return std::exp( -std::fabs( 10*( x - p[ 1 ] )/p[ 0 ] ) );
        case fis::linsmf: return up( p[ 0 ], p[ 1 ] );
        case fis::linzmf: return ( p[ 0 ] == p[ 1 ] ) ? ( x < p[ 0 ] ? 1.0 : 0.0 ) : down( p[ 0 ], p[ 1 ] );
        case fis::rectmf: return ( x >= p[ 0 ] && x <= p[ 1 ] ) ? 1 : 0;
        case fis::cosmf: return std::fabs( x - p[ 0 ] ) > 0.5*p[ 1 ] ? 0.0 : 0.5*( 1 + std::cos( 2*M_PI/p[ 1 ]*( x - p[ 0 ] ) ) );
        default: return p[ 0 ];
    }
}
// the grade together with how far rounding of the argument can move it
static double gradeTol( int s, double x, const std::vector<float> &p, double span )
{
    const double d = 4e-7*( std::fabs( x ) + span );
    const double f = shapeOf( s, x, p ), a = shapeOf( s, x - d, p ), b = shapeOf( s, x + d, p );
    if ( s == fis::singletonmf || s == fis::rectmf ) { return ( a == f && b == f ) || s == fis::singletonmf ? 0.0 : 1.0; }
    return MFTOL[ s ] + std::fabs( a - f ) + std::fabs( b - f );
}
// value at which a monotonic output set reaches grade w (Tsukamoto)
static double inverseOf( int s, double w, const std::vector<float> &q, double lo, double hi )
{
    const double a = q[ 0 ], b = q[ 1 ];
    switch ( s ) {
        case fis::tlinsmf: case fis::trampmf: return a + ( b - a )*w;
        case fis::tlinzmf: return b - ( b - a )*w;
        case fis::tconcavemf: return ( a - b )/w + 2*b - a;
        case fis::tsigmf: if ( w >= 1 ) { return a >= 0 ? hi : lo; } if ( w <= 0 ) { return a >= 0 ? lo : hi; } return b - std::log( 1/w - 1 )/a;
        case fis::tsmf: return w <= 0.5 ? a + ( b - a )*std::sqrt( w/2 ) : b - ( b - a )*std::sqrt( ( 1 - w )/2 );
        default: return w <= 0.5 ? b - ( b - a )*std::sqrt( w/2 ) : a + ( b - a )*std::sqrt( ( 1 - w )/2 );
    }
}
// points of a shape, placed around [lo,hi]
static std::vector<float> drawPoints( Ctx &t, int s, float lo, float hi )
{
    const float w = hi - lo;
    auto pos = [&]() { return lo + t.f32( -0.25f, 1.25f )*w; };
    auto width = [&]() { return t.f32( 0.05f, 0.6f )*w; };
    auto edge = [&]( float a ) { return t.chance( 1, 5 ) ? a : a + width(); };
    switch ( s ) {
        case fis::trimf: { const float a = pos(), b = edge( a ), c = ( a == b ) ? b + width() : edge( b ); return { a, b, c }; }
        case fis::trapmf: { const float a = pos(), b = edge( a ), c = edge( b ), d = edge( c ); return { a, b, c, d }; }
        case fis::gbellmf: { const float a = width(), b = t.f32( 0.5f, 4.0f ), c = pos(); return { a, b, c }; }
        case fis::gaussmf: { const float a = width(), c = pos(); return { a, c }; }
        case fis::gauss2mf: { const float s1 = width(), c1 = pos(), s2 = width(), c2 = c1 + t.f32( 0.0f, 0.5f )*w; return { s1, c1, s2, c2 }; }
        case fis::sigmf: { const float a = t.f32( 1.0f, 30.0f )/w*( t.coin() ? 1.0f : -1.0f ), c = pos(); return { a, c }; }
        case fis::dsigmf: { const float a = t.f32( 1.0f, 30.0f )/w, c = pos(), a2 = t.f32( 1.0f, 30.0f )/w, c2 = pos(); return { a, c, a2, c2 }; }
        case fis::psigmf: { const float a = t.f32( 1.0f, 30.0f )/w, c = pos(), a2 = -t.f32( 1.0f, 30.0f )/w, c2 = pos(); return { a, c, a2, c2 }; }
        case fis::pimf: { const float a = pos(), b = a + width(), c = edge( b ), d = c + width(); return { a, b, c, d }; }
        case fis::smf: case fis::zmf: { const float a = pos(), b = a + width(); return { a, b }; }
        case fis::singletonmf: return { pos() };
        case fis::concavemf: { const float a = pos(), b = t.coin() ? a + width() : a - width(); return { a, b }; }
        case fis::spikemf: { const float a = width()*3.0f, c = pos(); return { a, c }; }
        case fis::linsmf: case fis::linzmf: case fis::rectmf: { const float a = pos(), b = ( s == fis::rectmf ) ? a + width() : edge( a ); return { a, b }; }
        case fis::cosmf: { const float c = pos(), v = width()*2.0f; return { c, v }; }
        case fis::tsigmf: { const float a = t.f32( 2.0f, 30.0f )/w*( t.coin() ? 1.0f : -1.0f ), c = lo + t.f32( 0.2f, 0.8f )*w; return { a, c }; }
        case fis::tconcavemf: { const float a = lo + t.f32( 0.1f, 0.6f )*w, b = t.coin() ? a + width() : a - width(); return { a, b }; }
        case fis::tlinsmf: case fis::tlinzmf: case fis::tsmf: case fis::tzmf: case fis::trampmf: { const float a = lo + t.f32( 0.0f, 0.6f )*w, b = a + width(); return { a, b }; }
        default: return { t.f32( lo, hi ) };
    }
}
struct Set { int io, shape; float h; std::unique_ptr<float[]> cp; std::vector<float> p; };
struct Prem { int in, mf; bool neg, orNext; };
struct Cons { int out, mf; bool neg; };
struct Rule { std::vector<Prem> a; std::vector<Cons> c; };
struct IO { float lo, hi, v; };
// a whole inference system: its description and the library objects, all arrays exactly sized
struct Sys {
    fis::type kind;
    std::vector<IO> in, out;
    std::vector<Set> mi, mo;
    std::vector<Rule> rules;
    std::unique_ptr<fis::input[]> xi;
    std::unique_ptr<fis::output[]> xo;
    std::unique_ptr<fis::mf[]> xmi, xmo;
    std::unique_ptr<fis::rules[]> code;
    std::unique_ptr<float[]> wi, weights;
    std::vector<std::unique_ptr<float[]>> xag, yag;
    std::unique_ptr<pbt::Junk<fis::instance>> f;
    int andOp{ fis::FIS_MIN }, orOp{ fis::FIS_MAX }, imp{ fis::FIS_MIN }, agg{ fis::FIS_MAX }, method{ -1 };
    bool weighted{ false };

    Sys( Ctx &t, fis::type k, bool plainShapes ) : kind( k )
    {
        const bool big = t.chance( 1, 80 ); // many variables, sets (a tag is one byte: at most 123 in all), rules and premises
        const bool vast = big && t.chance( 1, 2 );
        const size_t ni = 1u + t.bits( vast ? 109 : ( big ? 7 : 2 ) ), no = 1u + t.bits( vast && t.coin() ? ( k == fis::Mamdani ? 40 : 109 ) : ( big ? 4 : ( k == fis::Mamdani ? 1 : 2 ) ) );
        const uint64_t wide = vast ? 1u : big ? t.pick( std::vector<uint64_t>{ 2, 9, 40 } ) : 2u;
        for ( size_t i = 0; i < ni; ++i ) { in.push_back( range( t ) ); }
        for ( size_t i = 0; i < no; ++i ) { out.push_back( range( t ) ); }
        for ( size_t i = 0; i < ni; ++i ) { const size_t n = 1u + t.bits( wide ); for ( size_t j = 0; j < n && ( j == 0u || mi.size() + ni < 110u + i ); ++j ) { mi.push_back( draw( t, static_cast<int>( i ), inShape( t, plainShapes ), in[ i ], true ) ); } }
        for ( size_t i = 0; i < no; ++i ) { const size_t n = 1u + t.bits( wide ); for ( size_t j = 0; j < n && ( j == 0u || mo.size() + no < 110u + i ); ++j ) { mo.push_back( draw( t, static_cast<int>( i ), outShape( t, plainShapes ), out[ i ], k == fis::Mamdani ) ); } }
        const size_t nr = 1u + t.bits( vast ? 12 : ( big ? 299 : 4 ) );
        for ( size_t r = 0; r < nr; ++r ) {
            Rule R;
            const size_t np = big ? 1u + t.bits( 11 ) : 1u + t.bits( 3 )%3u;
            for ( size_t j = 0; j < np; ++j ) { const int m = static_cast<int>( t.idx( mi.size() ) ); const bool ng = t.chance( 1, 4 ), o = t.coin(); R.a.push_back( { mi[ m ].io, m, ng, o } ); }
            for ( size_t o = 0; o < no; ++o ) {
                if ( no > 1u && o + 1u < no && t.chance( 1, 3 ) ) { continue; } // a rule need not mention every output
                if ( no > 1u && o + 1u == no && !R.c.empty() && t.chance( 1, 3 ) ) { continue; }
                std::vector<int> c;
                for ( size_t m = 0; m < mo.size(); ++m ) { if ( mo[ m ].io == static_cast<int>( o ) ) { c.push_back( static_cast<int>( m ) ); } }
                const int m = t.pick( c );
                R.c.push_back( { static_cast<int>( o ), m, k == fis::Mamdani && t.chance( 1, 5 ) } );
            }
            rules.push_back( R );
        }
        xi.reset( new fis::input[ ni ] );
        xo.reset( new fis::output[ no ] );
        xmi.reset( new fis::mf[ mi.size() ] );
        xmo.reset( new fis::mf[ mo.size() ] );
        std::vector<fis::rules> v = encode();
        code.reset( new fis::rules[ v.size() ] );
        std::copy( v.begin(), v.end(), code.get() );
        wi.reset( new float[ nr ] );
        weights.reset( new float[ nr ] );
        for ( size_t i = 0; i < nr; ++i ) { wi[ i ] = 77.0f; weights[ i ] = t.f32( -0.2f, 1.2f ); }
        f.reset( new pbt::Junk<fis::instance>( static_cast<uint8_t>( t.bits( 255 ) ) ) );
        fis::instance &s = **f;
        t.check( s.setup( k, xi.get(), ni, xo.get(), no, xmi.get(), mi.size(), xmo.get(), mo.size(), code.get(), nr, wi.get() ), "set-up refused" );
        for ( size_t i = 0; i < ni; ++i ) { t.check( s.setupInput( static_cast<fis::tag>( i ), in[ i ].lo, in[ i ].hi ), "input refused" ); }
        for ( size_t i = 0; i < no; ++i ) { t.check( s.setupOutput( static_cast<fis::tag>( i ), out[ i ].lo, out[ i ].hi ), "output refused" ); }
        for ( size_t i = 0; i < mi.size(); ++i ) { t.check( s.setupInputMF( static_cast<fis::tag>( mi[ i ].io ), static_cast<fis::tag>( i ), static_cast<fis::shapeMF>( mi[ i ].shape ), mi[ i ].cp.get(), mi[ i ].h ), "input set refused" ); }
        for ( size_t i = 0; i < mo.size(); ++i ) { t.check( s.setupOutputMF( static_cast<fis::tag>( mo[ i ].io ), static_cast<fis::tag>( i ), static_cast<fis::shapeMF>( mo[ i ].shape ), mo[ i ].cp.get(), mo[ i ].h ), "output set refused" ); }
        method = ( k == fis::Mamdani ) ? fis::centroid : fis::wtaver;
    }
    fis::instance& sys() { return **f; }
    static IO range( Ctx &t )
    {
        const float u = t.chance( 1, 4 ) ? std::ldexp( 1.0f, static_cast<int>( t.bits( 32 ) ) - 16 ) : 1.0f; // variables measured in other units
        const float a = u*t.f32( -20.0f, 20.0f ), w = u*t.f32log( 0.5f, 50.0f );
        return { a, a + w, 0.0f };
    }
    static int inShape( Ctx &t, bool plain ) { static const int ps[] = { fis::trimf, fis::trapmf, fis::smf, fis::zmf, fis::pimf, fis::linsmf, fis::linzmf, fis::concavemf }; return plain ? t.pick( ps ) : static_cast<int>( t.range( fis::trimf, fis::cosmf ) ); }
    int outShape( Ctx &t, bool plain ) const
    {
        if ( kind == fis::Mamdani ) { return inShape( t, plain ); }
        if ( kind == fis::Sugeno ) { return t.coin() ? fis::constantmf : fis::linearmf; }
        return static_cast<int>( t.range( fis::tlinsmf, fis::trampmf ) );
    }
    Set draw( Ctx &t, int io, int s, const IO &r, bool height ) const
    {
        Set S;
        S.io = io;
        S.shape = s;
        // out-of-range heights are brought into [0,1], and do not apply to crisp rule outputs
        S.h = t.chance( 1, 3 ) ? t.f32( -0.2f, 1.3f ) : 1.0f;
        (void)height;
        if ( s == fis::linearmf ) { for ( size_t i = 0; i < in.size(); ++i ) { const float wi = in[ i ].hi - in[ i ].lo, wo = r.hi - r.lo; S.p.push_back( t.f32( -2.0f, 2.0f )*( ( wi > 100.0f || wi < 0.5f || wo > 100.0f || wo < 0.5f ) ? wo/wi : 1.0f ) ); } S.p.push_back( t.f32( r.lo, r.hi ) ); }
        else { S.p = drawPoints( t, s, r.lo, r.hi ); }
        S.cp.reset( new float[ S.p.size() ] );
        std::copy( S.p.begin(), S.p.end(), S.cp.get() );
        return S;
    }
    std::vector<fis::rules> encode() const
    {
        std::vector<fis::rules> v = { fis::Q_FIS_RULES_BEGIN };
        for ( const Rule &R : rules ) {
            for ( size_t j = 0; j < R.a.size(); ++j ) {
                v.push_back( static_cast<fis::rules>( R.a[ j ].in ) );
                v.push_back( static_cast<fis::rules>( R.a[ j ].neg ? -( R.a[ j ].mf + 1 ) : R.a[ j ].mf + 1 ) );
                v.push_back( j + 1u == R.a.size() ? fis::Q_FIS_THEN : ( R.a[ j ].orNext ? fis::Q_FIS_OR : fis::Q_FIS_AND ) );
            }
            for ( size_t j = 0; j < R.c.size(); ++j ) {
                if ( j ) { v.push_back( fis::Q_FIS_AND ); }
                v.push_back( static_cast<fis::rules>( R.c[ j ].out ) );
                v.push_back( static_cast<fis::rules>( R.c[ j ].neg ? -( R.c[ j ].mf + 1 ) : R.c[ j ].mf + 1 ) );
            }
        }
        v.push_back( fis::Q_FIS_RULES_END );
        return v;
    }
    mutable std::string text;
    const std::string& show() const // the description does not change once drawn
    {
        if ( !text.empty() ) { return text; }
        std::string &s = text;
        char b[ 120 ];
        for ( size_t i = 0; i < mi.size(); ++i ) { snprintf( b, sizeof b, "in%d set%zu %s h=%.6g (", mi[ i ].io, i, MFNAME[ mi[ i ].shape ], mi[ i ].h ); s += b; for ( float p : mi[ i ].p ) { snprintf( b, sizeof b, " %.9g", p ); s += b; } s += " )\n"; }
        for ( size_t i = 0; i < mo.size(); ++i ) { snprintf( b, sizeof b, "out%d set%zu %s h=%.6g (", mo[ i ].io, i, MFNAME[ mo[ i ].shape ], mo[ i ].h ); s += b; for ( float p : mo[ i ].p ) { snprintf( b, sizeof b, " %.9g", p ); s += b; } s += " )\n"; }
        for ( const Rule &R : rules ) {
            s += "rule if";
            for ( size_t j = 0; j < R.a.size(); ++j ) { snprintf( b, sizeof b, " %sset%d %s", R.a[ j ].neg ? "not " : "", R.a[ j ].mf, j + 1u == R.a.size() ? "then" : ( R.a[ j ].orNext ? "or" : "and" ) ); s += b; }
            for ( size_t j = 0; j < R.c.size(); ++j ) { snprintf( b, sizeof b, " out%d is %sset%d", R.c[ j ].out, R.c[ j ].neg ? "not " : "", R.c[ j ].mf ); s += b; }
            s += "\n";
        }
        return s;
    }
    static double oper( int op, double a, double b )
    {
        switch ( op ) {
            case fis::FIS_MIN: return clip( std::min( a, b ) );
            case fis::FIS_PROD: return clip( a*b );
            case fis::FIS_MAX: return clip( std::max( a, b ) );
            case fis::FIS_PROBOR: return clip( a + b - a*b );
            default: return clip( a + b );
        }
    }
    // crisp inputs, with the occasional value beyond its range
    void drawInputs( Ctx &t )
    {
        for ( size_t i = 0; i < in.size(); ++i ) {
            if ( t.chance( 1, 4 ) ) { continue; } // keeps its value
            const float w = in[ i ].hi - in[ i ].lo;
            float v = in[ i ].lo + t.f32( -0.1f, 1.1f )*w;
            if ( t.chance( 1, 4 ) ) { const Set &S = mi[ t.idx( mi.size() ) ]; if ( S.io == static_cast<int>( i ) && S.shape != fis::gbellmf ) { v = S.p[ t.idx( S.p.size() ) ]; } }
            if ( t.chance( 1, 6 ) ) { // an integer value, through the overload for integers
                const int q = static_cast<int>( v );
                in[ i ].v = static_cast<float>( q );
                sys() << static_cast<fis::tag>( i ) << q;
                continue;
            }
            in[ i ].v = v;
            if ( t.coin() ) { t.check( sys().setInput( static_cast<fis::tag>( i ), v ), "input refused" ); }
            else { sys() << static_cast<fis::tag>( i ) << v; }
        }
    }
    void drawSettings( Ctx &t )
    {
        static const int A[] = { fis::FIS_MIN, fis::FIS_PROD }, O[] = { fis::FIS_MAX, fis::FIS_PROBOR }, G[] = { fis::FIS_MAX, fis::FIS_PROBOR, fis::FIS_SUM };
        if ( t.coin() ) { andOp = t.pick( A ); t.check( sys().setParameter( fis::FIS_AND, static_cast<fis::paramValue>( andOp ) ), "AND refused" ); }
        if ( t.coin() ) { orOp = t.pick( O ); t.check( sys().setParameter( fis::FIS_OR, static_cast<fis::paramValue>( orOp ) ), "OR refused" ); }
        if ( t.coin() ) { imp = t.pick( A ); t.check( sys().setParameter( fis::FIS_Implication, static_cast<fis::paramValue>( imp ) ), "implication refused" ); }
        if ( t.coin() ) { agg = t.pick( G ); t.check( sys().setParameter( fis::FIS_Aggregation, static_cast<fis::paramValue>( agg ) ), "aggregation refused" ); }
        if ( t.chance( 1, 3 ) ) { t.check( sys().setRuleWeights( weights.get() ), "weights refused" ); weighted = true; }
        if ( t.coin() ) {
            method = kind == fis::Mamdani ? static_cast<int>( t.range( fis::centroid, fis::som ) ) : ( kind == fis::Sugeno ? static_cast<int>( t.range( fis::wtaver, fis::wtsum ) ) : fis::wtaver );
            t.check( sys().setDeFuzzMethod( static_cast<fis::deFuzzMethod>( method ) ), "defuzzification method refused" );
        }
    }
    Sys *beside{ nullptr }; // another system, worked on in between
    void other( Ctx &t )
    {
        if ( nullptr == beside || t.coin() ) { return; }
        switch ( t.bits( 3 ) ) {
            case 0: beside->drawSettings( t ); break;
            case 1: beside->drawInputs( t ); break;
            case 2: (void)beside->sys().fuzzify(); break;
            default: beside->evaluate( t ); break;
        }
    }
    void evaluate( Ctx &t )
    {
        other( t );
        t.check( sys().fuzzify(), "evaluation failed" );
        other( t );
        t.check( sys().inference(), "evaluation failed" );
        other( t );
        t.check( sys().deFuzzify(), "evaluation failed" );
        other( t );
    }
    double inValue( size_t i ) const { return clip( in[ i ].v, in[ i ].lo, in[ i ].hi ); }
    // firing strengths against the definition; returns whether some rule fires partially
    bool checkStrengths( Ctx &t )
    {
        bool partial = false;
        for ( size_t r = 0; r < rules.size(); ++r ) {
            double w = 0, tol = 2e-6;
            for ( size_t j = 0; j < rules[ r ].a.size(); ++j ) {
                const Prem &p = rules[ r ].a[ j ];
                const Set &S = mi[ p.mf ];
                const double x = inValue( static_cast<size_t>( S.io ) );
                double g = clip( clip( S.h )*shapeOf( S.shape, x, S.p ) );
                tol += gradeTol( S.shape, x, S.p, in[ static_cast<size_t>( S.io ) ].hi - in[ static_cast<size_t>( S.io ) ].lo );
                if ( p.neg ) { g = 1 - g; }
                w = ( j == 0u ) ? g : oper( rules[ r ].a[ j - 1u ].orNext ? orOp : andOp, w, g );
            }
            if ( weighted ) { w *= clip( weights[ r ] ); }
            t.near( "strength", wi[ r ], w, tol, "rule %zu\n%s", r, show().c_str() );
            t.check( wi[ r ] >= 0.0f && wi[ r ] <= 1.0f, "firing strength %.9g is outside [0,1]", wi[ r ] );
            partial = partial || ( w > 0.02 && w < 0.98 );
        }
        return partial;
    }
};
#endif
