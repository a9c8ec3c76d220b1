// P20: Sugeno and Tsukamoto inference
#include "fis_common.hpp"
namespace pbt {
const char *const PROPERTY = "P20";
const char *const RULE = "random Sugeno (constant and linear rule outputs) and Tsukamoto (seven monotonic output sets) systems with 1-3 inputs, 1-3 outputs, 1-5 rules (one system in 80: up to 110 inputs, 110 outputs, 41 sets per variable, 300 rules, 12 premises) mixing AND/OR, negation and rules that skip outputs, rule weights, both defuzzification methods, evaluated for several input vectors including set corners and out-of-range values; firing strengths are compared with the definition and every output with the weighted average or sum of the rule outputs (linear combination of the inputs, or the value at which the output set reaches the firing strength), limited to the output range; non-trivial = at least two rules fire for one output, or one partially";
}
static const float HUGEZ = 1e30f;
static void crisp( Ctx &t, Sys &S )
{
    for ( size_t o = 0; o < S.out.size(); ++o ) {
        const IO &r = S.out[ o ];
        double sw = 0, swz = 0, slip = 0, mag = 0;
        bool loose = false;
        size_t fired = 0;
        for ( size_t q = 0; q < S.rules.size(); ++q ) {
            const double w = S.wi[ q ];
            if ( !( w > 0 ) ) { continue; }
            for ( const Cons &c : S.rules[ q ].c ) {
                if ( c.out != static_cast<int>( o ) ) { continue; }
                const Set &m = S.mo[ c.mf ];
                double z = 0, dz = 0;
                if ( m.shape == fis::constantmf ) { z = m.p[ 0 ]; }
                else if ( m.shape == fis::linearmf ) {
                    for ( size_t i = 0; i < S.in.size(); ++i ) { const double v = m.p[ i ]*S.inValue( i ); z += v; dz += ( 3e-7 + 6e-8*static_cast<double>( S.in.size() ) )*std::fabs( v ); }
                    z += m.p[ S.in.size() ];
                    dz += 3e-7*std::fabs( m.p[ S.in.size() ] );
                }
                else {
                    z = inverseOf( m.shape, w, m.p, r.lo, r.hi );
                    const double a = inverseOf( m.shape, w*( 1 - 1e-6 ), m.p, r.lo, r.hi ), b = inverseOf( m.shape, std::min( 1.0, w*( 1 + 1e-6 ) ), m.p, r.lo, r.hi );
                    dz = std::fabs( a - z ) + std::fabs( b - z ) + 2e-6*( std::fabs( m.p[ 0 ] ) + std::fabs( m.p[ 1 ] ) );
                    if ( m.shape == fis::tsigmf ) { dz += 4e-5/std::fabs( m.p[ 0 ] ); if ( w < 1 && w > 1 - 2e-5 ) { loose = true; } if ( w < 1e-30 ) { loose = true; } }
                    if ( m.shape == fis::tconcavemf && w < 1e-30 ) { loose = true; }
                    if ( m.shape == fis::tsmf || m.shape == fis::tzmf ) { // the root loses digits next to 0 and 1, and at the inflection either branch will do
                        dz += 1e-3*std::fabs( m.p[ 1 ] - m.p[ 0 ] )*( w > 1 - 1e-4 ? 1.0 : 0.0 ) + 1e-6*( 1/std::sqrt( w ) + 1/std::sqrt( 1 - w + 1e-9 ) )*std::fabs( m.p[ 1 ] - m.p[ 0 ] );
                    }
                }
                if ( !( std::fabs( z ) < HUGEZ ) ) { loose = true; continue; }
                sw += w;
                swz += w*z;
                slip += w*( dz + 4e-7*std::fabs( z ) );
                mag += w*std::fabs( z );
                ++fired;
                if ( w > 0.02 && w < 0.98 ) { t.nontrivial(); }
            }
        }
        if ( fired > 1u ) { t.nontrivial(); }
        float got = -1e30f;
        t.check( S.sys().getOutput( static_cast<fis::tag>( o ), got ), "output refused" );
        t.check( pbt::sameBits( got, S.sys()[ static_cast<fis::tag>( o ) ] ), "the two output accessors disagree" );
        t.check( got >= r.lo && got <= r.hi, "output %.9g is outside its range [%.9g, %.9g]", got, r.lo, r.hi );
        if ( S.method == fis::wtaver && fired == 0u ) { t.label( "no rule fires" ); continue; } // which value the average of nothing takes is not specified
        if ( loose || sw < 1e-20 ) { if ( fired ) { t.label( "strength next to 0 or 1" ); continue; } }
        const double raw = S.method == fis::wtaver ? swz/sw : swz, rnd = ( 1e-6 + 1.2e-7*static_cast<double>( fired ) )*mag, e = S.method == fis::wtaver ? ( slip + rnd )/sw : slip + rnd;
        const char *what = S.method == fis::wtsum ? "weighted sum" : ( S.kind == fis::Sugeno ? "weighted average" : "Tsukamoto average" );
        t.near( what, got, clip( raw, r.lo, r.hi ), e + 2e-7*( std::fabs( r.lo ) + std::fabs( r.hi ) ), "output %zu in [%.9g, %.9g]\n%s", o, r.lo, r.hi, S.show().c_str() );
        if ( raw < r.lo || raw > r.hi ) { t.label( "limited to the range" ); }
    }
}
template <fis::type K> static void full( Ctx &t )
{
    Sys S( t, K, t.coin() );
    t.note( "%s", S.show().c_str() );
    std::unique_ptr<Sys> B;
    if ( t.chance( 1, 5 ) ) { static const fis::type KINDS[] = { fis::Mamdani, fis::Sugeno, fis::Tsukamoto }; B.reset( new Sys( t, t.pick( KINDS ), true ) ); S.beside = B.get(); t.note( "another system beside" ); }
    const size_t runs = 1u + t.bits( 5 );
    for ( size_t k = 0; k < runs; ++k ) {
        S.drawSettings( t );
        S.drawInputs( t );
        S.evaluate( t );
        for ( size_t i = 0; i < S.in.size(); ++i ) { t.note( "input %zu = %.9g in [%.9g, %.9g]", i, S.in[ i ].v, S.in[ i ].lo, S.in[ i ].hi ); }
        t.note( "and %d or %d method %d weighted %d", S.andOp, S.orOp, S.method, S.weighted );
        S.checkStrengths( t );
        crisp( t, S );
    }
}
// one rule whose strength is chosen directly: the output set is inverted over the whole [0,1]
static void invert( Ctx &t )
{
    const int s = static_cast<int>( t.range( fis::tlinsmf, fis::trampmf ) );
    IO r = Sys::range( t );
    const std::vector<float> p = drawPoints( t, s, r.lo, r.hi );
    const float lo = r.lo - 10.0f*( r.hi - r.lo ), hi = r.hi + 10.0f*( r.hi - r.lo );
    std::unique_ptr<float[]> cp( new float[ p.size() ] );
    std::copy( p.begin(), p.end(), cp.get() );
    static const float ramp[] = { 0.0f, 1.0f };
    static const fis::rules code[] = { fis::Q_FIS_RULES_BEGIN, 0, 1, fis::Q_FIS_THEN, 0, 1, fis::Q_FIS_RULES_END };
    fis::input x[ 1 ];
    fis::output y[ 1 ];
    fis::mf mi[ 1 ], mo[ 1 ];
    float wi[ 1 ];
    fis::instance f;
    t.check( f.setup( fis::Tsukamoto, x, y, mi, mo, code, wi ), "set-up refused" );
    t.check( f.setupInput( 0, 0.0f, 1.0f ) && f.setupOutput( 0, lo, hi ) && f.setupInputMF( 0, 0, fis::linsmf, ramp ) && f.setupOutputMF( 0, 0, static_cast<fis::shapeMF>( s ), cp.get() ), "set refused" );
    static const float EDGE[] = { 1.0f, 0.5f, 0.25f, 0.75f, 0.49999997f, 0.50000006f, 0.125f, 0.875f };
    float prevW = -1, prevZ = 0;
    int dir = 0;
    std::vector<float> ws;
    for ( size_t k = 2u + t.bits( 4 ); k > 0; --k ) { ws.push_back( t.chance( 1, 4 ) ? t.pick( EDGE ) : t.f32( 0.02f, 1.0f ) ); }
    std::sort( ws.begin(), ws.end() );
    for ( float w : ws ) {
        t.check( f.setInput( 0, w ) && f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation failed" );
        t.check( std::fabs( wi[ 0 ] - w ) <= 3e-7f, "firing strength of a unit ramp at %.9g is %.9g", w, wi[ 0 ] );
        const float z = f[ 0 ];
        const double e = inverseOf( s, wi[ 0 ], p, lo, hi );
        if ( s == fis::tsigmf && ( w > 1 - 2e-5f ) && w < 1 ) { continue; }
        double tol = 4e-6*( std::fabs( p[ 0 ] ) + std::fabs( p[ 1 ] ) );
        if ( s == fis::tsigmf ) { tol = 3e-6*std::fabs( p[ 1 ] ) + ( 4e-5 + 1e-6/( 1 - w + 1e-9 ) )/std::fabs( p[ 0 ] ); if ( wi[ 0 ] == 1.0f ) { tol = 1e-5*( std::fabs( lo ) + std::fabs( hi ) ); } }
        if ( s == fis::tconcavemf ) { tol += 2e-6*std::fabs( ( p[ 0 ] - p[ 1 ] )/w ); }
        if ( s == fis::tsmf || s == fis::tzmf ) { tol += ( 1e-6/std::sqrt( w ) + 1e-6/std::sqrt( 1 - w + 1e-9 ) )*std::fabs( p[ 1 ] - p[ 0 ] ) + ( w > 1 - 1e-4 ? 1e-3*std::fabs( p[ 1 ] - p[ 0 ] ) : 0.0 ); }
        t.near( "inverse", z, clip( e, lo, hi ), tol, "%s( %.9g, %.9g ) at grade %.9g", MFNAME[ s ], p[ 0 ], p[ 1 ], w );
        // monotonic in the strength
        if ( prevW >= 0 && std::fabs( z - prevZ ) > 3*tol && w - prevW > 1e-3 ) {
            const int d = z > prevZ ? 1 : -1;
            t.check( dir == 0 || d == dir, "%s is not monotonic", MFNAME[ s ] );
            dir = d;
            t.nontrivial();
        }
        prevW = w;
        prevZ = z;
    }
}
// through the templated system and the rule macros
static void macros( Ctx &t )
{
    enum : fis::tag { speed, load };
    enum : fis::tag { slow, fast, light, heavy };
    enum : fis::tag { fuel, brake };
    enum : fis::tag { low, high, soft, hard };
    static const fis::rules rules[] = {
        FIS_RULES_BEGIN
            IF speed IS slow AND load IS light THEN fuel IS low AND brake IS soft END
            IF speed IS fast OR load IS heavy THEN fuel IS high END
            IF speed IS_NOT slow AND load IS heavy THEN brake IS hard END
        FIS_RULES_END
    };
    const bool tk = t.coin();
    static const float a0[] = { 0.0f, 100.0f }, l0[] = { 2.0f, 8.0f };
    const float k1[] = { t.f32( -1.0f, 1.0f ), t.f32( -1.0f, 1.0f ), t.f32( 0.0f, 10.0f ) }, k2[] = { t.f32( 0.0f, 20.0f ), t.f32( 21.0f, 40.0f ) };
    const float sp = t.f32( 0.0f, 100.0f ), ld = t.f32( 0.0f, 10.0f );
    auto V = []( const float *p ) { return std::vector<float>( p, p + 2 ); };
    const double z1 = 1 - clip( sp/100.0 ), f1 = clip( sp/100.0 ), z2 = shapeOf( fis::zmf, ld, V( l0 ) ), s2 = 1 - z2;
    const double w[] = { std::min( z1, z2 ), std::max( f1, s2 ), std::min( 1 - z1, s2 ) };
    auto drive = [&]( auto &s, auto &o, bool lin ) {
        static const float q0[] = { 20.0f, 60.0f }, q1[] = { 1.0f, 2.0f, 3.0f };
        const bool two = t.coin(), first = t.coin(); // o: another one of the same kind, all of its numbers different
        auto prepare = [&]() {
            const fis::shapeMF x = lin ? fis::linearmf : fis::tlinsmf;
            t.check( o.setup() && o.setupInput( speed, 0.0f, 90.0f ) && o.setupInput( load, 1.0f, 80.0f ) && o.setupOutput( fuel, -2.0f, 2.0f ) && o.setupOutput( brake, -3.0f, 2.0f ), "set-up refused" );
            for ( int i = 0; i < 4; ++i ) { t.check( o.setupInputMF( static_cast<fis::tag>( i/2 ), static_cast<fis::tag>( i ), fis::linsmf, q0 ) && o.setupOutputMF( static_cast<fis::tag>( i/2 ), static_cast<fis::tag>( i ), x, q1 ), "set refused" ); }
            t.check( o.setParameter( fis::FIS_AND, fis::FIS_PROD ) && o.setParameter( fis::FIS_OR, fis::FIS_PROBOR ), "setting refused" );
            if ( lin ) { t.check( o.setDeFuzzMethod( fis::wtsum ), "method refused" ); }
        };
        auto between = [&]() { if ( two && t.coin() ) { o << speed << t.f32( 0.0f, 90.0f ) << load << t.f32( 0.0f, 90.0f ); t.check( o.fuzzify() && o.inference() && o.deFuzzify(), "evaluation failed" ); } };
        if ( two && first ) { prepare(); }
        t.check( s.setup() && s.setupInput( speed, 0.0f, 100.0f ) && s.setupInput( load, 0.0f, 10.0f ) && s.setupOutput( fuel, -200.0f, 200.0f ) && s.setupOutput( brake, -200.0f, 200.0f ), "set-up refused" );
        t.check( s.setupInputMF( speed, slow, fis::linzmf, a0 ) && s.setupInputMF( speed, fast, fis::linsmf, a0 ) && s.setupInputMF( load, light, fis::zmf, l0 ) && s.setupInputMF( load, heavy, fis::smf, l0 ), "input set refused" );
        const fis::shapeMF x = lin ? fis::linearmf : fis::tlinsmf, y = lin ? fis::constantmf : fis::tlinzmf;
        t.check( s.setupOutputMF( fuel, low, y, k2 ) && s.setupOutputMF( fuel, high, x, lin ? k1 : k2 ) && s.setupOutputMF( brake, soft, y, k2 ) && s.setupOutputMF( brake, hard, x, lin ? k1 : k2 ), "output set refused" );
        if ( two && !first ) { prepare(); }
        between();
        if ( t.coin() ) { s << speed << sp << load << ld; } else { t.check( s.setInput( speed, sp ) && s.setInput( load, ld ), "input refused" ); }
        between();
        t.check( s.fuzzify(), "evaluation failed" );
        between();
        t.check( s.inference(), "evaluation failed" );
        between();
        t.check( s.deFuzzify(), "evaluation failed" );
        between();
        auto X = [&]( double g ) { return lin ? k1[ 0 ]*static_cast<double>( sp ) + k1[ 1 ]*static_cast<double>( ld ) + k1[ 2 ] : k2[ 0 ] + ( k2[ 1 ] - static_cast<double>( k2[ 0 ] ) )*g; };
        auto Y = [&]( double g ) { return lin ? static_cast<double>( k2[ 0 ] ) : k2[ 1 ] - ( k2[ 1 ] - static_cast<double>( k2[ 0 ] ) )*g; };
        const double sw0 = w[ 0 ] + w[ 1 ], sw1 = w[ 0 ] + w[ 2 ];
        float o0 = 0, o1 = 0;
        t.check( s.getOutput( fuel, o0 ) && s.getOutput( brake, o1 ) && pbt::sameBits( o0, s[ fuel ] ) && pbt::sameBits( o1, s[ brake ] ), "output accessors disagree" );
        if ( sw0 > 0.05 ) { t.near( "fuel", o0, ( w[ 0 ]*Y( w[ 0 ] ) + w[ 1 ]*X( w[ 1 ] ) )/sw0, 5e-3, "speed %.9g load %.9g", sp, ld ); }
        if ( sw1 > 0.05 ) { t.near( "brake", o1, ( w[ 0 ]*Y( w[ 0 ] ) + w[ 2 ]*X( w[ 2 ] ) )/sw1, 5e-3, "speed %.9g load %.9g", sp, ld ); }
        t.check( s.getNumberOfPoints() == 100u, "number of points" );
    };
    if ( tk ) { fis::system<fis::Tsukamoto, 2, 2, 4, 4, 3> s( rules ), o( rules ); drive( s, o, false ); }
    else { fis::system<fis::Sugeno, 2, 2, 4, 4, 3> s( rules ), o( rules ); drive( s, o, true ); }
    t.nontrivial();
}
// rule sets whose code is longer than a 16-bit index can reach
static void manyRules( Ctx &t )
{
    static const size_t N[] = { 250, 300, 13100, 13200, 17000 };
    const size_t nr = t.pick( N ) + t.bits( 20 );
    const uint64_t sd = t.bits( 255 );
    const bool ts = t.coin(), sum = !ts && t.coin();
    fis::input x[ 3 ];
    fis::output y[ 2 ];
    fis::mf mi[ 6 ], mo[ 8 ];
    static const float ramp[] = { 0.0f, 1.0f }, halfRamp[] = { 0.5f, 1.0f };
    float z[ 8 ][ 2 ];
    std::unique_ptr<float[]> wi( new float[ nr ] );
    std::unique_ptr<fis::rules[]> code( new fis::rules[ 5u*nr + 2u ] );
    size_t c = 0;
    code[ c++ ] = fis::Q_FIS_RULES_BEGIN;
    for ( size_t r = 0; r < nr; ++r ) {
        const uint64_t h = pbt::mix64( sd*7919u + r );
        const int m = static_cast<int>( h % 6u ), o = static_cast<int>( ( h >> 8 ) % 8u );
        code[ c++ ] = static_cast<fis::rules>( m/2 );
        code[ c++ ] = static_cast<fis::rules>( ( ( h >> 16 ) & 1u ) ? -( m + 1 ) : m + 1 );
        code[ c++ ] = fis::Q_FIS_THEN;
        code[ c++ ] = static_cast<fis::rules>( o/4 );
        code[ c++ ] = static_cast<fis::rules>( o + 1 );
    }
    code[ c++ ] = fis::Q_FIS_RULES_END;
    fis::instance f;
    t.check( f.setup( ts ? fis::Tsukamoto : fis::Sugeno, x, 3u, y, 2u, mi, 6u, mo, 8u, code.get(), nr, wi.get() ), "set-up refused" );
    for ( fis::tag i = 0; i < 3; ++i ) { t.check( f.setupInput( i, 0.0f, 1.0f ), "input refused" ); }
    for ( fis::tag i = 0; i < 2; ++i ) { t.check( f.setupOutput( i, -1e9f, 1e9f ), "output refused" ); }
    for ( fis::tag i = 0; i < 6; ++i ) { t.check( f.setupInputMF( static_cast<fis::tag>( i/2 ), i, fis::linsmf, ( i & 1 ) ? halfRamp : ramp ), "input set refused" ); }
    for ( fis::tag i = 0; i < 8; ++i ) {
        z[ i ][ 0 ] = t.f32( 1.0f, 10.0f ); z[ i ][ 1 ] = z[ i ][ 0 ] + t.f32( 1.0f, 10.0f );
        t.check( f.setupOutputMF( static_cast<fis::tag>( i/4 ), i, ts ? fis::tlinsmf : fis::constantmf, z[ i ] ), "output set refused" );
    }
    t.check( f.setDeFuzzMethod( sum ? fis::wtsum : fis::wtaver ), "method refused" );
    float in[ 3 ];
    for ( fis::tag i = 0; i < 3; ++i ) { in[ i ] = t.f32( 0.05f, 0.95f ); t.check( f.setInput( i, in[ i ] ), "input refused" ); }
    t.check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation failed" );
    double sw[ 2 ] = { 0, 0 }, sz[ 2 ] = { 0, 0 };
    for ( size_t r = 0; r < nr; ++r ) {
        const uint64_t h = pbt::mix64( sd*7919u + r );
        const size_t m = h % 6u, o = ( h >> 8 ) % 8u;
        double g = ( m & 1u ) ? std::max( 0.0, ( in[ m/2 ] - 0.5 )*2.0 ) : in[ m/2 ];
        if ( ( h >> 16 ) & 1u ) { g = 1.0 - g; }
        t.near( "firing strength", wi[ r ], g, 1e-6, "rule %zu of %zu", r, nr );
        sw[ o/4u ] += g;
        if ( g > 0.0 ) { sz[ o/4u ] += g*( ts ? z[ o ][ 0 ] + g*( z[ o ][ 1 ] - z[ o ][ 0 ] ) : z[ o ][ 0 ] ); }
    }
    for ( fis::tag i = 0; i < 2; ++i ) { t.near( "output", f[ i ], sum ? sz[ i ] : sz[ i ]/sw[ i ], 1e-3*( sum ? sz[ i ] : 20.0 ), "%zu rules, output %d", nr, i ); }
    if ( c > 65536u ) { t.nontrivial(); }
}
const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "sugeno", full<fis::Sugeno>, 60000 }, { "tsukamoto", full<fis::Tsukamoto>, 60000 }, { "inverse", invert, 100000 }, { "macros", macros, 60000 }, { "manyRules", manyRules, 80 } };
    return s;
}
