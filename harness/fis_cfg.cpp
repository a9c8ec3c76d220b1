// P22: fuzzy system configuration, malformed rules and memory safety
#include "fis_common.hpp"
namespace pbt {
const char *const PROPERTY = "P22";
const char *const RULE = "systems that were never set up, set-ups with a missing part, twin systems of every kind of which one is also given tags beyond its inputs, outputs and sets, negative tags, operators and defuzzification methods its kind does not support, and region buffers that are missing or too short (all refused, the twins staying bit-identical, exactly sized arrays under AddressSanitizer), malformed rule tables (missing begin mark, wrong rule count, unknown connector, nonexistent input), out-of-range and NaN inputs against the range limit, and re-set-up; non-trivial = something was refused on a working system, or a malformed table rejected";
}
static void unready( Ctx &t )
{
    pbt::Junk<fis::instance> J( static_cast<uint8_t>( t.bits( 255 ) ) );
    fis::instance &f = *J;
    static const float p[] = { 0.0f, 1.0f, 2.0f, 3.0f };
    static const fis::rules code[] = { fis::Q_FIS_RULES_BEGIN, 0, 1, fis::Q_FIS_THEN, 0, 1, fis::Q_FIS_RULES_END };
    const fis::tag g = static_cast<fis::tag>( t.range( -128, 127 ) ), h = static_cast<fis::tag>( t.range( -128, 127 ) );
    float v = 5.0f;
    auto nothing = [&]() {
        t.check( !f.setupInput( g, 0.0f, 1.0f ) && !f.setupOutput( g, 0.0f, 1.0f ), "variable accepted before set-up" );
        t.check( !f.setupInputMF( g, h, fis::trimf, p ) && !f.setupOutputMF( g, h, fis::trimf, p ), "set accepted before set-up" );
        t.check( !f.setInput( g, 1.0f ) && !f.getOutput( g, v ) && v == 5.0f, "value accepted before set-up" );
        t.check( !f.fuzzify() && !f.inference() && !f.deFuzzify(), "evaluation before set-up" );
        f << g << 1.0f << 3;
    };
    nothing();
    // a set-up with one part missing is refused and changes nothing
    fis::input x[ 1 ];
    fis::output y[ 1 ];
    fis::mf mi[ 1 ], mo[ 1 ];
    float wi[ 1 ], ax[ 100 ], ay[ 100 ];
    t.check( !y[ 0 ].storeAggregatedRegion( ax, ay ), "region accepted by an output without an owner" );
    const fis::type k = static_cast<fis::type>( t.bits( 2 ) );
    auto setup = [&]( int miss ) {
        return f.setup( k, miss == 0 ? nullptr : x, miss == 1 ? 0u : 1u, miss == 2 ? nullptr : y, miss == 3 ? 0u : 1u, miss == 4 ? nullptr : mi, miss == 5 ? 0u : 1u,
                        miss == 6 ? nullptr : mo, miss == 7 ? 0u : 1u, miss == 8 ? nullptr : code, miss == 9 ? 0u : 1u, miss == 10 ? nullptr : wi );
    };
    const int miss = static_cast<int>( t.bits( 9 ) );
    t.check( !setup( miss ), "set-up with part %d missing accepted", miss );
    nothing();
    t.check( !y[ 0 ].storeAggregatedRegion( ax, ay ), "region accepted after a refused set-up" );
    if ( t.coin() ) { // without room for the firing strengths there is no inference
        t.check( setup( 10 ), "set-up refused" );
        t.check( f.setupInput( 0, 0.0f, 1.0f ) && f.setupOutput( 0, 0.0f, 1.0f ), "variables refused" );
        t.check( !f.inference() && !f.deFuzzify(), "inference without firing strengths" );
    }
    t.check( setup( 11 ), "set-up refused" );
    static const float ramp[] = { 0.0f, 1.0f };
    const fis::shapeMF so = k == fis::Mamdani ? fis::linsmf : ( k == fis::Sugeno ? fis::constantmf : fis::tlinsmf );
    t.check( f.setupInput( 0, 0.0f, 1.0f ) && f.setupOutput( 0, -1.0f, 1.0f ) && f.setupInputMF( 0, 0, fis::linsmf, ramp ) && f.setupOutputMF( 0, 0, so, ramp ), "variables refused" );
    const float u = t.f32( 0.1f, 1.0f );
    t.check( f.setInput( 0, u ) && f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation failed" );
    t.check( std::fabs( wi[ 0 ] - u ) <= 3e-7f, "firing strength is %.9g, expected %.9g", wi[ 0 ], u );
    if ( k != fis::Mamdani ) { t.near( "output", f[ 0 ], k == fis::Sugeno ? 0.0 : u, 1e-6, "input %.9g", u ); }
    t.nontrivial();
}
static bool sameOutputs( Ctx &t, Sys &A, Sys &B )
{
    for ( size_t o = 0; o < A.out.size(); ++o ) { const float a = A.sys()[ static_cast<fis::tag>( o ) ], b = B.sys()[ static_cast<fis::tag>( o ) ]; if ( !( pbt::sameBits( a, b ) || ( std::isnan( a ) && std::isnan( b ) ) ) ) { return false; } }
    for ( size_t r = 0; r < A.rules.size(); ++r ) { if ( !pbt::sameBits( A.wi[ r ], B.wi[ r ] ) ) { return false; } }
    return true;
}
static void refused( Ctx &t )
{
    const fis::type k = static_cast<fis::type>( t.bits( 2 ) );
    const uint64_t seed = t.bits( 0xFFFFFFu );
    Ctx ca( seed ), cb( seed );
    Sys A( ca, k, false ), B( cb, k, false );
    t.note( "%s", A.show().c_str() );
    static const float junk[] = { 0.3f, 0.4f, 0.5f, 0.6f };
    const size_t steps = 2u + t.bits( 8 );
    for ( size_t n = 0; n < steps; ++n ) {
        ca.rng.s = cb.rng.s = t.bits( UINT64_MAX );
        A.drawSettings( ca ); B.drawSettings( cb );
        A.drawInputs( ca ); B.drawInputs( cb );
        for ( size_t q = 1u + t.bits( 2 ); q > 0; --q ) {
            auto beyond = [&]( size_t m ) { return static_cast<fis::tag>( t.coin() ? t.range( static_cast<int64_t>( m ), 127 ) : -1 - static_cast<int64_t>( t.bits( 127 ) ) ); };
            auto some = [&]( size_t m ) { return static_cast<fis::tag>( t.idx( m ) ); };
            fis::instance &f = A.sys();
            t.nontrivial();
            switch ( t.bits( 12 ) ) {
                case 0: { const fis::tag g = beyond( A.in.size() ); t.check( !f.setupInput( g, 0.0f, 1.0f ) && !f.setInput( g, 0.7f ), "input tag %d of %zu accepted", g, A.in.size() ); break; }
                case 1: { const fis::tag g = beyond( A.out.size() ); float v = 9.0f; t.check( !f.setupOutput( g, 0.0f, 1.0f ) && !f.getOutput( g, v ) && v == 9.0f, "output tag %d of %zu accepted", g, A.out.size() ); break; }
                case 2: { const fis::tag g = beyond( A.in.size() ), m = some( A.mi.size() ); t.check( !f.setupInputMF( g, m, fis::trimf, junk ), "set on input %d of %zu accepted", g, A.in.size() ); break; }
                case 3: { const fis::tag g = some( A.in.size() ), m = beyond( A.mi.size() ); t.check( !f.setupInputMF( g, m, fis::trimf, junk ), "input set %d of %zu accepted", m, A.mi.size() ); break; }
                case 4: { const fis::tag g = beyond( A.out.size() ), m = some( A.mo.size() ); t.check( !f.setupOutputMF( g, m, fis::trimf, junk ), "set on output %d of %zu accepted", g, A.out.size() ); break; }
                case 5: { const fis::tag g = some( A.out.size() ), m = beyond( A.mo.size() ); t.check( !f.setupOutputMF( g, m, fis::trimf, junk ), "output set %d of %zu accepted", m, A.mo.size() ); break; }
                case 6: { const bool in = t.coin(); t.check( !( in ? f.setupInputMF( some( A.in.size() ), some( A.mi.size() ), fis::FIS_NUM_MFS, junk ) : f.setupOutputMF( some( A.out.size() ), some( A.mo.size() ), fis::FIS_NUM_MFS, junk ) ), "unknown shape accepted" ); break; }
                case 7: { // operators each parameter does not support
                    static const int bad[][ 2 ] = { { fis::FIS_Implication, fis::FIS_MAX }, { fis::FIS_Implication, fis::FIS_PROBOR }, { fis::FIS_Implication, fis::FIS_SUM }, { fis::FIS_Aggregation, fis::FIS_MIN }, { fis::FIS_Aggregation, fis::FIS_PROD },
                        { fis::FIS_AND, fis::FIS_MAX }, { fis::FIS_AND, fis::FIS_PROBOR }, { fis::FIS_AND, fis::FIS_SUM }, { fis::FIS_OR, fis::FIS_MIN }, { fis::FIS_OR, fis::FIS_PROD }, { fis::FIS_OR, fis::FIS_SUM } };
                    const int *b = bad[ t.idx( 11 ) ];
                    t.check( !f.setParameter( static_cast<fis::parameter>( b[ 0 ] ), static_cast<fis::paramValue>( b[ 1 ] ) ), "operator %d accepted for parameter %d", b[ 1 ], b[ 0 ] );
                    break;
                }
                case 8: { // defuzzification methods of the other kinds
                    const int m = k == fis::Mamdani ? static_cast<int>( t.range( fis::wtaver, fis::FIS_NUM_DEFUZZ ) ) : ( k == fis::Sugeno ? ( t.coin() ? static_cast<int>( t.range( fis::centroid, fis::som ) ) : static_cast<int>( fis::FIS_NUM_DEFUZZ ) ) : ( t.coin() ? static_cast<int>( t.range( fis::centroid, fis::som ) ) : static_cast<int>( t.range( fis::wtsum, fis::FIS_NUM_DEFUZZ ) ) ) );
                    t.check( !f.setDeFuzzMethod( static_cast<fis::deFuzzMethod>( m ) ), "method %d accepted by a system of kind %d", m, k );
                    break;
                }
                case 9: t.check( !f.setRuleWeights( nullptr ), "missing weights accepted" ); break;
                case 10: { // region buffers
                    std::unique_ptr<float[]> x( new float[ 100 ] ), y( new float[ 100 ] );
                    fis::output &o = A.xo[ t.idx( A.out.size() ) ];
                    const size_t n = t.bits( 99 );
                    const int w = static_cast<int>( t.bits( 2 ) );
                    t.check( !o.storeAggregatedRegion( w == 0 ? nullptr : x.get(), w == 1 ? nullptr : y.get(), w == 2 ? n : 100u ), "region buffer accepted" );
                    break;
                }
                case 11: { // a subscript beyond the outputs reads the last one
                    const fis::tag g = beyond( A.out.size() );
                    t.check( pbt::eqv( f[ g ], f[ static_cast<fis::tag>( A.out.size() - 1u ) ] ), "subscript %d of %zu outputs", g, A.out.size() );
                    break;
                }
                default: { // a tag that does not exist selects nothing: no memory outside the inputs is written
                    const fis::tag g = beyond( A.in.size() );
                    f << g;
                    break;
                }
            }
        }
        const bool ea = A.sys().fuzzify() && A.sys().inference() && A.sys().deFuzzify(), eb = B.sys().fuzzify() && B.sys().inference() && B.sys().deFuzzify();
        t.check( ea && eb, "evaluation failed" );
        t.check( sameOutputs( t, A, B ), "a refused setting changed the outputs" );
    }
}
// malformed rule tables are rejected without touching memory outside them
static void malformed( Ctx &t )
{
    const fis::type k = static_cast<fis::type>( t.bits( 2 ) );
    const uint64_t seed = t.bits( 0xFFFFFFu );
    Ctx ca( seed );
    Sys A( ca, k, true );
    A.drawInputs( ca );
    std::vector<fis::rules> v = A.encode();
    const size_t nr = A.rules.size();
    size_t n = nr;
    // positions of the premises: start of each premise triple
    std::vector<size_t> prem, conn;
    { size_t i = 1u; for ( const Rule &R : A.rules ) { for ( size_t j = 0; j < R.a.size(); ++j ) { prem.push_back( i ); conn.push_back( i + 2u ); i += 3u; } i += R.c.size()*3u - 1u; } }
    const int how = static_cast<int>( t.bits( 5 ) );
    switch ( how ) {
        case 0: v[ 0 ] = static_cast<fis::rules>( t.bits( 3 ) ); break;                              // no begin mark
        case 1: n = nr + 1u + t.bits( 3 ); break;                                                     // more rules announced than written
        case 2: if ( nr < 2u ) { t.discard(); } n = 1u + t.idx( nr - 1u ); break;                    // fewer
        case 3: v[ t.pick( conn ) ] = static_cast<fis::rules>( t.range( 0, 20 ) ); break;              // a number where a connector belongs
        case 4: v[ t.pick( prem ) ] = static_cast<fis::rules>( t.range( static_cast<int64_t>( A.in.size() ), 127 ) ); break; // input that does not exist
        default: v[ t.pick( prem ) ] = static_cast<fis::rules>( t.range( -100, -1 ) ); break;
    }
    std::unique_ptr<fis::rules[]> code( new fis::rules[ v.size() ] );
    std::copy( v.begin(), v.end(), code.get() );
    std::unique_ptr<float[]> wi( new float[ n ] );
    for ( size_t i = 0; i < n; ++i ) { wi[ i ] = 0.0f; }
    fis::instance &f = A.sys();
    t.check( f.setup( k, A.xi.get(), A.in.size(), A.xo.get(), A.out.size(), A.xmi.get(), A.mi.size(), A.xmo.get(), A.mo.size(), code.get(), n, wi.get() ), "set-up refused" );
    t.note( "%s how %d announced %zu", A.show().c_str(), how, n );
    t.check( f.fuzzify(), "fuzzify refused" );
    t.check( !f.inference(), "malformed rules (kind of fault %d) accepted", how );
    t.nontrivial();
    // the instance recovers when it is set up again with the good table
    t.check( f.setup( k, A.xi.get(), A.in.size(), A.xo.get(), A.out.size(), A.xmi.get(), A.mi.size(), A.xmo.get(), A.mo.size(), A.code.get(), nr, A.wi.get() ), "set-up refused" );
    A.evaluate( t );
    A.checkStrengths( t );
}
// an input beyond its range counts as the limit, and setting up again restores the default operators
static void limits( Ctx &t )
{
    const fis::type k = static_cast<fis::type>( t.bits( 2 ) );
    const uint64_t seed = t.bits( 0xFFFFFFu );
    Ctx ca( seed ), cb( seed );
    Sys A( ca, k, false ), B( cb, k, false );
    ca.rng.s = cb.rng.s = t.bits( UINT64_MAX );
    A.drawInputs( ca ); B.drawInputs( cb );
    for ( size_t i = 0; i < A.in.size(); ++i ) {
        if ( t.chance( 1, 3 ) ) { continue; }
        const bool up = t.coin();
        const float lim = up ? A.in[ i ].hi : A.in[ i ].lo, w = A.in[ i ].hi - A.in[ i ].lo;
        float over = t.chance( 1, 4 ) ? ( up ? INFINITY : -INFINITY ) : lim + ( up ? 1.0f : -1.0f )*t.f32log( 1e-3f, 1e6f )*w;
        t.check( A.sys().setInput( static_cast<fis::tag>( i ), lim ) && B.sys().setInput( static_cast<fis::tag>( i ), over ), "input refused" );
        t.nontrivial();
    }
    if ( t.coin() ) { // whatever was configured, set-up starts from min/max and the kind's first method (rule weights are left out)
        A.sys().setParameter( fis::FIS_AND, fis::FIS_PROD );
        A.sys().setParameter( fis::FIS_OR, fis::FIS_PROBOR );
        A.sys().setParameter( fis::FIS_Implication, fis::FIS_PROD );
        A.sys().setParameter( fis::FIS_Aggregation, fis::FIS_SUM );
        A.sys().setDeFuzzMethod( k == fis::Mamdani ? fis::lom : fis::wtsum );
        t.check( A.sys().setup( k, A.xi.get(), A.in.size(), A.xo.get(), A.out.size(), A.xmi.get(), A.mi.size(), A.xmo.get(), A.mo.size(), A.code.get(), A.rules.size(), A.wi.get() ), "set-up refused" );
    }
    A.evaluate( t );
    B.evaluate( t );
    t.check( sameOutputs( t, A, B ), "an input beyond its range does not count as the limit" );
    // evaluating again without a change gives the same
    std::vector<float> y;
    for ( size_t o = 0; o < A.out.size(); ++o ) { y.push_back( A.sys()[ static_cast<fis::tag>( o ) ] ); }
    A.evaluate( t );
    t.check( sameOutputs( t, A, B ), "a second evaluation differs" );
}
// NaN inputs, zero-width and reversed ranges: whatever comes out, memory stays intact and grades stay in [0,1]
static void wild( Ctx &t )
{
    const fis::type k = static_cast<fis::type>( t.bits( 2 ) );
    Sys A( t, k, false );
    for ( size_t n = 1u + t.bits( 3 ); n > 0; --n ) {
        A.drawSettings( t );
        for ( size_t i = 0; i < A.in.size(); ++i ) { t.check( A.sys().setInput( static_cast<fis::tag>( i ), t.f32any( true ) ), "input refused" ); }
        A.evaluate( t );
        for ( size_t r = 0; r < A.rules.size(); ++r ) { t.check( A.wi[ r ] >= 0.0f && A.wi[ r ] <= 1.0f, "firing strength %.9g", A.wi[ r ] ); }
        for ( size_t o = 0; o < A.out.size(); ++o ) { const float y = A.sys()[ static_cast<fis::tag>( o ) ]; t.check( y >= A.out[ o ].lo && y <= A.out[ o ].hi, "output %.9g outside [%.9g, %.9g]", y, A.out[ o ].lo, A.out[ o ].hi ); }
        t.nontrivial();
    }
}
const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "unready", unready, 30000 }, { "refused", refused, 12000 }, { "malformed", malformed, 40000 }, { "limits", limits, 12000 }, { "wild", wild, 12000 } };
    return s;
}
