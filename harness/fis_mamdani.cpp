// P19: Mamdani inference
#include "fis_common.hpp"
namespace pbt {
const char *const PROPERTY = "P19";
const char *const RULE = "random Mamdani systems (1-3 inputs, 1-2 outputs, 1-3 sets per variable of every shape and any height, 1-5 rules (one system in 80: up to 110 inputs, 41 outputs, 41 sets per variable, 300 rules, 12 premises) with negated premises and consequents, AND/OR mixes, rules that skip outputs) with random operators, rule weights and defuzzification methods, evaluated for several input vectors including values at set corners and beyond the input range; firing strengths are compared with the definition, the stored aggregated region with the implied/aggregated output sets, and the crisp output with the defuzzification of that region; non-trivial = at least one rule fires partially";
}
static const size_t NP = 100;
static void region( Ctx &t, Sys &S, size_t o )
{
    const IO &r = S.out[ o ];
    const double span = static_cast<double>( r.hi ) - r.lo, mag = std::fabs( static_cast<double>( r.lo ) ) + std::fabs( static_cast<double>( r.hi ) );
    for ( size_t k = 0; k < NP; ++k ) {
        const double x = S.xag[ o ][ k ];
        t.near( "abscissa", x, r.lo + ( static_cast<double>( k ) + 0.5 )*span/NP, 5e-7*( mag + span ), "point %zu of output %zu in [%.9g, %.9g]", k, o, r.lo, r.hi );
        double y = 0, tol = 2e-6;
        for ( size_t q = 0; q < S.rules.size(); ++q ) {
            for ( const Cons &c : S.rules[ q ].c ) {
                if ( c.out != static_cast<int>( o ) ) { continue; }
                const Set &m = S.mo[ c.mf ];
                double v = clip( m.h )*shapeOf( m.shape, x, m.p );
                tol += gradeTol( m.shape, x, m.p, span );
                if ( c.neg ) { v = 1 - v; }
                if ( S.wi[ q ] > 0.0f ) { y = Sys::oper( S.agg, y, Sys::oper( S.imp, S.wi[ q ], v ) ); }
            }
        }
        t.near( "aggregated grade", S.yag[ o ][ k ], y, tol, "output %zu at %.9g\n%s", o, x, S.show().c_str() );
    }
}
static void crisp( Ctx &t, Sys &S, size_t o )
{
    const IO &r = S.out[ o ];
    const float *X = S.xag[ o ].get(), *Y = S.yag[ o ].get();
    float got = -1e30f;
    t.check( S.sys().getOutput( static_cast<fis::tag>( o ), got ), "output refused" );
    t.check( pbt::sameBits( got, S.sys()[ static_cast<fis::tag>( o ) ] ), "the two output accessors disagree" );
    t.check( got >= r.lo && got <= r.hi, "output %.9g is outside its range [%.9g, %.9g]", got, r.lo, r.hi );
    const double span = static_cast<double>( r.hi ) - r.lo, mag = std::fabs( static_cast<double>( r.lo ) ) + std::fabs( static_cast<double>( r.hi ) );
    double sy = 0, sxy = 0, ym = 0;
    for ( size_t k = 0; k < NP; ++k ) { sy += Y[ k ]; sxy += static_cast<double>( X[ k ] )*Y[ k ]; ym = std::max( ym, static_cast<double>( Y[ k ] ) ); }
    if ( sy < 1e-20 ) { t.label( "no rule fires" ); if ( sy > 0 || S.method == fis::centroid || S.method == fis::bisector ) { return; } }
    switch ( S.method ) {
        case fis::centroid: t.near( "centroid", got, sxy/sy, 1.2e-5*( mag + span ), "output %zu", o ); break;
        case fis::bisector: {
            double c = 0;
            size_t k = 0;
            bool ok = false;
            for ( ; k < NP; ++k ) {
                const double b = c;
                c += Y[ k ];
                if ( got == X[ k ] ) { ok = c >= 0.5*sy*( 1 - 1e-5 ) && b <= 0.5*sy*( 1 + 1e-5 ); break; }
            }
            t.check( ok, "bisector %.9g of output %zu does not halve the area", got, o );
            break;
        }
        case fis::lom: { float e = 0; for ( size_t k = 0; k < NP; ++k ) { if ( Y[ k ] >= ym ) { e = X[ k ]; } } t.check( got == e, "largest of maximum is %.9g, expected %.9g", got, e ); break; }
        case fis::som: { float e = 0; for ( size_t k = NP; k-- > 0; ) { if ( Y[ k ] >= ym ) { e = X[ k ]; } } t.check( got == e, "smallest of maximum is %.9g, expected %.9g", got, e ); break; }
        default: { // middle of maximum
            size_t a = NP, b = 0, runEnd = NP;
            bool exact = true;
            double sum = 0;
            size_t n = 0;
            for ( size_t k = 0; k < NP; ++k ) {
                if ( Y[ k ] >= ym ) { if ( a == NP ) { a = k; } b = k; sum += X[ k ]; ++n; }
                else { if ( a != NP && runEnd == NP ) { runEnd = k - 1u; } if ( Y[ k ] >= ym - 1e-5 ) { exact = false; } }
            }
            if ( runEnd == NP ) { runEnd = b; }
            const double e = 2e-6*( mag + span );
            if ( exact && runEnd == b ) { t.near( "middle of maximum", got, 0.5*( static_cast<double>( X[ a ] ) + X[ b ] ), e, "output %zu", o ); t.label( "single plateau" ); }
            else if ( exact ) { // several plateaus: the middle of the first one, or of all of them
                t.check( std::fabs( got - 0.5*( static_cast<double>( X[ a ] ) + X[ runEnd ] ) ) <= e || std::fabs( got - sum/static_cast<double>( n ) ) <= e, "middle of maximum is %.9g", got );
            }
            break;
        }
    }
}
template <bool PLAIN> static void full( Ctx &t )
{
    Sys S( t, fis::Mamdani, PLAIN );
    t.check( S.sys().getNumberOfPoints() == NP, "number of points is %zu", S.sys().getNumberOfPoints() );
    for ( size_t o = 0; o < S.out.size(); ++o ) {
        S.xag.emplace_back( new float[ NP ] );
        S.yag.emplace_back( new float[ NP ] );
        t.check( S.xo[ o ].storeAggregatedRegion( S.xag[ o ].get(), S.yag[ o ].get(), NP ), "region storage refused" );
    }
    t.note( "%s", S.show().c_str() );
    std::unique_ptr<Sys> B;
    if ( t.chance( 1, 5 ) ) { static const fis::type KINDS[] = { fis::Mamdani, fis::Sugeno, fis::Tsukamoto }; B.reset( new Sys( t, t.pick( KINDS ), true ) ); S.beside = B.get(); t.note( "another system beside" ); }
    const size_t runs = 1u + t.bits( 3 );
    for ( size_t k = 0; k < runs; ++k ) {
        S.drawSettings( t );
        S.drawInputs( t );
        S.evaluate( t );
        for ( size_t i = 0; i < S.in.size(); ++i ) { t.note( "input %zu = %.9g in [%.9g, %.9g]", i, S.in[ i ].v, S.in[ i ].lo, S.in[ i ].hi ); }
        t.note( "and %d or %d implication %d aggregation %d method %d weighted %d", S.andOp, S.orOp, S.imp, S.agg, S.method, S.weighted );
        if ( S.checkStrengths( t ) ) { t.nontrivial(); }
        for ( size_t o = 0; o < S.out.size(); ++o ) { region( t, S, o ); crisp( t, S, o ); }
    }
}
// without stored regions the crisp outputs are the same
static void unstored( Ctx &t )
{
    Sys S( t, fis::Mamdani, false );
    S.drawSettings( t );
    S.drawInputs( t );
    S.evaluate( t );
    std::vector<float> a;
    for ( size_t o = 0; o < S.out.size(); ++o ) { a.push_back( S.sys()[ static_cast<fis::tag>( o ) ] ); }
    for ( size_t o = 0; o < S.out.size(); ++o ) { S.xag.emplace_back( new float[ NP ] ); S.yag.emplace_back( new float[ NP ] ); t.check( S.xo[ o ].storeAggregatedRegion( S.xag[ o ].get(), S.yag[ o ].get(), NP ), "region storage refused" ); }
    S.evaluate( t );
    if ( S.checkStrengths( t ) ) { t.nontrivial(); }
    for ( size_t o = 0; o < S.out.size(); ++o ) {
        t.check( pbt::sameBits( a[ o ], S.sys()[ static_cast<fis::tag>( o ) ] ), "output %zu is %.9g without and %.9g with a stored region", o, a[ o ], S.sys()[ static_cast<fis::tag>( o ) ] );
        crisp( t, S, o );
    }
}
// the documented tipping example, through the rule macros and the templated system
static void macros( Ctx &t )
{
    enum : fis::tag { service, food };
    enum : fis::tag { tip };
    enum : fis::tag { poor, good, excellent, rancid, delicious };
    enum : fis::tag { cheap, average, generous };
    static const fis::rules rules[] = {
        FIS_RULES_BEGIN
            IF service IS poor OR food IS rancid THEN tip IS cheap END
            IF service IS good THEN tip IS average END
            IF service IS excellent OR food IS delicious THEN tip IS generous END
            IF service IS_NOT poor AND food IS_NOT rancid THEN tip IS_NOT cheap END
        FIS_RULES_END
    };
    fis::system<fis::Mamdani, 2, 1, 5, 3, 4> s( rules ), o( rules ); // o: another one of the same kind, all of its numbers different
    const bool two = t.coin(), first = t.coin();
    static const float q0[] = { 3.0f, 1.0f }, q1[] = { 2, 4, 6, 9 }, q2[] = { 1, 2, 3 };
    auto prepare = [&]() {
        t.check( o.setup() && o.setupInput( service, -5.0f, 5.0f ) && o.setupInput( food, -5.0f, 7.0f ) && o.setupOutput( tip, 0.0f, 3.0f ), "set-up refused" );
        t.check( o.setupInputMF( service, poor, fis::gaussmf, q0 ) && o.setupInputMF( service, good, fis::gaussmf, q0 ) && o.setupInputMF( service, excellent, fis::gaussmf, q0 )
            && o.setupInputMF( food, rancid, fis::trapmf, q1 ) && o.setupInputMF( food, delicious, fis::trapmf, q1 )
            && o.setupOutputMF( tip, cheap, fis::trimf, q2 ) && o.setupOutputMF( tip, average, fis::trimf, q2 ) && o.setupOutputMF( tip, generous, fis::trimf, q2 ), "set refused" );
        t.check( o.setDeFuzzMethod( fis::lom ) && o.setParameter( fis::FIS_AND, fis::FIS_PROD ) && o.setParameter( fis::FIS_OR, fis::FIS_PROBOR ), "setting refused" );
    };
    auto between = [&]() { if ( two && t.coin() ) { o << service << t.f32( -5.0f, 5.0f ) << food << t.f32( -5.0f, 5.0f ); t.check( o.fuzzify() && o.inference() && o.deFuzzify(), "evaluation failed" ); } };
    if ( two && first ) { prepare(); }
    t.check( s.setup(), "set-up refused" );
    static const float p0[] = { 1.5f, 0.0f }, p1[] = { 1.5f, 5.0f }, p2[] = { 1.5f, 10.0f }, r0[] = { 0, 0, 1, 3 }, r1[] = { 7, 9, 10, 10 }, c0[] = { 0, 5, 10 }, c1[] = { 10, 15, 20 }, c2[] = { 20, 25, 30 };
    t.check( s.setupInput( service, 0.0f, 10.0f ) && s.setupInput( food, 0.0f, 10.0f ) && s.setupOutput( tip, 0.0f, 30.0f ), "variable refused" );
    t.check( s.setupInputMF( service, poor, fis::gaussmf, p0 ) && s.setupInputMF( service, good, fis::gaussmf, p1 ) && s.setupInputMF( service, excellent, fis::gaussmf, p2 )
        && s.setupInputMF( food, rancid, fis::trapmf, r0 ) && s.setupInputMF( food, delicious, fis::trapmf, r1 )
        && s.setupOutputMF( tip, cheap, fis::trimf, c0 ) && s.setupOutputMF( tip, average, fis::trimf, c1 ) && s.setupOutputMF( tip, generous, fis::trimf, c2 ), "set refused" );
    if ( two && !first ) { prepare(); }
    between();
    const float sv = t.f32( 0.0f, 10.0f ), fd = t.f32( 0.0f, 10.0f );
    if ( t.coin() ) { s << service << sv << food << fd; }
    else { t.check( s.setInput( service, sv ) && s.setInput( food, fd ), "input refused" ); }
    between();
    t.check( s.fuzzify(), "evaluation failed" );
    between();
    t.check( s.inference(), "evaluation failed" );
    between();
    t.check( s.deFuzzify(), "evaluation failed" );
    between();
    auto V = []( std::initializer_list<float> l ) { return std::vector<float>( l ); };
    const double po = shapeOf( fis::gaussmf, sv, V( { 1.5f, 0 } ) ), go = shapeOf( fis::gaussmf, sv, V( { 1.5f, 5 } ) ), ex = shapeOf( fis::gaussmf, sv, V( { 1.5f, 10 } ) );
    const double ra = shapeOf( fis::trapmf, fd, V( { 0, 0, 1, 3 } ) ), de = shapeOf( fis::trapmf, fd, V( { 7, 9, 10, 10 } ) );
    const double w[] = { std::max( po, ra ), go, std::max( ex, de ), std::min( 1 - po, 1 - ra ) };
    double sy = 0, sxy = 0;
    for ( int k = 0; k < 100; ++k ) {
        const double x = ( k + 0.5 )*0.3;
        const double v[] = { shapeOf( fis::trimf, x, V( { 0, 5, 10 } ) ), shapeOf( fis::trimf, x, V( { 10, 15, 20 } ) ), shapeOf( fis::trimf, x, V( { 20, 25, 30 } ) ) };
        const double y = std::max( std::max( std::min( w[ 0 ], v[ 0 ] ), std::min( w[ 1 ], v[ 1 ] ) ), std::max( std::min( w[ 2 ], v[ 2 ] ), std::min( w[ 3 ], 1 - v[ 0 ] ) ) );
        sy += y; sxy += x*y;
    }
    float got = 0;
    t.check( s.getOutput( tip, got ) && pbt::sameBits( got, s[ tip ] ), "output accessors disagree" );
    t.near( "tip", got, sxy/sy, 1e-3, "service %.9g food %.9g", sv, fd );
    t.nontrivial();
}
const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "all-shapes", full<false>, 12000 }, { "plain-shapes", full<true>, 8000 }, { "unstored", unstored, 3000 }, { "tipper", macros, 20000 } };
    return s;
}
