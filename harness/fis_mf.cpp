// P21: membership functions
#include "fis_common.hpp"
namespace pbt {
const char *const PROPERTY = "P21";
const char *const RULE = "every conventional membership shape with random points (vertical and flat edges, both orientations, ranges from 1e-7 to 1e8 wide, offset from zero) and height, on an exactly sized point array, evaluated through the firing strength of a one-premise rule (plain or negated) at random abscissae, at its points, one ulp either side of them and at its midpoints; grades are compared with the defining formula in double precision, flat parts exactly, and ordered pairs of abscissae for monotonic flanks; custom functions, constants and whole partitions (s/z complements) included; non-trivial = a grade strictly between 0 and 1";
}
struct One {
    fis::input x[ 1 ];
    fis::output y[ 1 ];
    fis::mf mi[ 2 ], mo[ 1 ];
    float wi[ 2 ];
    fis::instance f;
    One( Ctx &t, float lo, float hi )
    {
        static const fis::rules code[] = { fis::Q_FIS_RULES_BEGIN, 0, 1, fis::Q_FIS_THEN, 0, 1, 0, -1, fis::Q_FIS_THEN, 0, 1, fis::Q_FIS_RULES_END };
        static const float tri[] = { -1.0f, 0.0f, 1.0f };
        t.check( f.setup( fis::Mamdani, x, 1u, y, 1u, mi, 2u, mo, 1u, code, 2u, wi ), "set-up refused" );
        t.check( f.setupInput( 0, lo, hi ) && f.setupOutput( 0, -1.0f, 1.0f ) && f.setupOutputMF( 0, 0, fis::trimf, tri ), "variables refused" );
    }
    // the grade of v; a negated premise gives its complement
    float grade( Ctx &t, float v )
    {
        t.check( f.setInput( 0, v ) && f.fuzzify() && f.inference(), "evaluation failed" );
        t.check( wi[ 0 ] >= 0.0f && wi[ 0 ] <= 1.0f && wi[ 1 ] >= 0.0f && wi[ 1 ] <= 1.0f, "grade %.9g or complement %.9g of %.9g is outside [0,1]", wi[ 0 ], wi[ 1 ], v );
        t.near( "complement", static_cast<double>( wi[ 0 ] ) + wi[ 1 ], 1.0, 3e-7, "premise and negated premise at %.9g", v );
        return wi[ 0 ];
    }
};
static std::vector<float> abscissae( Ctx &t, const std::vector<float> &pts, float lo, float hi )
{
    std::vector<float> v;
    for ( size_t k = 2u + t.bits( 8 ); k > 0; --k ) {
        float x = lo + t.f32( 0.0f, 1.0f )*( hi - lo );
        if ( t.chance( 1, 2 ) ) {
            x = pts[ t.idx( pts.size() ) ];
            switch ( t.bits( 3 ) ) {
                case 0: x = std::nextafterf( x, INFINITY ); break;
                case 1: x = std::nextafterf( x, -INFINITY ); break;
                case 2: x = 0.5f*( x + pts[ t.idx( pts.size() ) ] ); break;
                default: break;
            }
        }
        v.push_back( std::min( hi, std::max( lo, x ) ) );
    }
    std::sort( v.begin(), v.end() );
    return v;
}
static void shapes( Ctx &t )
{
    const float sc = t.chance( 1, 2 ) ? 1.0f : ( t.coin() ? t.f32log( 1e-7f, 1e7f ) : t.f32log( 1e-3f, 1e3f ) );
    const float c = t.f32( -3.0f, 3.0f )*sc, w = t.f32( 0.5f, 10.0f )*sc;
    const int s = static_cast<int>( t.range( fis::trimf, fis::cosmf ) );
    const std::vector<float> p = drawPoints( t, s, c, c + w );
    std::unique_ptr<float[]> cp( new float[ p.size() ] );
    std::copy( p.begin(), p.end(), cp.get() );
    const float h = t.chance( 1, 3 ) ? t.f32( -0.3f, 1.3f ) : 1.0f, H = static_cast<float>( clip( h ) );
    One S( t, c - w, c + 2.0f*w );
    if ( t.coin() ) { t.check( S.f.setupInputMF( 0, 0, static_cast<fis::shapeMF>( s ), cp.get(), h ), "set refused" ); }
    else { // a set may be redefined
        static const float other[] = { 0.0f, 1.0f, 2.0f, 3.0f };
        t.check( S.f.setupInputMF( 0, 0, static_cast<fis::shapeMF>( t.range( fis::trimf, fis::cosmf ) ), other, 0.5f ) && S.f.setupInputMF( 0, 0, static_cast<fis::shapeMF>( s ), cp.get(), h ), "set refused" );
    }
    std::string d;
    for ( float q : p ) { char b[ 40 ]; snprintf( b, sizeof b, " %.9g", q ); d += b; }
    std::vector<float> pts;
    switch ( s ) { case fis::gbellmf: pts = { p[ 2 ], p[ 2 ] - p[ 0 ], p[ 2 ] + p[ 0 ] }; break; case fis::gaussmf: case fis::spikemf: pts = { p[ 1 ] }; break; case fis::gauss2mf: pts = { p[ 1 ], p[ 3 ] }; break;
        case fis::sigmf: pts = { p[ 1 ] }; break; case fis::dsigmf: case fis::psigmf: pts = { p[ 1 ], p[ 3 ] }; break; case fis::cosmf: pts = { p[ 0 ], p[ 0 ] - 0.5f*p[ 1 ], p[ 0 ] + 0.5f*p[ 1 ] }; break; default: pts = p; }
    float px = 0, pg = 0;
    bool first = true;
    for ( float x : abscissae( t, pts, c - w, c + 2.0f*w ) ) {
        t.note( "%s(%s ) h %.9g at %.9g", MFNAME[ s ], d.c_str(), h, x );
        const float g = S.grade( t, x );
        const double e = shapeOf( s, x, p );
        if ( s == fis::singletonmf && x != p[ 0 ] && std::fabs( static_cast<double>( x ) - p[ 0 ] ) <= 1.2e-38 ) { continue; } // indistinguishable from the point
        t.near( MFNAME[ s ], g, H*e, gradeTol( s, x, p, w ) + 1e-7, "%s(%s ) h %.9g at %.9g", MFNAME[ s ], d.c_str(), h, x );
        // flat parts are exact
        bool one = false, zero = false;
        switch ( s ) {
            case fis::trimf: one = x == p[ 1 ]; zero = x < p[ 0 ] || x > p[ 2 ]; break;
            case fis::trapmf: one = x >= p[ 1 ] && x <= p[ 2 ]; zero = x < p[ 0 ] || x > p[ 3 ]; break;
            case fis::pimf: one = x >= p[ 1 ] && x <= p[ 2 ]; zero = x <= p[ 0 ] || x >= p[ 3 ]; break;
            case fis::smf: one = x >= p[ 1 ]; zero = x <= p[ 0 ]; break;
            case fis::zmf: one = x <= p[ 0 ]; zero = x >= p[ 1 ]; break;
            case fis::linsmf: one = x >= p[ 1 ]; zero = x < p[ 0 ]; break;
            case fis::linzmf: one = x < p[ 0 ]; zero = x > p[ 1 ]; break;
            case fis::rectmf: case fis::singletonmf: one = e == 1; zero = e == 0; break;
            case fis::concavemf: one = p[ 0 ] <= p[ 1 ] ? x >= p[ 1 ] : x <= p[ 1 ]; break;
            default: break;
        }
        if ( one ) { t.check( std::fabs( g - H ) <= 2e-7f, "%s(%s ) h %.9g at %.9g is %.9g, expected its full height", MFNAME[ s ], d.c_str(), h, x, g ); t.label( "full height" ); }
        if ( zero ) { t.check( std::fabs( g ) <= 1e-7f, "%s(%s ) at %.9g is %.9g, expected zero", MFNAME[ s ], d.c_str(), x, g ); t.label( "outside the support" ); }
        if ( g > 0.0f && g < 1.0f ) { t.nontrivial(); }
        // monotonic flanks
        if ( !first ) {
            int dir = 0;
            switch ( s ) {
                case fis::smf: case fis::linsmf: dir = 1; break;
                case fis::zmf: case fis::linzmf: dir = -1; break;
                case fis::sigmf: dir = p[ 0 ] > 0 ? 1 : -1; break;
                case fis::concavemf: dir = p[ 0 ] <= p[ 1 ] ? 1 : -1; break;
                case fis::trimf: dir = x <= p[ 1 ] ? 1 : ( px >= p[ 1 ] ? -1 : 0 ); break;
                case fis::trapmf: dir = x <= p[ 2 ] ? 1 : ( px >= p[ 1 ] ? -1 : 0 ); break;
                case fis::gaussmf: case fis::spikemf: dir = x <= p[ 1 ] ? 1 : ( px >= p[ 1 ] ? -1 : 0 ); break;
                case fis::gbellmf: dir = x <= p[ 2 ] ? 1 : ( px >= p[ 2 ] ? -1 : 0 ); break;
                default: break;
            }
            const double slip = 2*( MFTOL[ s ] + 1e-7 );
            if ( dir != 0 && H > 0 ) { t.check( dir*( static_cast<double>( g ) - pg ) >= -slip, "%s(%s ) is not monotonic between %.9g (%.9g) and %.9g (%.9g)", MFNAME[ s ], d.c_str(), px, pg, x, g ); }
        }
        px = x;
        pg = g;
        first = false;
    }
}
// a set leaves its siblings alone: two sets on one variable, in either order
static void siblings( Ctx &t )
{
    const IO R = Sys::range( t );
    const float c = R.lo, w = R.hi - R.lo;
    One S( t, c, c + w );
    int s[ 2 ];
    std::vector<float> p[ 2 ];
    std::unique_ptr<float[]> cp[ 2 ];
    float h[ 2 ];
    for ( int i = 0; i < 2; ++i ) {
        s[ i ] = static_cast<int>( t.range( fis::trimf, fis::cosmf ) );
        p[ i ] = drawPoints( t, s[ i ], c, c + w );
        cp[ i ].reset( new float[ p[ i ].size() ] );
        std::copy( p[ i ].begin(), p[ i ].end(), cp[ i ].get() );
        h[ i ] = t.f32( 0.1f, 1.0f );
    }
    static const fis::rules code[] = { fis::Q_FIS_RULES_BEGIN, 0, 1, fis::Q_FIS_THEN, 0, 1, 0, 2, fis::Q_FIS_THEN, 0, 1, fis::Q_FIS_RULES_END };
    t.check( S.f.setup( fis::Mamdani, S.x, 1u, S.y, 1u, S.mi, 2u, S.mo, 1u, code, 2u, S.wi ), "set-up refused" );
    const int first = t.coin() ? 0 : 1;
    for ( int i : { first, 1 - first } ) { t.check( S.f.setupInputMF( 0, static_cast<fis::tag>( i ), static_cast<fis::shapeMF>( s[ i ] ), cp[ i ].get(), h[ i ] ), "set refused" ); }
    for ( size_t k = 1u + t.bits( 3 ); k > 0; --k ) {
        const float x = c + t.f32( -0.1f, 1.1f )*w, X = static_cast<float>( clip( x, c, c + w ) );
        if ( t.coin() ) { t.check( S.f.setInput( 0, x ), "input refused" ); } else { S.f << fis::tag( 0 ) << x; }
        t.check( S.f.fuzzify() && S.f.inference(), "evaluation failed" );
        for ( int i = 0; i < 2; ++i ) { t.near( "grade", S.wi[ i ], h[ i ]*shapeOf( s[ i ], X, p[ i ] ), gradeTol( s[ i ], X, p[ i ], w ) + 1e-7, "%s at %.9g", MFNAME[ s[ i ] ], X ); if ( S.wi[ i ] > 0 && S.wi[ i ] < 1 ) { t.nontrivial(); } }
    }
}
static const float *gotPoints;
static size_t calls;
static float answer;
static float custom( const fis::ioBase * const in, const float *p, const size_t n ) { (void)n; (void)in; gotPoints = p; ++calls; return answer; }
// user-defined functions see their points and are scaled by the height; their grade is brought into [0,1]
static void customs( Ctx &t )
{
    One S( t, -1.0f, 1.0f );
    static const float pts[] = { 1.0f, 2.0f, 3.0f };
    const float h = t.f32( -0.3f, 1.3f );
    answer = t.f32( -1.0f, 2.0f );
    calls = 0;
    gotPoints = nullptr;
    t.check( S.f.setupInputMF( 0, 0, &custom, pts, h ), "custom set refused" );
    const float g = S.grade( t, t.f32( -1.0f, 1.0f ) );
    t.check( calls >= 1u && gotPoints == pts, "the custom function was not called with its points" );
    t.near( "custom grade", g, clip( clip( h )*answer ), 2e-7, "h %.9g answer %.9g", h, answer );
    if ( g > 0 && g < 1 ) { t.nontrivial(); }
    // a named custom shape without a function is a constant
    const float k[] = { t.f32( -0.5f, 1.5f ) };
    t.check( S.f.setupInputMF( 0, 0, t.coin() ? fis::constantmf : fis::custommf, k, h ), "constant set refused" );
    t.near( "constant grade", S.grade( t, 0.3f ), clip( clip( h )*k[ 0 ] ), 2e-7, "h %.9g constant %.9g", h, k[ 0 ] );
}
const std::vector<pbt::Sub>& pbt::subs()
{
    static const std::vector<pbt::Sub> s = { { "shapes", shapes, 600000 }, { "siblings", siblings, 100000 }, { "custom", customs, 30000 } };
    return s;
}
