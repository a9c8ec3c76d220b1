#include "pbt.hpp"
#include <dlfcn.h>

using namespace pbt;

extern "C" void __sanitizer_set_death_callback( void (*)( void ) ) __attribute__(( weak ));
extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:handle_abort=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0";
}

enum Status { ST_NONE = 0, ST_PASS, ST_FAIL, ST_DISCARD, ST_CRASH, ST_TIMEOUT };
static const char *stName[] = { "none", "pass", "fail", "discard", "crash", "timeout" };

static const double CASE_TIMEOUT = 30.0;

static double nowS()
{
    struct timespec ts;
    clock_gettime( CLOCK_MONOTONIC, &ts );
    return static_cast<double>( ts.tv_sec ) + 1e-9*static_cast<double>( ts.tv_nsec );
}

static uint64_t seqHash( size_t sub, const std::vector<uint64_t> &v )
{
    uint64_t h = mix64( sub + 17u );
    for ( uint64_t x : v ) { h = mix64( h ^ x ); }
    return h;
}

static uint64_t caseSeed( uint64_t seed, const Sub &s, uint64_t i )
{
    return mix64( mix64( mix64( seed ^ 0xC0FFEEull ) ^ hashStr( PROPERTY ) ^ ( hashStr( s.name ) << 1 ) ) + i*0x9E3779B97F4A7C15ull );
}

static Status runCase( const Sub &s, Ctx &t, std::string &msg )
{
    try {
        s.fn( t );
        return ST_PASS;
    }
    catch ( const Fail &f ) { msg = f.msg; return ST_FAIL; }
    catch ( const Discard & ) { return ST_DISCARD; }
    catch ( const std::exception &e ) { msg = std::string( "uncaught exception: " ) + e.what(); return ST_FAIL; }
}

/*------------------------------------------------------------ isolated run --*/
struct IsoShared {
    volatile int status;
    volatile uint64_t nrec, done;
    char msg[ 4096 ];
    uint64_t rec[ 200001 ];
};
static IsoShared *iso;
struct IsoResult { Status st; std::string msg; std::vector<uint64_t> rec; };

static std::string g_errFile;

static IsoResult runIsolated( const Sub &s, const std::vector<uint64_t> &ch, double timeout )
{
    IsoResult r;
    iso->status = ST_NONE;
    iso->nrec = 0;
    iso->msg[ 0 ] = 0;
    fflush( stdout );
    pid_t pid = fork();
    if ( 0 == pid ) {
        int fd = open( g_errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 );
        if ( fd >= 0 ) { dup2( fd, 2 ); dup2( fd, 1 ); }
        Ctx t( ch );
        std::string m;
        Status st = runCase( s, t, m );
        snprintf( iso->msg, sizeof iso->msg, "%s", m.c_str() );
        size_t n = std::min<size_t>( t.rec.size(), 200000u );
        memcpy( iso->rec, t.rec.data(), n*sizeof( uint64_t ) );
        iso->nrec = n;
        iso->status = st;
        _exit( 0 );
    }
    int ws = 0;
    double t0 = nowS();
    bool to = false;
    unsigned us = 50;
    for (;;) {
        pid_t w = waitpid( pid, &ws, WNOHANG );
        if ( w == pid ) { break; }
        if ( nowS() - t0 > timeout ) {
            kill( pid, SIGKILL );
            waitpid( pid, &ws, 0 );
            to = true;
            break;
        }
        usleep( us );
        if ( us < 5000 ) { us *= 2; }
    }
    if ( to ) { r.st = ST_TIMEOUT; r.msg = "case did not finish"; r.rec = ch; }
    else if ( iso->status != ST_NONE ) {
        r.st = static_cast<Status>( iso->status );
        r.msg = iso->msg;
        r.rec.assign( iso->rec, iso->rec + iso->nrec );
    }
    else {
        r.st = ST_CRASH;
        r.rec = ch;
        char b[ 200 ];
        if ( WIFSIGNALED( ws ) ) { snprintf( b, sizeof b, "killed by signal %d", WTERMSIG( ws ) ); }
        else { snprintf( b, sizeof b, "abnormal exit %d", WEXITSTATUS( ws ) ); }
        r.msg = b;
        FILE *f = fopen( g_errFile.c_str(), "r" );
        if ( f ) {
            char line[ 1000 ];
            while ( fgets( line, sizeof line, f ) ) {
                if ( strstr( line, "ERROR:" ) || strstr( line, "SUMMARY" ) || strstr( line, "runtime error" ) ) {
                    line[ strcspn( line, "\n" ) ] = 0;
                    r.msg += std::string( "; " ) + line;
                }
            }
            fclose( f );
        }
    }
    return r;
}

struct SeqItem { size_t sub; uint64_t seed; };

/* runs a history of seeded cases in one child: verdict of its last case; used
   for failures that need state left behind by earlier cases */
static IsoResult runSeqIsolated( const std::vector<SeqItem> &q, double timeout, bool wantNotes = false, std::string *notes = nullptr )
{
    IsoResult r;
    const std::vector<Sub> &ss = subs();
    iso->status = ST_NONE;
    iso->nrec = 0;
    iso->msg[ 0 ] = 0;
    fflush( stdout );
    pid_t pid = fork();
    if ( 0 == pid ) {
        int fd = open( g_errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 );
        if ( fd >= 0 ) { dup2( fd, 2 ); dup2( fd, 1 ); }
        Status st = ST_PASS;
        std::string m;
        for ( size_t i = 0; i < q.size(); ++i ) {
            Ctx t( q[ i ].seed );
            m.clear();
            t.verbose = wantNotes && ( i + 1 == q.size() );
            st = runCase( ss[ q[ i ].sub ], t, m );
            if ( t.verbose ) {
                const size_t n = std::min<size_t>( t.notes.size(), sizeof( iso->rec ) - 1u );
                memcpy( iso->rec, t.notes.data(), n );
                iso->nrec = n;
            }
            iso->done = i + 1;
            if ( ST_FAIL == st ) { break; }
        }
        snprintf( iso->msg, sizeof iso->msg, "%s", m.c_str() );
        iso->status = st;
        _exit( 0 );
    }
    int ws = 0;
    const double t0 = nowS();
    bool to = false;
    unsigned us = 50;
    while ( waitpid( pid, &ws, WNOHANG ) != pid ) {
        if ( nowS() - t0 > timeout ) {
            kill( pid, SIGKILL );
            waitpid( pid, &ws, 0 );
            to = true;
            break;
        }
        usleep( us );
        if ( us < 5000 ) { us *= 2; }
    }
    if ( to ) { r.st = ST_NONE; r.msg = "sequence did not finish"; return r; }
    if ( iso->status != ST_NONE ) {
        r.st = static_cast<Status>( iso->status );
        r.msg = iso->msg;
        if ( notes ) { notes->assign( reinterpret_cast<const char*>( iso->rec ), iso->nrec ); }
    }
    else {
        char b[ 200 ];
        r.st = ST_CRASH;
        if ( WIFSIGNALED( ws ) ) { snprintf( b, sizeof b, "killed by signal %d", WTERMSIG( ws ) ); }
        else { snprintf( b, sizeof b, "abnormal exit %d", WEXITSTATUS( ws ) ); }
        r.msg = b;
    }
    return r;
}

static bool bad( Status s ) { return s == ST_FAIL || s == ST_CRASH || s == ST_TIMEOUT; }

static bool simpler( const std::vector<uint64_t> &a, const std::vector<uint64_t> &b )
{
    if ( a.size() != b.size() ) { return a.size() < b.size(); }
    return a < b;
}

static IsoResult shrink( const Sub &s, IsoResult best, double budget )
{
    const double t0 = nowS();
    const double to = ( best.st == ST_TIMEOUT ) ? 5.0 : 15.0;
    if ( best.st == ST_TIMEOUT ) { budget = std::min( budget, 15.0 ); }
    int execs = 0;
    auto attempt = [&]( const std::vector<uint64_t> &c ) -> bool {
        if ( nowS() - t0 > budget ) { return false; }
        ++execs;
        IsoResult r = runIsolated( s, c, to );
        if ( bad( r.st ) && r.st != ST_TIMEOUT ) {
            if ( r.st == ST_FAIL || r.rec.empty() ) {
                if ( r.st == ST_FAIL && simpler( r.rec, best.rec ) ) { best = r; return true; }
                return false;
            }
            if ( simpler( c, best.rec ) ) { best = r; best.rec = c; return true; }
        }
        else if ( r.st == ST_TIMEOUT && best.st == ST_TIMEOUT && simpler( c, best.rec ) ) { best = r; return true; }
        return false;
    };
    bool progress = true;
    while ( progress && ( nowS() - t0 ) < budget ) {
        progress = false;
        for ( size_t k = std::max<size_t>( 1, best.rec.size()/2 ); k >= 1; k /= 2 ) { // delete chunks
            for ( size_t i = 0; i + k <= best.rec.size(); ) {
                std::vector<uint64_t> c( best.rec );
                c.erase( c.begin() + static_cast<long>( i ), c.begin() + static_cast<long>( i + k ) );
                if ( attempt( c ) ) { progress = true; }
                else { i += k; }
                if ( nowS() - t0 > budget ) { break; }
            }
            if ( nowS() - t0 > budget ) { break; }
        }
        for ( size_t k = 8; k >= 1; k /= 2 ) { // zero chunks
            for ( size_t i = 0; i + k <= best.rec.size(); i += k ) {
                std::vector<uint64_t> c( best.rec );
                bool any = false;
                for ( size_t j = i; j < i + k; ++j ) { any = any || c[ j ]; c[ j ] = 0; }
                if ( any && attempt( c ) ) { progress = true; }
            }
        }
        for ( size_t i = 0; i < best.rec.size(); ++i ) { // minimise values
            uint64_t lo = 0, hi = best.rec[ i ];
            int it = 0;
            while ( lo < hi && it++ < 40 && i < best.rec.size() ) {
                uint64_t mid = lo + ( hi - lo )/2;
                std::vector<uint64_t> c( best.rec );
                c[ i ] = mid;
                if ( attempt( c ) ) { progress = true; hi = mid; }
                else { lo = mid + 1; }
                if ( nowS() - t0 > budget ) { break; }
            }
        }
    }
    return best;
}

/*----------------------------------------------------------------- replay --*/
static std::string jesc( const std::string &s )
{
    std::string o;
    for ( char c : s ) {
        if ( c == '"' || c == '\\' ) { o += '\\'; o += c; }
        else if ( c == '\n' ) { o += "\\n"; }
        else if ( static_cast<unsigned char>( c ) < 32 || static_cast<unsigned char>( c ) > 126 ) { char b[ 8 ]; snprintf( b, sizeof b, "\\u%04x", static_cast<unsigned char>( c ) ); o += b; }
        else { o += c; }
    }
    return o;
}

static std::vector<SeqItem> g_seq;
static bool loadReplay( const char *path, std::string &sub, std::vector<uint64_t> &ch )
{
    FILE *f = fopen( path, "r" );
    if ( !f ) { return false; }
    char line[ 8192 ];
    bool got = false;
    while ( fgets( line, sizeof line, f ) ) {
        line[ strcspn( line, "\n" ) ] = 0;
        if ( 0 == strncmp( line, "subtest: ", 9 ) ) { sub = line + 9; got = true; }
        else if ( 0 == strncmp( line, "choice: ", 8 ) ) { ch.push_back( strtoull( line + 8, nullptr, 10 ) ); }
        else if ( 0 == strncmp( line, "seq: ", 5 ) ) {
            char *e = nullptr;
            const uint64_t sd = strtoull( line + 5, &e, 10 );
            while ( *e == ' ' ) { ++e; }
            for ( size_t k = 0; k < subs().size(); ++k ) {
                if ( 0 == strcmp( e, subs()[ k ].name ) ) { g_seq.push_back( SeqItem{ k, sd } ); }
            }
        }
    }
    fclose( f );
    return got;
}

static void saveReplay( const char *path, const Sub &s, const IsoResult &r )
{
    FILE *f = fopen( path, "w" );
    if ( !f ) { return; }
    std::string m = r.msg;
    for ( char &c : m ) { if ( c == '\n' ) { c = ' '; } }
    fprintf( f, "# replay of one failing case; run: /verif/run.py replay <this file>\n" );
    fprintf( f, "property: %s\nsubtest: %s\nstatus: %s\nmessage: %s\n", PROPERTY, s.name, stName[ r.st ], m.c_str() );
    Ctx t( r.rec );
    if ( r.st == ST_FAIL ) {
        t.verbose = true;
        std::string mm;
        runCase( s, t, mm );
        for ( size_t i = 0, j; i < t.notes.size(); i = j + 1 ) {
            j = t.notes.find( '\n', i );
            if ( j == std::string::npos ) { j = t.notes.size(); }
            fprintf( f, "# %s\n", t.notes.substr( i, j - i ).c_str() );
        }
    }
    for ( uint64_t v : r.rec ) { fprintf( f, "choice: %" PRIu64 "\n", v ); }
    fclose( f );
}

/* shortest history (suffix doubling, then chunk removal) after which the last case still fails */
static bool shrinkSeq( std::vector<SeqItem> &q, IsoResult &res, double budget )
{
    const double t0 = nowS();
    const std::vector<SeqItem> full( q );
    bool found = false;
    for ( size_t n = 1; ; n *= 4 ) {
        if ( n > full.size() ) { n = full.size(); }
        std::vector<SeqItem> c( full.end() - static_cast<long>( n ), full.end() );
        IsoResult r = runSeqIsolated( c, 400.0 );
        if ( ST_FAIL == r.st || ST_CRASH == r.st ) {
            c.resize( std::min<size_t>( c.size(), iso->done + ( ( ST_CRASH == r.st ) ? 1u : 0u ) ) );
            q = c;
            res = r;
            found = true;
            break;
        }
        if ( n == full.size() ) { break; }
    }
    if ( !found ) { return false; }
    for ( size_t k = std::max<size_t>( 1, q.size()/2 ); k >= 1; k /= 2 ) {
        for ( size_t i = 0; i + k < q.size(); ) { // never removes the last case
            if ( nowS() - t0 > budget ) { return true; }
            std::vector<SeqItem> c( q );
            c.erase( c.begin() + static_cast<long>( i ), c.begin() + static_cast<long>( i + k ) );
            IsoResult r = runSeqIsolated( c, 60.0 );
            if ( ST_FAIL == r.st || ST_CRASH == r.st ) {
                c.resize( std::min<size_t>( c.size(), iso->done + ( ( ST_CRASH == r.st ) ? 1u : 0u ) ) );
                q = c;
                res = r;
            }
            else { i += k; }
        }
    }
    return true;
}

static void saveSeqReplay( const char *path, const std::vector<SeqItem> &q, const IsoResult &r )
{
    std::string notes;
    runSeqIsolated( q, 400.0, true, &notes );
    FILE *f = fopen( path, "w" );
    if ( !f ) { return; }
    std::string m = r.msg;
    for ( char &c : m ) { if ( c == '\n' ) { c = ' '; } }
    fprintf( f, "# replay of a history of cases run in one process, the last of which fails; run: /verif/run.py replay <this file>\n" );
    fprintf( f, "property: %s\nsubtest: %s\nstatus: %s\nmessage: %s\n", PROPERTY, subs()[ q.back().sub ].name, stName[ r.st ], m.c_str() );
    for ( size_t i = 0, j; i < notes.size(); i = j + 1 ) {
        j = notes.find( '\n', i );
        if ( j == std::string::npos ) { j = notes.size(); }
        fprintf( f, "# %s\n", notes.substr( i, j - i ).c_str() );
    }
    for ( const SeqItem &c : q ) { fprintf( f, "seq: %" PRIu64 " %s\n", c.seed, subs()[ c.sub ].name ); }
    fclose( f );
}

#ifdef PBT_LIBFUZZER
/*-------------------------------------------------------------- libFuzzer --*/
static Ctx *curCtx;
static const Sub *curSub;
static void dumpCurrent()
{
    const char *out = getenv( "PBT_FUZZ_OUT" );
    if ( curCtx && curSub && out ) {
        char p[ 600 ];
        snprintf( p, sizeof p, "%s.%d", out, static_cast<int>( getpid() ) );
        FILE *f = fopen( p, "w" );
        if ( f ) {
            fprintf( f, "property: %s\nsubtest: %s\n", PROPERTY, curSub->name );
            for ( uint64_t v : curCtx->rec ) { fprintf( f, "choice: %" PRIu64 "\n", v ); }
            fclose( f );
        }
    }
}
extern "C" int LLVMFuzzerTestOneInput( const uint8_t *d, size_t n )
{
    static bool init = false;
    if ( !init ) {
        init = true;
        if ( __sanitizer_set_death_callback ) { __sanitizer_set_death_callback( dumpCurrent ); }
    }
    if ( n < 2 ) { return -1; }
    const std::vector<Sub> &ss = subs();
    const Sub &s = ss[ d[ 0 ] % ss.size() ];
    Ctx t( d + 1, n - 1 );
    curCtx = &t;
    curSub = &s;
    std::string msg;
    Status st = runCase( s, t, msg );
    if ( bad( st ) ) {
        fprintf( stderr, "PBT-FAIL %s/%s: %s\n", PROPERTY, s.name, msg.c_str() );
        dumpCurrent();
        _exit( 77 );
    }
    curCtx = nullptr;
    return ( st == ST_DISCARD ) ? -1 : 0;
}
#else
/*------------------------------------------------------------------- main --*/
struct WorkerShared {
    volatile uint64_t sub, index, done, discarded, nontrivial, progress;
    volatile int failed, finished;
    volatile uint64_t failSub, failIndex;
    char failMsg[ 1024 ];
};
struct Shared { volatile int stop; WorkerShared w[ 64 ]; };

/* the cases of one worker, in order: round-robin over the sub-tests in slices, so that a deadline starves none */
template <typename F>
static void forEachCase( unsigned w, unsigned W, double mult, const char *only, F fn )
{
    const std::vector<Sub> &ss = subs();
    const unsigned SLICES = 20;
    for ( unsigned sl = 0; sl < SLICES; ++sl ) {
        for ( size_t k = 0; k < ss.size(); ++k ) {
            if ( only && strcmp( only, ss[ k ].name ) ) { continue; }
            const uint64_t N = std::max<uint64_t>( 1, static_cast<uint64_t>( static_cast<double>( ss[ k ].cases )*mult ) );
            const uint64_t a = N*sl/SLICES, b = N*( sl + 1 )/SLICES;
            for ( uint64_t i = a; i < b; ++i ) {
                if ( i % W == w && !fn( k, i ) ) { return; }
            }
        }
    }
}

static int workerMain( Shared *sh, unsigned w, unsigned W, uint64_t seed, double mult, double deadline, const std::string &outPrefix, const char *only )
{
    WorkerShared &me = sh->w[ w ];
    std::set<uint64_t> hashes;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, uint64_t> knowns;
    std::map<std::string, uint64_t> perSub;
    const std::vector<Sub> &ss = subs();
    forEachCase( w, W, mult, only, [&]( size_t k, uint64_t i ) -> bool {
        if ( sh->stop ) { return false; }
        if ( ( me.done & 63u ) == 0u && nowS() > deadline ) { return false; }
        me.sub = k;
        me.index = i;
        me.progress = me.progress + 1;
        Ctx t( caseSeed( seed, ss[ k ], i ) );
        std::string msg;
        Status st = runCase( ss[ k ], t, msg );
        for ( const std::string &kn : t.knowns ) { knowns[ kn ]++; }
        if ( ST_FAIL == st ) {
            me.failSub = k;
            me.failIndex = i;
            snprintf( me.failMsg, sizeof me.failMsg, "%s", msg.c_str() );
            me.failed = 1;
            sh->stop = 1;
            return false;
        }
        if ( ST_DISCARD == st ) { me.discarded = me.discarded + 1; return true; }
        me.done = me.done + 1;
        perSub[ ss[ k ].name ]++;
        for ( const char *l : t.labels ) { labels[ std::string( ss[ k ].name ) + "/" + l ]++; }
        if ( t.isNontrivial ) {
            me.nontrivial = me.nontrivial + 1;
            if ( hashes.size() < 3000000u ) { hashes.insert( seqHash( k, t.rec ) ); }
        }
        return true;
    } );
    std::string fn = outPrefix + "." + std::to_string( w );
    FILE *f = fopen( fn.c_str(), "w" );
    if ( f ) {
        for ( auto &p : perSub ) { fprintf( f, "S %s\t%" PRIu64 "\n", p.first.c_str(), p.second ); }
        for ( auto &p : labels ) { fprintf( f, "L %s\t%" PRIu64 "\n", p.first.c_str(), p.second ); }
        if ( const char *mf = getenv( "PBT_MARGIN" ) ) {
            if ( FILE *g = fopen( mf, "a" ) ) {
                for ( auto &p : pbt::Ctx::margins() ) { fprintf( g, "%s\t%s\t%.3f\n", PROPERTY, p.first.c_str(), p.second ); }
                fclose( g );
            }
        }
        for ( auto &p : knowns ) { fprintf( f, "K %s\t%" PRIu64 "\n", p.first.c_str(), p.second ); }
        for ( uint64_t h : hashes ) { fprintf( f, "H %" PRIx64 "\n", h ); }
        fclose( f );
    }
    me.finished = 1;
    return 0;
}

int main( int argc, char **argv )
{
    uint64_t seed = 1;
    double mult = 1.0, cap = 600.0, shrinkBudget = 40.0;
    unsigned W = 8;
    std::string out = "result.json", rep = "replay.txt", work = ".";
    const char *replayFile = nullptr, *shrinkFile = nullptr, *only = nullptr;
    bool verbose = false;
    for ( int i = 1; i < argc; ++i ) {
        std::string a = argv[ i ];
        auto nxt = [&]() { return ( i + 1 < argc ) ? argv[ ++i ] : const_cast<char*>( "" ); };
        if ( a == "--seed" ) { seed = strtoull( nxt(), nullptr, 10 ); }
        else if ( a == "--mult" ) { mult = atof( nxt() ); }
        else if ( a == "--cap" ) { cap = atof( nxt() ); }
        else if ( a == "--workers" ) { W = static_cast<unsigned>( atoi( nxt() ) ); }
        else if ( a == "--out" ) { out = nxt(); }
        else if ( a == "--replay-out" ) { rep = nxt(); }
        else if ( a == "--work" ) { work = nxt(); }
        else if ( a == "--replay" ) { replayFile = nxt(); }
        else if ( a == "--shrink" ) { shrinkFile = nxt(); }
        else if ( a == "--only" ) { only = nxt(); }
        else if ( a == "--shrink-budget" ) { shrinkBudget = atof( nxt() ); }
        else if ( a == "-v" ) { verbose = true; }
    }
    if ( W < 1 ) { W = 1; }
    if ( W > 64 ) { W = 64; }
    const std::vector<Sub> &ss = subs();
    g_errFile = work + "/iso.err";
    iso = static_cast<IsoShared*>( mmap( nullptr, sizeof( IsoShared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );

    if ( replayFile || shrinkFile ) {
        std::string sn;
        std::vector<uint64_t> ch;
        if ( !loadReplay( replayFile ? replayFile : shrinkFile, sn, ch ) ) { fprintf( stderr, "cannot load replay\n" ); return 3; }
        if ( !g_seq.empty() ) {
            std::string notes;
            IsoResult r = runSeqIsolated( g_seq, 400.0, verbose, &notes );
            if ( shrinkFile && bad( r.st ) ) { saveSeqReplay( rep.c_str(), g_seq, r ); }
            printf( "%s %s/%s [%s]: %s\n", bad( r.st ) ? "FAIL" : "OK", PROPERTY, sn.c_str(), stName[ r.st ], r.msg.c_str() );
            if ( verbose ) { printf( "%s", notes.c_str() ); }
            return bad( r.st ) ? 1 : 0;
        }
        for ( const Sub &s : ss ) {
            if ( sn == s.name ) {
                if ( shrinkFile ) {
                    IsoResult r = runIsolated( s, ch, CASE_TIMEOUT );
                    if ( !bad( r.st ) ) { printf( "not reproduced (%s)\n", stName[ r.st ] ); return 0; }
                    r = shrink( s, r, shrinkBudget );
                    saveReplay( rep.c_str(), s, r );
                    printf( "FAIL %s/%s [%s]: %s\n", PROPERTY, s.name, stName[ r.st ], r.msg.c_str() );
                    return 1;
                }
                IsoResult r = runIsolated( s, ch, CASE_TIMEOUT );
                printf( "%s %s/%s [%s]: %s\n", bad( r.st ) ? "FAIL" : "OK", PROPERTY, s.name, stName[ r.st ], r.msg.c_str() );
                if ( verbose && r.st != ST_CRASH && r.st != ST_TIMEOUT ) {
                    Ctx t( ch );
                    t.verbose = true;
                    std::string m;
                    runCase( s, t, m );
                    printf( "%s", t.notes.c_str() );
                }
                return bad( r.st ) ? 1 : 0;
            }
        }
        fprintf( stderr, "unknown subtest %s\n", sn.c_str() );
        return 3;
    }

    const double t0 = nowS();
    const double deadline = t0 + cap;
    Shared *sh = static_cast<Shared*>( mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
    memset( static_cast<void*>( sh ), 0, sizeof *sh );
    std::vector<pid_t> pids( W );
    std::string pre = work + "/worker";
    for ( unsigned w = 0; w < W; ++w ) {
        pids[ w ] = fork();
        if ( 0 == pids[ w ] ) {
            std::string e = work + "/worker.err." + std::to_string( w );
            int fd = open( e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 );
            if ( fd >= 0 ) { dup2( fd, 2 ); dup2( fd, 1 ); }
            _exit( workerMain( sh, w, W, seed, mult, deadline, pre, only ) );
        }
    }
    std::vector<bool> live( W, true );
    std::vector<uint64_t> lastProg( W, 0 );
    std::vector<double> lastT( W, nowS() );
    unsigned nlive = W;
    bool haveFail = false;
    struct Failure { uint64_t sub, idx; unsigned w; };
    std::vector<Failure> fails;
    auto consider = [&]( uint64_t s, uint64_t i, unsigned w ) {
        haveFail = true;
        fails.push_back( Failure{ s, i, w } );
    };
    while ( nlive ) {
        for ( unsigned w = 0; w < W; ++w ) {
            if ( !live[ w ] ) { continue; }
            int ws;
            if ( waitpid( pids[ w ], &ws, WNOHANG ) == pids[ w ] ) {
                live[ w ] = false;
                --nlive;
                if ( sh->w[ w ].failed ) { consider( sh->w[ w ].failSub, sh->w[ w ].failIndex, w ); }
                else if ( !sh->w[ w ].finished ) { consider( sh->w[ w ].sub, sh->w[ w ].index, w ); sh->stop = 1; }
                continue;
            }
            if ( sh->w[ w ].progress != lastProg[ w ] ) { lastProg[ w ] = sh->w[ w ].progress; lastT[ w ] = nowS(); }
            else if ( nowS() - lastT[ w ] > CASE_TIMEOUT && !sh->w[ w ].finished ) {
                kill( pids[ w ], SIGKILL );
                waitpid( pids[ w ], &ws, 0 );
                live[ w ] = false;
                --nlive;
                consider( sh->w[ w ].sub, sh->w[ w ].index, w );
                sh->stop = 1;
            }
        }
        usleep( 3000 );
    }
    // merge statistics
    std::set<uint64_t> hashes;
    std::map<std::string, uint64_t> labels, knowns, perSub;
    uint64_t done = 0, disc = 0, nontriv = 0;
    for ( unsigned w = 0; w < W; ++w ) {
        done += sh->w[ w ].done;
        disc += sh->w[ w ].discarded;
        nontriv += sh->w[ w ].nontrivial;
        FILE *f = fopen( ( pre + "." + std::to_string( w ) ).c_str(), "r" );
        if ( !f ) { continue; }
        char line[ 1000 ];
        while ( fgets( line, sizeof line, f ) ) {
            if ( line[ 0 ] == 'H' ) { hashes.insert( strtoull( line + 2, nullptr, 16 ) ); }
            else {
                char *tab = strchr( line, '\t' );
                if ( tab ) {
                    *tab = 0;
                    uint64_t v = strtoull( tab + 1, nullptr, 10 );
                    ( line[ 0 ] == 'S' ? perSub : ( line[ 0 ] == 'L' ? labels : knowns ) )[ line + 2 ] += v;
                }
            }
        }
        fclose( f );
    }
    int rc = 0;
    std::string failText;
    std::sort( fails.begin(), fails.end(), []( const Failure &x, const Failure &y ) {
        return ( x.sub != y.sub ) ? ( x.sub < y.sub ) : ( x.idx < y.idx );
    } );
    for ( size_t fi = 0; fi < fails.size() && 1 != rc; ++fi ) {
        const uint64_t fSub = fails[ fi ].sub, fIdx = fails[ fi ].idx;
        const Sub &s = ss[ fSub ];
        // regenerate the choices of the failing case in a child that may die
        std::vector<uint64_t> ch;
        {
            iso->nrec = 0;
            pid_t pid = fork();
            if ( 0 == pid ) {
                int fd = open( g_errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 );
                if ( fd >= 0 ) { dup2( fd, 2 ); dup2( fd, 1 ); }
                Ctx t( caseSeed( seed, s, fIdx ) );
                // record into shared memory as we go: pre-draw raw stream is
                // not enough (bounds vary), so publish from an atexit-less loop
                static Ctx *tp;
                tp = &t;
                auto dump = []() {
                    size_t n = std::min<size_t>( tp->rec.size(), 200000u );
                    memcpy( iso->rec, tp->rec.data(), n*sizeof( uint64_t ) );
                    iso->nrec = n;
                };
                if ( __sanitizer_set_death_callback ) { __sanitizer_set_death_callback( +dump ); }
                struct sigaction sa;
                memset( &sa, 0, sizeof sa );
                sa.sa_handler = []( int ) {
                    size_t n = std::min<size_t>( tp->rec.size(), 200000u );
                    memcpy( iso->rec, tp->rec.data(), n*sizeof( uint64_t ) );
                    iso->nrec = n;
                    _exit( 98 );
                };
                for ( int sg : { SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM } ) { sigaction( sg, &sa, nullptr ); }
                alarm( 20 );
                std::string m;
                runCase( s, t, m );
                dump();
                _exit( 0 );
            }
            int ws;
            waitpid( pid, &ws, 0 );
            ch.assign( iso->rec, iso->rec + iso->nrec );
        }
        IsoResult r = runIsolated( s, ch, CASE_TIMEOUT );
        if ( bad( r.st ) ) {
            IsoResult orig = r;
            r = shrink( s, r, shrinkBudget );
            IsoResult again = runIsolated( s, r.rec, CASE_TIMEOUT );
            if ( !bad( again.st ) ) { r = orig; }
            saveReplay( rep.c_str(), s, r );
            failText = std::string( s.name ) + " [" + stName[ r.st ] + "]: " + r.msg;
            rc = 1;
        }
        else {
            failText = std::string( s.name ) + " failure did not reproduce in isolation";
            rc = 2;
        }
    }
    /* a failure that needs what earlier cases left behind: replay its worker's history */
    for ( size_t fi = 0; fi < fails.size() && 2 == rc && fi < 3u; ++fi ) {
        const unsigned w = fails[ fi ].w;
        std::vector<SeqItem> q;
        forEachCase( w, W, mult, only, [&]( size_t k, uint64_t i ) {
            q.push_back( SeqItem{ k, caseSeed( seed, ss[ k ], i ) } );
            return !( k == fails[ fi ].sub && i == fails[ fi ].idx );
        } );
        IsoResult r;
        if ( shrinkSeq( q, r, 2.0*shrinkBudget ) ) {
            saveSeqReplay( rep.c_str(), q, r );
            failText = std::string( ss[ q.back().sub ].name ) + " [" + stName[ r.st ] + "] at the end of a history of " + std::to_string( q.size() ) + " cases: " + r.msg;
            rc = 1;
        }
    }
    // samples: re-run a few early cases of each subtest verbosely
    std::string samples = "[";
    if ( !haveFail ) {
        bool first = true;
        for ( size_t k = 0; k < ss.size(); ++k ) {
            if ( only && strcmp( only, ss[ k ].name ) ) { continue; }
            int got = 0;
            for ( uint64_t i = 0; i < 200 && i < ss[ k ].cases && got < 2; ++i ) {
                Ctx t( caseSeed( seed, ss[ k ], i ) );
                t.verbose = true;
                std::string m;
                Status st = runCase( ss[ k ], t, m );
                if ( st != ST_PASS || !t.isNontrivial ) { continue; }
                std::string n = t.notes.substr( 0, 500 );
                if ( n.empty() ) {
                    n = "choices:";
                    for ( size_t q = 0; q < t.rec.size() && q < 24; ++q ) { n += " " + std::to_string( t.rec[ q ] ); }
                }
                samples += std::string( first ? "" : "," ) + "\"" + jesc( std::string( ss[ k ].name ) + ": " + n ) + "\"";
                first = false;
                ++got;
            }
        }
    }
    samples += "]";
    FILE *f = fopen( out.c_str(), "w" );
    if ( f ) {
        fprintf( f, "{\"property\":\"%s\",\"rule\":\"%s\",\"seed\":%" PRIu64 ",\"evaluations\":%" PRIu64 ",\"discarded\":%" PRIu64
                    ",\"nontrivial\":%" PRIu64 ",\"distinct_nontrivial\":%zu,\"wall_s\":%.3f,\"rc\":%d,\"failure\":\"%s\",",
                 PROPERTY, jesc( RULE ).c_str(), seed, done, disc, nontriv, hashes.size(), nowS() - t0, rc, jesc( failText ).c_str() );
        auto dm = [&]( const char *n, const std::map<std::string, uint64_t> &m ) {
            fprintf( f, "\"%s\":{", n );
            bool first = true;
            for ( auto &p : m ) { fprintf( f, "%s\"%s\":%" PRIu64, first ? "" : ",", jesc( p.first ).c_str(), p.second ); first = false; }
            fprintf( f, "}," );
        };
        dm( "subtests", perSub );
        dm( "labels", labels );
        dm( "knowns", knowns );
        fprintf( f, "\"samples\":%s}\n", samples.c_str() );
        fclose( f );
    }
    if ( rc ) { printf( "%s %s: %s\n", rc == 1 ? "FAIL" : "FLAKY", PROPERTY, failText.c_str() ); }
    else { printf( "OK %s: %" PRIu64 " cases, %zu distinct non-trivial, %" PRIu64 " discarded, %.1fs\n", PROPERTY, done, hashes.size(), disc, nowS() - t0 ); }
    return rc;
}
#endif
