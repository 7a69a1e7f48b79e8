// A small property-based testing engine with integrated (choice-sequence) shrinking.
//
// A case is a pure function of a sequence of unsigned "choices".  In random mode the choices are drawn from a PRNG
// seeded by (VERIF_SEED, family, case index); in replay mode they are read back from a list (0 when exhausted).
// Every case runs in a forked worker, so that aborts, sanitizer reports, crashes and hangs of the code under test
// are failures of that case only.  Failing sequences are minimised by deletion / zeroing / lowering of choices.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{
    typedef std::uint64_t u64;

    inline u64 mix( u64 x ) { x += 0x9e3779b97f4a7c15ull; x = ( x ^ ( x >> 30 ) ) * 0xbf58476d1ce4e5b9ull; x = ( x ^ ( x >> 27 ) ) * 0x94d049bb133111ebull; return x ^ ( x >> 31 ); }
    inline u64 hash_str( std::string const& s ) { u64 h = 1469598103934665603ull; for ( unsigned char c : s ) { h ^= c; h *= 1099511628211ull; } return h; }

    constexpr unsigned long max_choices = 1ul << 17;
    constexpr unsigned long max_block = 4096;
    constexpr unsigned long max_labels = 192;
    constexpr unsigned long max_samples = 3;

    struct label_slot { char name[56]; u64 count; };

    struct shared
    {
        volatile u64 case_index;
        volatile u64 n_choices;
        volatile u64 evaluations, nontrivial, discarded, excluded;
        volatile int failed;
        volatile int finished;
        u64 choices[max_choices];
        char tag[64];
        char msg[6000];
        char desc[12000];
        label_slot labels[max_labels];
        label_slot findings[32];
        char finding_msg[32][600];
        volatile u64 n_hashes;
        u64 hashes[max_block];
        volatile u64 n_samples;
        char samples[max_samples][1200];
    };

    struct failure { std::string tag, msg; };
    struct discard_t {};
    struct finding_t { std::string key, msg; };

    struct src
    {
        std::vector<u64> const* replay = nullptr;
        u64 pos = 0;
        u64 state = 0;
        shared* shm = nullptr;
        u64 h = 0;

        u64 draw( u64 n ) // in [0, n)
        {
            u64 v = 0;
            if ( replay ) { v = pos < replay->size() ? ( *replay )[pos] : 0; if ( n ) v = v >= n ? ( n - 1 ) : v; }
            else { state = mix( state ); v = n ? state % n : state; }
            if ( shm && pos < max_choices ) { shm->choices[pos] = v; shm->n_choices = pos + 1; }
            ++pos;
            h = mix( h ^ v );
            return v;
        }
        long range( long lo, long hi ) { return lo + static_cast<long>( draw( static_cast<u64>( hi - lo ) + 1 ) ); } // inclusive
        bool coin() { return draw( 2 ) != 0; }
        bool chance( int num, int den ) { return static_cast<int>( draw( den ) ) >= den - num; } // 0 shrinks to false
        template<class C> auto const& pick( C const& c ) { return c[draw( c.size() )]; }
        template<class T> T pick( std::initializer_list<T> c ) { return *( c.begin() + draw( c.size() ) ); }
        // a double in [lo, hi] on a fine grid, biased to a few simple values
        double real( double lo, double hi )
        {
            u64 const k = draw( 8 );
            if ( k == 0 )
            {
                static const double nice[] = { 0.0, 1.0, -1.0, 0.5, 2.0, -0.5, -2.0, 3.0 };
                double v = nice[draw( 8 )];
                if ( v >= lo && v <= hi ) return v;
                return lo;
            }
            u64 const q = draw( 1u << 20 );
            return lo + ( hi - lo ) * ( static_cast<double>( q ) / ( ( 1u << 20 ) - 1 ) );
        }
        // a generic double, never "nice"
        double uniform( double lo, double hi ) { return lo + ( hi - lo ) * ( ( static_cast<double>( draw( 1u << 24 ) ) + 0.5 ) / ( 1u << 24 ) ); }
        // log-uniform magnitude
        double magnitude( double lo, double hi ) { return std::exp( uniform( std::log( lo ), std::log( hi ) ) ); }
    };

    struct ctx
    {
        shared* shm = nullptr;
        std::ostringstream desc;
        bool nontriv = false;
        std::map<std::string, u64> labels;
        std::set<std::string> const* known = nullptr;

        void nontrivial( bool b = true ) { nontriv = nontriv || b; }
        void label( std::string const& s ) { ++labels[s]; }
        void flush_desc() { if ( shm ) { std::string s = desc.str(); std::strncpy( shm->desc, s.c_str(), sizeof( shm->desc ) - 1 ); } }
        template<class... A> [[noreturn]] void fail( std::string const& tag, A const&... a )
        {
            std::ostringstream o; o.precision( 17 ); ( o << ... << a );
            throw failure{ tag, o.str() };
        }
        template<class... A> void require( bool ok, std::string const& tag, A const&... a ) { if ( !ok ) fail( tag, a... ); }
        // a recorded genuine defect: ends the case; a violation unless `key` is listed as a known finding of this property
        template<class... A> [[noreturn]] void finding( std::string const& key, A const&... a )
        {
            std::ostringstream o; o.precision( 9 ); ( o << ... << a );
            throw finding_t{ key, o.str() };
        }
        // the same, but the case goes on when the key is listed
        template<class... A> void tolerate( std::string const& key, A const&... a )
        {
            std::ostringstream o; o.precision( 9 ); ( o << ... << a );
            if ( known == nullptr || known->count( key ) == 0 ) throw finding_t{ key, o.str() };
            record_finding( key, o.str() );
        }
        void record_finding( std::string const& key, std::string const& msg )
        {
            if ( shm == nullptr ) return;
            for ( int i = 0; i < 32; ++i )
            {
                if ( shm->findings[i].name[0] == 0 ) { std::snprintf( shm->findings[i].name, 56, "%s", key.c_str() ); std::snprintf( shm->finding_msg[i], 600, "%s", msg.c_str() ); }
                if ( key == shm->findings[i].name ) { ++shm->findings[i].count; break; }
            }
        }
        [[noreturn]] void discard() { throw discard_t{}; }
        void excluded() { if ( shm ) ++shm->excluded; }
    };

    typedef std::function<void( src&, ctx& )> body_t;
    struct family { std::string name; u64 quick, thorough; u64 block; body_t body; std::string rule; };
    inline std::vector<family>& families() { static std::vector<family> f; return f; }
    struct reg { reg( std::string n, u64 q, u64 t, u64 b, std::string rule, body_t f ) { families().push_back( { n, q, t, b, f, rule } ); } };
    // called before every case: resets the global state of the code under test
    inline body_t& prologue_hook() { static body_t f = []( src&, ctx& ) {}; return f; } // draws what every case of a harness has in common
    inline std::function<void( u64 )>& reset_hook() { static std::function<void( u64 )> f = []( u64 ) {}; return f; }

#define PBT_CAT2( a, b ) a##b
#define PBT_CAT( a, b ) PBT_CAT2( a, b )
#define PBT_FAMILY( name, quick, thorough, block, rule ) \
    static void PBT_CAT( pbt_body_, __LINE__ )( pbt::src&, pbt::ctx& ); \
    static pbt::reg PBT_CAT( pbt_reg_, __LINE__ ){ name, quick, thorough, block, rule, PBT_CAT( pbt_body_, __LINE__ ) }; \
    static void PBT_CAT( pbt_body_, __LINE__ )( [[maybe_unused]] pbt::src& s, [[maybe_unused]] pbt::ctx& c )

    inline std::string json_escape( std::string const& s )
    {
        std::string o;
        for ( unsigned char c : s )
        {
            if ( c == '"' ) o += "\\\"";
            else if ( c == '\\' ) o += "\\\\";
            else if ( c == '\n' ) o += "\\n";
            else if ( c == '\t' ) o += "\\t";
            else if ( c < 32 || c > 126 ) { char b[8]; std::snprintf( b, 8, "\\u%04x", c ); o += b; }
            else o += static_cast<char>( c );
        }
        return o;
    }

    struct engine
    {
        u64 seed = 1;
        bool thorough = false;
        double scale = 1.0;
        unsigned jobs = 8;
        double budget_s = 600;
        double case_timeout_s = 60;
        std::string scratch = "/tmp";
        std::set<std::string> known;
        std::string only;
        bool survey = false; // development aid: do not stop at failures, list distinct tags

        static double now() { return std::chrono::duration<double>( std::chrono::steady_clock::now().time_since_epoch() ).count(); }
        static shared* make_shm() { void* p = mmap( nullptr, sizeof( shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ); if ( p == MAP_FAILED ) { std::perror( "mmap" ); std::exit( 2 ); } return static_cast<shared*>( p ); }

        u64 case_seed( family const& f, u64 idx ) const { return mix( mix( seed * 0x100000001b3ull + 7 ) ^ mix( hash_str( f.name ) + idx * 0x9e3779b97f4a7c15ull ) ); }

        // returns 0 ok, 1 failed; runs in the worker
        int run_one( family const& f, src& s, ctx& c, shared* shm )
        {
            shm->n_choices = 0; shm->desc[0] = 0;
            s.shm = shm; c.shm = shm; c.known = &known;
            int bad = 0;
            bool counted = true;
            try
            {
                reset_hook()( 0 );
                prologue_hook()( s, c );
                f.body( s, c );
            }
            catch ( failure const& e ) { bad = 1; std::snprintf( shm->tag, sizeof( shm->tag ), "%s", e.tag.c_str() ); std::snprintf( shm->msg, sizeof( shm->msg ), "%s", e.msg.c_str() ); }
            catch ( finding_t const& e )
            {
                if ( known.count( e.key ) == 0 ) { bad = 1; std::snprintf( shm->tag, sizeof( shm->tag ), "%s", e.key.c_str() ); std::snprintf( shm->msg, sizeof( shm->msg ), "%s", e.msg.c_str() ); }
                else c.record_finding( e.key, e.msg );
            }
            catch ( discard_t const& ) { counted = false; ++shm->discarded; }
            catch ( std::exception const& e ) { bad = 1; std::snprintf( shm->tag, sizeof( shm->tag ), "exception" ); std::snprintf( shm->msg, sizeof( shm->msg ), "unexpected exception: %s", e.what() ); }
            c.flush_desc();
            if ( counted )
            {
                ++shm->evaluations;
                if ( c.nontriv )
                {
                    ++shm->nontrivial;
                    if ( shm->n_hashes < max_block ) { shm->hashes[shm->n_hashes] = mix( s.h ); shm->n_hashes = shm->n_hashes + 1; }
                    if ( shm->n_samples < max_samples ) { std::string d = c.desc.str(); std::snprintf( shm->samples[shm->n_samples], 1200, "%s", d.c_str() ); shm->n_samples = shm->n_samples + 1; }
                }
                for ( auto const& [k, v] : c.labels )
                    for ( auto& slot : shm->labels )
                    {
                        if ( slot.name[0] == 0 ) std::snprintf( slot.name, 56, "%s", k.c_str() );
                        if ( std::strncmp( slot.name, k.c_str(), 55 ) == 0 ) { slot.count += v; break; }
                    }
            }
            if ( bad ) shm->failed = 1;
            return bad;
        }

        void redirect( std::string const& log )
        {
            int fd = open( log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 );
            int nul = open( "/dev/null", O_RDWR );
            dup2( nul, 0 ); dup2( nul, 1 ); dup2( fd, 2 );
            std::signal( SIGALRM, SIG_DFL );
            std::string const dir = log + ".d"; // every worker has a working directory of its own
            mkdir( dir.c_str(), 0700 );
            if ( chdir( dir.c_str() ) != 0 ) std::exit( 2 );
        }

        pid_t spawn_block( u64 fi, u64 first, u64 last, shared* shm, std::string const& log )
        {
            std::memset( static_cast<void*>( shm ), 0, offsetof( shared, choices ) );
            shm->tag[0] = shm->msg[0] = shm->desc[0] = 0; shm->n_hashes = 0; shm->n_samples = 0;
            std::memset( shm->labels, 0, sizeof( shm->labels ) ); std::memset( shm->findings, 0, sizeof( shm->findings ) );
            std::fflush( nullptr );
            pid_t p = fork();
            if ( p < 0 ) { std::perror( "fork" ); std::exit( 2 ); }
            if ( p == 0 )
            {
                redirect( log );
                family const& f = families()[fi];
                for ( u64 i = first; i < last; ++i )
                {
                    shm->case_index = i;
                    src s; s.state = case_seed( f, i ); s.h = hash_str( f.name );
                    ctx c;
                    alarm( static_cast<unsigned>( case_timeout_s ) );
                    if ( run_one( f, s, c, shm ) ) { std::fflush( nullptr ); _exit( 10 ); }
                }
                alarm( 0 );
                shm->finished = 1;
                std::fflush( nullptr );
                _exit( 0 );
            }
            return p;
        }

        struct outcome { bool failed = false; std::string tag, msg, desc; std::vector<u64> choices; };

        static std::string tail( std::string const& file, std::size_t n = 3000 )
        {
            std::ifstream f( file ); std::string s( ( std::istreambuf_iterator<char>( f ) ), std::istreambuf_iterator<char>() );
            auto p = s.find( "ERROR: AddressSanitizer" );
            if ( p == std::string::npos ) p = s.find( "WARNING: ThreadSanitizer" );
            if ( p == std::string::npos ) p = s.find( "runtime error:" );
            if ( p != std::string::npos ) return s.substr( p > 20 ? p - 20 : 0, n );
            return s.size() > n ? s.substr( s.size() - n ) : s;
        }

        outcome read_outcome( shared* shm, int status, std::string const& log )
        {
            outcome o;
            if ( WIFEXITED( status ) && WEXITSTATUS( status ) == 0 && shm->finished && !shm->failed ) return o;
            o.failed = true;
            o.choices.assign( shm->choices, shm->choices + std::min<u64>( static_cast<u64>( shm->n_choices ), static_cast<u64>( max_choices ) ) );
            o.desc = shm->desc;
            if ( shm->failed ) { o.tag = shm->tag; o.msg = shm->msg; }
            else
            {
                std::ostringstream m;
                if ( WIFSIGNALED( status ) ) { m << "the code under test died with signal " << WTERMSIG( status ) << " (" << strsignal( WTERMSIG( status ) ) << ")"; o.tag = WTERMSIG( status ) == SIGALRM ? "hang" : "crash"; }
                else { m << "the code under test ended the process with status " << WEXITSTATUS( status ); o.tag = "crash"; }
                m << "\n" << tail( log );
                o.msg = m.str();
            }
            return o;
        }

        outcome try_choices( u64 fi, std::vector<u64> const& ch, shared* shm, std::string const& log, double timeout )
        {
            std::memset( static_cast<void*>( shm ), 0, offsetof( shared, choices ) ); shm->tag[0] = shm->msg[0] = shm->desc[0] = 0; shm->n_hashes = 0; shm->n_samples = 0;
            std::memset( shm->findings, 0, sizeof( shm->findings ) );
            std::fflush( nullptr );
            pid_t p = fork();
            if ( p == 0 )
            {
                redirect( log );
                src s; s.replay = &ch; s.h = hash_str( families()[fi].name );
                ctx c;
                alarm( static_cast<unsigned>( timeout ) + 1 );
                int r = run_one( families()[fi], s, c, shm );
                alarm( 0 );
                if ( !r ) shm->finished = 1;
                std::fflush( nullptr );
                _exit( r ? 10 : 0 );
            }
            int status = 0; while ( waitpid( p, &status, 0 ) < 0 && errno == EINTR ) {}
            return read_outcome( shm, status, log );
        }

        outcome try_prefix( u64 fi, u64 first, u64 last, shared* shm, std::string const& log )
        {
            pid_t p = spawn_block( fi, first, last, shm, log );
            int status = 0; while ( waitpid( p, &status, 0 ) < 0 && errno == EINTR ) {}
            return read_outcome( shm, status, log );
        }

        outcome shrink( u64 fi, outcome best, shared* shm, std::string const& log )
        {
            double const t0 = now(); int attempts = 0;
            double const limit = 25.0;
            auto const ok = [&]() { return now() - t0 < limit && attempts < 1500; };
            auto const attempt = [&]( std::vector<u64> const& cand )
            {
                ++attempts;
                outcome o = try_choices( fi, cand, shm, log, 20 );
                if ( o.failed && o.tag == best.tag )
                {
                    auto used = o.choices; // normalised: only what was consumed
                    bool better = used.size() < best.choices.size() || ( used.size() == best.choices.size() && used < best.choices );
                    if ( better ) { best = o; return true; }
                }
                return false;
            };
            if ( best.tag == "hang" ) return best;
            bool progress = true;
            while ( progress && ok() )
            {
                progress = false;
                for ( std::size_t n = std::max<std::size_t>( 1, best.choices.size() / 2 ); n >= 1 && ok(); n /= 2 )
                {
                    for ( std::size_t i = best.choices.size(); i > 0 && ok(); )
                    {
                        i = i > n ? i - n : 0;
                        if ( i >= best.choices.size() ) continue;
                        auto c = best.choices; c.erase( c.begin() + i, c.begin() + std::min( c.size(), i + n ) );
                        if ( attempt( c ) ) { progress = true; continue; }
                        c = best.choices; bool nz = false;
                        for ( std::size_t j = i; j < std::min( c.size(), i + n ); ++j ) { nz = nz || c[j]; c[j] = 0; }
                        if ( nz && attempt( c ) ) progress = true;
                        if ( i == 0 ) break;
                    }
                    if ( n == 1 ) break;
                }
                for ( std::size_t i = 0; i < best.choices.size() && ok(); ++i )
                {
                    u64 lo = 0;
                    while ( i < best.choices.size() && best.choices[i] > lo && ok() )
                    {
                        auto c = best.choices; u64 mid = lo + ( best.choices[i] - lo ) / 2; c[i] = mid;
                        if ( attempt( c ) ) progress = true; else lo = mid + 1;
                    }
                }
            }
            return best;
        }

        int replay_file( std::string const& fam, std::vector<u64> const& ch, bool prefix, u64 first, u64 last, u64 rseed )
        {
            u64 fi = families().size();
            for ( u64 i = 0; i < families().size(); ++i ) if ( families()[i].name == fam ) fi = i;
            if ( fi == families().size() ) { std::cerr << "no such family " << fam << "\n"; return 2; }
            shared* shm = make_shm();
            seed = rseed;
            outcome o = prefix ? try_prefix( fi, first, last, shm, scratch + "/replay.log" ) : try_choices( fi, ch, shm, scratch + "/replay.log", case_timeout_s );
            std::cout << ( o.failed ? "FAILED" : "passed" ) << "\nfamily: " << fam << "\ntag: " << o.tag << "\nmessage: " << o.msg << "\ncase: " << ( o.failed ? o.desc : std::string( shm->desc ) ) << std::endl;
            return o.failed ? 1 : 0;
        }

        int run( std::string const& out )
        {
            struct slot { pid_t pid = 0; u64 fi = 0, first = 0, last = 0; shared* shm = nullptr; std::string log; };
            std::vector<slot> slots( jobs );
            for ( unsigned i = 0; i < jobs; ++i ) { slots[i].shm = make_shm(); slots[i].log = scratch + "/worker_" + std::to_string( i ) + ".log"; }
            struct task { u64 fi, first, last; };
            std::vector<task> tasks;
            u64 planned = 0;
            for ( u64 fi = 0; fi < families().size(); ++fi )
            {
                auto const& f = families()[fi];
                if ( !only.empty() && f.name.find( only ) == std::string::npos ) continue;
                u64 n = static_cast<u64>( ( thorough ? f.thorough : f.quick ) * scale );
                if ( n == 0 && ( thorough ? f.thorough : f.quick ) > 0 ) n = 1;
                planned += n;
                u64 const b = std::min<u64>( std::max<u64>( 1, f.block ), max_block );
                for ( u64 i = 0; i < n; i += b ) tasks.push_back( { fi, i, std::min( n, i + b ) } );
            }
            // interleave families so that a time limit starves none of them
            std::stable_sort( tasks.begin(), tasks.end(), [&]( task const& a, task const& b ) { return a.first / families()[a.fi].block < b.first / families()[b.fi].block; } );
            double const t0 = now();
            struct fam_stat { u64 evals = 0, nontriv = 0, disc = 0, excl = 0; std::unordered_set<u64> hashes; std::map<std::string, u64> labels; std::vector<std::string> samples; };
            std::vector<fam_stat> st( families().size() );
            std::map<std::string, std::pair<u64, std::string>> findings;
            struct fail_rec { u64 task_no, fi, first, idx; outcome o; };
            std::vector<fail_rec> fails;
            std::map<pid_t, u64> task_of;
            u64 next = 0, running = 0; bool out_of_time = false; bool stop = false;
            std::set<u64> failed_families;
            while ( true )
            {
                while ( !stop && next < tasks.size() && running < jobs )
                {
                    if ( now() - t0 > budget_s ) { out_of_time = true; stop = true; break; }
                    if ( failed_families.count( tasks[next].fi ) ) { ++next; continue; }
                    for ( auto& s : slots )
                        if ( s.pid == 0 )
                        {
                            auto const& t = tasks[next];
                            s.fi = t.fi; s.first = t.first; s.last = t.last;
                            s.pid = spawn_block( t.fi, t.first, t.last, s.shm, s.log );
                            task_of[s.pid] = next; ++next; ++running;
                            break;
                        }
                }
                if ( running == 0 ) break;
                int status = 0; pid_t p = waitpid( -1, &status, 0 );
                if ( p < 0 ) { if ( errno == EINTR ) continue; break; }
                for ( auto& s : slots )
                {
                    if ( s.pid != p ) continue;
                    s.pid = 0; --running;
                    auto& x = st[s.fi];
                    x.evals += s.shm->evaluations; x.nontriv += s.shm->nontrivial; x.disc += s.shm->discarded; x.excl += s.shm->excluded;
                    for ( u64 i = 0; i < s.shm->n_hashes; ++i ) x.hashes.insert( s.shm->hashes[i] );
                    for ( auto const& l : s.shm->labels ) if ( l.name[0] ) x.labels[l.name] += l.count;
                    for ( u64 i = 0; i < s.shm->n_samples && x.samples.size() < max_samples; ++i ) x.samples.push_back( s.shm->samples[i] );
                    for ( int i = 0; i < 32; ++i ) if ( s.shm->findings[i].name[0] ) { auto& f = findings[s.shm->findings[i].name]; f.first += s.shm->findings[i].count; if ( f.second.empty() ) f.second = s.shm->finding_msg[i]; }
                    outcome o = read_outcome( s.shm, status, s.log );
                    if ( o.failed && survey ) { static std::set<std::string> seen; if ( seen.insert( o.tag ).second ) std::cerr << "[" << families()[s.fi].name << "] " << o.tag << ": " << o.msg.substr( 0, 900 ) << "\n    case: " << o.desc.substr( 0, 600 ) << std::endl; }
                    else if ( o.failed ) { fails.push_back( { task_of[p], s.fi, s.first, s.shm->case_index, o } ); failed_families.insert( s.fi ); if ( failed_families.size() >= 3 ) stop = true; }
                }
            }
            double const explore_s = now() - t0;
            std::sort( fails.begin(), fails.end(), []( fail_rec const& a, fail_rec const& b ) { return a.task_no < b.task_no; } );
            std::ostringstream js;
            std::ostringstream vio; int nvio = 0; std::ostringstream unrep; int nunrep = 0;
            shared* shm = make_shm(); std::string const log = scratch + "/shrink.log";
            std::set<std::string> reported;
            for ( auto const& fr : fails )
            {
                if ( nvio >= 3 ) break;
                if ( reported.count( families()[fr.fi].name + "|" + fr.o.tag ) ) continue;
                auto const replays = [&]( std::vector<u64> const& ch, bool prefix, outcome& last ) // 3 of 3, or at least 3 of 12
                {
                    int bad = 0, n = 0;
                    for ( ; n < 12; ++n )
                    {
                        if ( n == 3 && ( bad == 3 || bad == 0 ) ) break;
                        outcome o = prefix ? try_prefix( fr.fi, fr.first, fr.idx + 1, shm, log ) : try_choices( fr.fi, ch, shm, log, case_timeout_s );
                        if ( o.failed ) { ++bad; last = o; }
                        if ( bad >= 3 ) break;
                    }
                    return bad >= 3;
                };
                outcome o = fr.o; bool prefix = false; bool good = false;
                if ( replays( o.choices, false, o ) )
                {
                    outcome best = shrink( fr.fi, o, shm, log );
                    outcome last = best;
                    if ( replays( best.choices, false, last ) ) { o = last; o.choices = best.choices; }
                    good = true;
                }
                else if ( replays( {}, true, o ) ) { prefix = true; good = true; }
                std::ostringstream one;
                one << "{\"family\":\"" << json_escape( families()[fr.fi].name ) << "\",\"tag\":\"" << json_escape( o.tag ) << "\",\"message\":\"" << json_escape( o.msg ) << "\",\"case\":\"" << json_escape( o.desc )
                    << "\",\"seed\":" << seed << ",\"index\":" << fr.idx << ",\"mode\":\"" << ( prefix ? "prefix" : "choices" ) << "\",\"first\":" << fr.first << ",\"last\":" << fr.idx + 1 << ",\"choices\":[";
                for ( std::size_t i = 0; i < o.choices.size(); ++i ) one << ( i ? "," : "" ) << o.choices[i];
                one << "]}";
                if ( good ) reported.insert( families()[fr.fi].name + "|" + fr.o.tag );
                if ( good ) { vio << ( nvio++ ? "," : "" ) << one.str(); }
                else { unrep << ( nunrep++ ? "," : "" ) << one.str(); }
            }
            js << "{\"planned\":" << planned << ",\"explore_s\":" << explore_s << ",\"out_of_time\":" << ( out_of_time ? "true" : "false" ) << ",\"families\":[";
            bool ff = true;
            for ( u64 fi = 0; fi < families().size(); ++fi )
            {
                auto const& x = st[fi]; auto const& f = families()[fi];
                if ( !only.empty() && f.name.find( only ) == std::string::npos ) continue;
                js << ( ff ? "" : "," ) << "{\"name\":\"" << json_escape( f.name ) << "\",\"rule\":\"" << json_escape( f.rule ) << "\",\"evaluations\":" << x.evals << ",\"nontrivial\":" << x.nontriv << ",\"distinct_nontrivial\":" << x.hashes.size() << ",\"discarded\":" << x.disc << ",\"excluded\":" << x.excl << ",\"labels\":{";
                ff = false;
                bool b = true; for ( auto const& [k, v] : x.labels ) { js << ( b ? "" : "," ) << "\"" << json_escape( k ) << "\":" << v; b = false; }
                js << "},\"samples\":["; b = true; for ( auto const& sm : x.samples ) { js << ( b ? "" : "," ) << "\"" << json_escape( sm ) << "\""; b = false; }
                js << "]}";
            }
            js << "],\"findings\":{"; { bool b = true; for ( auto const& [k, v] : findings ) { js << ( b ? "" : "," ) << "\"" << json_escape( k ) << "\":{\"count\":" << v.first << ",\"example\":\"" << json_escape( v.second ) << "\"}"; b = false; } }
            js << "},\"violations\":[" << vio.str() << "],\"unreproduced\":[" << unrep.str() << "]}";
            std::ofstream( out ) << js.str();
            return nvio ? 1 : 0;
        }
    };

    inline int main_( int argc, char** argv )
    {
        engine e; std::string out = "/dev/stdout"; std::string rep_family; std::vector<u64> rep; bool prefix = false; u64 first = 0, last = 0; bool replay = false;
        for ( int i = 1; i < argc; ++i )
        {
            std::string a = argv[i]; auto val = [&]() { return std::string( argv[++i] ); };
            if ( a == "--seed" ) e.seed = std::stoull( val() );
            else if ( a == "--thorough" ) e.thorough = true;
            else if ( a == "--scale" ) e.scale = std::stod( val() );
            else if ( a == "--jobs" ) e.jobs = std::stoul( val() );
            else if ( a == "--budget" ) e.budget_s = std::stod( val() );
            else if ( a == "--case-timeout" ) e.case_timeout_s = std::stod( val() );
            else if ( a == "--scratch" ) e.scratch = val();
            else if ( a == "--out" ) out = val();
            else if ( a == "--survey" ) e.survey = true;
            else if ( a == "--only" ) e.only = val();
            else if ( a == "--known" ) { std::stringstream ss( val() ); std::string k; while ( std::getline( ss, k, ',' ) ) if ( !k.empty() ) e.known.insert( k ); }
            else if ( a == "--replay" ) { replay = true; rep_family = val(); }
            else if ( a == "--choices" ) { std::ifstream f( val() ); u64 v; while ( f >> v ) rep.push_back( v ); }
            else if ( a == "--prefix" ) { prefix = true; first = std::stoull( val() ); last = std::stoull( val() ); }
            else { std::cerr << "unknown argument " << a << "\n"; return 2; }
        }
        if ( replay ) return e.replay_file( rep_family, rep, prefix, first, last, e.seed );
        return e.run( out );
    }
}

#ifdef PBT_LIBFUZZER
// Coverage-guided mode: the input bytes are the choice sequence. A failing case is written to $PBT_FUZZ_OUT and aborts.
extern "C" int LLVMFuzzerTestOneInput( const std::uint8_t* data, std::size_t size );
#endif
