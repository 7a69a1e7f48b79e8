// Support for testing ceras: a plain reference n-d array, conversions, numeric derivatives, generic expression checks.
#pragma once
#include "pbt.hpp"
#include CERAS_HEADER
#include <functional>
#include <type_traits>

namespace cer
{
    using pbt::src; using pbt::ctx;
    typedef unsigned long ul;
    typedef std::vector<ul> shape_t;

    inline ul prod( shape_t const& s ) { ul n = 1; for ( auto x : s ) n *= x; return n; }
    inline std::string str( shape_t const& s ) { std::ostringstream o; o << "("; for ( std::size_t i = 0; i < s.size(); ++i ) o << ( i ? "," : "" ) << static_cast<long>( s[i] ); o << ")"; return o.str(); }

    struct nd // row-major n-dimensional array of doubles
    {
        shape_t shape; std::vector<double> v;
        nd() {}
        explicit nd( shape_t const& s, double x = 0 ) : shape( s ), v( prod( s ), x ) {}
        nd( shape_t const& s, std::vector<double> const& d ) : shape( s ), v( d ) {}
        ul size() const { return v.size(); }
        ul dim() const { return shape.size(); }
        double& operator[]( ul i ) { return v[i]; }
        double operator[]( ul i ) const { return v[i]; }
        ul off( shape_t const& i ) const { ul o = 0; for ( ul k = 0; k < shape.size(); ++k ) o = o * shape[k] + i[k]; return o; }
        double& at( shape_t const& i ) { return v[off( i )]; }
        double at( shape_t const& i ) const { return v[off( i )]; }
        nd reshaped( shape_t const& s ) const { return nd{ s, v }; }
    };

    // calls f( multi-index ) for every index of the shape in row-major order
    template<class F> void each( shape_t const& s, F const& f )
    {
        ul const n = prod( s ); shape_t i( s.size(), 0 );
        for ( ul k = 0; k < n; ++k )
        {
            f( i );
            for ( long d = static_cast<long>( s.size() ) - 1; d >= 0; --d ) { if ( ++i[d] < s[d] ) break; i[d] = 0; }
        }
    }
    inline std::string str( nd const& a, ul max = 64 )
    {
        std::ostringstream o; o.precision( 12 ); o << str( a.shape ) << "[";
        for ( ul i = 0; i < std::min( max, a.size() ); ++i ) o << ( i ? "," : "" ) << a.v[i];
        if ( a.size() > max ) o << ",...";
        o << "]"; return o.str();
    }
    template<class F> nd map( nd const& a, F const& f ) { nd r{ a.shape }; for ( ul i = 0; i < a.size(); ++i ) r.v[i] = f( a.v[i] ); return r; }
    template<class F> nd zip( nd const& a, nd const& b, F const& f ) { nd r{ a.shape }; for ( ul i = 0; i < a.size(); ++i ) r.v[i] = f( a.v[i], b.v[i] ); return r; }
    inline bool broadcastable( shape_t const& a, shape_t const& b )
    {
        ul const n = std::max( a.size(), b.size() );
        for ( ul i = 0; i < n; ++i ) { ul x = i < a.size() ? a[a.size() - 1 - i] : 1, y = i < b.size() ? b[b.size() - 1 - i] : 1; if ( x != y && x != 1 && y != 1 ) return false; }
        return true;
    }
    inline shape_t broadcast_shape( shape_t const& a, shape_t const& b )
    {
        ul const n = std::max( a.size(), b.size() ); shape_t r( n );
        for ( ul i = 0; i < n; ++i ) { ul x = i < a.size() ? a[a.size() - 1 - i] : 1, y = i < b.size() ? b[b.size() - 1 - i] : 1; r[n - 1 - i] = x == 1 ? y : x; }
        return r;
    }
    inline double bget( nd const& a, shape_t const& i ) // value of `a` broadcast (numpy rules) at index i
    {
        ul o = 0; ul const d = a.shape.size(), n = i.size();
        for ( ul k = 0; k < d; ++k ) { ul x = i[n - d + k]; o = o * a.shape[k] + ( a.shape[k] == 1 ? 0 : x ); }
        return a.v[o];
    }
    template<class F> nd bzip( nd const& a, nd const& b, F const& f ) // numpy broadcasting
    {
        nd r{ broadcast_shape( a.shape, b.shape ) }; ul k = 0;
        each( r.shape, [&]( shape_t const& i ) { r.v[k++] = f( bget( a, i ), bget( b, i ) ); } );
        return r;
    }
    inline double sum( nd const& a ) { long double s = 0; for ( auto x : a.v ) s += x; return static_cast<double>( s ); }
    inline nd matmul( nd const& a, nd const& b )
    {
        nd r{ { a.shape[0], b.shape[1] } };
        for ( ul i = 0; i < a.shape[0]; ++i ) for ( ul j = 0; j < b.shape[1]; ++j ) { long double s = 0; for ( ul k = 0; k < a.shape[1]; ++k ) s += static_cast<long double>( a.v[i * a.shape[1] + k] ) * b.v[k * b.shape[1] + j]; r.v[i * b.shape[1] + j] = static_cast<double>( s ); }
        return r;
    }
    // reduce over one axis; f gets the vector of elements along the axis
    template<class F> nd reduce( nd const& a, ul axis, F const& f, bool keep = false )
    {
        shape_t s = a.shape; ul const n = s[axis]; shape_t outer = s; outer.erase( outer.begin() + axis );
        shape_t ks = s; ks[axis] = 1;
        nd r{ keep ? ks : outer }; ul k = 0;
        each( outer, [&]( shape_t const& i ) { std::vector<double> e( n ); shape_t j = i; j.insert( j.begin() + axis, 0 ); for ( ul t = 0; t < n; ++t ) { j[axis] = t; e[t] = a.at( j ); } r.v[k++] = f( e ); } );
        return r;
    }

    template<class T, class A> nd to_nd( ceras::tensor<T, A> const& t )
    {
        nd r; auto const sh = t.shape(); r.shape.assign( sh.begin(), sh.end() );
        r.v.assign( t.begin(), t.end() ); return r;
    }
    template<class T> ceras::tensor<T> to_tensor( nd const& a )
    {
        ceras::tensor<T> t{ a.shape };
        for ( ul i = 0; i < a.size(); ++i ) t.data()[i] = static_cast<T>( a.v[i] );
        return t;
    }
    inline nd as_float( nd const& a ) { return map( a, []( double x ) { return static_cast<double>( static_cast<float>( x ) ); } ); }

    inline shape_t gen_shape( src& s, ul min_d, ul max_d, ul max_e, ul max_total = 400 )
    {
        ul const d = s.range( min_d, max_d ); shape_t r; ul tot = 1;
        for ( ul i = 0; i < d; ++i ) { ul hi = std::max<ul>( 1, std::min<ul>( max_e, max_total / tot ) ); ul e = 1 + s.draw( hi ); r.push_back( e ); tot *= e; }
        return r;
    }
    // like gen_shape, and now and then much larger
    inline shape_t gen_shape_wide( src& s, ul min_d, ul max_d, ul max_e, ul max_total = 400 )
    {
        if ( !s.chance( 1, 25 ) ) return gen_shape( s, min_d, max_d, max_e, max_total );
        return gen_shape( s, min_d, max_d, s.coin() ? 40 : 1500, 1500 );
    }
    inline nd gen_nd( src& s, shape_t const& sh, double lo, double hi )
    {
        nd r{ sh }; for ( auto& x : r.v ) x = s.real( lo, hi ); return r;
    }
    inline nd gen_generic( src& s, shape_t const& sh, double lo, double hi ) // pairwise distinct with overwhelming probability
    {
        nd r{ sh }; for ( auto& x : r.v ) x = s.uniform( lo, hi ); return r;
    }
    // strictly distinct values separated by >= gap, in random order: a kink-free input for order statistics
    inline nd gen_separated( src& s, shape_t const& sh, double lo, double gap )
    {
        nd r{ sh }; ul const n = r.size(); for ( ul i = 0; i < n; ++i ) r.v[i] = lo + gap * static_cast<double>( i ) + gap * 0.25 * s.uniform( 0, 1 );
        for ( ul i = n; i > 1; --i ) std::swap( r.v[i - 1], r.v[s.draw( i )] );
        return r;
    }

    inline bool close( double a, double b, double rtol, double atol )
    {
        if ( std::isnan( a ) || std::isnan( b ) ) return std::isnan( a ) && std::isnan( b );
        if ( a == b ) return true;
        if ( std::isinf( a ) || std::isinf( b ) ) return false;
        return std::fabs( a - b ) <= atol + rtol * std::max( std::fabs( a ), std::fabs( b ) );
    }
    inline void expect_close( ctx& c, nd const& got, nd const& want, double rtol, double atol, std::string const& tag, std::string const& what )
    {
        if ( got.shape != want.shape ) c.fail( tag + ":shape", what, ": shape is ", str( got.shape ), " but must be ", str( want.shape ) );
        for ( ul i = 0; i < got.size(); ++i )
            if ( !close( got.v[i], want.v[i], rtol, atol ) )
                c.fail( tag, what, ": element ", i, " is ", got.v[i], " but must be ", want.v[i], "; got ", str( got ), " want ", str( want ) );
    }
    inline void expect_same( ctx& c, nd const& got, nd const& want, std::string const& tag, std::string const& what )
    {
        if ( got.shape != want.shape ) c.fail( tag + ":shape", what, ": shape is ", str( got.shape ), " but must be ", str( want.shape ) );
        for ( ul i = 0; i < got.size(); ++i )
            if ( std::memcmp( &got.v[i], &want.v[i], sizeof( double ) ) != 0 && !( std::isnan( got.v[i] ) && std::isnan( want.v[i] ) ) )
                c.fail( tag, what, ": element ", i, " is ", got.v[i], " but must be exactly ", want.v[i], "; got ", str( got ), " want ", str( want ) );
    }

    // ---- sessions -------------------------------------------------------------------------------------------------------
    template<class T> void fresh_session()
    {
        auto& ss = ceras::get_default_session<ceras::tensor<T>>();
        ss = std::remove_reference_t<decltype( ss )>{};
    }
    inline void reset_all( pbt::u64 = 0 )
    {
        fresh_session<double>(); fresh_session<float>();
        ceras::learning_phase = 1;
        ceras::random_generator.seed( 12345 );
    }
    template<class T, class Ex> ceras::tensor<T> run_raw( Ex& ex ) { auto& ss = ceras::get_default_session<ceras::tensor<T>>(); return ss.run( ex ); }
    template<class T, class Ex> nd run( Ex& ex ) { return to_nd( run_raw<T>( ex ) ); }

    // ---- numeric vector-Jacobian products of a reference function -------------------------------------------------------
    typedef std::function<nd( std::vector<nd> const& )> ref_t;

    struct vjp_result { nd g; std::vector<bool> smooth, skip; std::vector<double> slack, lo, hi; }; // slack: uncertainty of the numeric derivative
    inline vjp_result numeric_vjp( ref_t const& f, std::vector<nd> const& x, ul which, nd const& up, double hscale = 1e-4 )
    {
        vjp_result r; ul const total = x[which].size(); bool const sample = total > 160; r.skip.assign( total, false ); // of a large operand only a sample of the elements
        r.g = nd{ x[which].shape }; r.smooth.assign( x[which].size(), true ); r.slack.assign( x[which].size(), 0 ); r.lo = r.hi = r.slack;
        for ( ul i = 0; i < x[which].size(); ++i )
        {
            if ( sample && i > 4 && i + 5 < total && ( i * 7919ul ) % total >= 30 ) { r.skip[i] = true; continue; }
            double const x0 = x[which].v[i]; double const h = hscale * std::max( 0.25, std::fabs( x0 ) );
            auto const at = [&]( double dx ) { auto y = x; y[which].v[i] = x0 + dx; nd o = f( y ); long double s = 0; for ( ul k = 0; k < o.size(); ++k ) s += static_cast<long double>( o.v[k] ) * up.v[k]; return s; };
            long double const p1 = at( h ), m1 = at( -h ), p2 = at( 2 * h ), m2 = at( -2 * h ), z = at( 0 );
            long double const d4 = ( 8 * ( p1 - m1 ) - ( p2 - m2 ) ) / ( 12 * static_cast<long double>( h ) );
            // one-sided second-order derivatives agree wherever the function is smooth
            long double const right = ( -3 * z + 4 * p1 - p2 ) / ( 2 * static_cast<long double>( h ) ), left = ( 3 * z - 4 * m1 + m2 ) / ( 2 * static_cast<long double>( h ) );
            r.g.v[i] = static_cast<double>( d4 );
            long double const scale = 1 + std::fabs( d4 );
            long double const c1 = ( p1 - m1 ) / ( 2 * static_cast<long double>( h ) ), c2 = ( p2 - m2 ) / ( 4 * static_cast<long double>( h ) );
            long double const sl[4] = { ( p1 - z ) / h, ( p2 - p1 ) / h, ( z - m1 ) / h, ( m1 - m2 ) / h }; // near a kink any slope in between is a sub-gradient
            r.lo[i] = static_cast<double>( *std::min_element( sl, sl + 4 ) - 2e-3L * scale ); r.hi[i] = static_cast<double>( *std::max_element( sl, sl + 4 ) + 2e-3L * scale );
            r.slack[i] = static_cast<double>( 2 * ( std::fabs( right - left ) + std::fabs( c1 - c2 ) ) );
            if ( !( std::fabs( right - left ) <= 1e-3L * scale && std::fabs( c1 - c2 ) <= 1e-3L * scale ) ) r.smooth[i] = false;
        }
        return r;
    }

    struct opts
    {
        double ftol = 1e-9, fatol = 1e-11, gtol = 2e-6, gatol = 2e-7;
        bool shape = true;      // declared shape must equal the shape of the result
        bool gradient = true;
        bool rerun = true;
        bool kinks = true;      // at a kink the gradient must lie between the one-sided slopes
        std::string name;
    };

    template<class T> using var = ceras::variable<ceras::tensor<T>>;

    inline nd gen_upstream( src& s, shape_t const& sh ) { nd g{ sh }; for ( auto& x : g.v ) x = s.uniform( -2, 2 ); return g; }

    inline void expect_grad( ctx& c, nd const& got, vjp_result const& want, double rtol, double atol, std::string const& tag, std::string const& what, bool kinks = true )
    {
        if ( got.shape != want.g.shape ) c.fail( tag + ":shape", what, ": gradient shape is ", str( got.shape ), " but must be ", str( want.g.shape ) );
        for ( ul i = 0; i < got.size(); ++i )
        {
            if ( i < want.skip.size() && want.skip[i] ) continue;
            if ( !want.smooth[i] )
            {
                c.label( "element at a kink: any slope in between" );
                if ( kinks && i < want.lo.size() && !( got.v[i] >= want.lo[i] && got.v[i] <= want.hi[i] ) ) c.fail( tag, what, ": gradient element ", i, " is ", got.v[i], " at a kink with slopes between ", want.lo[i], " and ", want.hi[i], "; got ", str( got ) );
                continue;
            }
            if ( !close( got.v[i], want.g.v[i], rtol, atol + ( i < want.slack.size() ? want.slack[i] : 0 ) ) )
                c.fail( tag, what, ": gradient element ", i, " is ", got.v[i], " but the derivative is ", want.g.v[i], "; got ", str( got ), " want ", str( want.g ) );
        }
    }

    // an expression behind closures, so that the checking code is compiled once and not once per expression type
    struct expr_if
    {
        std::function<nd()> run; std::function<nd( nd const& )> back; std::function<shape_t()> shape; // back returns the upstream gradient as it is afterwards
    };
    template<class T, class Ex> expr_if erase( Ex& ex )
    {
        expr_if e;
        e.run = [&ex]() { return cer::run<T>( ex ); };
        e.back = [&ex]( nd const& g ) { auto t = to_tensor<T>( g ); ex.backward( t ); return to_nd( t ); };
        e.shape = [&ex]() { auto const sh = ex.shape(); return shape_t( sh.begin(), sh.end() ); };
        return e;
    }

    template<class T>
    void check_erased( src& s, ctx& c, expr_if const& ex, std::vector<var<T>*> vars, ref_t const& ref, opts const& o )
    {
        std::vector<nd> x; for ( auto* v : vars ) x.push_back( to_nd( v->data() ) );
        for ( ul i = 0; i < x.size(); ++i ) c.desc << " x" << i << "=" << str( x[i], 12 );
        c.flush_desc();
        nd const want = ref( x );
        nd const y = ex.run();
        expect_close( c, y, want, o.ftol, o.fatol, o.name + ":value", o.name );
        for ( ul i = 0; i < x.size(); ++i ) expect_same( c, to_nd( vars[i]->data() ), x[i], o.name + ":purity", o.name + ": evaluating must not modify operand " + std::to_string( i ) );
        if ( o.shape )
        {
            shape_t const declared = ex.shape();
            c.require( declared == y.shape, o.name + ":declared-shape", o.name, ": declared shape is ", str( declared ), " but the value has shape ", str( y.shape ) );
        }
        if ( o.gradient )
        {
            nd const g0 = gen_upstream( s, y.shape );
            nd const g = std::is_same_v<T, float> ? as_float( g0 ) : g0;
            expect_same( c, ex.back( g ), g, o.name + ":upstream", o.name + ": backpropagation must not modify the gradient passed in" );
            for ( ul i = 0; i < x.size(); ++i )
                expect_grad( c, to_nd( vars[i]->gradient() ), numeric_vjp( ref, x, i, g ), o.gtol, o.gatol, o.name + ":gradient", o.name + " operand " + std::to_string( i ), o.kinks );
            for ( ul i = 0; i < x.size(); ++i ) expect_same( c, to_nd( vars[i]->data() ), x[i], o.name + ":purity", o.name + ": backpropagation must not modify operand " + std::to_string( i ) );
        }
        if ( o.rerun )
        {
            nd const y2 = ex.run();
            expect_same( c, y2, y, o.name + ":rerun", o.name + ": evaluating twice must give the same value" );
        }
    }
    // Evaluates `ex` (built over `vars`), compares the value with ref, the gradients with numeric derivatives of ref.
    template<class T, class Ex>
    void check_expression( src& s, ctx& c, Ex& ex, std::vector<var<T>*> vars, ref_t const& ref, opts const& o )
    {
        check_erased<T>( s, c, erase<T>( ex ), vars, ref, o );
    }

    // how a piece of code ends, run in a child process with a time limit
    enum class ending { done, rejected, crashed, hung }; // rejected: a failed assertion (abort) or an exception
    template<class F> ending in_child( F const& f, unsigned seconds = 20 )
    {
        std::fflush( stdout ); std::fflush( stderr );
        pid_t const pid = fork();
        if ( pid < 0 ) throw std::runtime_error( "fork" );
        if ( pid == 0 )
        {
            int const null = open( "/dev/null", O_WRONLY ); if ( null >= 0 ) { dup2( null, 1 ); dup2( null, 2 ); }
            signal( SIGALRM, SIG_DFL ); signal( SIGABRT, SIG_DFL ); alarm( seconds );
            try { f(); } catch ( ... ) { _exit( 77 ); }
            _exit( 0 );
        }
        int st = 0; while ( waitpid( pid, &st, 0 ) < 0 && errno == EINTR ) {}
        if ( WIFEXITED( st ) ) return WEXITSTATUS( st ) == 0 ? ending::done : WEXITSTATUS( st ) == 77 ? ending::rejected : ending::crashed;
        if ( WIFSIGNALED( st ) && WTERMSIG( st ) == SIGABRT ) return ending::rejected;
        if ( WIFSIGNALED( st ) && WTERMSIG( st ) == SIGALRM ) return ending::hung;
        return ending::crashed;
    }
    // for use in a child: no file can grow beyond this many bytes; writing more fails as on a full disk
    inline void full_disk_at( ul bytes ) { signal( SIGXFSZ, SIG_IGN ); struct rlimit r; r.rlim_cur = bytes; r.rlim_max = bytes; setrlimit( RLIMIT_FSIZE, &r ); }
    template<class T> void set_data( var<T>& v, nd const& a ) { std::copy( a.v.begin(), a.v.end(), v.data().begin() ); }
}

// The library asks how many processors there are whenever it splits a loop; here the case decides, so that loops are cut in many ways.
namespace cer { inline std::atomic<unsigned>& cores() { static std::atomic<unsigned> n{ 4 }; return n; } }
#ifndef NOPARALLEL
unsigned std::thread::hardware_concurrency() noexcept { return cer::cores(); }
namespace cer { inline void prologue( pbt::src& s, pbt::ctx& c ) { static unsigned const n[] = { 4, 2, 3, 5, 8, 7, 1, 13 }; cores() = n[s.draw( 8 )]; c.desc << "[" << cores() << " processors] "; } }
#else
namespace cer { inline void prologue( pbt::src&, pbt::ctx& ) {} }
#endif

#define CER_MAIN() \
    int main( int argc, char** argv ) { pbt::reset_hook() = cer::reset_all; pbt::prologue_hook() = cer::prologue; return pbt::main_( argc, argv ); }
