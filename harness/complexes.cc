// Complex expressions: pairs of expressions with the arithmetic of complex matrices.
#include "../lib/dag.hpp"
#include <complex>
using namespace cer;
typedef std::complex<double> cx;
struct cnd { nd re, im; };
typedef ceras::complex<any_expr, any_expr> complex_t;
struct cnode { complex_t ex; shape_t shape; std::function<cnd( std::vector<nd> const&, std::vector<cnd> const&, bool& )> f; std::string text; ul weight; };
struct rnode { any_expr ex; shape_t shape; std::function<nd( std::vector<nd> const&, std::vector<cnd> const&, bool& )> f; std::string text; ul weight; };

template<class C> static complex_t pack( C const& z ) { return complex_t{ any_expr::of( ceras::real( z ) ), any_expr::of( ceras::imag( z ) ) }; }
static nd add( nd const& a, nd const& b, double k = 1 ) { return bzip( a, b, [k]( double x, double y ) { return x + k * y; } ); }
static cnd cmul( cnd const& a, cnd const& b ) { return { add( matmul( a.re, b.re ), matmul( a.im, b.im ), -1 ), add( matmul( a.re, b.im ), matmul( a.im, b.re ) ) }; }
static nd each2( cnd const& a, bool& bad, bool away, double ( *f )( cx ) ) // away: an element close to zero makes the result ill-conditioned
{
    nd r{ a.re.shape }; for ( ul i = 0; i < r.size(); ++i ) { cx const z{ a.re.v[i], a.im.v[i] }; if ( away && std::abs( z ) < 0.05 ) bad = true; r.v[i] = f( z ); } return r;
}
struct world
{
    std::vector<var<double>> vars; std::vector<cnode> z; src& s; bool e_times_c = false, reused = false;
    explicit world( src& s_ ) : s( s_ ) { vars.reserve( 64 ); }
    ul variable( shape_t const& sh ) { nd x = gen_generic( s, sh, -1.2, 1.2 ); vars.emplace_back( to_tensor<double>( x ) ); return vars.size() - 1; }
    rnode real_leaf( shape_t const& sh ) { ul const k = variable( sh ); return { any_expr::of( vars[k] ), sh, [k]( std::vector<nd> const& x, std::vector<cnd> const&, bool& ) { return x[k]; }, "v" + std::to_string( k ) + str( sh ), 1 }; }
    rnode real_operand( shape_t const& sh ) // of exactly this shape
    {
        if ( s.chance( 1, 3 ) ) for ( ul k = z.size(); k-- > 0; ) if ( z[k].shape == sh && z[k].weight < 60 && s.coin() ) return real_of( k, s.draw( 4 ) );
        return real_leaf( sh );
    }
    rnode real_of( ul k, ul kind )
    {
        reused = true; complex_t const c = z[k].ex; rnode r; r.shape = z[k].shape; r.weight = z[k].weight * ( kind == 3 ? 4 : 2 ); std::string const n = "z" + std::to_string( k );
        switch ( kind )
        {
            case 0: r.ex = any_expr::of( ceras::real( c ) ); r.f = [k]( auto const&, std::vector<cnd> const& v, bool& ) { return v[k].re; }; r.text = "real(" + n + ")"; break;
            case 1: r.ex = any_expr::of( ceras::imag( c ) ); r.f = [k]( auto const&, std::vector<cnd> const& v, bool& ) { return v[k].im; }; r.text = "imag(" + n + ")"; break;
            case 2: r.ex = any_expr::of( ceras::abs( c ) ); r.f = [k]( auto const&, std::vector<cnd> const& v, bool& bad ) { return each2( v[k], bad, true, []( cx q ) { return std::abs( q ); } ); }; r.text = "abs(" + n + ")"; break;
            case 3: r.ex = any_expr::of( ceras::norm( c ) ); r.f = [k]( auto const&, std::vector<cnd> const& v, bool& bad ) { return each2( v[k], bad, false, []( cx q ) { return std::norm( q ); } ); }; r.text = "norm(" + n + ")"; break;
            default: r.ex = any_expr::of( ceras::arg( c ) ); r.f = [k]( auto const&, std::vector<cnd> const& v, bool& bad ) { return each2( v[k], bad, true, []( cx q ) { return std::arg( q ); } ); }; r.text = "arg(" + n + ")"; break;
        }
        return r;
    }
    template<class F> ul push( complex_t const& ex, shape_t const& sh, F const& f, std::string const& text, ul weight ) { z.push_back( { ex, sh, f, "z" + std::to_string( z.size() ) + "=" + text, weight } ); return z.size() - 1; }
    ul leaf( shape_t const& sh )
    {
        if ( s.chance( 1, 3 ) )
        {
            rnode const m = real_operand( sh ), p = real_operand( sh ); auto const fm = m.f, fp = p.f;
            return push( pack( ceras::polar( m.ex, p.ex ) ), sh, [fm, fp]( auto const& x, auto const& v, bool& bad ) { nd const a = fm( x, v, bad ), b = fp( x, v, bad ); return cnd{ zip( a, b, []( double r, double t ) { return r * std::cos( t ); } ), zip( a, b, []( double r, double t ) { return r * std::sin( t ); } ) }; }, "polar(" + m.text + "," + p.text + ")", m.weight + p.weight * 2 );
        }
        rnode const a = real_operand( sh ), b = real_operand( sh ); auto const fa = a.f, fb = b.f;
        return push( complex_t{ a.ex, b.ex }, sh, [fa, fb]( auto const& x, auto const& v, bool& bad ) { return cnd{ fa( x, v, bad ), fb( x, v, bad ) }; }, "complex(" + a.text + "," + b.text + ")", a.weight + b.weight );
    }
    ul with_shape( shape_t const& sh ) { if ( s.chance( 2, 3 ) ) for ( ul k = z.size(); k-- > 0; ) if ( z[k].shape == sh && z[k].weight < 40 && s.coin() ) { reused = true; return k; } return leaf( sh ); }
    ul step()
    {
        ul a = s.draw( z.size() ); if ( z[a].weight > 60 ) a = leaf( z[a].shape ); shape_t const sh = z[a].shape; complex_t const x = z[a].ex; std::string const na = "z" + std::to_string( a ); ul const op = s.draw( 11 );
        auto const real_shape = [&]() { if ( s.chance( 1, 4 ) ) return shape_t{ sh[1] }; if ( s.chance( 1, 4 ) ) return shape_t{ 1, sh[1] }; return sh; };
        switch ( op )
        {
            case 0: { ul const b = with_shape( sh ); complex_t const y = z[b].ex; return push( pack( x + y ), sh, [a, b]( auto const&, auto const& v, bool& ) { return cnd{ add( v[a].re, v[b].re ), add( v[a].im, v[b].im ) }; }, na + "+z" + std::to_string( b ), z[a].weight + z[b].weight ); }
            case 1: { ul const b = with_shape( sh ); complex_t const y = z[b].ex; return push( pack( x - y ), sh, [a, b]( auto const&, auto const& v, bool& ) { return cnd{ add( v[a].re, v[b].re, -1 ), add( v[a].im, v[b].im, -1 ) }; }, na + "-z" + std::to_string( b ), z[a].weight + z[b].weight ); }
            case 2: case 3: { bool const right = s.coin(); shape_t const other = right ? shape_t{ sh[1], 1 + s.draw( 3 ) } : shape_t{ 1 + s.draw( 3 ), sh[0] }; ul const b = with_shape( other ); complex_t const y = z[b].ex; ul const l = right ? a : b, r = right ? b : a; return push( right ? pack( x * y ) : pack( y * x ), { z[l].shape[0], z[r].shape[1] }, [l, r]( auto const&, auto const& v, bool& ) { return cmul( v[l], v[r] ); }, "z" + std::to_string( l ) + "*z" + std::to_string( r ), 3 * ( z[a].weight + z[b].weight ) ); }
            case 4: return push( pack( ceras::conj( x ) ), sh, [a]( auto const&, auto const& v, bool& ) { return cnd{ v[a].re, map( v[a].im, []( double t ) { return -t; } ) }; }, "conj(" + na + ")", z[a].weight );
            case 5: { bool const minus = s.coin(); double const k = minus ? -1 : 1; complex_t const ex = minus ? pack( -x ) : pack( +x ); return push( ex, sh, [a, k]( auto const&, auto const& v, bool& ) { return cnd{ map( v[a].re, [k]( double t ) { return k * t; } ), map( v[a].im, [k]( double t ) { return k * t; } ) }; }, minus ? "-" + na : "+" + na, z[a].weight ); }
            case 6: { rnode const e = real_operand( real_shape() ); auto const f = e.f; bool const left = s.coin(); return push( left ? pack( e.ex + x ) : pack( x + e.ex ), sh, [a, f]( auto const& p, auto const& v, bool& bad ) { return cnd{ add( v[a].re, f( p, v, bad ) ), v[a].im }; }, left ? e.text + "+" + na : na + "+" + e.text, z[a].weight + e.weight ); }
            case 7: { rnode const e = real_operand( real_shape() ); auto const f = e.f; return push( pack( x - e.ex ), sh, [a, f]( auto const& p, auto const& v, bool& bad ) { return cnd{ add( v[a].re, f( p, v, bad ), -1 ), v[a].im }; }, na + "-" + e.text, z[a].weight + e.weight ); }
            case 8: { rnode const e = real_operand( real_shape() ); auto const f = e.f; return push( pack( e.ex - x ), sh, [a, f]( auto const& p, auto const& v, bool& bad ) { return cnd{ add( f( p, v, bad ), v[a].re, -1 ), map( v[a].im, []( double t ) { return -t; } ) }; }, e.text + "-" + na, z[a].weight + e.weight ); }
            case 9: { rnode const e = real_operand( { sh[1], 1 + s.draw( 3 ) } ); auto const f = e.f; return push( pack( x * e.ex ), { sh[0], e.shape[1] }, [a, f]( auto const& p, auto const& v, bool& bad ) { nd const m = f( p, v, bad ); return cnd{ matmul( v[a].re, m ), matmul( v[a].im, m ) }; }, na + "*" + e.text, z[a].weight + 2 * e.weight ); }
            default: { e_times_c = true; rnode const e = real_operand( { 1 + s.draw( 3 ), sh[0] } ); auto const f = e.f; return push( pack( e.ex * x ), { e.shape[0], sh[1] }, [a, f]( auto const& p, auto const& v, bool& bad ) { nd const m = f( p, v, bad ); return cnd{ matmul( m, v[a].re ), matmul( m, v[a].im ) }; }, e.text + "*" + na, z[a].weight + 2 * e.weight ); }
        }
    }
};
static void check( src& s, ctx& c, world& w, ul k, ul kind, char const* what )
{
    rnode const r = w.real_of( k, kind ); auto* nodes = &w.z; ul const upto = k; bool bad = false;
    auto const eval = [nodes, upto, r]( std::vector<nd> const& x, bool& b ) { std::vector<cnd> v( upto + 1 ); for ( ul i = 0; i <= upto; ++i ) v[i] = ( *nodes )[i].f( x, v, b ); return r.f( x, v, b ); };
    ref_t const ref = [eval]( std::vector<nd> const& x ) { bool b = false; return eval( x, b ); };
    std::vector<nd> data; std::vector<var<double>*> pv; for ( auto& v : w.vars ) { data.push_back( to_nd( v.data() ) ); pv.push_back( &v ); }
    nd const want = eval( data, bad ); if ( bad ) c.discard(); for ( double v : want.v ) { if ( std::fabs( v ) > 500 ) c.discard(); if ( kind == 4 && std::fabs( v ) > 3.1 ) c.discard(); } // next to the cut of arg
    opts o; o.name = what; o.ftol = 1e-9; o.fatol = 1e-9; o.gtol = 2e-5; o.gatol = 2e-5; any_expr ex = r.ex; check_expression<double>( s, c, ex, pv, ref, o );
}
PBT_FAMILY( "expressions", 6000, 100000, 50, "complex expressions of up to 6 operators (+ - * with complex and real operands on either side, unary + and -, conj, polar) over shared matrices of up to 3x3: value and gradients of real, imag, abs, norm and arg against arithmetic on std::complex matrices; non-trivial with at least two operators" )
{
    world w( s ); shape_t const sh{ 1 + s.draw( 3 ), 1 + s.draw( 3 ) }; w.leaf( sh ); ul const n = s.draw( 7 ); for ( ul k = 0; k < n; ++k ) w.step();
    ul const root = w.z.size() - 1, kind = s.draw( 5 ); static char const* const names[] = { "real", "imag", "abs", "norm", "arg" }; for ( auto const& z : w.z ) c.desc << z.text << " "; c.desc << names[kind]; c.flush_desc(); if ( w.z[root].weight > 700 ) c.discard(); c.nontrivial( n >= 2 ); c.label( names[kind] ); if ( w.e_times_c ) c.label( "expression*complex" ); if ( w.reused ) c.label( "shared operand" );
    check( s, c, w, root, kind, names[kind] );
    if ( s.chance( 1, 3 ) ) { ul const k2 = s.draw( 5 ), r2 = s.draw( w.z.size() ); c.desc << " then " << names[k2] << "(z" << r2 << ")"; c.flush_desc(); check( s, c, w, r2, k2, names[k2] ); }
}
PBT_FAMILY( "laws", 2000, 40000, 30, "norm=abs^2, z*conj(z), polar(abs,arg)=z, conj(z*w)=conj(z)*conj(w), |exp(it)|=1 on 1x1 and larger matrices; non-trivial always" )
{
    world w( s ); ul const n = 1 + s.draw( 3 ); shape_t const sh{ n, n }; ul const a = w.leaf( sh ), b = w.leaf( sh ); complex_t x = w.z[a].ex, y = w.z[b].ex; c.desc << w.z[a].text << " " << w.z[b].text; c.flush_desc(); c.nontrivial( true );
    auto const get = []( complex_t z ) { auto r = ceras::real( z ), i = ceras::imag( z ); return cnd{ run<double>( r ), run<double>( i ) }; };
    auto const same = [&]( cnd const& p, cnd const& q, char const* law ) { expect_close( c, p.re, q.re, 1e-9, 1e-9, law, law ); expect_close( c, p.im, q.im, 1e-9, 1e-9, law, law ); };
    cnd const zx = get( x ), zy = get( y ); for ( ul i = 0; i < zx.re.size(); ++i ) if ( std::hypot( zx.re.v[i], zx.im.v[i] ) < 1e-3 ) c.discard();
    auto m = any_expr::of( ceras::abs( x ) ), q = any_expr::of( ceras::norm( x ) ), t = any_expr::of( ceras::arg( x ) ); nd const am = run<double>( m ), an = run<double>( q ); expect_close( c, an, zip( am, am, []( double u, double v ) { return u * v; } ), 1e-9, 1e-12, "norm", "norm is abs squared" );
    same( get( pack( ceras::polar( m, t ) ) ), zx, "polar(abs,arg)" );
    same( get( pack( ceras::conj( pack( x * y ) ) ) ), get( pack( pack( ceras::conj( x ) ) * pack( ceras::conj( y ) ) ) ), "conj of a product" );
    same( get( pack( x - y ) ), get( pack( x + pack( -y ) ) ), "subtraction" ); same( get( pack( ceras::conj( pack( ceras::conj( x ) ) ) ) ), zx, "conj twice" ); same( get( y ), zy, "operands unchanged" );
}
PBT_FAMILY( "parts", 3000, 40000, 60, "abs, norm and arg of matrices of complex numbers of magnitudes between 0.0001 and 10000 in all directions, many of them on or next to the axes: their values against hypot, the squared magnitude and atan2 and their gradients against the formulas for the derivatives; non-trivial with at least two elements" )
{
    shape_t const sh = gen_shape( s, 1, 3, 4, 20 ); nd re{ sh }, im{ sh }; for ( ul k = 0; k < re.size(); ++k ) { double const m = s.magnitude( 1e-4, 1e4 ); ul const how = s.draw( 4 ); double a = how == 0 ? s.uniform( -M_PI, M_PI ) : M_PI / 2 * static_cast<double>( s.range( -2, 2 ) ); if ( how == 2 ) a += s.magnitude( 1e-14, 1e-2 ); if ( how == 3 ) a -= s.magnitude( 1e-14, 1e-2 ); re.v[k] = m * std::cos( a ); im.v[k] = m * std::sin( a ); if ( how == 1 ) { if ( s.coin() ) im.v[k] = 0; else re.v[k] = 0; if ( re.v[k] == 0 && im.v[k] == 0 ) re.v[k] = -m; } }
    c.nontrivial( re.size() > 1 ); c.desc << "re " << str( re, 12 ) << " im " << str( im, 12 ); c.flush_desc();
    ul const kind = s.draw( 3 ); var<double> r{ to_tensor<double>( re ) }, i{ to_tensor<double>( im ) }; auto const z = ceras::complex{ r, i };
    auto const go = [&]( auto ex, char const* name, auto value, auto d_re, auto d_im )
    {
        c.label( name ); nd const y = run<double>( ex ), want = zip( re, im, value ), g = gen_upstream( s, sh ); expect_close( c, y, want, 1e-12, 0, "parts:value", name ); auto up = to_tensor<double>( g ); ex.backward( up );
        expect_close( c, to_nd( r.gradient() ), zip( g, zip( re, im, d_re ), []( double a, double b ) { return a * b; } ), 1e-6, 1e-12, "parts:gradient", std::string( name ) + ": gradient of the real part" );
        expect_close( c, to_nd( i.gradient() ), zip( g, zip( re, im, d_im ), []( double a, double b ) { return a * b; } ), 1e-6, 1e-12, "parts:gradient", std::string( name ) + ": gradient of the imaginary part" );
    };
    if ( kind == 0 ) go( ceras::abs( z ), "abs", []( double x, double y ) { return std::hypot( x, y ); }, []( double x, double y ) { return x / std::hypot( x, y ); }, []( double x, double y ) { return y / std::hypot( x, y ); } );
    else if ( kind == 1 ) go( ceras::norm( z ), "norm", []( double x, double y ) { return x * x + y * y; }, []( double x, double ) { return 2 * x; }, []( double, double y ) { return 2 * y; } );
    else go( ceras::arg( z ), "arg", []( double x, double y ) { return std::atan2( y, x ); }, []( double x, double y ) { return -y / ( x * x + y * y ); }, []( double x, double y ) { return x / ( x * x + y * y ); } );
}
CER_MAIN()
