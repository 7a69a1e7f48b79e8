// Declared shapes of whole expressions.
#include "../lib/dag.hpp"
using namespace cer;

static shape_t declared( any_expr& e ) { auto const d = e.shape(); return shape_t( d.begin(), d.end() ); }
PBT_FAMILY( "declared", 6000, 120000, 60, "in random expressions the declared shape of every subexpression is the shape of its value, before and after evaluating and after binding a batch of another size; non-trivial when there are at least 3 operators" )
{
    dag g; g.leaves( s, s.chance( 3, 4 ) ); g.grow( s, 2 + s.draw( 10 ) ); if ( s.coin() ) g.join( s, 3 ); ul ops = 0; c.desc << "batch " << g.batch; for ( auto const& n : g.nodes ) { c.desc << " " << n.text; ops += !n.args.empty(); } c.nontrivial( ops > 2 ); for ( auto const& o : g.used_ops ) c.label( o );
    for ( int round = 0; round < 2; ++round )
    {
        c.flush_desc();
        for ( ul k = 0; k < g.nodes.size(); ++k ) c.require( declared( g.nodes[k].ex ) == g.shape( k ), "declared", g.nodes[k].text, ": declared shape is ", str( declared( g.nodes[k].ex ) ), " but must be ", str( g.shape( k ) ) );
        for ( ul k = 0; k < 3; ++k ) { ul const n = s.draw( g.nodes.size() ); nd const y = run<double>( g.nodes[n].ex ); c.require( y.shape == g.shape( n ) && declared( g.nodes[n].ex ) == y.shape, "evaluated", g.nodes[n].text, ": the value has shape ", str( y.shape ), " declared ", str( declared( g.nodes[n].ex ) ), " but must be ", str( g.shape( n ) ) ); }
        if ( g.inputs.empty() ) break;
        g.batch = 1 + s.draw( 6 ); c.desc << " then batch " << g.batch; for ( ul k = 0; k < g.inputs.size(); ++k ) { shape_t full = g.input_tail[k]; full.insert( full.begin(), g.batch ); g.now.inputs[k] = gen_generic( s, full, -3, 3 ); g.inputs[k].bind( to_tensor<double>( g.now.inputs[k] ) ); }
    }
}
PBT_FAMILY( "unbound", 4000, 80000, 60, "before a place holder declared with the shape of one sample is bound, every expression over it declares the shape it has for a batch of one; non-trivial when there are at least 3 operators" )
{
    dag g; g.bind_inputs = false; g.leaves( s, true ); g.batch = 1; g.grow( s, 2 + s.draw( 10 ) ); if ( s.coin() ) g.join( s, 3 ); ul ops = 0; for ( auto const& n : g.nodes ) { c.desc << " " << n.text; ops += !n.args.empty(); } c.nontrivial( ops > 2 ); c.flush_desc();
    for ( ul k = 0; k < g.nodes.size(); ++k ) c.require( declared( g.nodes[k].ex ) == g.shape( k ), "declared", g.nodes[k].text, ": declared shape is ", str( declared( g.nodes[k].ex ) ), " but must be ", str( g.shape( k ) ) );
}

// every operator with a shape of its own, on inputs of any extent, evaluated on inputs of changing sizes
typedef std::function<any_expr( any_expr const&, any_expr const& )> mk_t;
enum kind { any_nd, image, pair_nd, losses, flat };
struct operator_t { char const* name; kind k; std::function<mk_t( src&, shape_t const&, std::string& )> make; };
#define ONE( n, k, e ) { n, k, []( src&, shape_t const&, std::string& ) -> mk_t { return []( any_expr const& x, any_expr const& y ) { return any_expr::of( e ); }; } }
#define STRIDE( n, f ) { n, image, []( src& s, shape_t const& sh, std::string& t ) -> mk_t { ul const k = 2 + s.draw( std::min( sh[1], sh[2] ) - 1 ); t = std::to_string( k ); return [k]( any_expr const& x, any_expr const& ) { return any_expr::of( f( k )( x ) ); }; } }
#define AXIS( n, f ) { n, any_nd, []( src& s, shape_t const& sh, std::string& t ) -> mk_t { ul const k = s.draw( sh.size() ); t = std::to_string( k ); return [k]( any_expr const& x, any_expr const& ) { return any_expr::of( f( k )( x ) ); }; } }
static std::vector<operator_t> const operators = {
    STRIDE( "max_pooling_2d", ceras::max_pooling_2d ), STRIDE( "average_pooling_2d", ceras::average_pooling_2d ), STRIDE( "up_sampling_2d", ceras::up_sampling_2d ), STRIDE( "upsampling_2d", ceras::upsampling_2d ),
    { "zero_padding_2d", image, []( src& s, shape_t const&, std::string& t ) -> mk_t { std::vector<ul> p( s.pick( std::vector<ul>{ 1, 2, 4 } ) ); for ( auto& v : p ) v = 1 + s.draw( 3 ); t = str( p ); return [p]( any_expr const& x, any_expr const& ) { return any_expr::of( ceras::zero_padding_2d( p )( x ) ); }; } },
    { "cropping_2d", image, []( src& s, shape_t const& sh, std::string& t ) -> mk_t { std::vector<ul> p( s.pick( std::vector<ul>{ 1, 2, 4 } ) ); ul const m = ( std::min( sh[1], sh[2] ) - 1 ) / 2; for ( auto& v : p ) v = 1 + s.draw( m ); t = str( p ); return [p]( any_expr const& x, any_expr const& ) { return any_expr::of( ceras::cropping_2d( p )( x ) ); }; } },
    { "img2col", image, []( src& s, shape_t const& sh, std::string& t ) -> mk_t { ul const kr = 1 + s.draw( std::min<ul>( 3, sh[1] ) ), kc = 1 + s.draw( std::min<ul>( 3, sh[2] ) ), pr = s.draw( 3 ), pc = s.draw( 3 ), sr = 1 + s.draw( 3 ), sc = 1 + s.draw( 3 ); t = str( shape_t{ kr, kc, pr, pc, sr, sc } ); return [=]( any_expr const& x, any_expr const& ) { return any_expr::of( ceras::img2col( kr, kc, pr, pc, sr, sc, 1, 1 )( x ) ); }; } },
    AXIS( "reduce_max", ceras::reduce_max ), AXIS( "reduce_min", ceras::reduce_min ), AXIS( "reduce_sum", ceras::reduce_sum ), AXIS( "argmax", ceras::argmax ), AXIS( "argmin", ceras::argmin ), AXIS( "flip", ceras::flip ),
    { "expand_dims", any_nd, []( src& s, shape_t const& sh, std::string& t ) -> mk_t { int const k = static_cast<int>( s.range( -1, static_cast<long>( sh.size() ) ) ); t = std::to_string( k ); return [k]( any_expr const& x, any_expr const& ) { return any_expr::of( ceras::expand_dims( k )( x ) ); }; } },
    { "squeeze", any_nd, []( src& s, shape_t const& sh, std::string& t ) -> mk_t { int k = -1; for ( ul i = 1; i < sh.size(); ++i ) if ( sh[i] == 1 && s.coin() ) k = static_cast<int>( i ); t = std::to_string( k ); return [k]( any_expr const& x, any_expr const& ) { return any_expr::of( ceras::squeeze( k )( x ) ); }; } },
    { "repeat", any_nd, []( src& s, shape_t const& sh, std::string& t ) -> mk_t { ul const n = 1 + s.draw( 4 ), k = s.chance( 1, 4 ) ? -1UL : s.draw( sh.size() ); t = std::to_string( n ) + "," + std::to_string( static_cast<long>( k ) ); return [n, k]( any_expr const& x, any_expr const& ) { return any_expr::of( ceras::repeat( n, k )( x ) ); }; } },
    { "concatenate", pair_nd, []( src& s, shape_t const& sh, std::string& t ) -> mk_t { ul const k = s.chance( 1, 4 ) ? -1UL : s.draw( sh.size() ); t = std::to_string( static_cast<long>( k ) ); return [k]( any_expr const& x, any_expr const& y ) { return any_expr::of( ceras::concatenate( k )( x, y ) ); }; } },
    { "drop_out", any_nd, []( src&, shape_t const&, std::string& ) -> mk_t { return []( any_expr const& x, any_expr const& ) { return any_expr::of( ceras::drop_out( 0.4 )( x ) ); }; } },
    { "normalization_batch", flat, []( src&, shape_t const&, std::string& ) -> mk_t { return []( any_expr const& x, any_expr const& ) { return any_expr::of( ceras::normalization_batch( 0.9 )( x ) ); }; } },
    { "random_normal_like", any_nd, []( src&, shape_t const&, std::string& ) -> mk_t { return []( any_expr const& x, any_expr const& ) { return any_expr::of( ceras::random_normal_like( 0.0, 1.0 )( x ) ); }; } },
    { "pow", any_nd, []( src&, shape_t const&, std::string& ) -> mk_t { return []( any_expr const& x, any_expr const& ) { return any_expr::of( ceras::pow( x, 2 ) ); }; } },
    ONE( "flatten", flat, ceras::flatten( x ) ), ONE( "sign", any_nd, ceras::sign( x ) ), ONE( "mean_reduce", any_nd, ceras::mean_reduce( x ) ), ONE( "sum_reduce", any_nd, ceras::sum_reduce( x ) ), ONE( "hypot", pair_nd, ceras::hypot( x, y ) ), ONE( "atan2", pair_nd, ceras::atan2( x, y ) ),
    ONE( "poisson", any_nd, ceras::poisson( x ) ), ONE( "round", any_nd, ceras::round( x ) ), ONE( "trunc", any_nd, ceras::trunc( x ) ), ONE( "cbrt", any_nd, ceras::cbrt( x ) ), ONE( "relu6", any_nd, ceras::relu6( x ) ), ONE( "hard_sigmoid", any_nd, ceras::hard_sigmoid( x ) ), ONE( "selu", any_nd, ceras::selu( x ) ), ONE( "tank_shrink", any_nd, ceras::tank_shrink( x ) ), ONE( "exponential", any_nd, ceras::exponential( x ) ),
    ONE( "mean_squared_error", losses, ceras::mean_squared_error( x, y ) ), ONE( "mae", losses, ceras::mae( x, y ) ), ONE( "squared_loss", losses, ceras::squared_loss( x, y ) ), ONE( "hinge_loss", losses, ceras::hinge_loss( x, y ) ), ONE( "cross_entropy_loss", losses, ceras::cross_entropy_loss( x, y ) ), ONE( "binary_cross_entropy_loss", losses, ceras::binary_cross_entropy_loss( x, y ) ),
};
PBT_FAMILY( "operators", 5000, 80000, 60, "one operator with a shape of its own (pooling, sampling, padding, cropping, columns, reducing, dimensions, repeating, concatenating, losses, random ones) with any parameters on place holders bound to inputs of changing extents: the declared shape before and after evaluating is the one of the value; non-trivial when the extents change" )
{
    operator_t const& o = operators[s.draw( operators.size() )]; c.label( o.name );
    auto const gen = [&]( ul dims ) { if ( o.k == image ) return shape_t{ 1 + s.draw( 3 ), 2 + s.draw( 7 ), 2 + s.draw( 7 ), 1 + s.draw( 3 ) }; if ( o.k == losses ) return shape_t{ 1 + s.draw( 4 ), 1 + s.draw( 5 ) }; if ( dims ) { shape_t r( dims ); for ( auto& e : r ) e = 1 + s.draw( 5 ); return r; } return gen_shape( s, o.k == flat ? 2 : 1, 4, 5, 60 ); };
    shape_t sh = gen( 0 ); std::string args; if ( std::string( o.name ) == "cropping_2d" ) { sh[1] += 2; sh[2] += 2; } mk_t const mk = o.make( s, sh, args ); c.desc << o.name << "(" << args << ")"; c.flush_desc();
    holder_t a{ shape_t{ 1 } }, b{ shape_t{ 1 } }; any_expr ex; bool built = false, changed = false;
    for ( int round = 0, n = 1 + static_cast<int>( s.draw( 3 ) ); round < n; ++round )
    {
        if ( round ) { shape_t t = sh; t[0] = 1 + s.draw( 5 ); if ( o.k == image && s.coin() ) { t[1] += s.draw( 4 ); t[2] += s.draw( 4 ); } changed = changed || t != sh; sh = t; }
        c.desc << " of " << str( sh ); c.flush_desc(); a.bind( to_tensor<double>( gen_nd( s, sh, 0.1, 0.9 ) ) ); b.bind( to_tensor<double>( gen_nd( s, sh, 0.1, 0.9 ) ) );
        if ( !built ) { ex = mk( any_expr::of( a ), any_expr::of( b ) ); built = true; }
        shape_t const d = declared( ex ); nd const y = run<double>( ex ); c.require( d == y.shape, o.name, o.name, " declares ", str( d ), " but its value has shape ", str( y.shape ) ); c.require( declared( ex ) == d, std::string( o.name ) + ":after", o.name, " declares ", str( declared( ex ) ), " after evaluating" );
    }
    c.nontrivial( changed );
}
CER_MAIN()
