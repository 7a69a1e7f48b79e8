// One expression evaluated on inputs whose sizes change from one evaluation to the next, against an expression newly built for each input.
#include "../lib/dag.hpp"
using namespace cer;

typedef ceras::place_holder<ceras::tensor<double>> input_t;
typedef std::function<any_expr( any_expr const&, any_expr const& )> make_t;

template<class T> static any_expr E( T const& e ) { return any_expr::of( e ); }
struct op_t { std::string name; int kind; make_t mk; }; // kind 0: images of two operands of one shape, 1: any shape, 2: matrices, 3: images (whose extents can be cropped)
static std::vector<op_t> const& ops()
{
#define U( n, k, e ) { n, k, []( any_expr const& x, any_expr const& ) -> any_expr { return E( e ); } }
#define B( n, k, e ) { n, k, []( any_expr const& x, any_expr const& y ) -> any_expr { return E( e ); } }
    static std::vector<op_t> const all =
    {
        U( "max_pooling_2d", 0, ceras::max_pooling_2d( 2 )( x ) ), U( "average_pooling_2d", 0, ceras::average_pooling_2d( 2 )( x ) ), U( "up_sampling_2d", 0, ceras::up_sampling_2d( 2 )( x ) ),
        U( "zero_padding_2d", 0, ceras::zero_padding_2d( { 1 } )( x ) ), U( "zero_padding_2d asymmetric", 0, ceras::zero_padding_2d( { 1, 2, 3, 1 } )( x ) ), U( "cropping_2d", 3, ceras::cropping_2d( { 1 } )( x ) ), U( "cropping_2d asymmetric", 3, ceras::cropping_2d( { 1, 2, 2, 1 } )( x ) ),
        U( "repeat", 1, ceras::repeat( 2, 0 )( x ) ), U( "repeat last", 1, ceras::repeat( 3 )( x ) ), U( "flip first", 1, ceras::flip( 0 )( x ) ), U( "flip last", 1, ceras::flip( -1 )( x ) ),
        U( "reduce_max", 1, ceras::reduce_max( 0 )( x ) ), U( "reduce_min", 1, ceras::reduce_min( 0 )( x ) ), U( "reduce_sum", 1, ceras::reduce_sum( 0 )( x ) ), U( "reduce_max last", 1, ceras::reduce_max()( x ) ), U( "reduce_min last", 1, ceras::reduce_min()( x ) ), U( "reduce_sum last", 1, ceras::reduce_sum( static_cast<unsigned long>( -1 ) )( x ) ),
        U( "argmax", 1, ceras::argmax( 0 )( x ) ), U( "argmin", 1, ceras::argmin( 0 )( x ) ), U( "expand_dims", 1, ceras::expand_dims( 0 )( x ) ), U( "squeeze", 1, ceras::squeeze()( x ) ), U( "flatten", 2, ceras::flatten( x ) ), U( "transpose", 2, ceras::transpose( x ) ),
        U( "softmax", 1, ceras::softmax( x ) ), U( "crelu", 1, ceras::crelu( x ) ), U( "relu", 1, ceras::relu( x ) ), U( "gelu", 1, ceras::gelu( x ) ), U( "elu", 1, ceras::elu( 1.0 )( x ) ), U( "selu", 1, ceras::selu( x ) ), U( "sigmoid", 1, ceras::sigmoid( x ) ), U( "softsign", 1, ceras::softsign( x ) ),
        U( "softplus", 1, ceras::softplus( x ) ), U( "hard_sigmoid", 1, ceras::hard_sigmoid( x ) ), U( "leaky_relu", 1, ceras::leaky_relu( 0.2 )( x ) ), U( "mish", 1, ceras::mish( x ) ), U( "tanh", 1, ceras::tanh( x ) ), U( "sin", 1, ceras::sin( x ) ), U( "atan", 1, ceras::atan( x ) ), U( "exp", 1, ceras::exp( x ) ),
        U( "erf", 1, ceras::erf( x ) ), U( "asinh", 1, ceras::asinh( x ) ), U( "square", 1, ceras::square( x ) ), U( "abs", 1, ceras::abs( x ) ), U( "negative", 1, -x ), U( "plus number", 1, x + 2.0 ), U( "times number", 1, x * 2.0 ), U( "clip", 1, ceras::clip( -1.0, 1.0 )( x ) ), U( "sum_reduce", 1, ceras::sum_reduce( x ) ),
        U( "img2col", 0, ceras::img2col( 2, 2 )( x ) ), U( "img2col padded", 0, ceras::img2col( 2, 3, 1, 1, 2, 1 )( x ) ),
        B( "plus", 1, x + y ), B( "minus", 1, x - y ), B( "product", 1, ceras::elementwise_product( x, y ) ), B( "maximum", 1, ceras::maximum( x, y ) ), B( "minimum", 1, ceras::minimum( x, y ) ), B( "atan2", 1, ceras::atan2( x, y ) ), B( "hypot", 1, ceras::hypot( x, y ) ),
        B( "concatenate", 1, ceras::concatenate( x, y )( 0 ) ), B( "concat", 1, ceras::concat( x, y ) ), B( "matmul", 2, x * E( ceras::transpose( y ) ) ), B( "gram", 2, E( ceras::transpose( x ) ) * y ), B( "squared_loss", 1, ceras::squared_loss( x, y ) ), B( "mse", 1, ceras::mean_squared_error( x, y ) ), B( "mae", 1, ceras::mean_absolute_error( x, y ) ),
        B( "pooling of a product", 0, ceras::max_pooling_2d( 2 )( E( ceras::elementwise_product( x, E( ceras::zero_padding_2d( { 1 } )( E( ceras::cropping_2d( { 1 } )( E( ceras::zero_padding_2d( { 1 } )( E( ceras::cropping_2d( { 1 } )( E( -y ) ) ) ) ) ) ) ) ) ) ) ) ),
    };
    return all;
}
PBT_FAMILY( "input-sizes", 6000, 120000, 60, "one expression evaluated and backpropagated on a sequence of inputs of different sizes and the same number of dimensions, half of them permutations of extents used before; non-trivial when the extents change in a way other than the first one" )
{
    op_t const& op = s.pick( ops() ); c.label( op.name ); bool const image = op.kind == 0 || op.kind == 3; ul const d = image ? 4 : op.kind == 2 ? 2 : 1 + s.draw( 4 );
    auto const fresh = [&]() { if ( !image ) return gen_shape( s, d, d, 5, 40 ); ul const lo = op.kind == 3 ? 4 : op.name == "pooling of a product" ? 3 : 2; return shape_t{ 1 + s.draw( 3 ), lo + s.draw( 4 ), lo + s.draw( 4 ), 1 + s.draw( 3 ) }; };
    input_t p, q; var<double> w{ to_tensor<double>( nd{ { 1 }, 1. } ) }, u{ to_tensor<double>( nd{ { 1 }, 1. } ) };
    any_expr const px = E( ceras::elementwise_product( p, w ) ), qx = E( ceras::elementwise_product( q, u ) ); any_expr e = op.mk( px, qx );
    std::vector<shape_t> seen; c.desc << op.name; bool changed = false;
    for ( ul step = 0, n = 2 + s.draw( 5 ); step < n; ++step )
    {
        shape_t sh;
        if ( !seen.empty() && s.coin() ) { sh = s.pick( seen ); if ( image ) std::swap( sh[1], sh[2] ); else for ( ul i = sh.size(); i > 1; --i ) std::swap( sh[i - 1], sh[s.draw( i )] ); } else sh = fresh();
        if ( !seen.empty() && sh.size() > 1 && ( !std::equal( sh.begin() + 1, sh.end(), seen.back().begin() + 1 ) ) ) changed = true;
        seen.push_back( sh ); nd const x = gen_generic( s, sh, -3, 3 ), y = gen_generic( s, sh, -3, 3 ); c.desc << " " << str( sh ); c.flush_desc();
        p.bind( to_tensor<double>( x ) ); q.bind( to_tensor<double>( y ) ); nd const got = run<double>( e );
        var<double> a{ to_tensor<double>( x ) }, b{ to_tensor<double>( y ) }; any_expr const ax = E( a ), bx = E( b ); any_expr f = op.mk( ax, bx ); nd const want = run<double>( f );
        expect_close( c, got, want, 1e-12, 1e-12, op.name + ":value", op.name + " of an input of size " + str( sh ) );
        auto const ds = e.shape(); c.require( shape_t( ds.begin(), ds.end() ) == got.shape, op.name + ":declared-shape", "declared shape ", str( shape_t( ds.begin(), ds.end() ) ), " of a value of shape ", str( got.shape ) );
        if ( s.chance( 1, 4 ) ) continue; // backpropagation does not follow every evaluation
        nd const up = gen_upstream( s, got.shape ); w.gradient() = ceras::zeros<double>( { 1 } ); u.gradient() = ceras::zeros<double>( { 1 } ); auto t = to_tensor<double>( up );
        nd const again = run<double>( e ); expect_same( c, again, got, op.name + ":again", "evaluating again" ); e.backward( t ); nd const back = run<double>( f ); auto t2 = to_tensor<double>( up ); f.backward( t2 );
        auto const dot = []( nd const& m, nd const& k ) { double r = 0; for ( ul i = 0; i < m.size(); ++i ) r += m.v[i] * k.v[i]; return r; };
        nd const ga = to_nd( a.gradient() ), gb = to_nd( b.gradient() ); expect_close( c, to_nd( w.gradient() ), nd{ { 1 }, dot( ga, x ) }, 1e-9, 1e-9, op.name + ":gradient", op.name + " of an input of size " + str( sh ) + ": gradient of a factor of the first input" );
        if ( gb.size() == y.size() ) expect_close( c, to_nd( u.gradient() ), nd{ { 1 }, dot( gb, y ) }, 1e-9, 1e-9, op.name + ":gradient", op.name + " of an input of size " + str( sh ) + ": gradient of a factor of the second input" );
    }
    c.nontrivial( changed );
}
CER_MAIN()
