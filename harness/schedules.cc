// The library splits its loops over as many threads as there are processors; how many there are must not matter.
#include "../lib/net.hpp"
#include <cstring>
using namespace cer;

typedef std::vector<std::pair<std::string, std::vector<double>>> trace; // what was computed, in order
template<class T> static void put( trace& t, std::string const& what, ceras::tensor<T> const& x ) { std::vector<double> v; for ( auto d : x.shape() ) v.push_back( static_cast<double>( d ) ); v.push_back( -1 ); for ( auto e : x ) v.push_back( static_cast<double>( e ) ); t.emplace_back( what, v ); }
static bool same_bits( double a, double b ) { return std::memcmp( &a, &b, 8 ) == 0 || ( std::isnan( a ) && std::isnan( b ) ); }
template<class F> static void whatever_processors( src& s, ctx& c, std::string const& what, F const& f )
{
    unsigned const many = cores(), other = 2 + s.draw( 15 ); std::vector<unsigned> const counts = { 1, many == 1 ? 6 : many, other }; c.desc << " on 1, " << counts[1] << " and " << counts[2] << " processors"; c.flush_desc();
    trace first; for ( unsigned n : counts )
    {
        cores() = n; trace t; f( t ); if ( first.empty() ) { first = t; continue; }
        c.require( t.size() == first.size(), "count", what, " computes ", t.size(), " results on ", n, " processors but ", first.size(), " on one" );
        for ( ul k = 0; k < t.size(); ++k )
        {
            c.require( t[k].second.size() == first[k].second.size(), "shape", what, ": ", t[k].first, " has another size on ", n, " processors than on one" );
            for ( ul i = 0; i < t[k].second.size(); ++i ) if ( !same_bits( t[k].second[i], first[k].second[i] ) ) c.fail( "value", what, ": ", t[k].first, " entry ", i, " is ", t[k].second[i], " on ", n, " processors but ", first[k].second[i], " on one" );
        }
    }
    cores() = many;
}
PBT_FAMILY( "graphs", 1500, 20000, 50, "random expressions of up to 25 operators over variables, constants and place holders: value and all gradients, bit for bit the same on 1 and on two other numbers of processors between 2 and 16; non-trivial when a loop is long enough to be split" )
{
    dag g; g.leaves( s, s.coin() ); g.grow( s, 2 + s.draw( 11 ) ); if ( s.coin() ) g.join( s, 4 ); ul const root = g.nodes.size() - 1; std::string const t = g.text( root ); c.desc << "batch " << g.batch << " " << t; for ( auto const& o : g.used_ops ) c.label( o );
    auto const need = g.needed( root ); ul widest = 0; for ( ul k = 0; k <= root; ++k ) if ( need[k] ) widest = std::max( widest, prod( g.shape( k ) ) ); c.nontrivial( widest > 8 );
    any_expr ex = g.nodes[root].ex; nd const up = gen_upstream( s, run<double>( ex ).shape );
    whatever_processors( s, c, "the expression", [&]( trace& tr ) { auto& ss = ceras::get_default_session<ceras::tensor<double>>(); put( tr, "the value", ss.run( ex ) ); ex.backward( to_tensor<double>( up ) ); for ( ul k = 0, v = 0; k <= root; ++k ) if ( g.nodes[k].text.find( "=v(" ) != std::string::npos ) { if ( need[k] ) put( tr, "the gradient of variable " + std::to_string( v ), g.vars[v].gradient() ); ++v; } } );
}

typedef ceras::tensor<double> tn; typedef std::function<void( trace&, std::vector<nd> const&, nd const& )> job;
struct op { char const* name; int kind; job go; }; // kind 0: positive elements, 1: two equal shapes, 2: images, 3: matrices
template<class E> static void use( trace& t, E ex, std::vector<var<double>> vs )
{
    auto& ss = ceras::get_default_session<tn>(); tn const y = ss.run( ex ); put( t, "the value", y ); tn up{ y.shape() }; for ( ul i = 0; i < up.size(); ++i ) up.data()[i] = 0.25 + 0.5 * static_cast<double>( ( i * 7 ) % 11 ); ex.backward( up );
    for ( ul k = 0; k < vs.size(); ++k ) put( t, "the gradient of operand " + std::to_string( k ), vs[k].gradient() );
}
#define U( name, ... ) { #name, 0, []( trace& t, std::vector<nd> const& x, nd const& ) { var<double> a{ to_tensor<double>( x[0] ) }; use( t, __VA_ARGS__, { a } ); } }
#define U1( name ) U( name, ceras::name( a ) )
#define B( name, ... ) { #name, 1, []( trace& t, std::vector<nd> const& x, nd const& ) { var<double> a{ to_tensor<double>( x[0] ) }, b{ to_tensor<double>( x[1] ) }; use( t, __VA_ARGS__, { a, b } ); } }
#define B2( name ) B( name, ceras::name( a, b ) )
#define I( name, ... ) { #name, 2, []( trace& t, std::vector<nd> const& x, nd const& w ) { var<double> a{ to_tensor<double>( x[0] ) }, b{ to_tensor<double>( w ) }; (void)b; use( t, __VA_ARGS__, { a } ); } }
#define IW( name, ... ) { #name, 2, []( trace& t, std::vector<nd> const& x, nd const& w ) { var<double> a{ to_tensor<double>( x[0] ) }, b{ to_tensor<double>( w ) }; use( t, __VA_ARGS__, { a, b } ); } }
static std::vector<op> const& ops()
{
    static std::vector<op> const v = {
        U1( abs ), U1( acos ), U1( asin ), U1( atan ), U1( asinh ), U1( atanh ), U1( cbrt ), U1( cos ), U1( sin ), U1( tan ), U1( cosh ), U1( sinh ), U1( tanh ), U1( erf ), U1( erfc ), U1( exp ), U1( exp2 ), U1( expm1 ), U1( log ), U1( log10 ), U1( log2 ), U1( log1p ), U1( sqrt ), U1( square ), U1( negative ), U1( inverse ), U1( sign ), U1( ceil ), U1( floor ), U1( round ), U1( trunc ),
        U1( softmax ), U1( selu ), U1( softplus ), U1( softsign ), U1( sigmoid ), U1( relu ), U1( relu6 ), U1( hard_sigmoid ), U1( gelu ), U1( swish ), U1( silu ), U1( crelu ), U1( tank_shrink ), U1( mish ), U1( lisht ), U1( exponential ), U1( gaussian ), U1( unit_step ), U( elu, ceras::elu( 0.7 )( a ) ), U( leaky_relu, ceras::leaky_relu( 0.2 )( a ) ), U( prelu, ceras::prelu( 0.3 )( a ) ), U( clip, ceras::clip( 0.2, 0.7 )( a ) ), U( a + 2, a + 2.0 ), U( 2 * a, 2.0 * a ),
        U1( sum_reduce ), U1( mean_reduce ), U( reduce_sum, ceras::reduce_sum( 0 )( a ) ), U( reduce_max, ceras::reduce_max( 0 )( a ) ), U( reduce_min, ceras::reduce_min( 0 )( a ) ), U( max_reduce along last, ceras::reduce_max( -1 )( a ) ), U( sum along last, ceras::reduce_sum( -1 )( a ) ), U( repeat, ceras::repeat( 3, 0 )( a ) ), U( drop_out, ceras::drop_out( 0.4 )( a ) ), U1( ones_like ), U1( zeros_like ),
        B( plus, a + b ), B( minus, a - b ), B2( elementwise_product ), B2( divide ), B2( maximum ), B2( minimum ), B2( atan2 ), B2( hypot ), B( equal, ceras::equal( a, b, 0.1 ) ), U( pow, ceras::pow( a, 1.5 ) ), B2( mean_squared_error ), B2( mean_absolute_error ), B2( hinge_loss ), B2( binary_cross_entropy_loss ), B2( mean_squared_logarithmic_error ), B( concatenate, ceras::concatenate( 0 )( a, b ) ), B( concatenate last, ceras::concatenate( -1 )( a, b ) ), B( cross_entropy_loss, ceras::cross_entropy_loss( a, b ) ),
        I( max_pooling_2d, ceras::max_pooling_2d( 2 )( a ) ), I( average_pooling_2d, ceras::average_pooling_2d( 2 )( a ) ), I( up_sampling_2d, ceras::up_sampling_2d( 3 )( a ) ), I( zero_padding_2d, ceras::zero_padding_2d( { 1, 2, 3, 1 } )( a ) ), I( cropping_2d, ceras::cropping_2d( { 1 } )( a ) ), I( img2col, ceras::img2col( 3 )( a ) ), I( flatten, ceras::flatten( a ) ), I( normalization_batch, ceras::normalization_batch( 0.9 )( a ) ),
        IW( general_conv2d, ceras::general_conv2d( 1, 1, 1, 1, "same" )( a, b ) ), IW( general_conv2d valid, ceras::general_conv2d( 2, 1, 1, 1, "valid" )( a, b ) ), IW( conv2d_transpose, ceras::conv2d_transpose( 3, 3, 2, 2, 1, 1, "same" )( a, b ) ),
        { "matrix product", 3, []( trace& t, std::vector<nd> const& x, nd const& ) { var<double> a{ to_tensor<double>( x[0] ) }, b{ to_tensor<double>( x[1] ) }; use( t, a * b, { a, b } ); } }, { "transpose", 3, []( trace& t, std::vector<nd> const& x, nd const& ) { var<double> a{ to_tensor<double>( x[0] ) }; use( t, ceras::transpose( a ), { a } ); } },
        { "matrix product of tensors", 3, []( trace& t, std::vector<nd> const& x, nd const& ) { tn const a = to_tensor<double>( x[0] ), b = to_tensor<double>( x[1] ); put( t, "the product", a * b ); } }, { "repmat", 3, []( trace& t, std::vector<nd> const& x, nd const& ) { put( t, "repmat", ceras::repmat( to_tensor<double>( x[0] ), 2, 3 ) ); } },
        { "tensor arithmetic", 1, []( trace& t, std::vector<nd> const& x, nd const& ) { tn a = to_tensor<double>( x[0] ), b = to_tensor<double>( x[1] ); put( t, "+", a + b ); put( t, "-", a - b ); put( t, "elementwise_product", ceras::elementwise_product( a, b ) ); put( t, "elementwise_divide", ceras::elementwise_divide( a, b ) ); put( t, "scaled", 3.0 * a ); put( t, "negated", -a ); a += b; a *= b; a -= b; a /= b; put( t, "compound", a ); a.map( []( double& v ) { v = 1 / v; } ); put( t, "map", a ); } },
        { "tensor statistics", 0, []( trace& t, std::vector<nd> const& x, nd const& ) { tn const a = to_tensor<double>( x[0] ); tn r{ { 5 } }; r[0] = ceras::sum( a ); r[1] = ceras::mean( a ); r[2] = ceras::max( a ); r[3] = ceras::min( a ); r[4] = ceras::has_nan( a ); put( t, "totals", r ); for ( ul k = 0; k < a.ndim(); ++k ) { put( t, "sum", ceras::sum( a, k ) ); put( t, "mean", ceras::mean( a, k ) ); put( t, "max", ceras::max( a, k, true ) ); put( t, "min", ceras::min( a, k ) ); put( t, "variance", ceras::variance( a, k ) ); put( t, "standard_deviation", ceras::standard_deviation( a, k, true ) ); } put( t, "softmax", ceras::softmax( a ) ); tn k = a.deep_copy(); ceras::clip( k, 0.2, 0.6 ); put( t, "clip", k ); put( t, "abs", ceras::abs( a ) ); } },
        { "random tensors", 0, []( trace& t, std::vector<nd> const& x, nd const& ) { put( t, "random", ceras::random<double>( x[0].shape, -1., 1. ) ); put( t, "randn", ceras::randn<double>( x[0].shape, 0., 2. ) ); put( t, "poisson", ceras::poisson( to_tensor<double>( x[0] ) ) ); put( t, "truncated_normal", ceras::truncated_normal<double>( x[0].shape, 0., 1., -1., 1. ) ); put( t, "glorot_uniform", ceras::glorot_uniform<double>( { x[0].shape[0], 3 } ) ); } },
    };
    return v;
}
PBT_FAMILY( "operators", 2500, 30000, 50, "every operator, activation, loss, tensor function and initializer on its own with operands of up to 3000 elements: value and all gradients, bit for bit the same on 1 and on two other numbers of processors between 2 and 16; non-trivial when there are more than 8 elements" )
{
    op const& o = s.pick( ops() ); c.label( o.name ); std::vector<nd> x; nd w{ { 1 } }; bool const large = s.chance( 1, 3 );
    if ( o.kind < 2 ) { shape_t const sh = large ? shape_t{ 1 + s.draw( 30 ), 1 + s.draw( 100 ) } : gen_shape( s, 1, 4, 7, 300 ); for ( int k = 0; k <= o.kind; ++k ) x.push_back( gen_nd( s, sh, 0.05, 0.95 ) ); }
    else if ( o.kind == 2 ) { ul const ch = 1 + s.draw( 3 ); x.push_back( gen_nd( s, { 1 + s.draw( 3 ), 2 * ( 2 + s.draw( large ? 8 : 3 ) ), 2 * ( 2 + s.draw( large ? 8 : 3 ) ), ch }, 0.05, 0.95 ) ); w = gen_nd( s, { 1 + s.draw( 3 ), 3, 3, ch }, -1, 1 ); }
    else { ul const m = large ? 40 : 9, k = 1 + s.draw( m ); x.push_back( gen_nd( s, { 1 + s.draw( m ), k }, -1, 1 ) ); x.push_back( gen_nd( s, { k, 1 + s.draw( m ) }, -1, 1 ) ); }
    c.desc << o.name; for ( auto const& v : x ) c.desc << " " << str( v, 8 ); c.nontrivial( x[0].size() > 8 ); unsigned const seed = s.draw( 1000 );
    whatever_processors( s, c, o.name, [&]( trace& t ) { ceras::random_generator.seed( seed ); o.go( t, x, w ); } );
}
PBT_FAMILY( "training", 250, 3000, 30, "random networks of layers, dropout and batch normalization included, trained for up to 4 batches with 5 optimizers: losses, predictions and every parameter, bit for bit the same on 1 and on two other numbers of processors between 2 and 16; non-trivial when there are parameters" )
{
    pbt::u64 const seed = s.draw( 1ul << 40 ); ul const size = 1 + s.draw( 5 ), outs = 1 + s.draw( 4 ), bs = 1 + s.draw( 6 ), steps = 1 + s.draw( 4 ), how = s.draw( 5 ); c.desc << "batch " << bs << " steps " << steps << " optimizer " << how; ul nparams = 0; std::string text;
    auto const sq = []( auto const& out ) { return [=]( auto const& gt ) { return ceras::mean_squared_error( out, gt ); }; };
    whatever_processors( s, c, "training", [&]( trace& t )
    {
        reset_all(); ceras::random_generator.seed( 7 ); pbt::src b; b.state = seed; shape_t const tail = gen_input_tail( b ); net g( tail ); ul last = g.grow( b, size ); last = g.finish( b, last, outs ); text = g.text(); nparams = g.params.size(); quiet q; ceras::model m{ g.in, g.nodes[last].ex };
        auto const batch = [&]( shape_t const& sh, ul n ) { shape_t f = sh; f.insert( f.begin(), n ); return to_tensor<float>( as_float( gen_generic( b, f, -1.5, 1.5 ) ) ); };
        auto const go = [&]( auto cm ) { tn losses{ { steps } }; for ( ul k = 0; k < steps; ++k ) { auto x = batch( tail, bs ), y = batch( { outs }, bs ); losses[k] = cm.train_on_batch( x, y ); } put( t, "the losses", losses ); put( t, "a prediction", m.predict( batch( tail, 3 ) ) ); for ( ul k = 0; k < g.params.size(); ++k ) put( t, "parameter " + std::to_string( k ), g.params[k].v.data() ); };
        switch ( how ) { case 0: go( m.compile( sq, ceras::SGD( bs, 0.01f, 0.5f ) ) ); break; case 1: go( m.compile( sq, ceras::Adam( bs, 0.01f ) ) ); break; case 2: go( m.compile( sq, ceras::Adagrad( bs, 0.01f ) ) ); break; case 3: go( m.compile( sq, ceras::RMSprop( bs, 0.01f ) ) ); break; default: go( m.compile( sq, ceras::Adadelta( bs, 0.9f ) ) ); }
    } );
    c.desc << " " << text; c.flush_desc(); c.nontrivial( nparams > 0 );
}
CER_MAIN()
