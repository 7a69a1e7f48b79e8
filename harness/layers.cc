// Layers: parameters, declared shapes, values and gradients against their definition.
#include "../lib/net.hpp"
using namespace cer;

static nd gen_input( src& s, shape_t const& tail, ul batch ) { shape_t t = tail; t.insert( t.begin(), batch ); return as_float( gen_generic( s, t, -2, 2 ) ); }
static void compare( ctx& c, nd const& got, nd const& want, double tol, std::string const& tag, std::string const& what )
{
    double big = 1; for ( double v : want.v ) big = std::max( big, std::fabs( v ) ); expect_close( c, got, want, tol, tol * big, tag, what );
}
static void check_params( ctx& c, net& g )
{
    c.require( g.problem.empty(), "variables", g.problem );
    for ( auto& p : g.params )
    {
        nd const d = to_nd( p.v.data() ); c.require( d.shape == p.shape, "parameter-shape", p.text, " has shape ", str( d.shape ), " but must have ", str( p.shape ) );
        c.require( p.v.trainable() == p.train, "parameter-trainable", p.text, ": trainable is ", p.v.trainable() ); c.require( p.v.l1_regularizer() == static_cast<float>( p.l1 ) && p.v.l2_regularizer() == static_cast<float>( p.l2 ), "parameter-regularizer", p.text, " has l1 ", p.v.l1_regularizer(), " and l2 ", p.v.l2_regularizer(), " but must have ", p.l1, " and ", p.l2 );
        if ( p.zero || p.one ) expect_same( c, d, nd{ p.shape, p.one ? 1. : 0. }, "parameter-initial", p.text );
        else
        {
            double lo = 1e9, hi = -1e9; for ( double v : d.v ) { lo = std::min( lo, v ); hi = std::max( hi, v ); } c.require( lo >= -std::sqrt( 6. ) && hi <= std::sqrt( 6. ) && ( d.size() < 2 || lo < hi ), "parameter-initial", p.text, ": initial values between ", lo, " and ", hi );
            if ( d.dim() == 2 ) { double const b = std::sqrt( 6. / static_cast<double>( d.shape[0] + d.shape[1] ) ) * ( 1 + 1e-6 ); c.require( lo >= -b && hi <= b, "parameter-initial", p.text, ": initial values between ", lo, " and ", hi, " exceed the bound ", b ); }
        }
    }
}
PBT_FAMILY( "networks", 3500, 70000, 40, "random networks of 1-8 layers (Dense, Conv1D, Conv2D, Conv2DTranspose, BatchNormalization, pooling, upsampling, activations, Add, Subtract, Multiply, Concatenate, Reshape, Flatten) over an Input of 1-3 dimensions: variables, declared shapes, values of every layer and gradients of every parameter, for two batch sizes; non-trivial when there are at least 2 layers with parameters" )
{
    shape_t const tail = gen_input_tail( s ); net g( tail ); g.allow_bn = s.chance( 1, 3 ); g.allow_dropout = false; ul last = g.grow( s, 1 + s.draw( 7 ) ); c.desc << g.text(); c.flush_desc(); c.nontrivial( g.params.size() > 3 ); for ( auto const& o : g.used ) c.label( o );
    check_params( c, g ); for ( ul k = 0; k < g.nodes.size(); ++k ) { auto const sh = g.nodes[k].ex.shape(); shape_t const d( sh.begin(), sh.end() ); shape_t const want = g.shape( k, 1 ); c.require( d == want, "declared", g.nodes[k].text, " declares ", str( d ), " before binding but must declare ", str( want ) ); }
    for ( auto& p : g.params ) set_data( p.v, as_float( gen_generic( s, p.shape, -1, 1 ) ) ); // biases and gammas other than their initial values
    for ( int round = 0; round < 2; ++round )
    {
        ul const batch = g.normalized ? 4 + s.draw( 4 ) : 1 + s.draw( 4 ); nd const x = gen_input( s, tail, batch ); g.in.bind( to_tensor<float>( x ) ); c.desc << " batch " << batch; c.flush_desc(); auto e = g.now( x, true ); auto const vals = g.values( last, e ); auto const need = g.needed( last );
        for ( ul k = 0; k < g.nodes.size(); ++k ) if ( g.nodes[k].bn && need[k] ) { std::vector<double> m, v; bn_stats( vals[g.nodes[k].args[0]], m, v ); for ( double q : v ) if ( q < 0.02 ) c.discard(); }
        double big = 0; for ( ul k = 0; k <= last; ++k ) if ( need[k] ) for ( double v : vals[k].v ) big = std::max( big, std::fabs( v ) ); if ( big > 100 ) c.discard();
        for ( ul k = 0; k <= last; ++k ) if ( need[k] && ( k == last || s.chance( 1, 3 ) ) ) { auto ex = g.nodes[k].ex; nd const y = run<float>( ex ); compare( c, y, vals[k], g.normalized ? 1e-3 : 1e-4, "value", g.nodes[k].text ); auto const sh = g.nodes[k].ex.shape(); c.require( shape_t( sh.begin(), sh.end() ) == y.shape, "declared", g.nodes[k].text, " declares ", str( shape_t( sh.begin(), sh.end() ) ), " but has ", str( y.shape ) ); }
        auto ex = g.nodes[last].ex; nd const y = run<float>( ex ); nd const up = as_float( gen_upstream( s, y.shape ) ); auto u = to_tensor<float>( up ); ex.backward( u );
        for ( ul k = 0; k < g.params.size(); ++k )
        {
            ref_t const f = [&]( std::vector<nd> const& p ) { auto q = e; q.p = p; return g.value( last, q ); }; auto& p = g.params[k]; nd const got = to_nd( p.v.gradient() );
            if ( !p.train ) { expect_same( c, got, nd{ p.shape }, "frozen-gradient", p.text ); continue; }
            auto const d = numeric_vjp( f, e.p, k, up ); double scale = 1; for ( double v : d.g.v ) scale = std::max( scale, std::fabs( v ) ); bool used = false; for ( ul j = 0; j <= last; ++j ) used = used || ( need[j] && g.nodes[j].text.find( p.text.substr( 0, p.text.rfind( ' ' ) ) ) != std::string::npos );
            bool reached = false; for ( double v : d.g.v ) reached = reached || v != 0; if ( !reached ) continue; // not part of the last layer's expression
            for ( ul i = 0; i < got.size(); ++i )
            {
                if ( d.skip[i] || !d.smooth[i] ) continue; double const w = e.p[k].v[i], want = d.g.v[i] + p.l1 * ( w >= 0 ? 1 : -1 ) + 2 * p.l2 * w;
                if ( !close( got.v[i], want, 2e-3, ( g.normalized ? 2e-2 : 1e-3 ) * scale + d.slack[i] ) ) c.fail( "gradient", p.text, ": gradient element ", i, " is ", got.v[i], " but must be ", want );
            }
        }
    }
}
// a layer asked for with the arguments the documentation gives defaults for left out is the layer with those arguments given
struct twin { layer_expr ex; std::vector<var<float>> vars; };
typedef std::function<layer_expr( layer_expr const& )> make_t;
static twin build( layer_expr const& in, make_t const& f )
{
    auto const& all = ceras::get_default_session<ceras::tensor<float>>().variables_; std::set<int> known; for ( auto const& [id, v] : all ) known.insert( id );
    twin t; t.ex = f( in ); std::map<int, var<float>> fresh; for ( auto const& [id, v] : all ) if ( !known.count( id ) ) fresh.emplace( id, v ); for ( auto& [id, v] : fresh ) t.vars.push_back( v ); return t;
}
#define MAKE( E ) []( [[maybe_unused]] ul n, [[maybe_unused]] ul k, [[maybe_unused]] shape_t const& t ) -> make_t { return [=]( layer_expr const& x ) { return layer_expr::of( E ); }; }
struct forms { char const* name; ul dims; std::function<make_t( ul, ul, shape_t const& )> brief, full; };
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
static std::vector<forms> const& all_forms()
{
    typedef shape_t L; static std::vector<forms> const r =
    {
        { "Dense(n)", 1, MAKE( ceras::Dense( n )( x ) ), MAKE( ceras::Dense( n, true, 0.f, 0.f, 0.f, 0.f )( x ) ) },
        { "Dense(n,false)", 1, MAKE( ceras::Dense( n, false )( x ) ), MAKE( ceras::Dense( n, false, 0.f, 0.f, 0.f, 0.f )( x ) ) },
        { "Dense(n,true,l1)", 1, MAKE( ceras::Dense( n, true, 0.5f )( x ) ), MAKE( ceras::Dense( n, true, 0.5f, 0.f, 0.f, 0.f )( x ) ) },
        { "Dense(n,true,l1,l2)", 1, MAKE( ceras::Dense( n, true, 0.5f, 0.25f )( x ) ), MAKE( ceras::Dense( n, true, 0.5f, 0.25f, 0.f, 0.f )( x ) ) },
        { "Dense(n,true,l1,l2,l1)", 1, MAKE( ceras::Dense( n, true, 0.5f, 0.25f, 0.75f )( x ) ), MAKE( ceras::Dense( n, true, 0.5f, 0.25f, 0.75f, 0.f )( x ) ) },
        { "Conv2D(n,{k,k})", 3, MAKE( ceras::Conv2D( n, L{ k, k } )( x ) ), MAKE( ceras::Conv2D( n, L{ k, k }, std::string{ "valid" }, L{ 1, 1 }, L{ 1, 1 }, true, 0.f, 0.f, 0.f, 0.f )( x ) ) },
        { "Conv2D(n,{k})", 3, MAKE( ceras::Conv2D( n, L{ k } )( x ) ), MAKE( ceras::Conv2D( n, L{ k, k }, std::string{ "valid" }, L{ 1, 1 }, L{ 1, 1 }, true, 0.f, 0.f, 0.f, 0.f )( x ) ) },
        { "Conv2D(n,{k},same)", 3, MAKE( ceras::Conv2D( n, L{ k }, "same" )( x ) ), MAKE( ceras::Conv2D( n, L{ k, k }, std::string{ "same" }, L{ 1, 1 }, L{ 1, 1 }, true, 0.f, 0.f, 0.f, 0.f )( x ) ) },
        { "Conv2D(n,{k,k},valid,{2})", 3, MAKE( ceras::Conv2D( n, L{ k, k }, "valid", L{ 2 } )( x ) ), MAKE( ceras::Conv2D( n, L{ k, k }, std::string{ "valid" }, L{ 2, 2 }, L{ 1, 1 }, true, 0.f, 0.f, 0.f, 0.f )( x ) ) },
        { "Conv2D(n,{k,k},valid,{1,2})", 3, MAKE( ceras::Conv2D( n, L{ k, k }, "valid", L{ 1, 2 } )( x ) ), MAKE( ceras::Conv2D( n, L{ k, k }, std::string{ "valid" }, L{ 1, 2 }, L{ 1, 1 }, true, 0.f, 0.f, 0.f, 0.f )( x ) ) },
        { "Conv2D(n,{k,k},valid,{1,1},{2})", 3, MAKE( ceras::Conv2D( n, L{ k, k }, "valid", L{ 1, 1 }, L{ 2 } )( x ) ), MAKE( ceras::Conv2D( n, L{ k, k }, std::string{ "valid" }, L{ 1, 1 }, L{ 2, 2 }, true, 0.f, 0.f, 0.f, 0.f )( x ) ) },
        { "Conv2D(n,{k,k},valid,{1,1},{1,1},false,l1,l2)", 3, MAKE( ceras::Conv2D( n, L{ k, k }, "valid", L{ 1, 1 }, L{ 1, 1 }, false, 0.5f, 0.25f )( x ) ), MAKE( ceras::Conv2D( n, L{ k, k }, std::string{ "valid" }, L{ 1, 1 }, L{ 1, 1 }, false, 0.5f, 0.25f, 0.f, 0.f )( x ) ) },
        { "Conv2D(n,{k,k},{h,w,c})", 3, MAKE( ceras::Conv2D( n, L{ k, k }, t )( x ) ), MAKE( ceras::Conv2D( n, L{ k, k }, std::string{ "valid" }, L{ 1, 1 }, L{ 1, 1 }, true, 0.f, 0.f, 0.f, 0.f )( x ) ) },
        { "Conv2D(n,{k},{h,w,c},same)", 3, MAKE( ceras::Conv2D( n, L{ k }, t, "same" )( x ) ), MAKE( ceras::Conv2D( n, L{ k, k }, std::string{ "same" }, L{ 1, 1 }, L{ 1, 1 }, true, 0.f, 0.f, 0.f, 0.f )( x ) ) },
        { "Conv2D(n,{k,1},{h,w,c},valid,{2,1},{1,1},false,regularizers)", 3, MAKE( ceras::Conv2D( n, L{ k, 1 }, t, "valid", L{ 2, 1 }, L{ 1, 1 }, false, 0.5f, 0.25f, 0.75f, 1.5f )( x ) ), MAKE( ceras::Conv2D( n, L{ k, 1 }, std::string{ "valid" }, L{ 2, 1 }, L{ 1, 1 }, false, 0.5f, 0.25f, 0.75f, 1.5f )( x ) ) },
        { "Conv2D(n,{1,k},{h,w,c},valid,{2})", 3, MAKE( ceras::Conv2D( n, L{ 1, k }, t, "valid", L{ 2 } )( x ) ), MAKE( ceras::Conv2D( n, L{ 1, k }, std::string{ "valid" }, L{ 2, 2 }, L{ 1, 1 }, true, 0.f, 0.f, 0.f, 0.f )( x ) ) },
        { "Conv2D(n,{k,k},{h,w,c},valid,{1,1},{2})", 3, MAKE( ceras::Conv2D( n, L{ k, k }, t, "valid", L{ 1, 1 }, L{ 2 } )( x ) ), MAKE( ceras::Conv2D( n, L{ k, k }, std::string{ "valid" }, L{ 1, 1 }, L{ 2, 2 }, true, 0.f, 0.f, 0.f, 0.f )( x ) ) },
        { "Conv1D(n,k)", 2, MAKE( ceras::Conv1D( n, k )( x ) ), MAKE( ceras::Conv1D( n, k, 1UL, std::string{ "valid" }, 1UL, true, 0.f, 0.f, 0.f, 0.f )( x ) ) },
        { "Conv1D(n,k,2)", 2, MAKE( ceras::Conv1D( n, k, 2UL )( x ) ), MAKE( ceras::Conv1D( n, k, 2UL, std::string{ "valid" }, 1UL, true, 0.f, 0.f, 0.f, 0.f )( x ) ) },
        { "Conv1D(n,k,1,valid,2)", 2, MAKE( ceras::Conv1D( n, k, 1UL, "valid", 2UL )( x ) ), MAKE( ceras::Conv1D( n, k, 1UL, std::string{ "valid" }, 2UL, true, 0.f, 0.f, 0.f, 0.f )( x ) ) },
        { "Conv2DTranspose(n,{k,k})", 3, MAKE( ceras::Conv2DTranspose( n, L{ k, k } )( x ) ), MAKE( ceras::Conv2DTranspose( n, L{ k, k }, std::string{ "valid" }, L{ 1, 1 }, L{ 1, 1 }, true, 0.f, 0.f, 0.f, 0.f )( x ) ) },
        { "Conv2DTranspose(n,{k},same,{2})", 3, MAKE( ceras::Conv2DTranspose( n, L{ k }, "same", L{ 2 } )( x ) ), MAKE( ceras::Conv2DTranspose( n, L{ k, k }, std::string{ "same" }, L{ 2, 2 }, L{ 1, 1 }, true, 0.f, 0.f, 0.f, 0.f )( x ) ) },
        { "BatchNormalization()", 1, MAKE( ceras::BatchNormalization()( x ) ), MAKE( ceras::BatchNormalization( 0.95f, 0.f, 0.f, 0.f, 0.f )( x ) ) },
        { "BatchNormalization(m)", 3, MAKE( ceras::BatchNormalization( 0.7f )( x ) ), MAKE( ceras::BatchNormalization( 0.7f, 0.f, 0.f, 0.f, 0.f )( x ) ) },
        { "BatchNormalization(m,l1,l2)", 1, MAKE( ceras::BatchNormalization( 0.7f, 0.5f, 0.25f )( x ) ), MAKE( ceras::BatchNormalization( 0.7f, 0.5f, 0.25f, 0.f, 0.f )( x ) ) },
        { "LeakyReLU()", 1, MAKE( ceras::LeakyReLU()( x ) ), MAKE( ceras::leaky_relu( 0.2f )( x ) ) },
        { "ELU()", 1, MAKE( ceras::ELU()( x ) ), MAKE( ceras::elu( 0.2f )( x ) ) },
        { "Concatenate()", 3, MAKE( ceras::Concatenate()( x, ceras::square( x ) ) ), MAKE( ceras::concatenate( x, ceras::square( x ) )( 3 ) ) },
        { "Reshape(t)", 3, MAKE( ceras::Reshape( L{ t[2], t[0] * t[1] } )( x ) ), MAKE( ceras::Reshape( L{ t[2], t[0] * t[1] }, true )( x ) ) },
        { "Flatten()", 3, MAKE( ceras::Flatten()( x ) ), MAKE( ceras::Reshape( L{ t[0] * t[1] * t[2] }, true )( x ) ) },
        { "normalization_batch()", 3, MAKE( ceras::normalization_batch()( x ) ), MAKE( ceras::normalization_batch( 0.98 )( x ) ) },
        { "batch_normalization()", 3, MAKE( ceras::batch_normalization()( x, var<float>{ ceras::ones<float>( { t[2] } ) }, var<float>{ ceras::zeros<float>( { t[2] } ) } ) ), MAKE( ceras::batch_normalization( 0.98 )( x, var<float>{ ceras::ones<float>( { t[2] } ) }, var<float>{ ceras::zeros<float>( { t[2] } ) } ) ) },
        { "equal", 3, MAKE( ceras::equal( x, ceras::round( x ) ) ), MAKE( ceras::equal( x, ceras::round( x ), 0.5 ) ) },
    };
    return r;
}
#pragma GCC diagnostic pop
PBT_FAMILY( "defaults", 2500, 40000, 40, "a layer or factory asked for with documented default arguments left out against its twin with all arguments given (and the older Conv2D that takes the input's extents against the newer one): the same variables with the same shapes, flags, coefficients and initial biases, and with the same values in them the same declared shapes, outputs and gradients over histories of training and predicting runs; non-trivial when the input has at least 4 elements" )
{
    auto const& f = s.pick( all_forms() ); ul const n = 1 + s.draw( 4 ), k = 1 + 2 * s.draw( 2 ); shape_t tail; for ( ul i = 0; i < f.dims; ++i ) tail.push_back( f.dims > 1 && i + 1 < f.dims ? 6 + s.draw( 5 ) : 1 + s.draw( 4 ) ); c.label( f.name ); c.desc << f.name << " with n=" << n << " k=" << k << " on " << str( tail ); c.flush_desc();
    ceras::place_holder<ceras::tensor<float>> in = ceras::Input( tail ); auto const x = layer_expr::of( in ); twin a = build( x, f.brief( n, k, tail ) ), b = build( x, f.full( n, k, tail ) ); c.require( a.vars.size() == b.vars.size(), "variables", a.vars.size(), " variables instead of ", b.vars.size() );
    for ( ul i = 0; i < a.vars.size(); ++i )
    {
        auto &p = a.vars[i], &q = b.vars[i]; nd const u = to_nd( p.data() ), w = to_nd( q.data() ); c.require( u.shape == w.shape, "default-shape", "variable ", i, " has shape ", str( u.shape ), " instead of ", str( w.shape ) ); c.require( p.trainable() == q.trainable(), "default-trainable", "variable ", i );
        c.require( p.l1_regularizer() == q.l1_regularizer() && p.l2_regularizer() == q.l2_regularizer(), "default-regularizer", "variable ", i, " has l1 ", p.l1_regularizer(), " and l2 ", p.l2_regularizer(), " instead of ", q.l1_regularizer(), " and ", q.l2_regularizer() ); if ( i ) expect_same( c, u, w, "default-initial", "initial values of variable " + std::to_string( i ) );
        nd const data = as_float( gen_generic( s, u.shape, -1, 1 ) ); set_data( p, data ); set_data( q, data );
    }
    auto const d1 = a.ex.shape(), d2 = b.ex.shape(); c.require( shape_t( d1.begin(), d1.end() ) == shape_t( d2.begin(), d2.end() ), "default-declared", "declares ", str( shape_t( d1.begin(), d1.end() ) ), " instead of ", str( shape_t( d2.begin(), d2.end() ) ) ); ul size = 1; for ( ul e : tail ) size *= e;
    for ( ul step = 0, m = 1 + s.draw( 5 ); step < m; ++step )
    {
        ul const batch = 2 + s.draw( 3 ); nd const v = gen_input( s, tail, batch ); in.bind( to_tensor<float>( v ) ); bool const training = step == 0 || s.chance( 2, 3 ); ceras::learning_phase = training ? 1 : 0; c.desc << ( training ? " train " : " predict " ) << batch; c.flush_desc(); c.nontrivial( size * batch >= 4 );
        nd const y = run<float>( a.ex ), z = run<float>( b.ex ); c.require( y.shape == z.shape, "default-shape", "the output has shape ", str( y.shape ), " instead of ", str( z.shape ) ); compare( c, y, z, 1e-5, "default-value", "output" ); if ( !training ) continue;
        nd const up = as_float( gen_upstream( s, y.shape ) ); auto u = to_tensor<float>( up ); a.ex.backward( u ); std::vector<nd> grads; for ( auto& p : a.vars ) grads.push_back( to_nd( p.gradient() ) ); auto w = to_tensor<float>( up ); b.ex.backward( w ); for ( ul i = 0; i < a.vars.size(); ++i ) compare( c, grads[i], to_nd( b.vars[i].gradient() ), 1e-4, "default-gradient", "gradient of variable " + std::to_string( i ) );
    }
    ceras::learning_phase = 1;
}
// initial weights fill the range they are drawn from
PBT_FAMILY( "initial-weights", 300, 3000, 20, "kernels of large Dense layers: uniform within +-sqrt(6/(inputs+outputs)), coming close to both ends, with mean 0 and the variance of that distribution within 8 standard errors, different for every layer; non-trivial always" )
{
    ul const m = 40 + s.draw( 60 ), n = 40 + s.draw( 60 ); ceras::random_generator.seed( static_cast<unsigned>( s.draw( 1u << 30 ) ) ); auto in = ceras::Input( shape_t{ m } ); auto const x = layer_expr::of( in ); auto const f = [n]( layer_expr const& e ) { return layer_expr::of( ceras::Dense( n )( e ) ); }; twin const a = build( x, f ), b = build( x, f ); c.desc << "Dense " << m << "->" << n; c.nontrivial();
    nd const u = to_nd( a.vars.at( 0 ).data() ), w = to_nd( b.vars.at( 0 ).data() ); c.require( u.shape == shape_t{ m, n }, "shape", "kernel ", str( u.shape ) ); c.require( u.v != w.v, "distinct", "two layers start from the same kernel" );
    double const top = std::sqrt( 6. / static_cast<double>( m + n ) ), N = static_cast<double>( u.size() ); double mean = 0, sq = 0, lo = 0, hi = 0; for ( double v : u.v ) { mean += v / N; sq += v * v / N; lo = std::min( lo, v ); hi = std::max( hi, v ); }
    double const d = top * 60 / N; c.require( lo >= -top * ( 1 + 1e-6 ) && hi <= top * ( 1 + 1e-6 ), "range", "weights between ", lo, " and ", hi, " with a bound of ", top ); c.require( lo < -top + d && hi > top - d, "reach", "weights between ", lo, " and ", hi, " do not fill +-", top );
    c.require( std::fabs( mean ) < 8 * top / std::sqrt( 3 * N ), "mean", "mean ", mean ); c.require( std::fabs( sq / ( top * top / 3 ) - 1 ) < 8 * std::sqrt( 0.8 / N ), "variance", "variance ", sq, " instead of ", top * top / 3 );
}
CER_MAIN()
