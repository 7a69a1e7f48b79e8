// Compiled models: training, evaluation, prediction, fitting and composition.
#include "../lib/net.hpp"
using namespace cer;

static nd gen_data( src& s, shape_t const& tail, ul batch ) { shape_t t = tail; t.insert( t.begin(), batch ); return as_float( gen_generic( s, t, -1.5, 1.5 ) ); }
static auto const sum_of_squares = []( auto const& out ) { return [=]( auto const& gt ) { return ceras::sum_reduce( ceras::square( out - gt ) ); }; };
static double sum_sq( nd const& a, nd const& b ) { double r = 0; for ( ul i = 0; i < a.size(); ++i ) r += ( a.v[i] - b.v[i] ) * ( a.v[i] - b.v[i] ); return r; }
static nd rows( nd const& x, ul first, ul n ) { ul const w = x.size() / x.shape[0]; shape_t t = x.shape; t[0] = n; return nd{ t, std::vector<double>( x.v.begin() + first * w, x.v.begin() + ( first + n ) * w ) }; }
static double biggest( std::vector<nd> const& v ) { double b = 0; for ( auto const& n : v ) for ( double x : n.v ) b = std::max( b, std::fabs( x ) ); return b; }

PBT_FAMILY( "training", 3000, 60000, 40, "random networks compiled with a sum of squares and SGD; histories of 2-8 of train_on_batch, predict, evaluate with batches of any size: returned loss, movement of every parameter by -rate/batch*(derivative+regularization), predictions with running averages, mean loss over whole batches, learning phase and weights afterwards; non-trivial when training came both before and after another step" )
{
    shape_t const tail = gen_input_tail( s ); net g( tail ); g.allow_bn = s.chance( 1, 3 ); g.allow_dropout = false; ul last = g.grow( s, 1 + s.draw( 5 ) ); ul const outs = 1 + s.draw( 3 ); last = g.finish( s, last, outs ); c.desc << g.text(); c.flush_desc(); c.require( g.problem.empty(), "variables", g.problem ); for ( auto const& o : g.used ) c.label( o );
    for ( auto& p : g.params ) set_data( p.v, as_float( gen_generic( s, p.shape, -0.8, 0.8 ) ) ); auto const need = g.needed( last );
    ul const bs = 1 + s.draw( 8 ); double const lr = static_cast<float>( s.uniform( 0.01, 0.1 ) * static_cast<double>( bs ) ), rate = lr / static_cast<double>( bs ); c.desc << " SGD(" << bs << "," << lr << ")";
    ceras::model m{ g.in, g.nodes[last].ex }; auto cm = m.compile( sum_of_squares, ceras::SGD( bs, static_cast<float>( lr ) ) ); quiet q; bool trained = false, other = false; double const tol = g.normalized ? 1e-3 : 1e-4;
    for ( ul step = 0, steps = 2 + s.draw( 7 ); step < steps; ++step )
    {
        ul const kind = s.draw( 5 ); ul const batch = g.normalized && kind < 2 ? 4 + s.draw( 5 ) : 1 + s.draw( 6 ); std::vector<nd> old; for ( auto& p : g.params ) old.push_back( to_nd( p.v.data() ) );
        if ( kind < 2 )
        {
            c.desc << " train:" << batch; c.flush_desc(); nd const x = gen_data( s, tail, batch ), y = gen_data( s, { outs }, batch ); auto e = g.now( x, true ); double const var = g.observe( last, e ); if ( var < 0.02 ) c.discard(); auto const vals = g.values( last, e ); if ( biggest( vals ) > 30 ) c.discard();
            double const want = sum_sq( vals[last], y ); auto const tx = to_tensor<float>( x ), ty = to_tensor<float>( y ); double const got = cm.train_on_batch( tx, ty ); c.require( close( got, want, 10 * tol, 10 * tol ), "loss", "train_on_batch returned ", got, " but the loss before the update is ", want );
            expect_same( c, to_nd( tx ), x, "data", "the input batch" ); expect_same( c, to_nd( ty ), y, "data", "the output batch" ); nd const one{ { 1 }, 1. };
            ref_t const f = [&]( std::vector<nd> const& p ) { auto h = e; h.p = p; return nd{ { 1 }, sum_sq( g.value( last, h ), y ) }; };
            for ( ul k = 0; k < g.params.size(); ++k )
            {
                auto& p = g.params[k]; nd const now = to_nd( p.v.data() ); if ( !p.train ) { expect_same( c, now, old[k], "frozen", p.text ); continue; }
                auto const d = numeric_vjp( f, e.p, k, one ); double scale = 1; bool reached = false; for ( double v : d.g.v ) { scale = std::max( scale, std::fabs( v ) ); reached = reached || v != 0; } if ( !reached ) continue;
                for ( ul i = 0; i < now.size(); ++i )
                {
                    if ( d.skip[i] || !d.smooth[i] ) continue; double const w = e.p[k].v[i], step_of = d.g.v[i] + p.l1 * ( w >= 0 ? 1 : -1 ) + 2 * p.l2 * w, moved = ( old[k].v[i] - now.v[i] ) / rate;
                    if ( !close( moved, step_of, 3e-3, ( g.normalized ? 2e-2 : 2e-3 ) * scale + d.slack[i] + 1e-6 * std::fabs( w ) / rate ) ) c.fail( "update", p.text, ": element ", i, " moved by -rate/batch*", moved, " but the gradient is ", step_of );
                }
            }
            c.nontrivial( trained && other ); trained = true;
        }
        else if ( kind < 4 )
        {
            bool const direct = s.coin(); c.desc << ( direct ? " model.predict:" : " predict:" ) << batch; c.flush_desc(); nd const x = gen_data( s, tail, batch ); auto const e = g.now( x, false ); auto const vals = g.values( last, e ); if ( biggest( vals ) > 100 ) c.discard(); double small = 1; for ( ul k = 0; k <= last; ++k ) if ( need[k] && g.nodes[k].bn && g.nodes[k].bn->trained ) for ( double v : g.nodes[k].bn->var ) small = std::min( small, v ); if ( small < 1e-3 ) c.discard();
            auto const tx = to_tensor<float>( x ); nd const y = direct ? to_nd( m.predict( tx ) ) : to_nd( cm.predict( tx ) ); expect_close( c, y, vals[last], 10 * tol, 10 * tol * std::max( 1., biggest( vals ) ), "predict", "the prediction" ); expect_same( c, to_nd( tx ), x, "data", "the input" ); other = trained;
        }
        else
        {
            ul const loops = 1 + s.draw( 3 ), extra = s.draw( batch ), n = loops * batch + extra; c.desc << " evaluate:" << n << "/" << batch; c.flush_desc(); nd const x = gen_data( s, tail, n ), y = gen_data( s, { outs }, n ); double want = 0, big = 1;
            double small = 1; for ( ul k = 0; k <= last; ++k ) if ( need[k] && g.nodes[k].bn && g.nodes[k].bn->trained ) for ( double v : g.nodes[k].bn->var ) small = std::min( small, v ); if ( small < 1e-3 ) c.discard();
            for ( ul l = 0; l < loops; ++l ) { auto const vals = g.values( last, g.now( rows( x, l * batch, batch ), false ) ); big = std::max( big, biggest( vals ) ); want += sum_sq( vals[last], rows( y, l * batch, batch ) ) / static_cast<double>( loops ); } if ( big > 100 ) c.discard();
            auto const tx = to_tensor<float>( x ), ty = to_tensor<float>( y ); double const got = cm.evaluate( tx, ty, batch ); c.require( close( got, want, 10 * tol, 10 * tol * big ), "evaluate", "evaluate returned ", got, " but the mean loss of ", loops, " batches is ", want ); expect_same( c, to_nd( tx ), x, "data", "the input" ); expect_same( c, to_nd( ty ), y, "data", "the output" ); other = trained;
        }
        c.require( ceras::learning_phase == 1, "learning-phase", "the learning phase is ", ceras::learning_phase, " afterwards" );
        if ( kind > 1 ) for ( ul k = 0; k < g.params.size(); ++k ) expect_same( c, to_nd( g.params[k].v.data() ), old[k], "weights", g.params[k].text + " after predicting or evaluating" );
    }
}

// fit must do what training batch by batch and evaluating the validation batches does
template<class Loss, class Opt> static void fit_case( src& s, ctx& c, Loss const& loss, Opt const& opt, bool positive )
{
    pbt::u64 const seed = s.draw( 1ul << 40 ), seed2 = s.draw( 1ul << 30 ); ul const size = 1 + s.draw( 5 ), outs = 1 + s.draw( 3 ), bs = 1 + s.draw( 6 ), loops = 1 + s.draw( 5 ), extra = s.draw( bs ), epochs = 1 + s.draw( 3 ), n = bs * loops + extra; int const verbose = static_cast<int>( s.draw( 2 ) ); double const split = s.chance( 1, 3 ) ? 0. : 0.125 * static_cast<double>( s.draw( 8 ) );
    ul const train = static_cast<ul>( ( 1 - split ) * static_cast<double>( loops ) ); bool const bn = bs > 3 && s.coin(), drop = s.coin(); std::vector<double> hist[2][2]; std::vector<nd> weights[2]; nd x, y; quiet q; if ( train == 0 ) c.discard(); std::vector<nd> initial;
    for ( int manual : { 1, 0 } ) // batch by batch first: a diverging case ends there
    {
        reset_all(); pbt::src b; b.state = seed; shape_t const tail = gen_input_tail( b ); net g( tail ); g.allow_bn = bn; g.allow_dropout = drop; ul last = g.grow( b, size ); last = g.finish( b, last, outs ); c.require( g.problem.empty(), "variables", g.problem );
        if ( manual ) { c.desc << g.text() << " samples " << n << " batch " << bs << " epochs " << epochs << " split " << split << ( verbose ? " verbose" : "" ); c.flush_desc(); x = gen_data( b, tail, n ); y = gen_data( b, { outs }, n ); if ( positive ) for ( double& v : y.v ) v = static_cast<float>( std::fabs( v ) ); c.nontrivial( epochs > 1 && train > 1 && train < loops ); if ( g.random ) c.label( "dropout" ); if ( g.normalized ) c.label( "normalization" ); if ( train < loops ) c.label( "validation batches" ); }
        if ( manual ) for ( auto& p : g.params ) initial.push_back( as_float( gen_generic( b, p.shape, -0.8, 0.8 ) ) ); c.require( initial.size() == g.params.size(), "rebuild", "the same layers create ", g.params.size(), " variables instead of ", initial.size() ); for ( ul k = 0; k < g.params.size(); ++k ) set_data( g.params[k].v, initial[k] );
        ceras::random_generator.seed( static_cast<unsigned>( seed2 ) ); ceras::model m{ g.in, g.nodes[last].ex }; auto cm = m.compile( loss, opt( bs ) ); auto const tx = to_tensor<float>( x ), ty = to_tensor<float>( y );
        if ( !manual )
        {
            auto const [te, ve] = cm.fit( tx, ty, bs, epochs, verbose, split ); for ( double v : te ) hist[0][0].push_back( v ); for ( double v : ve ) hist[0][1].push_back( v );
            c.require( te.size() == epochs && ve.size() == epochs, "histories", "fit returned ", te.size(), " training and ", ve.size(), " validation errors for ", epochs, " epochs" ); expect_same( c, to_nd( tx ), x, "data", "the inputs" ); expect_same( c, to_nd( ty ), y, "data", "the outputs" ); c.require( ceras::learning_phase == 1, "learning-phase", "the learning phase is ", ceras::learning_phase, " after fit" );
        }
        else for ( ul e = 0; e < epochs; ++e )
        {
            double a = 0, b = 0;
            for ( ul l = 0; l < loops; ++l ) { auto const bx = to_tensor<float>( rows( x, l * bs, bs ) ), by = to_tensor<float>( rows( y, l * bs, bs ) ); double const v = l < train ? cm.train_on_batch( bx, by ) : cm.evaluate( bx, by, bs ); ( l < train ? a : b ) += v; if ( !( std::fabs( v ) < 1e4 ) ) c.discard(); for ( auto& p : g.params ) for ( double w : to_nd( p.v.data() ).v ) if ( !( std::fabs( w ) < 50 ) ) c.discard(); }
            hist[1][0].push_back( a / static_cast<double>( train ) ); hist[1][1].push_back( b / static_cast<double>( loops - train ) );
        }
        for ( auto& p : g.params ) weights[manual].push_back( to_nd( p.v.data() ) );
    }
    for ( int k = 0; k < 2; ++k ) for ( ul e = 0; e < epochs; ++e ) { if ( k == 1 && train == loops ) continue; c.require( close( hist[0][k][e], hist[1][k][e], 2e-4, 2e-5 ), k ? "validation-error" : "training-error", k ? "validation" : "training", " error of epoch ", e, " is ", hist[0][k][e], " but batch by batch it is ", hist[1][k][e] ); }
    for ( ul k = 0; k < weights[0].size(); ++k ) expect_close( c, weights[0][k], weights[1][k], 1e-4, 1e-5, "weights", "parameter " + std::to_string( k ) + " after fit, compared with training batch by batch," );
}
PBT_FAMILY( "fit", 2500, 50000, 40, "fit of random networks (with normalization and dropout) on 1-5 batches for 1-3 epochs with validation splits in eighths, sum of squares with sgd (momentum), mean squared error with adam, mean absolute error with rmsprop, cross-entropy with adagrad: errors and weights equal those of training batch by batch and evaluating the validation batches; non-trivial with several epochs, training and validation batches" )
{
    switch ( s.draw( 4 ) )
    {
        case 0: c.label( "sgd" ); fit_case( s, c, sum_of_squares, []( ul b ) { return ceras::SGD( b, 0.02f, 0.5f ); }, false ); break;
        case 1: c.label( "adam" ); fit_case( s, c, ceras::MSE(), []( ul b ) { return ceras::Adam( b, 0.02f ); }, false ); break;
        case 2: c.label( "rmsprop" ); fit_case( s, c, ceras::MAE(), []( ul b ) { return ceras::RMSprop( b, 0.01f ); }, false ); break;
        default: c.label( "adagrad" ); fit_case( s, c, ceras::CategoricalCrossentropy(), []( ul b ) { return ceras::Adagrad( b, 0.02f ); }, true ); break;
    }
}

// models as functions
typedef std::vector<nd> params_t; typedef std::function<nd( nd const&, params_t const&, ul )> func_t; // input, all parameters, index of the first of this model
static nd row_softmax( nd const& v ) { nd r = v; ul const n = v.shape.back(); for ( ul i = 0; i < v.size(); i += n ) { double m = v.v[i], z = 0; for ( ul k = 0; k < n; ++k ) m = std::max( m, v.v[i + k] ); for ( ul k = 0; k < n; ++k ) z += r.v[i + k] = std::exp( v.v[i + k] - m ); for ( ul k = 0; k < n; ++k ) r.v[i + k] /= z; } return r; }
static nd add_row( nd const& a, nd const& b ) { nd r = a; for ( ul i = 0; i < r.size(); ++i ) r.v[i] += b.v[i % b.size()]; return r; }
static double sg( double x ) { return 1 / ( 1 + std::exp( -x ) ); }
struct kit { src& s; std::vector<var<double>>& vars; var<double>& make( shape_t const& sh ) { vars.emplace_back( to_tensor<double>( gen_generic( s, sh, -0.9, 0.9 ) ) ); return vars.back(); } };
constexpr ul N = 4;
// two models of type N -> N; every archetype returns the expression of a place holder, and its reference
struct dense_net { static constexpr char const* name = "tanh(x*W+b)"; static constexpr bool stateful = false; static auto build( kit k, holder_t& x ) { auto w = k.make( { N, N } ), b = k.make( { 1, N } ); return ceras::tanh( x * w + b ); } static nd ref( nd const& x, params_t const& p, ul o ) { return map( add_row( matmul( x, p[o] ), p[o + 1] ), []( double v ) { return std::tanh( v ); } ); } };
struct skip_net { static constexpr char const* name = "x+x.sigmoid(x*W)"; static constexpr bool stateful = false; static auto build( kit k, holder_t& x ) { auto w = k.make( { N, N } ); return x + ceras::hadamard_product( x, ceras::sigmoid( x * w ) ); } static nd ref( nd const& x, params_t const& p, ul o ) { return zip( x, matmul( x, p[o] ), []( double a, double b ) { return a + a * sg( b ); } ); } };
struct wide_net { static constexpr char const* name = "concat(x,softmax(x*W))*V"; static constexpr bool stateful = false; static auto build( kit k, holder_t& x ) { auto w = k.make( { N, 3 } ), v = k.make( { N + 3, N } ); return ceras::concatenate()( x, ceras::softmax( x * w ) ) * v; } static nd ref( nd const& x, params_t const& p, ul o ) { nd const q = row_softmax( matmul( x, p[o] ) ); nd r{ { x.shape[0], N + 3 } }; for ( ul i = 0; i < x.shape[0]; ++i ) { for ( ul j = 0; j < N; ++j ) r.at( { i, j } ) = x.at( { i, j } ); for ( ul j = 0; j < 3; ++j ) r.at( { i, N + j } ) = q.at( { i, j } ); } return matmul( r, p[o + 1] ); } };
struct average_net { static constexpr char const* name = "flatten(average_pooling(reshape(x*W)))+clip(x)"; static constexpr bool stateful = false; static auto build( kit k, holder_t& x ) { auto w = k.make( { N, 16 } ); return ceras::flatten( ceras::average_pooling_2d( 2 )( ceras::reshape( { 4, 4, 1 } )( x * w ) ) ) + ceras::square( x ); } static nd ref( nd const& x, params_t const& p, ul o ) { nd const h = matmul( x, p[o] ); nd r{ { x.shape[0], 4 } }; for ( ul b = 0; b < x.shape[0]; ++b ) for ( ul i = 0; i < 16; ++i ) r.at( { b, ( i / 8 ) * 2 + ( i % 4 ) / 2 } ) += h.at( { b, i } ) / 4; return zip( r, x, []( double a, double c ) { return a + c * c; } ); } };
struct pool_net { static constexpr char const* name = "flatten(max_pooling(reshape(x*W)))"; static constexpr bool stateful = true; static auto build( kit k, holder_t& x ) { auto w = k.make( { N, 16 } ); return ceras::flatten( ceras::max_pooling_2d( 2 )( ceras::reshape( { 4, 4, 1 } )( x * w ) ) ); } static nd ref( nd const& x, params_t const& p, ul o ) { nd const h = matmul( x, p[o] ); nd r{ { x.shape[0], 4 }, -1e9 }; for ( ul b = 0; b < x.shape[0]; ++b ) for ( ul i = 0; i < 16; ++i ) { double& q = r.at( { b, ( i / 8 ) * 2 + ( i % 4 ) / 2 } ); q = std::max( q, h.at( { b, i } ) ); } return r; } };
struct reduce_net { static constexpr char const* name = "reduce_max(reshape(x*W))"; static constexpr bool stateful = true; static auto build( kit k, holder_t& x ) { auto w = k.make( { N, 12 } ); return ceras::reduce_max( 2 )( ceras::reshape( { 4, 3 } )( x * w ) ); } static nd ref( nd const& x, params_t const& p, ul o ) { nd const h = matmul( x, p[o] ); nd r{ { x.shape[0], 4 }, -1e9 }; for ( ul b = 0; b < x.shape[0]; ++b ) for ( ul i = 0; i < 12; ++i ) { double& q = r.at( { b, i / 3 } ); q = std::max( q, h.at( { b, i } ) ); } return r; } };
struct extrema_net { static constexpr char const* name = "maximum(x*W,minimum(x*V,x*U))"; static constexpr bool stateful = true; static auto build( kit k, holder_t& x ) { auto w = k.make( { N, N } ), v = k.make( { N, N } ), u = k.make( { N, N } ); return ceras::maximum( x * w, ceras::minimum( x * v, x * u ) ); } static nd ref( nd const& x, params_t const& p, ul o ) { return zip( matmul( x, p[o] ), zip( matmul( x, p[o + 1] ), matmul( x, p[o + 2] ), []( double a, double b ) { return std::min( a, b ); } ), []( double a, double b ) { return std::max( a, b ); } ); } };

template<class M1, class M2> static void compose( src& s, ctx& c )
{
    std::vector<var<double>> vars; vars.reserve( 16 ); holder_t x1{ shape_t{ N } }, x2{ shape_t{ N } }, z{ shape_t{ N } }; auto e1 = M1::build( { s, vars }, x1 ); ul const o1 = 0, o2 = vars.size(); auto e2 = M2::build( { s, vars }, x2 ); ceras::model m1{ x1, e1 }; ceras::model m2{ x2, e2 };
    ul const batch = 2 + s.draw( 4 ); ul const kv = vars.size(); kit k{ s, vars }; auto a = k.make( { batch, N } ), b = k.make( { batch, N } ); nd const zd = gen_generic( s, { batch, N }, -1, 1 ); z.bind( to_tensor<double>( zd ) ); x1.bind( to_tensor<double>( zd ) ); std::vector<var<double>*> pv; for ( auto& v : vars ) pv.push_back( &v );
    auto const f1 = [o1]( nd const& x, params_t const& p ) { return M1::ref( x, p, o1 ); }; auto const f2 = [o2]( nd const& x, params_t const& p ) { return M2::ref( x, p, o2 ); }; auto const plus = []( nd const& u, nd const& v ) { return zip( u, v, []( double i, double j ) { return i + j; } ); };
    opts o; o.ftol = 1e-9; o.gtol = 1e-5; o.gatol = 1e-5; ul const kind = s.draw( 7 ); static char const* const names[] = { "m1(a)", "m1(m2(a))", "m1(m2(z)) trained as a model", "m1(m1(a))", "m1(a)+m1(b)", "m1(z)+m1's own output", "m1(a+m2(b)).a" }; o.name = names[kind]; c.desc << "m1: " << M1::name << " m2: " << M2::name << " " << o.name << " batch " << batch; c.label( names[kind] ); c.nontrivial( kind > 0 );
    bool const shared = kind == 3 || kind == 4 || kind == 5; o.gradient = !( shared && M1::stateful ); auto const go = [&]( auto ex, ref_t const& f ) { check_expression<double>( s, c, ex, pv, f, o ); };
    switch ( kind )
    {
        case 0: { auto ex = m1( a ); go( ex, [&]( params_t const& p ) { return f1( p[kv], p ); } ); break; }
        case 1: { auto ex = m1( m2( a ) ); go( ex, [&]( params_t const& p ) { return f1( f2( p[kv], p ), p ); } ); break; }
        case 2: { holder_t w{ shape_t{ N } }; auto ex = m1( m2( w ) ); ceras::model m{ w, ex }; auto const r = [&]( params_t const& p ) { return f1( f2( zd, p ), p ); }; auto data = params_t{}; for ( auto* v : pv ) data.push_back( to_nd( v->data() ) ); expect_close( c, to_nd( m.predict( to_tensor<double>( zd ) ) ), r( data ), 1e-9, 1e-10, o.name + ":predict", "the prediction of the composed model" ); expect_close( c, to_nd( m2.predict( to_tensor<double>( zd ) ) ), f2( zd, data ), 1e-9, 1e-10, o.name + ":predict", "the prediction of the inner model" ); go( m.output(), r ); break; }
        case 3: { auto ex = m1( m1( a ) ); go( ex, [&]( params_t const& p ) { return f1( f1( p[kv], p ), p ); } ); break; }
        case 4: { auto ex = m1( a ) + m1( b ); go( ex, [&]( params_t const& p ) { return plus( f1( p[kv], p ), f1( p[kv + 1], p ) ); } ); break; }
        case 5: { auto ex = m1( b ) + m1.output(); go( ex, [&]( params_t const& p ) { return plus( f1( p[kv + 1], p ), f1( zd, p ) ); } ); break; }
        default: { auto ex = ceras::hadamard_product( m1( a + m2( b ) ), a ); go( ex, [&]( params_t const& p ) { return zip( f1( plus( p[kv], f2( p[kv + 1], p ) ), p ), p[kv], []( double u, double v ) { return u * v; } ); } ); break; }
    }
    if ( shared && M1::stateful ) // the gradient through an operator that remembers its last evaluation
    {
        auto const probe = [&]( auto ex, ref_t const& f ) { run<double>( ex ); nd const up = gen_upstream( s, { batch, N } ); auto u = to_tensor<double>( up ); ex.backward( u ); params_t data; for ( auto* v : pv ) data.push_back( to_nd( v->data() ) ); for ( ul i = 0; i < pv.size(); ++i ) { auto const d = numeric_vjp( f, data, i, up ); nd const got = to_nd( pv[i]->gradient() ); for ( ul j = 0; j < got.size(); ++j ) if ( !d.skip[j] && d.smooth[j] && !close( got.v[j], d.g.v[j], 1e-5, 1e-5 + d.slack[j] ) ) c.tolerate( "model-call-shares-state", o.name, " with ", M1::name, ": gradient of operand ", i, " element ", j, " is ", got.v[j], " but the derivative is ", d.g.v[j], ": an operator inside a model keeps one record of its last evaluation for all the expressions the model is applied to" ); } };
        if ( kind == 3 ) probe( m1( m1( a ) ), [&]( params_t const& p ) { return f1( f1( p[kv], p ), p ); } ); else if ( kind == 4 ) probe( m1( a ) + m1( b ), [&]( params_t const& p ) { return plus( f1( p[kv], p ), f1( p[kv + 1], p ) ); } ); else probe( m1( b ) + m1.output(), [&]( params_t const& p ) { return plus( f1( p[kv + 1], p ), f1( zd, p ) ); } );
    }
}
PBT_FAMILY( "composition", 4000, 80000, 80, "7 kinds of model applied to expressions, to other models, to themselves and beside their own output: values, declared shapes and gradients of all variables, shared weights included; non-trivial when a model is composed" )
{
    switch ( s.draw( 7 ) )
    {
        case 0: compose<dense_net, skip_net>( s, c ); break;
        case 1: compose<skip_net, wide_net>( s, c ); break;
        case 2: compose<wide_net, average_net>( s, c ); break;
        case 3: compose<average_net, dense_net>( s, c ); break;
        case 4: compose<pool_net, reduce_net>( s, c ); break;
        case 5: compose<reduce_net, extrema_net>( s, c ); break;
        default: compose<extrema_net, pool_net>( s, c ); break;
    }
}
CER_MAIN()
