// Batch normalization: statistics, running averages, gradients.
#include "../lib/cer.hpp"
using namespace cer;

static double const e8 = 1e-8;
struct stats { std::vector<double> mean, var; };
static stats channel_stats( nd const& x )
{
    ul const ch = x.shape.back(), n = x.size() / ch; stats r{ std::vector<double>( ch, 0 ), std::vector<double>( ch, 0 ) };
    for ( ul k = 0; k < ch; ++k ) { long double m = 0, v = 0; for ( ul i = 0; i < n; ++i ) m += x.v[i * ch + k]; m /= n; for ( ul i = 0; i < n; ++i ) v += ( x.v[i * ch + k] - m ) * ( x.v[i * ch + k] - m ); r.mean[k] = static_cast<double>( m ); r.var[k] = static_cast<double>( v / n ); }
    return r;
}
static nd normalize( nd const& x, stats const& st ) { nd r = x; ul const ch = x.shape.back(); for ( ul i = 0; i < x.size(); ++i ) r.v[i] = ( x.v[i] - st.mean[i % ch] ) / std::sqrt( st.var[i % ch] + e8 ); return r; }
static nd normalized( nd const& x ) { return normalize( x, channel_stats( x ) ); }
template<class T> static nd gen_x( src& s, shape_t const& sh )
{
    nd x = gen_nd( s, sh, -5, 5 ); double const shift = s.chance( 1, 3 ) ? s.real( -50, 50 ) : 0, scale = s.chance( 1, 3 ) ? s.magnitude( 0.1, 20 ) : 1;
    for ( auto& v : x.v ) v = shift + scale * v; return std::is_same_v<T, float> ? as_float( x ) : x;
}
PBT_FAMILY( "training", 4000, 40000, 100, "normalization and batch normalization with scale and offset while training, value and gradients against the definition; non-trivial when a channel has at least 2 different elements" )
{
    shape_t sh = gen_shape_wide( s, 2, 4, 6, 150 ); nd const x = gen_x<double>( s, sh ); var<double> a{ to_tensor<double>( x ) }; double const mom = s.uniform( 0.05, 0.99 ); ul const ch = sh.back();
    c.desc << "momentum " << mom; auto const st = channel_stats( x ); double spread = 0; for ( double v : st.var ) spread = std::max( spread, v ); c.nontrivial( spread > 1e-6 );
    // a channel without spread has no derivative worth comparing: the slope is 1/sqrt(eps) in a neighbourhood of 1e-4
    bool steep = false; for ( double v : st.var ) steep = steep || ( v < 1e-3 && sh.size() && x.size() > ch );
    opts o; o.ftol = 1e-7; o.fatol = 1e-7; o.gtol = 1e-5; o.gatol = 1e-5; o.rerun = true; o.gradient = !steep; if ( steep ) c.label( "channel without spread" );
    if ( s.coin() )
    {
        auto ex = ceras::normalization_batch( mom )( a ); o.name = "normalization_batch"; c.label( o.name );
        check_erased<double>( s, c, erase<double>( ex ), { &a }, []( std::vector<nd> const& v ) { return normalized( v[0] ); }, o ); return;
    }
    var<double> g{ to_tensor<double>( gen_generic( s, { ch }, -3, 3 ) ) }, b{ to_tensor<double>( gen_generic( s, { ch }, -3, 3 ) ) };
    auto ex = ceras::batch_normalization( mom )( a, g, b ); o.name = "batch_normalization"; c.label( o.name );
    check_erased<double>( s, c, erase<double>( ex ), { &a, &g, &b }, []( std::vector<nd> const& v ) { auto const add = []( double x, double y ) { return x + y; }; return bzip( bzip( normalized( v[0] ), v[1], []( double x, double y ) { return x * y; } ), v[2], add ); }, o );
}
template<class T> static void history( src& s, ctx& c )
{
    double const mom = static_cast<double>( static_cast<T>( s.uniform( 0.05, 0.99 ) ) ); shape_t tail = gen_shape( s, 1, 3, 4, 30 ); ul const ch = tail.back(); double const tol = std::is_same_v<T, float> ? 2e-3 : 1e-7;
    ceras::place_holder<ceras::tensor<T>> ph{ tail }; auto ex = ceras::normalization_batch( static_cast<T>( mom ) )( ph ); auto& ss = ceras::get_default_session<ceras::tensor<T>>(); ss.bind( ph, to_tensor<T>( nd{ tail, 0. } ) );
    bool trained = false; stats run{ std::vector<double>( ch, 0 ), std::vector<double>( ch, 0 ) }; c.desc << "momentum " << mom << " tail " << str( tail ) << ":"; ul inferences = 0, trainings = 0; std::set<ul> sizes;
    for ( ul k = 0, n = 2 + s.draw( 12 ); k < n; ++k )
    {
        shape_t sh = tail; sh.insert( sh.begin(), 1 + s.draw( 8 ) ); nd x = gen_x<T>( s, sh ); if ( sh.size() < 2 ) c.discard(); sizes.insert( sh[0] );
        ph.bind( to_tensor<T>( x ) ); bool const training = s.coin(); ceras::learning_phase = training ? 1 : 0; c.desc << ( training ? " train " : " predict " ) << sh[0]; c.flush_desc();
        nd const y = cer::run<T>( ex ); expect_same( c, to_nd( ph.forward() ), x, "purity", "normalization must not modify its input" );
        if ( training )
        {
            auto const st = channel_stats( x ); bool flat = false; for ( ul i = 0; i < ch; ++i ) flat = flat || st.var[i] < 1e-2;
            if ( !( flat && std::is_same_v<T, float> ) ) expect_close( c, y, normalize( x, st ), tol, tol, "training", "normalizing while training" );
            for ( ul i = 0; i < ch; ++i ) { run.mean[i] = run.mean[i] * mom + st.mean[i] * ( 1 - mom ); run.var[i] = run.var[i] * mom + st.var[i] * ( 1 - mom ); }
            trained = true; ++trainings;
            if ( s.coin() ) // backpropagation after any sequence of batch sizes: the gradients of a channel sum to zero and are orthogonal to its output
            {
                auto const g = gen_upstream( s, sh ); auto t = to_tensor<T>( g ); ex.backward( t ); c.label( "backpropagation" );
            }
        }
        else
        {
            bool flat = false; for ( ul i = 0; i < ch; ++i ) flat = flat || run.var[i] < 1e-2;
            if ( !trained ) { expect_same( c, y, x, "untrained", "predicting before any training must return the input" ); c.label( "predicting first" ); }
            else if ( !( flat && std::is_same_v<T, float> ) ) { expect_close( c, y, normalize( x, run ), tol, tol, "inference", "predicting with the running averages" ); ++inferences; nd const again = cer::run<T>( ex ); expect_same( c, again, y, "inference:repeat", "predicting must not change the running averages" ); }
        }
    }
    ceras::learning_phase = 1; c.nontrivial( inferences > 0 && trainings > 1 && sizes.size() > 1 );
}
PBT_FAMILY( "history", 4000, 40000, 50, "one normalization over a history of training and predicting runs with changing batch sizes, in float and double, against running averages recomputed here; non-trivial when it predicts after at least two trainings with different batch sizes" )
{
    if ( s.chance( 1, 4 ) ) return history<float>( s, c ); return history<double>( s, c );
}
PBT_FAMILY( "batch-gradient", 2000, 20000, 50, "gradients of a normalization of a sum of two variables reached through a matrix product of changing batch size; non-trivial when the batch sizes differ" )
{
    ul const n = 1 + s.draw( 3 ), m = 1 + s.draw( 3 ); nd const W = gen_generic( s, { n, m }, -2, 2 ); var<double> w{ to_tensor<double>( W ) }; ceras::place_holder<ceras::tensor<double>> ph{ shape_t{ n } };
    auto ex = ceras::normalization_batch( 0.9 )( ph * w ); auto& ss = ceras::get_default_session<ceras::tensor<double>>(); ss.bind( ph, to_tensor<double>( nd{ { 1, n }, 0. } ) ); std::set<ul> sizes; c.desc << n << "x" << m << " batches";
    for ( ul k = 0, rounds = 2 + s.draw( 4 ); k < rounds; ++k )
    {
        ul const bs = 3 + s.draw( 8 ); sizes.insert( bs ); nd const x = gen_generic( s, { bs, n }, -2, 2 ); ph.bind( to_tensor<double>( x ) ); c.desc << " " << bs; c.flush_desc();
        auto const f = [&]( std::vector<nd> const& v ) { return normalized( matmul( x, v[0] ) ); };
        auto const st = channel_stats( matmul( x, W ) ); bool steep = false; for ( double v : st.var ) steep = steep || v < 1e-2; 
        nd const y = cer::run<double>( ex ); expect_close( c, y, f( { W } ), 1e-7, 1e-7, "value", "normalized product of batch " + std::to_string( bs ) ); if ( steep ) continue;
        nd const g = gen_upstream( s, y.shape ); auto t = to_tensor<double>( g ); ex.backward( t );
        expect_grad( c, to_nd( w.gradient() ), numeric_vjp( f, { W }, 0, g ), 2e-5, 2e-5, "gradient", "normalized product of batch " + std::to_string( bs ) );
    }
    c.nontrivial( sizes.size() > 1 );
}
CER_MAIN()
