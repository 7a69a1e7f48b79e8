// Operators with randomness and the learning phase.
#include "../lib/cer.hpp"
using namespace cer;

template<class T> static void dropout( src& s, ctx& c )
{
    T const p = static_cast<T>( s.coin() ? s.uniform( 0.05, 0.95 ) : s.pick( { 0.1, 0.25, 0.5, 0.75, 0.9 } ) ); shape_t const tail = gen_shape( s, 1, 3, 6, 60 ); T const keep = T{ 1 } - p;
    ceras::place_holder<ceras::tensor<T>> ph{ tail }; auto& ss = ceras::get_default_session<ceras::tensor<T>>(); ss.bind( ph, to_tensor<T>( nd{ tail, 0. } ) );
    var<T> v{ to_tensor<T>( nd{ tail, 0. } ) }; // the gradient reaches v through the broadcast sum of ph and v
    auto const sum = ph + v; auto ex = s.coin() ? ceras::dropout( p )( sum ) : ceras::drop_out( p )( sum ); std::set<ul> sizes; ul trainings = 0, inferences = 0; c.desc << "rate " << p << " tail " << str( tail ) << ":";
    for ( ul k = 0, n = 1 + s.draw( 8 ); k < n; ++k )
    {
        shape_t sh = tail; sh.insert( sh.begin(), 1 + s.draw( 9 ) ); sizes.insert( sh[0] ); nd x = gen_nd( s, sh, -4, 4 ); for ( auto& e : x.v ) if ( std::fabs( e ) < 0.01 ) e = 1; if ( std::is_same_v<T, float> ) x = as_float( x );
        bool const training = s.chance( 2, 3 ); ceras::learning_phase = training ? 1 : 0; ph.bind( to_tensor<T>( x ) ); c.desc << ( training ? " train " : " predict " ) << sh[0]; c.flush_desc(); c.label( training ? "training" : "inference" );
        nd const y = cer::run<T>( ex ); c.require( y.shape == x.shape, "shape", "dropout changed the shape" );
        expect_same( c, to_nd( ph.forward() ), x, "purity", "dropout must not modify its input" );
        std::vector<int> kept( x.size(), 1 );
        if ( !training ) { expect_same( c, y, x, "inference", "dropout must be the identity outside training" ); ++inferences; }
        else
        {
            ++trainings;
            for ( ul i = 0; i < x.size(); ++i )
            {
                kept[i] = y.v[i] != 0; double const want = static_cast<double>( static_cast<T>( x.v[i] ) / keep );
                c.require( !kept[i] || close( y.v[i], want, 1e-6, 0 ), "training", "element ", i, " of value ", x.v[i], " became ", y.v[i], " instead of 0 or ", want );
            }
        }
        // backpropagation: exactly the kept elements, scaled like them. v is broadcast over the batch
        nd const g0 = gen_upstream( s, sh ); nd const g = std::is_same_v<T, float> ? as_float( g0 ) : g0; nd want{ tail };
        if ( !training ) v.gradient().reset( T{ 0 } ); // only runs of the learning phase start from a zero gradient
        auto t = to_tensor<T>( g ); ex.backward( t ); expect_same( c, to_nd( t ), g, "upstream", "backpropagation must not modify the gradient passed in" );
        for ( ul i = 0; i < x.size(); ++i ) if ( kept[i] ) want.v[i % want.size()] += training ? g.v[i] / keep : g.v[i];
        expect_close( c, to_nd( v.gradient() ), want, std::is_same_v<T, float> ? 1e-4 : 1e-6, std::is_same_v<T, float> ? 1e-3 : 1e-5, "gradient", training ? "gradient while training" : "gradient outside training" );
    }
    ceras::learning_phase = 1; c.nontrivial( trainings > 0 && ( inferences > 0 || sizes.size() > 1 ) );
}

PBT_FAMILY( "dropout", 4000, 40000, 50, "a history of training and predicting runs of dropout with changing batch sizes, float and double: every element is dropped or scaled by 1/(1-p), gradients follow the same elements, and outside training it is the identity; non-trivial when it trains and also predicts or changes its batch size" )
{
    if ( s.chance( 1, 4 ) ) return dropout<float>( s, c ); return dropout<double>( s, c );
}
PBT_FAMILY( "dropout-rate", 400, 4000, 10, "over large tensors and many runs the dropped fraction is p, each element is dropped sometimes and kept sometimes, and two operators of one factory drop different elements; non-trivial always" )
{
    double const p = s.uniform( 0.1, 0.9 ); ul const n = 200 + s.draw( 600 ), runs = 60; c.desc << "rate " << p << " elements " << n; c.nontrivial();
    var<double> v{ ceras::ones<double>( { n } ) }; auto const f = ceras::dropout( p ); auto a = f( v ); auto b = f( v ); ul dropped = 0, same = 0, both = 0; std::vector<ul> per( n, 0 ); nd last;
    for ( ul r = 0; r < runs; ++r )
    {
        nd const y = cer::run<double>( a ); for ( ul i = 0; i < n; ++i ) if ( y.v[i] == 0 ) { ++dropped; ++per[i]; }
        if ( r % 10 == 0 ) { nd const z = cer::run<double>( b ); for ( ul i = 0; i < n; ++i ) { ++both; same += ( y.v[i] == 0 ) == ( z.v[i] == 0 ); } }
        if ( r > 0 ) c.require( last.v != y.v, "redraw", "two training runs dropped exactly the same elements" ); last = y;
    }
    double const N = static_cast<double>( n * runs ), dev = std::sqrt( p * ( 1 - p ) / N ); c.require( std::fabs( static_cast<double>( dropped ) / N - p ) < 8 * dev, "rate", "dropped a fraction of ", static_cast<double>( dropped ) / N );
    double const q = p * p + ( 1 - p ) * ( 1 - p ); c.require( std::fabs( static_cast<double>( same ) / static_cast<double>( both ) - q ) < 8 * std::sqrt( q * ( 1 - q ) / static_cast<double>( both ) ) + 1e-9, "independence", "two operators agree on a fraction of ", static_cast<double>( same ) / static_cast<double>( both ), " of the elements instead of ", q );
    for ( ul i = 0; i < n; ++i ) { double const m = static_cast<double>( runs ) * p, d = std::sqrt( m * ( 1 - p ) ); c.require( std::fabs( static_cast<double>( per[i] ) - m ) < 8 * d + 2, "uniform", "element ", i, " was dropped in ", per[i], " of ", runs, " runs at rate ", p ); }
}
PBT_FAMILY( "dropout-shared", 2000, 20000, 50, "a dropout used several times in an expression drops the same elements everywhere within one run, and its gradient is the sum over the uses; non-trivial when there are at least 2 elements" )
{
    double const p = s.uniform( 0.1, 0.9 ); shape_t const sh = gen_shape( s, 1, 3, 6, 60 ); nd const x = map( gen_generic( s, sh, 0.5, 4 ), []( double v ) { return v; } ); var<double> v{ to_tensor<double>( x ) }; c.desc << "rate " << p << " " << str( x, 10 ); c.nontrivial( x.size() > 1 );
    auto d = ceras::dropout( p )( v ); auto ex = d * 2.0 + ceras::square( d ); nd const y = cer::run<double>( ex ); nd const g = gen_upstream( s, sh ); auto t = to_tensor<double>( g ); std::vector<int> kept( x.size() );
    for ( ul i = 0; i < x.size(); ++i ) { double const z = x.v[i] / ( 1 - p ); kept[i] = y.v[i] != 0; c.require( !kept[i] || close( y.v[i], 2 * z + z * z, 1e-9, 0 ), "value", "element ", i, " is ", y.v[i], " instead of 0 or ", 2 * z + z * z ); }
    ex.backward( t ); nd want{ sh }; for ( ul i = 0; i < x.size(); ++i ) want.v[i] = kept[i] ? g.v[i] * ( 2 + 2 * x.v[i] / ( 1 - p ) ) / ( 1 - p ) : 0; expect_close( c, to_nd( v.gradient() ), want, 1e-9, 1e-12, "gradient", "gradient" );
}
template<class T> static void normal( src& s, ctx& c )
{
    T const m = static_cast<T>( s.uniform( -3, 3 ) ), d = static_cast<T>( s.uniform( 0.1, 3 ) ); ul const n = 400 + s.draw( 400 ); shape_t sh = s.coin() ? shape_t{ n } : shape_t{ n / 20, 20 }; c.desc << "mean " << m << " deviation " << d << " " << str( sh ); c.nontrivial();
    var<T> v{ to_tensor<T>( nd{ sh, 5. } ) }; auto ex = ceras::random_normal_like( m, d )( v ); nd const y = cer::run<T>( ex ), z = cer::run<T>( ex ); double const N = static_cast<double>( y.size() );
    c.require( y.shape == sh, "shape", "random_normal_like has shape ", str( y.shape ) ); c.require( y.v != z.v, "redraw", "two runs drew the same numbers" ); auto const declared = ex.shape(); c.require( shape_t( declared.begin(), declared.end() ) == sh, "declared-shape", "declared shape" );
    double const mean = sum( y ) / N, var_ = sum( map( y, [=]( double x ) { return ( x - mean ) * ( x - mean ); } ) ) / N;
    c.require( std::fabs( mean - static_cast<double>( m ) ) < 8 * d / std::sqrt( N ), "mean", "mean is ", mean ); c.require( std::fabs( std::sqrt( var_ ) - d ) < 8 * d / std::sqrt( 2 * N ), "deviation", "deviation is ", std::sqrt( var_ ) );
    expect_same( c, to_nd( v.data() ), nd{ sh, 5. }, "purity", "the operand" ); auto t = to_tensor<T>( nd{ sh, 1. } ); ex.backward( t ); expect_same( c, to_nd( v.gradient() ), nd{ sh, 0. }, "gradient", "the gradient of a random tensor" );
}
PBT_FAMILY( "random_normal_like", 600, 6000, 20, "random_normal_like has the operand's shape, the requested mean and deviation within 8 standard errors, draws afresh every run and stops gradients; non-trivial always" )
{
    if ( s.coin() ) return normal<float>( s, c ); return normal<double>( s, c );
}
CER_MAIN()
