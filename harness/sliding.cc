// Random shifts of images, and Poisson draws.
#include "../lib/cer.hpp"
#include <map>
using namespace cer;

struct offset { long r = 0, c = 0; bool nothing = false; };

static bool inside( long v, ul n ) { return v >= 0 && static_cast<ul>( v ) < n; }

// where the channel of `y` comes from: every element is the one of `x` at one common distance, and 0 where that lies outside of the image
static offset find_offset( ctx& c, nd const& x, nd const& y, ul ch, long p )
{
    ul const B = x.shape[0], R = x.shape[1], C = x.shape[2], D = x.shape[3]; auto at = [&]( nd const& t, ul b, ul r, ul k ) { return t.v[( ( b * R + r ) * C + k ) * D + ch]; };
    bool nothing = true; for ( ul b = 0; b < B; ++b ) for ( ul r = 0; r < R; ++r ) for ( ul k = 0; k < C; ++k ) nothing = nothing && at( y, b, r, k ) == 0;
    if ( nothing ) { c.require( p >= static_cast<long>( std::min( R, C ) ), "lost", "channel ", ch, " is empty, although a shift by up to ", p, " pixels leaves a part of it" ); return { 0, 0, true }; }
    for ( long dr = -p; dr <= p; ++dr ) for ( long dc = -p; dc <= p; ++dc )
    {
        bool ok = true;
        for ( ul b = 0; ok && b < B; ++b ) for ( ul r = 0; ok && r < R; ++r ) for ( ul k = 0; ok && k < C; ++k )
        {
            long const fr = static_cast<long>( r ) - dr, fk = static_cast<long>( k ) - dc; double const want = inside( fr, R ) && inside( fk, C ) ? at( x, b, static_cast<ul>( fr ), static_cast<ul>( fk ) ) : 0; ok = at( y, b, r, k ) == want;
        }
        if ( ok ) return { dr, dc, false };
    }
    c.require( false, "shift", "channel ", ch, " of ", str( y, 40 ), " is not ", str( x, 40 ), " moved by one distance of up to ", p, " pixels" ); return {};
}
static nd moved_back( nd const& g, std::vector<offset> const& offs )
{
    ul const B = g.shape[0], R = g.shape[1], C = g.shape[2], D = g.shape[3]; nd ans{ g.shape };
    for ( ul b = 0; b < B; ++b ) for ( ul r = 0; r < R; ++r ) for ( ul k = 0; k < C; ++k ) for ( ul d = 0; d < D; ++d )
    {
        if ( offs[d].nothing ) continue; long const tr = static_cast<long>( r ) + offs[d].r, tk = static_cast<long>( k ) + offs[d].c;
        if ( inside( tr, R ) && inside( tk, C ) ) ans.v[( ( b * R + r ) * C + k ) * D + d] = g.v[( ( b * R + static_cast<ul>( tr ) ) * C + static_cast<ul>( tk ) ) * D + d];
    }
    return ans;
}
template<class T> static void history( src& s, ctx& c )
{
    ul const p = 1 + s.draw( 4 ); shape_t const tail{ 1 + s.draw( 7 ), 1 + s.draw( 7 ), 1 + s.draw( 4 ) }; c.desc << "pixels " << p << " image " << str( tail ) << ":";
    ceras::place_holder<ceras::tensor<T>> ph{ tail }; auto& ss = ceras::get_default_session<ceras::tensor<T>>(); ss.bind( ph, to_tensor<T>( nd{ tail, 0. } ) ); var<T> v{ to_tensor<T>( nd{ tail, 0. } ) };
    auto const sum = ph + v; auto ex = ceras::sliding_2d( p )( sum ); ul trainings = 0, predictions = 0; std::set<ul> sizes;
    for ( ul k = 0, n = 1 + s.draw( 6 ); k < n; ++k )
    {
        shape_t sh = tail; sh.insert( sh.begin(), 1 + s.draw( 4 ) ); sizes.insert( sh[0] ); nd x = gen_generic( s, sh, 0.5, 4 ); if ( std::is_same_v<T, float> ) x = as_float( x );
        bool const training = s.chance( 3, 4 ); ceras::learning_phase = training ? 1 : 0; ph.bind( to_tensor<T>( x ) ); c.desc << ( training ? " train " : " predict " ) << sh[0]; c.flush_desc(); c.label( training ? "training" : "inference" );
        nd const y = cer::run<T>( ex ); c.require( y.shape == x.shape, "shape", "sliding_2d changed the shape to ", str( y.shape ) ); expect_same( c, to_nd( ph.forward() ), x, "purity", "sliding_2d must not modify its input" );
        if ( !training ) { expect_same( c, y, x, "inference", "sliding_2d must be the identity outside training" ); ++predictions; continue; }
        ++trainings; std::vector<offset> offs; for ( ul d = 0; d < tail[2]; ++d ) offs.push_back( find_offset( c, x, y, d, static_cast<long>( p ) ) );
        nd const g0 = gen_upstream( s, sh ); nd const g = std::is_same_v<T, float> ? as_float( g0 ) : g0; auto t = to_tensor<T>( g ); ex.backward( t ); expect_same( c, to_nd( t ), g, "upstream", "backpropagation must not modify the gradient passed in" );
        nd const back = moved_back( g, offs ); nd want{ tail }; for ( ul i = 0; i < back.size(); ++i ) want.v[i % want.size()] += back.v[i];
        expect_close( c, to_nd( v.gradient() ), want, std::is_same_v<T, float> ? 1e-4 : 1e-9, std::is_same_v<T, float> ? 1e-3 : 1e-9, "gradient", "the gradient must follow the pixels" );
    }
    ceras::learning_phase = 1; c.nontrivial( trainings > 0 && ( predictions > 0 || sizes.size() > 1 || trainings > 1 ) );
}
PBT_FAMILY( "sliding", 1500, 15000, 50, "a history of training and predicting runs of sliding_2d with changing batch sizes, float and double: every channel moves as a whole by one distance of up to the given number of pixels, the same for every image of the batch, with zeros moving in; the gradient moves back by the same distance; outside training it is the identity; non-trivial when it trains twice, or also predicts or changes its batch size" )
{
    if ( s.coin() ) return history<float>( s, c ); return history<double>( s, c );
}
PBT_FAMILY( "sliding-range", 60, 600, 10, "over many runs each distance from -p to p is as frequent as any other, in both directions and for every channel, distances of the two directions, of two channels, of two operators and of two runs are independent; non-trivial always" )
{
    long const p = 1 + static_cast<long>( s.draw( 3 ) ), w = 2 * p + 1; ul const R = static_cast<ul>( p ) + 1 + s.draw( 3 ), C = static_cast<ul>( p ) + 1 + s.draw( 3 ), D = 1 + s.draw( 3 ), runs = 500; c.nontrivial(); nd const x = gen_generic( s, { 1, R, C, D }, 0.5, 4 ); c.desc << "pixels " << p << " image " << str( x.shape );
    var<double> v{ to_tensor<double>( x ) }; auto const f = ceras::sliding_2d( static_cast<ul>( p ) ); auto a = f( v ); auto b = f( v );
    // one row of numbers per run: the distances of every channel, then those of the other operator
    std::vector<std::vector<long>> all;
    for ( ul r = 0; r < runs; ++r )
    {
        nd const y = cer::run<double>( a ), z = cer::run<double>( b ); std::vector<long> row;
        for ( ul d = 0; d < D; ++d ) { auto const o = find_offset( c, x, y, d, p ); row.push_back( o.r ); row.push_back( o.c ); }
        for ( ul d = 0; d < D; ++d ) { auto const o = find_offset( c, x, z, d, p ); row.push_back( o.r ); row.push_back( o.c ); }
        all.push_back( row );
    }
    double const N = static_cast<double>( runs ), q = 1. / static_cast<double>( w );
    auto binomial = [&]( double seen, double prob, char const* sig, auto const&... text ) { c.require( std::fabs( seen - N * prob ) < 8 * std::sqrt( N * prob * ( 1 - prob ) ) + 2, sig, text..., seen, " times in ", runs, " runs, expected ", N * prob ); };
    for ( ul i = 0; i < all[0].size(); ++i )
    {
        for ( long o = -p; o <= p; ++o ) { double n = 0; for ( auto const& row : all ) n += row[i] == o; c.require( n > 0, "reach", "distance ", o, " never came up in ", runs, " runs (number ", i, ")" ); binomial( n, q, "uniform", "distance ", o, " of number ", i, " came up " ); }
        double again = 0; for ( ul r = 1; r < runs; ++r ) again += all[r][i] == all[r - 1][i]; binomial( again, q, "redraw", "number ", i, " did not change from run to run " );
        for ( ul j = 0; j < i; ++j ) { double same = 0, opposite = 0; for ( auto const& row : all ) { same += row[i] == row[j]; opposite += row[i] == -row[j]; } binomial( same, q, "independence", "numbers ", j, " and ", i, " agreed " ); binomial( opposite, q, "independence", "numbers ", j, " and ", i, " were opposite " ); }
    }
}
PBT_FAMILY( "sliding-shared", 600, 6000, 20, "a sliding_2d used several times in an expression shows the same image everywhere within one run, and its gradient is the sum over the uses; declared shapes are those of the operand; non-trivial when the image has at least 2 pixels" )
{
    ul const p = 1 + s.draw( 3 ); shape_t const sh{ 1 + s.draw( 3 ), 1 + s.draw( 6 ), 1 + s.draw( 6 ), 1 + s.draw( 3 ) }; nd const x = gen_generic( s, sh, 0.5, 4 ); var<double> v{ to_tensor<double>( x ) }; c.desc << "pixels " << p << " " << str( x, 10 ); c.nontrivial( x.size() > 1 );
    auto d = ceras::sliding_2d( p )( v ); auto const declared = d.shape(); c.require( shape_t( declared.begin(), declared.end() ) == sh, "declared-shape", "declared shape ", str( shape_t( declared.begin(), declared.end() ) ) );
    auto ex = d * 2.0 + ceras::square( d ); nd const y = cer::run<double>( ex ); nd const g = gen_upstream( s, sh ); auto t = to_tensor<double>( g );
    // y = 2 z + z^2 grows with z >= -1 only; every candidate z comes from x
    nd z{ sh }; std::vector<offset> offs; nd const fx = map( x, []( double e ) { return 2 * e + e * e; } ); nd y0 = y; for ( auto& e : y0.v ) if ( std::fabs( e ) < 1e-12 ) e = 0;
    nd rounded = y; for ( ul i = 0; i < y.size(); ++i ) for ( double e : fx.v ) if ( close( y.v[i], e, 1e-12, 1e-14 ) ) rounded.v[i] = e;
    for ( double e : fx.v ) if ( std::fabs( e ) < 1e-6 ) return; // an element whose image is 0
    for ( ul ch = 0; ch < sh[3]; ++ch ) offs.push_back( find_offset( c, fx, rounded, ch, static_cast<long>( p ) ) );
    ex.backward( t ); nd want = moved_back( g, offs ); for ( ul i = 0; i < want.size(); ++i ) want.v[i] *= 2 + 2 * x.v[i]; expect_close( c, to_nd( v.gradient() ), want, 1e-9, 1e-12, "gradient", "gradient" );
}
template<class T> static void poisson_draw( src& s, ctx& c )
{
    ul const n = 300 + s.draw( 500 ); double const small = s.uniform( 0.2, 5 ), large = s.uniform( 5, 60 ); shape_t const sh = s.coin() ? shape_t{ 2 * n } : shape_t{ 2, n }; nd x{ sh, small }; for ( ul i = n; i < 2 * n; ++i ) x.v[i] = large; if ( std::is_same_v<T, float> ) x = as_float( x );
    var<T> v{ to_tensor<T>( x ) }; auto ex = ceras::poisson( v ); c.desc << "means " << small << " and " << large << " of " << n << " elements each"; c.nontrivial(); auto const declared = ex.shape(); c.require( shape_t( declared.begin(), declared.end() ) == sh, "declared-shape", "declared shape" );
    nd const y = cer::run<T>( ex ), z = cer::run<T>( ex ); c.require( y.shape == sh, "shape", "poisson has shape ", str( y.shape ) ); c.require( y.v != z.v, "redraw", "two runs drew the same numbers" ); expect_same( c, to_nd( v.data() ), x, "purity", "the operand" ); double const N = static_cast<double>( n );
    for ( double e : y.v ) c.require( e >= 0 && e == std::floor( e ), "integer", "a Poisson draw gave ", e );
    for ( ul half = 0; half < 2; ++half )
    {
        double const m = half ? large : small; double mean = 0, dev = 0; for ( ul i = half * n; i < half * n + n; ++i ) mean += y.v[i] / N; for ( ul i = half * n; i < half * n + n; ++i ) dev += ( y.v[i] - mean ) * ( y.v[i] - mean ) / N;
        c.require( std::fabs( mean - m ) < 8 * std::sqrt( m / N ), "mean", "mean ", mean, " instead of ", m ); c.require( std::fabs( dev - m ) < 8 * std::sqrt( ( m + 2 * m * m ) / N ), "deviation", "variance ", dev, " instead of ", m );
    }
}
PBT_FAMILY( "poisson", 300, 3000, 20, "every element of the poisson operator's result is a whole number drawn afresh each run, with the operand's element as its mean and variance within 8 standard errors; the operand is left alone and shapes are kept; non-trivial always" )
{
    if ( s.coin() ) return poisson_draw<float>( s, c ); return poisson_draw<double>( s, c );
}
CER_MAIN()
