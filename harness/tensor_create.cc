// Creation of tensors: constants, ranges, random variates.
#include "../lib/cer.hpp"
using namespace cer;

template<class T> static void constants( src& s, ctx& c )
{
    shape_t const sh = gen_shape_wide( s, 1, 6, 6, 300 ); nd const x = gen_nd( s, sh, -9, 9 ); auto const t = to_tensor<T>( x ); c.nontrivial( prod( sh ) > 1 ); c.desc << str( sh );
    auto const is = [&]( char const* name, ceras::tensor<T> const& r, double v ) { expect_same( c, to_nd( r ), nd{ sh, v }, name, name ); };
    // dirty the allocator's recycled blocks first
    { ceras::tensor<T> d{ sh, static_cast<T>( 9 ) }; for ( auto& v : d ) v = static_cast<T>( 7 ); }
    is( "zeros", ceras::zeros<T>( sh ), 0 ); is( "ones", ceras::ones<T>( sh ), 1 ); is( "zeros_like", ceras::zeros_like( t ), 0 ); is( "ones_like", ceras::ones_like( t ), 1 );
    { ceras::tensor<T> d{ sh, static_cast<T>( 9 ) }; }
    is( "tensor{shape}", ceras::tensor<T>{ sh }, 0 ); T const k = static_cast<T>( s.range( -9, 9 ) ); is( "tensor{shape,value}", ceras::tensor<T>{ sh, k }, static_cast<double>( k ) );
    auto sc = ceras::as_tensor( k ); c.require( sc.size() == 1 && sc.ndim() == 1 && sc.as_scalar() == k, "as_tensor", "as_tensor" );
    ceras::tensor<T> const filled{ { 2, 3, 2 }, k }; expect_same( c, to_nd( filled ), nd{ { 2, 3, 2 }, static_cast<double>( k ) }, "tensor{{extents},value}", "tensor{{extents},value}" ); ceras::tensor<T> const plain{ { 3, 4 } }; expect_same( c, to_nd( plain ), nd{ { 3, 4 }, 0. }, "tensor{{extents}}", "tensor{{extents}}" );
    ceras::tensor<T> a{ { 2, 3 }, { k, static_cast<T>( 1 ), static_cast<T>( 2 ), static_cast<T>( 3 ), static_cast<T>( 4 ), static_cast<T>( 5 ) } }; expect_same( c, to_nd( a ), nd{ { 2, 3 }, std::vector<double>{ double( k ), 1, 2, 3, 4, 5 } }, "list", "tensor from a list" );
    ceras::tensor<T> b{ std::vector<ul>{ 3, 1 }, { static_cast<T>( 4 ), k, static_cast<T>( 6 ) } }; expect_same( c, to_nd( b ), nd{ { 3, 1 }, std::vector<double>{ 4, double( k ), 6 } }, "list", "tensor from a list" );
    // every one of them has storage of its own
    auto z1 = ceras::zeros<T>( sh ), z2 = ceras::zeros<T>( sh ); for ( auto& v : z1 ) v = static_cast<T>( 5 ); is( "independent zeros", z2, 0 );
}
PBT_FAMILY( "constants", 3000, 30000, 100, "zeros, ones, *_like and filled tensors of any shape after blocks of the same size were dirtied and released, over int, float and double; non-trivial when there are at least 2 elements" )
{
    switch ( s.draw( 3 ) ) { case 0: return constants<double>( s, c ); case 1: return constants<float>( s, c ); default: return constants<int>( s, c ); }
}
PBT_FAMILY( "linspace", 2000, 20000, 100, "linspace with and without its end point; non-trivial when it has at least 3 points" )
{
    ul const n = 2 + s.draw( 60 ); double const a = s.real( -20, 20 ), b = s.real( -20, 20 ); bool const endpoint = s.coin(); c.nontrivial( n > 2 ); c.desc << "linspace " << a << " " << b << " " << n << " " << endpoint;
    auto t = endpoint && s.coin() ? ceras::linspace<double>( a, b, n ) : ceras::linspace<double>( a, b, n, endpoint ); nd w{ { n } }; for ( ul i = 0; i < n; ++i ) w.v[i] = a + ( b - a ) * static_cast<double>( i ) / static_cast<double>( endpoint ? n - 1 : n );
    expect_close( c, to_nd( t ), w, 1e-12, 1e-12, "linspace", "linspace" );
}
static double chi_bound( ul n ) { return 8 / std::sqrt( static_cast<double>( n ) ); } // 8 standard errors
template<class T> static void variates( src& s, ctx& c )
{
    shape_t const sh = s.chance( 1, 4 ) ? shape_t{ 20 + s.draw( 40 ), 20 + s.draw( 40 ) } : gen_shape( s, 1, 4, 8, 400 ); ul const n = prod( sh ), seed = s.draw( 1u << 30 ), kind = s.draw( 8 ); c.nontrivial( n > 1 );
    T const lo = static_cast<T>( s.uniform( -5, 2 ) ), hi = lo + static_cast<T>( s.uniform( 0.1, 6 ) ), mu = static_cast<T>( s.uniform( -4, 4 ) ), sd = static_cast<T>( s.uniform( 0.1, 3 ) );
    static char const* const names[] = { "random", "rand", "random_like", "randn", "randn_like", "truncated_normal", "glorot_uniform", "poisson" }; c.label( names[kind] ); c.desc << names[kind] << " " << str( sh ) << " seed " << seed << " " << lo << " " << hi << " " << mu << " " << sd;
    ceras::tensor<T> const like = to_tensor<T>( kind == 7 ? nd{ sh, std::fabs( double( mu ) ) * 3 + 0.25 } : nd{ sh, 3. } ); double lambda = std::fabs( double( mu ) ) * 3 + 0.25;
    T const tl = mu - sd * static_cast<T>( s.uniform( 0.2, 2 ) ), th = mu + sd * static_cast<T>( s.uniform( 0.2, 2 ) );
    shape_t const g = { 1 + s.draw( 40 ), 1 + s.draw( 40 ) };
    auto const make = [&]() -> ceras::tensor<T>
    {
        switch ( kind )
        {
            case 0: return ceras::random<T>( sh, lo, hi );
            case 1: return ceras::rand<T>( sh, lo, hi );
            case 2: return ceras::random_like( like, lo, hi );
            case 3: return ceras::randn<T>( sh, mu, sd );
            case 4: return ceras::randn_like( like, mu, sd );
            case 5: return ceras::truncated_normal<T>( sh, mu, sd, tl, th );
            case 6: return ceras::glorot_uniform<T>( { g[0], g[1] } );
            default: return ceras::poisson( like );
        }
    };
    ceras::random_generator.seed( seed ); auto const a = make(); auto const a2 = make(); ceras::random_generator.seed( seed ); auto const b = make();
    nd const x = to_nd( a ); c.require( x.shape == ( kind == 6 ? g : sh ), "shape", names[kind], " has shape ", str( x.shape ) );
    expect_same( c, to_nd( b ), x, "seed", std::string( names[kind] ) + " with the same seed" );
    if ( kind < 7 && x.size() > 3 ) c.require( to_nd( a2 ).v != x.v, "fresh", names[kind], " repeats itself" );
    double l = -INFINITY, h = INFINITY; if ( kind <= 2 ) { l = lo; h = hi; } if ( kind == 5 ) { l = tl; h = th; } if ( kind == 6 ) { h = std::sqrt( 6. / ( g[0] + g[1] ) ); l = -h; } if ( kind == 7 ) l = 0;
    double const slack = std::is_same_v<T, float> ? 1e-6 * ( 1 + std::fabs( h ) ) : 0;
    for ( double v : x.v ) { c.require( std::isfinite( v ) && v >= l - slack && v <= h + slack, "range", names[kind], ": ", v, " is outside [", l, ",", h, "]" ); if ( kind == 7 ) c.require( v == std::floor( v ), "integer", "poisson: ", v ); }
    if ( x.size() < 300 ) return;
    c.label( std::string( names[kind] ) + ": distribution" );
    double const N = static_cast<double>( x.size() ), m = sum( x ) / N; double v2 = 0; for ( double v : x.v ) v2 += ( v - m ) * ( v - m ); double const dev = std::sqrt( v2 / N ); std::set<double> distinct( x.v.begin(), x.v.end() );
    if ( kind != 7 ) c.require( distinct.size() > x.size() * 9 / 10, "distinct", names[kind], ": only ", distinct.size(), " distinct values of ", x.size() );
    if ( kind <= 2 || kind == 6 ) { c.require( std::fabs( m - ( l + h ) / 2 ) < ( h - l ) / std::sqrt( 12. ) * chi_bound( x.size() ), "mean", names[kind], ": mean ", m ); c.require( std::fabs( dev / ( ( h - l ) / std::sqrt( 12. ) ) - 1 ) < 1.2 * chi_bound( x.size() ), "deviation", names[kind], ": standard deviation ", dev ); }
    // uniform values come close to both ends of their range: missing one of them by a share d of the range has a probability of exp( -d n )
    if ( kind <= 2 || kind == 6 ) { auto const ends = std::minmax_element( x.v.begin(), x.v.end() ); double const d = ( h - l ) * 30 / N + slack; c.require( *ends.first < l + d && *ends.second > h - d, "reach", names[kind], ": values between ", *ends.first, " and ", *ends.second, " do not fill [", l, ",", h, "]" ); }
    if ( kind == 3 || kind == 4 ) { c.require( std::fabs( m - mu ) < sd * chi_bound( x.size() ), "mean", names[kind], ": mean ", m, " instead of ", mu ); c.require( std::fabs( dev / sd - 1 ) < 1.2 * chi_bound( x.size() ), "deviation", names[kind], ": standard deviation ", dev, " instead of ", sd ); }
    if ( kind == 7 ) { c.require( std::fabs( m - lambda ) < std::sqrt( lambda ) * chi_bound( x.size() ), "mean", "poisson: mean ", m, " instead of ", lambda ); c.require( std::fabs( dev / std::sqrt( lambda ) - 1 ) < 1.5 * chi_bound( x.size() ), "deviation", "poisson: standard deviation ", dev, " instead of ", std::sqrt( lambda ) ); }
}
PBT_FAMILY( "variates", 4000, 40000, 50, "random, rand, randn, *_like, truncated_normal, glorot_uniform and poisson: shape, range, reproducibility from the seed, moments of large samples within 8 standard errors; non-trivial when there are at least 2 elements" )
{
    if ( s.coin() ) variates<double>( s, c ); else variates<float>( s, c );
}
PBT_FAMILY( "default-variates", 600, 6000, 50, "the default parameters: uniform on [0,1], normal with mean 0 and deviation 1; non-trivial always" )
{
    ul const n = 400 + s.draw( 1200 ); ceras::random_generator.seed( s.draw( 1u << 30 ) ); bool const normal = s.coin(); c.nontrivial(); c.desc << ( normal ? "randn " : "random " ) << n; ul const how = s.draw( 3 ); ceras::tensor<double> like{ { n } };
    nd const x = to_nd( normal ? ( how ? ceras::randn<double>( { n } ) : ceras::randn_like( like ) ) : ( how == 0 ? ceras::random<double>( { n } ) : how == 1 ? ceras::rand<double>( { n } ) : ceras::random_like( like ) ) );
    double const m = sum( x ) / n; double v2 = 0; for ( double v : x.v ) { v2 += ( v - m ) * ( v - m ); if ( !normal ) c.require( v >= 0 && v <= 1, "range", v ); } double const dev = std::sqrt( v2 / n ), d = normal ? 1 : 1 / std::sqrt( 12. );
    c.require( std::fabs( m - ( normal ? 0 : 0.5 ) ) < d * chi_bound( n ), "mean", "mean ", m ); c.require( std::fabs( dev / d - 1 ) < 1.2 * chi_bound( n ), "deviation", "deviation ", dev );
}
CER_MAIN()
