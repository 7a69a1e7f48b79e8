// Reductions, statistics, predicates and element functions of tensors.
#include "../lib/cer.hpp"
using namespace cer;

template<class T> static nd gen_t( src& s, shape_t const& sh )
{
    nd r{ sh }; ul const mode = s.draw( 4 );
    for ( auto& x : r.v )
    {
        if constexpr ( std::is_same_v<T, int> ) x = static_cast<double>( mode == 0 ? s.range( -60, -1 ) : mode == 1 ? s.range( -3, 3 ) : mode == 2 ? s.range( 1, 80 ) : s.range( -60, 60 ) );
        else { x = mode == 0 ? s.uniform( -9, -0.01 ) : mode == 1 ? static_cast<double>( s.range( -3, 3 ) ) : mode == 2 ? s.uniform( 100, 101 ) : s.real( -9, 9 ); x = static_cast<double>( static_cast<T>( x ) ); }
    }
    return r;
}
static double vsum( std::vector<double> const& e ) { long double t = 0; for ( double v : e ) t += v; return static_cast<double>( t ); }
static double vmin( std::vector<double> const& e ) { return *std::min_element( e.begin(), e.end() ); }
static double vmax( std::vector<double> const& e ) { return *std::max_element( e.begin(), e.end() ); }
static double vmean( std::vector<double> const& e ) { return vsum( e ) / e.size(); }
static double vvar( std::vector<double> const& e ) { double const m = vmean( e ); long double t = 0; for ( double v : e ) t += ( v - m ) * ( v - m ); return static_cast<double>( t / e.size() ); }

template<class T> constexpr double rt() { return std::is_same_v<T, float> ? 2e-5 : std::is_same_v<T, double> ? 1e-11 : 0; }
template<class T> static void total( src& s, ctx& c )
{
    nd const x = gen_t<T>( s, gen_shape_wide( s, 1, 5, 6, 200 ) ); auto const t = to_tensor<T>( x ); c.nontrivial( x.size() > 1 ); c.desc << "totals of " << str( x, 24 ); c.flush_desc();
    auto const is = [&]( char const* name, double got, double want ) { double const sc = std::fabs( vmax( map( x, []( double v ) { return std::fabs( v ); } ).v ) ) * x.size(); c.require( close( got, want, rt<T>(), rt<T>() * sc ), name, name, " is ", got, " but must be ", want ); };
    is( "max", ceras::max( t ), vmax( x.v ) ); is( "amax", ceras::amax( t ), vmax( x.v ) ); is( "min", ceras::min( t ), vmin( x.v ) ); is( "amin", ceras::amin( t ), vmin( x.v ) ); is( "sum", ceras::sum( t ), vsum( x.v ) );
    auto rs = ceras::reduce_sum( t ); c.require( rs.size() == 1 && rs.ndim() == 1, "reduce_sum:shape", "reduce_sum" ); is( "reduce_sum", rs.as_scalar(), vsum( x.v ) );
    if constexpr ( std::is_floating_point_v<T> )
    {
        is( "mean", ceras::mean( t ), vmean( x.v ) ); auto rm = ceras::reduce_mean( t ); c.require( rm.size() == 1 && rm.ndim() == 1, "reduce_mean:shape", "reduce_mean" ); is( "reduce_mean", rm.as_scalar(), vmean( x.v ) );
        c.require( !ceras::has_nan( t ) && !ceras::has_inf( t ) && ceras::is_valid( t ), "predicates", "a finite tensor must be valid" );
    }
    expect_same( c, to_nd( ceras::abs( t ) ), map( x, []( double v ) { return std::fabs( v ); } ), "abs", "abs" );
    expect_same( c, to_nd( t ), x, "operand", "the operand" );
}
PBT_FAMILY( "total", 6000, 60000, 200, "max, min, sum, mean, reduce_sum, reduce_mean and abs of all elements over int, float and double, all-negative and large values included; non-trivial when there are at least 2 elements" )
{
    switch ( s.draw( 3 ) ) { case 0: return total<double>( s, c ); case 1: return total<float>( s, c ); default: return total<int>( s, c ); }
}
template<class T> static void axis( src& s, ctx& c )
{
    shape_t const sh = gen_shape_wide( s, 1, 5, 5, 200 ); nd const x = gen_t<T>( s, sh ); auto const t = to_tensor<T>( x ); ul ax = s.draw( sh.size() + 1 ); ul const given = ax == sh.size() ? static_cast<ul>( -1 ) : ax; if ( ax == sh.size() ) ax = sh.size() - 1;
    bool const keep = s.coin(); c.nontrivial( sh[ax] > 1 ); c.label( given == static_cast<ul>( -1 ) ? "default axis" : "axis " + std::to_string( ax ) ); ul const op = s.draw( std::is_same_v<T, int> ? 4 : 7 );
    static char const* const names[] = { "sum", "max", "min", "reduce", "mean", "variance", "standard_deviation" }; c.label( names[op] ); c.desc << names[op] << " axis " << static_cast<long>( given ) << ( keep ? " keepdims " : " " ) << str( x, 24 ); c.flush_desc();
    double const sc = vmax( map( x, []( double v ) { return std::fabs( v ); } ).v ) * sh[ax];
    ceras::tensor<T> r; std::function<double( std::vector<double> const& )> f;
    switch ( op )
    {
        case 0: r = keep ? ceras::sum( t, given, true ) : ceras::sum( t, given ); f = vsum; break;
        case 1: r = keep ? ceras::max( t, given, true ) : ceras::max( t, given ); f = vmax; break;
        case 2: r = keep ? ceras::min( t, given, true ) : ceras::min( t, given ); f = vmin; break;
        case 3: r = ceras::reduce( t, given, T( 0 ), []( T a, T b ) { return a + b; }, keep ); f = vsum; break;
        default:
            if constexpr ( std::is_floating_point_v<T> )
            {
                if ( op == 4 ) { r = keep ? ceras::mean( t, given, true ) : ceras::mean( t, given ); f = vmean; }
                if ( op == 5 ) { r = keep ? ceras::variance( t, given, true ) : ceras::variance( t, given ); f = vvar; }
                if ( op == 6 ) { r = keep ? ceras::standard_deviation( t, given, true ) : ceras::standard_deviation( t, given ); f = []( std::vector<double> const& e ) { return std::sqrt( vvar( e ) ); }; }
            }
    }
    double at = rt<T>() * sc; if ( op == 5 ) at = rt<T>() * sc * sc * 4; if ( op == 6 ) at = std::sqrt( rt<T>() ) * sc * 2;
    if ( op == 6 ) { nd sq = map( to_nd( r ), []( double v ) { return v * v; } ); for ( double v : to_nd( r ).v ) c.require( v >= 0, "standard_deviation", "negative" ); expect_close( c, sq, reduce( x, ax, vvar, keep ), rt<T>() * 10, rt<T>() * sc * sc * 8, names[op], names[op] ); }
    else expect_close( c, to_nd( r ), reduce( x, ax, f, keep ), rt<T>() * 10, at, names[op], names[op] );
    expect_same( c, to_nd( t ), x, "operand", "the operand" );
}
PBT_FAMILY( "axis", 8000, 80000, 200, "sum, max, min, reduce, mean, variance and standard_deviation along one axis with and without keeping it, over int, float and double; non-trivial when the axis has at least 2 elements" )
{
    switch ( s.draw( 3 ) ) { case 0: return axis<double>( s, c ); case 1: return axis<float>( s, c ); default: return axis<int>( s, c ); }
}
PBT_FAMILY( "predicates", 3000, 30000, 200, "has_nan, has_inf and is_valid of tensors with NaN and infinities at any position; non-trivial when there is one" )
{
    nd x = gen_nd( s, gen_shape_wide( s, 1, 4, 6, 100 ), -9, 9 ); bool nan = false, inf = false; ul const n = s.draw( 4 );
    for ( ul i = 0; i < n; ++i ) { ul const p = s.draw( x.size() ); switch ( s.draw( 3 ) ) { case 0: x.v[p] = std::nan( "" ); break; case 1: x.v[p] = INFINITY; break; default: x.v[p] = -INFINITY; } }
    for ( double v : x.v ) { nan = nan || std::isnan( v ); inf = inf || std::isinf( v ); }
    c.nontrivial( nan || inf ); c.desc << str( x, 24 ); auto const t = to_tensor<double>( x ); c.label( nan ? inf ? "both" : "nan" : inf ? "inf" : "finite" );
    c.require( ceras::has_nan( t ) == nan, "has_nan", "has_nan" ); c.require( ceras::has_inf( t ) == inf, "has_inf", "has_inf" ); c.require( ceras::is_valid( t ) == !( nan || inf ), "is_valid", "is_valid" );
}
template<class T> static void softmax_case( src& s, ctx& c )
{
    shape_t const sh = gen_shape_wide( s, 1, 4, 6, 100 ); double const m = s.magnitude( 0.1, 5000 ), o = s.chance( 1, 3 ) ? s.uniform( -20000, 20000 ) : 0; nd x = gen_nd( s, sh, -m, m ); for ( auto& v : x.v ) v = static_cast<double>( static_cast<T>( v + o ) ); auto const t = to_tensor<T>( x ); ul const n = sh.back(); c.nontrivial( n > 1 ); c.desc << str( x, 24 );
    nd w = x; for ( ul i = 0; i < x.size() / n; ++i ) { double mx = -1e300, a = 0; for ( ul j = 0; j < n; ++j ) mx = std::max( mx, x.v[i * n + j] ); for ( ul j = 0; j < n; ++j ) a += std::exp( x.v[i * n + j] - mx ); for ( ul j = 0; j < n; ++j ) w.v[i * n + j] = std::exp( x.v[i * n + j] - mx ) / a; }
    double const tol = std::is_same_v<T, float> ? 1e-5 : 1e-7; expect_close( c, to_nd( ceras::softmax( t ) ), w, tol, tol / 100, "softmax", "softmax" ); expect_same( c, to_nd( t ), x, "operand", "the operand" );
}
PBT_FAMILY( "softmax", 3000, 30000, 200, "tensor softmax along the last dimension with inputs up to +-25000, float and double; non-trivial when rows have at least 2 elements" )
{
    if ( s.coin() ) return softmax_case<float>( s, c ); return softmax_case<double>( s, c );
}
CER_MAIN()
