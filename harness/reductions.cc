// Reductions to a scalar and along one axis, argmax and argmin.
#include "../lib/cer.hpp"
using namespace cer;

static nd gen_values( src& s, shape_t const& sh, bool& ties )
{
    ul const k = s.draw( 4 ); ties = false;
    if ( k <= 1 ) return gen_separated( s, sh, s.uniform( -20, 5 ), 0.37 ); // all different
    if ( k == 2 ) return gen_nd( s, sh, -5, 5 );
    ties = true; nd r{ sh }; for ( auto& x : r.v ) x = static_cast<double>( s.range( -2, 2 ) ); return r;
}
static ref_t over_axis( ul axis, std::function<double( std::vector<double> const& )> f )
{
    return [=]( std::vector<nd> const& x ) { return reduce( x[0], axis, f ); };
}
static double vsum( std::vector<double> const& e ) { long double t = 0; for ( double v : e ) t += v; return static_cast<double>( t ); }
static double vmin( std::vector<double> const& e ) { return *std::min_element( e.begin(), e.end() ); }
static double vmax( std::vector<double> const& e ) { return *std::max_element( e.begin(), e.end() ); }

// the whole upstream gradient of every reduced element goes to exactly one of its extremal elements
static void one_receiver( ctx& c, nd const& x, nd const& g, nd const& up, ul axis, bool mx, std::string const& name )
{
    ul const n = x.shape[axis]; ul k = 0;
    each( up.shape, [&]( shape_t const& i )
    {
        double e = mx ? -1e300 : 1e300; ul hits = 0; shape_t j = i; j.insert( j.begin() + axis, 0 );
        for ( ul t = 0; t < n; ++t ) { j[axis] = t; e = mx ? std::max( e, x.at( j ) ) : std::min( e, x.at( j ) ); }
        for ( ul t = 0; t < n; ++t )
        {
            j[axis] = t; double const got = g.at( j );
            if ( got == 0 ) continue;
            c.require( x.at( j ) == e, name + ":receiver", name, ": gradient ", got, " went to element ", str( j ), " which is not extremal" );
            c.require( got == up.v[k], name + ":receiver", name, ": an extremal element received ", got, " instead of ", up.v[k] ); ++hits;
        }
        c.require( hits == 1, name + ":receiver", name, ": ", hits, " elements received the gradient of one extremum" ); ++k;
    } );
}

PBT_FAMILY( "axis", 6000, 60000, 150, "reduce_min/max/sum along a given or the default last axis of a tensor of 1 to 4 dimensions; non-trivial when the axis has at least 2 elements" )
{
    ul const op = s.draw( 3 ); shape_t const sh = gen_shape_wide( s, 1, 4, 5, 120 );
    ul axis = s.draw( sh.size() + 1 ); bool const dflt = axis == sh.size(); if ( dflt ) axis = sh.size() - 1;
    bool ties; nd const x = gen_values( s, sh, ties ); c.nontrivial( sh[axis] >= 2 );
    static char const* const names[] = { "reduce_min", "reduce_max", "reduce_sum" };
    std::string const name = names[op]; c.label( name + ( dflt ? " default axis" : " axis " + std::to_string( axis ) ) ); if ( ties ) c.label( "ties" );
    c.desc << name << " axis=" << ( dflt ? -1L : static_cast<long>( axis ) );
    var<double> a{ to_tensor<double>( x ) }; opts o; o.name = name;
    ul const ax = dflt ? static_cast<ul>( -1 ) : axis;
    auto const go = [&]( auto ex, auto f )
    {
        auto e = erase<double>( ex );
        check_erased<double>( s, c, e, { &a }, over_axis( axis, f ), o );
        if ( op == 2 ) return;
        nd const up = gen_upstream( s, reduce( x, axis, vsum ).shape ); e.run(); e.back( up );
        one_receiver( c, x, to_nd( a.gradient() ), up, axis, op == 1, name );
    };
    if ( op == 0 ) { if ( dflt && s.coin() ) go( ceras::reduce_min()( a ), vmin ); else go( ceras::reduce_min( ax )( a ), vmin ); }
    else if ( op == 1 ) { if ( dflt && s.coin() ) go( ceras::reduce_max()( a ), vmax ); else go( ceras::reduce_max( ax )( a ), vmax ); }
    else go( ceras::reduce_sum( ax )( a ), vsum );
}
PBT_FAMILY( "total-sum", 2000, 20000, 100, "sum_reduce and reduce_sum over all elements; non-trivial when there are at least 2" )
{
    bool ties; nd const x = gen_values( s, gen_shape_wide( s, 1, 4, 6, 200 ), ties ); c.nontrivial( x.size() >= 2 );
    var<double> a{ to_tensor<double>( x ) }; opts o; ref_t const f = []( std::vector<nd> const& v ) { return nd{ { 1 }, std::vector<double>{ sum( v[0] ) } }; };
    if ( s.coin() ) { o.name = "sum_reduce"; auto ex = ceras::sum_reduce( a ); c.label( o.name ); check_erased<double>( s, c, erase<double>( ex ), { &a }, f, o ); }
    else { o.name = "reduce_sum"; auto ex = ceras::reduce_sum( a ); c.label( o.name ); check_erased<double>( s, c, erase<double>( ex ), { &a }, f, o ); }
}
PBT_FAMILY( "total-mean", 2000, 20000, 100, "mean_reduce, reduce_mean and mean over all elements; non-trivial when there are at least 2" )
{
    bool ties; nd const x = gen_values( s, gen_shape_wide( s, 1, 4, 6, 200 ), ties ); c.nontrivial( x.size() >= 2 );
    var<double> a{ to_tensor<double>( x ) }; opts o; o.gradient = false;
    ref_t const f = []( std::vector<nd> const& v ) { return nd{ { 1 }, std::vector<double>{ sum( v[0] ) / static_cast<double>( v[0].size() ) } }; };
    auto const go = [&]( char const* name, auto ex )
    {
        o.name = name; c.label( name ); auto e = erase<double>( ex ); check_erased<double>( s, c, e, { &a }, f, o );
        nd const up = gen_upstream( s, { 1 } ); e.run(); expect_same( c, e.back( up ), up, o.name + ":upstream", o.name + ": the incoming gradient must not change" );
        nd const g = to_nd( a.gradient() );
        nd const right{ x.shape, up.v[0] / static_cast<double>( x.size() ) };
        bool ok = g.shape == right.shape; for ( ul i = 0; ok && i < g.size(); ++i ) ok = close( g.v[i], right.v[i], 1e-9, 1e-12 );
        if ( ok ) return;
        // known: divided by the batch size only; anything else is a violation
        double const batch = x.dim() == 1 ? 1. : static_cast<double>( x.shape[0] );
        expect_close( c, g, nd{ x.shape, up.v[0] / batch }, 1e-9, 1e-12, o.name + ":gradient", o.name );
        c.finding( "mean-gradient-scale", name, " of a tensor of shape ", str( x.shape ), " has gradient ", g.v[0], " instead of ", right.v[0] );
    };
    switch ( s.draw( 3 ) ) { case 0: return go( "mean_reduce", ceras::mean_reduce( a ) ); case 1: return go( "reduce_mean", ceras::reduce_mean( a ) ); default: return go( "mean", ceras::mean( a ) ); }
}
PBT_FAMILY( "arg", 3000, 30000, 100, "argmax and argmin along an axis, with and without ties; the gradient is zero; non-trivial when the axis has at least 2 elements" )
{
    bool const mx = s.coin(); shape_t const sh = gen_shape_wide( s, 1, 4, 5, 120 ); ul const axis = s.draw( sh.size() );
    bool ties; nd const x = gen_values( s, sh, ties ); c.nontrivial( sh[axis] >= 2 );
    std::string const name = mx ? "argmax" : "argmin"; c.label( name + " axis " + std::to_string( axis ) ); c.desc << name << " axis=" << axis;
    var<double> a{ to_tensor<double>( x ) }; opts o; o.name = name; o.gradient = false;
    auto const first = [&]( std::vector<double> const& e ) { return static_cast<double>( ( mx ? std::max_element( e.begin(), e.end() ) : std::min_element( e.begin(), e.end() ) ) - e.begin() ); };
    auto const go = [&]( auto ex )
    {
        auto e = erase<double>( ex ); check_erased<double>( s, c, e, { &a }, over_axis( axis, first ), o );
        nd const up = gen_upstream( s, reduce( x, axis, vsum ).shape ); e.run(); e.back( up );
        nd const g = to_nd( a.gradient() ); for ( double v : g.v ) c.require( v == 0, name + ":gradient", name, ": the gradient must be zero, got ", str( g ) );
    };
    if ( mx ) { if ( axis == 0 && s.coin() ) go( ceras::argmax()( a ) ); else go( ceras::argmax( axis )( a ) ); }
    else { if ( axis == 0 && s.coin() ) go( ceras::argmin()( a ) ); else go( ceras::argmin( axis )( a ) ); }
}
CER_MAIN()
