// Element-wise operators by formula: values and derivatives in long double, on float and double tensors over all magnitudes.
#pragma once
#include "cer.hpp"
namespace cer
{
typedef long double ld; typedef std::function<void( expr_if const& )> use_t;
struct curve { char const* name; double lo, hi, top_float, top_double; double floor; std::function<ld( ld )> f, d; std::function<void( var<double>&, use_t const& )> mk_d; std::function<void( var<float>&, use_t const& )> mk_f; std::vector<double> kinks = {}; };
#define CURVE( e ) []( var<double>& a, use_t const& use ) { typedef double T; (void)sizeof( T ); auto ex = e; use( erase<double>( ex ) ); }, []( var<float>& a, use_t const& use ) { typedef float T; (void)sizeof( T ); auto ex = e; use( erase<float>( ex ) ); }
#define LD( e ) []( ld x ) -> ld { return e; }
// how much the derivative d may move when its argument (or an intermediate of the same relative error) moves by one rounding
inline ld drift( std::function<ld( ld )> const& d, ld q ) { ld const h = 1e-7L * q, at = d( q ); ld w = 0; if ( h == 0 ) return 0; for ( ld p : { q + h, q - h } ) { ld const r = std::fabs( ( d( p ) - at ) / 1e-7L ); if ( r == r && !std::isinf( r ) ) w = std::max( w, r ); } return w; }
template<class T> double gen_wide( src& s, double lo, double hi, double top, std::vector<double> const& kinks, bool& far )
{
    double const least = std::is_same_v<T, float> ? 1e-30 : 1e-150; double v = 0; ul const how = s.draw( 7 );
    if ( how == 0 && lo > -1e29 ) v = lo + s.magnitude( 1e-5, 1e-1 );
    else if ( how == 1 && hi < 1e29 ) v = hi - s.magnitude( 1e-5, 1e-1 );
    else if ( how == 2 && !kinks.empty() ) v = s.pick( kinks ) + ( s.coin() ? 1 : -1 ) * s.magnitude( 1e-5, 1e-1 );
    else { v = how == 3 ? s.magnitude( least, 1e-3 ) : how == 4 ? s.magnitude( 1, std::max( 2., top ) ) : s.magnitude( 1e-3, 12 ); if ( s.coin() ) v = -v; }
    v = static_cast<double>( static_cast<T>( v ) ); if ( !( v > lo && v < hi ) ) v = -v;
    if ( !( v > lo && v < hi ) || std::fabs( v ) > top || std::find( kinks.begin(), kinks.end(), v ) != kinks.end() ) v = static_cast<double>( static_cast<T>( std::max( lo, -3. ) + ( std::min( hi, 3. ) - std::max( lo, -3. ) ) * s.uniform( 0.1, 0.37 ) ) );
    far = far || std::fabs( v ) < 1e-3 || std::fabs( v ) > 12; return v;
}
template<class T, class B> void curve_case( src& s, ctx& c, curve const& f, B const& build )
{
    double const eps = std::numeric_limits<T>::epsilon(), tiny = 64 * static_cast<double>( std::numeric_limits<T>::min() ); nd x{ gen_shape( s, 1, 3, 5, 24 ) }; bool far = false;
    for ( auto& v : x.v ) v = gen_wide<T>( s, f.lo, f.hi, std::is_same_v<T, float> ? f.top_float : f.top_double, f.kinks, far );
    nd up{ x.shape }; for ( auto& u : up.v ) u = static_cast<double>( static_cast<T>( ( s.coin() ? 1 : -1 ) * s.magnitude( 1e-3, 1e3 ) ) );
    c.nontrivial( far ); c.label( f.name ); c.label( std::is_same_v<T, float> ? "float" : "double" ); c.desc << f.name << ( std::is_same_v<T, float> ? " float " : " double " ) << str( x, 24 ) << " upstream " << str( up, 24 ); c.flush_desc();
    var<T> v{ to_tensor<T>( x ) }; nd y, g, d{ x.shape }; build( v, [&]( expr_if const& e ) { y = e.run(); if ( f.d ) g = e.back( up ); } ); if ( f.d ) d = to_nd( v.gradient() );
    c.require( y.shape == x.shape && d.shape == x.shape, "formula:shape", f.name, " of shape ", str( x.shape ), " gives a value of shape ", str( y.shape ), " and a gradient of shape ", str( d.shape ) );
    for ( ul i = 0; i < x.size(); ++i )
    {
        ld const q = x.v[i], want = f.f( q );
        if ( !f.d ) { c.require( y.v[i] == static_cast<double>( want ), "formula:value", f.name, "( ", x.v[i], " ) = ", y.v[i], " instead of ", static_cast<double>( want ) ); continue; }
        ld const slope = f.d( q ), u = std::fabs( up.v[i] );
        c.require( std::fabs( y.v[i] - want ) <= 16 * eps * ( std::fabs( want ) + std::fabs( q * slope ) + f.floor ) + tiny, "formula:value", f.name, "( ", x.v[i], " ) = ", y.v[i], " instead of ", static_cast<double>( want ) );
        c.require( std::fabs( d.v[i] - slope * up.v[i] ) <= 32 * eps * u * ( std::fabs( slope ) + drift( f.d, q ) + f.floor ) + tiny * std::max( 1.0L, u ), "formula:gradient", f.name, " at ", x.v[i], " gives the upstream gradient ", up.v[i], " back as ", d.v[i], " instead of ", static_cast<double>( slope * up.v[i] ) );
    }
    expect_same( c, to_nd( v.data() ), x, "formula:operand", "the operand" ); if ( f.d ) expect_same( c, g, up, "formula:upstream", "the upstream gradient" );
}
}
