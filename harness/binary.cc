// Element-wise binary operators between expressions, constants, values and plain numbers.
#include "../lib/curve.hpp"
using namespace cer;

// ---- shapes ---------------------------------------------------------------------------------------------------------
enum kind { same, suffix, numpy };
static void gen_shapes( src& s, kind k, shape_t& a, shape_t& b, ctx& c )
{
    a = gen_shape_wide( s, 1, 4, 5, 60 ); b = a;
    if ( k == same ) return;
    ul const mode = s.draw( 4 );
    if ( mode == 0 ) { c.label( "equal shapes" ); return; }
    if ( k == suffix || mode == 1 )
    { // b is a trailing part of a, maybe with leading ones
        ul const drop = s.draw( a.size() + 1 );
        b.assign( a.begin() + drop, a.end() );
        ul const lead = s.draw( drop + 1 ); b.insert( b.begin(), lead, 1 );
        if ( b.empty() ) b = { 1 };
        if ( s.coin() ) std::swap( a, b );
        c.label( "suffix broadcast" ); return;
    }
    for ( ul i = 0; i < a.size(); ++i ) { ul t = s.draw( 4 ); if ( t == 0 ) a[i] = 1; if ( t == 1 ) b[i] = 1; }
    ul const drop = s.draw( a.size() );
    if ( s.coin() ) a.erase( a.begin(), a.begin() + drop ); else b.erase( b.begin(), b.begin() + drop );
    c.label( "mutual broadcast" );
}
typedef std::function<double( double, double )> f2;
struct entry { char const* name; kind k; double llo, lhi, rlo, rhi; f2 f; std::function<void( src&, ctx&, nd const&, nd const&, entry const& )> check; bool grad = true; };
static void go( src& s, ctx& c, var<double>& a, var<double>& b, expr_if const& e, entry const& en )
{
    opts o; o.name = en.name; o.gradient = en.grad; auto f = en.f;
    check_erased<double>( s, c, e, { &a, &b }, [f]( std::vector<nd> const& x ) { return bzip( x[0], x[1], f ); }, o );
}
template<class B> static std::function<void( src&, ctx&, nd const&, nd const&, entry const& )> mk( B bld )
{
    return [bld]( src& s, ctx& c, nd const& x, nd const& y, entry const& e )
    {
        var<double> a{ to_tensor<double>( x ) }, b{ to_tensor<double>( y ) };
        auto ex = bld( a, b );
        go( s, c, a, b, erase<double>( ex ), e );
    };
}
#define F( e ) []( double x, double y ) -> double { return e; }
#define B( e ) mk( []( auto const& a, auto const& b ) { return e; } )
static std::vector<entry> const& table()
{
    static std::vector<entry> const t = {
        { "operator+", numpy, -5, 5, -5, 5, F( x + y ), B( a + b ) },
        { "plus", numpy, -5, 5, -5, 5, F( x + y ), B( ceras::plus( a, b ) ) },
        { "operator-", numpy, -5, 5, -5, 5, F( x - y ), B( a - b ) },
        { "minus", numpy, -5, 5, -5, 5, F( x - y ), B( ceras::minus( a, b ) ) },
        { "elementwise_product", suffix, -5, 5, -5, 5, F( x * y ), B( ceras::elementwise_product( a, b ) ) },
        { "elementwise_multiply", suffix, -5, 5, -5, 5, F( x * y ), B( ceras::elementwise_multiply( a, b ) ) },
        { "hadamard_product", suffix, -5, 5, -5, 5, F( x * y ), B( ceras::hadamard_product( a, b ) ) },
        { "divide", suffix, -5, 5, 0.2, 5, F( x / y ), B( ceras::divide( a, b ) ) },
        { "operator/", suffix, -5, 5, -5, -0.2, F( x / y ), B( a / b ) },
        { "maximum", same, -5, 5, -5, 5, F( x > y ? x : y ), B( ceras::maximum( a, b ) ) },
        { "minimum", same, -5, 5, -5, 5, F( x > y ? y : x ), B( ceras::minimum( a, b ) ) },
        { "hypot", same, 0.1, 5, -5, 5, F( std::hypot( x, y ) ), B( ceras::hypot( a, b ) ) },
        { "atan2", same, -5, 5, 0.2, 5, F( std::atan2( x, y ) ), B( ceras::atan2( a, b ) ) },
        { "atan2-left", same, 0.2, 5, -5, 5, F( std::atan2( x, y ) ), B( ceras::atan2( a, b ) ) },
        { "equal", same, -2, 2, -2, 2, F( std::fabs( x - y ) > 0.5 ? 0. : 1. ), B( ceras::equal( a, b, 0.5 ) ) },
        { "equal-threshold", same, -2, 2, -2, 2, F( std::fabs( x - y ) > 1.25 ? 0. : 1. ), B( ceras::equal( a, b, 1.25 ) ) },
    };
    return t;
}
PBT_FAMILY( "binary", 9000, 90000, 150, "an operator and two operand shapes (equal, trailing-part or mutually broadcast); non-trivial when the larger operand has at least 2 elements" )
{
    entry const& e = s.pick( table() );
    shape_t sa, sb; gen_shapes( s, e.k, sa, sb, c );
    nd const x = gen_nd( s, sa, e.llo, e.lhi ), y = gen_nd( s, sb, e.rlo, e.rhi );
    c.label( e.name ); c.desc << e.name; c.nontrivial( x.size() >= 2 || y.size() >= 2 );
    e.check( s, c, x, y, e );
}

// ---- the same expression on both sides --------------------------------------------------------------------------------
template<class B> static void self_case( src& s, ctx& c, char const* name, nd const& x, std::function<double( double )> f, B bld )
{
    var<double> a{ to_tensor<double>( x ) }; auto ex = bld( a );
    opts o; o.name = name; check_erased<double>( s, c, erase<double>( ex ), { &a }, [f]( std::vector<nd> const& v ) { return map( v[0], f ); }, o );
}
PBT_FAMILY( "binary-shared-operand", 1500, 15000, 100, "an operator applied to one variable twice, or to a shared sub-expression; non-trivial when it has at least 2 elements" )
{
    nd const x = gen_nd( s, gen_shape( s, 1, 3, 4, 24 ), 0.3, 3 ); c.nontrivial( x.size() >= 2 );
    ul const k = s.draw( 7 ); c.label( "form " + std::to_string( k ) );
    switch ( k )
    {
        case 0: return self_case( s, c, "x+x", x, []( double v ) { return 2 * v; }, []( auto const& a ) { return a + a; } );
        case 1: return self_case( s, c, "x-x*2", x, []( double v ) { return v - v * 2; }, []( auto const& a ) { return a - a * 2.0; } );
        case 2: return self_case( s, c, "x.x", x, []( double v ) { return v * v; }, []( auto const& a ) { return ceras::elementwise_product( a, a ); } );
        case 3: return self_case( s, c, "square(x)/x", x, []( double v ) { return v; }, []( auto const& a ) { return ceras::square( a ) / a; } );
        case 4: return self_case( s, c, "y.y with y=square(x)", x, []( double v ) { return v * v * v * v; }, []( auto const& a ) { auto y = ceras::square( a ); return ceras::elementwise_product( y, y ); } );
        case 5: return self_case( s, c, "hypot(x,y) with y=exp(x)", x, []( double v ) { return std::hypot( v, std::exp( v ) ); }, []( auto const& a ) { auto y = ceras::exp( a ); return ceras::hypot( a, y ); } );
        default: return self_case( s, c, "y+x.y with y=x+1", x, []( double v ) { return ( v + 1 ) + v * ( v + 1 ); }, []( auto const& a ) { auto y = a + 1.0; return y + ceras::elementwise_product( a, y ); } );
    }
}

// ---- plain numbers, values, constants ---------------------------------------------------------------------------------
template<class A> static void scalar_case( src& s, ctx& c, ul form, nd const& x, A k, std::string const& type )
{
    double const d = static_cast<double>( k );
    auto const run = [&]( char const* name, std::function<double( double )> f, auto bld )
    {
        c.label( std::string( name ) ); c.desc << name << " k=" << d << " (" << type << ")";
        self_case( s, c, name, x, f, [&]( auto const& a ) { return bld( a, k ); } );
    };
    switch ( form )
    {
        case 0: return run( "x+k", [d]( double v ) { return v + d; }, []( auto const& a, auto k ) { return a + k; } );
        case 1: return run( "k+x", [d]( double v ) { return d + v; }, []( auto const& a, auto k ) { return k + a; } );
        case 2: return run( "x-k", [d]( double v ) { return v - d; }, []( auto const& a, auto k ) { return a - k; } );
        case 3: return run( "k-x", [d]( double v ) { return d - v; }, []( auto const& a, auto k ) { return k - a; } );
        case 4: return run( "x*k", [d]( double v ) { return v * d; }, []( auto const& a, auto k ) { return a * k; } );
        case 5: return run( "k*x", [d]( double v ) { return d * v; }, []( auto const& a, auto k ) { return k * a; } );
        case 6: return run( "x/k", [d]( double v ) { return v / d; }, []( auto const& a, auto k ) { return a / k; } );
        default: return run( "k/x", [d]( double v ) { return d / v; }, []( auto const& a, auto k ) { return k / a; } );
    }
}
PBT_FAMILY( "number-operand", 3200, 32000, 100, "+ - * / between an expression and an int, float or double on either side; non-trivial when the tensor has at least 2 elements" )
{
    nd const x = gen_nd( s, gen_shape_wide( s, 1, 4, 4, 40 ), 0.3, 4 ); c.nontrivial( x.size() >= 2 );
    ul const form = s.draw( 8 ), type = s.draw( 3 );
    double v = s.uniform( 0.3, 3.7 ); if ( s.coin() ) v = -v;
    if ( type == 0 ) scalar_case( s, c, form, x, v, "double" );
    else if ( type == 1 ) scalar_case( s, c, form, x, static_cast<float>( std::round( v * 64 ) / 64 ), "float" );
    else scalar_case( s, c, form, x, static_cast<int>( v < 0 ? std::floor( v ) : std::ceil( v ) ), "int" );
}
PBT_FAMILY( "value-operand", 1600, 16000, 100, "+ - * / between an expression and a value<> on either side; non-trivial when the tensor has at least 2 elements" )
{
    nd const x = gen_nd( s, gen_shape_wide( s, 1, 4, 4, 40 ), 0.3, 4 ); c.nontrivial( x.size() >= 2 );
    double d = s.uniform( 0.3, 3.7 ); if ( s.coin() ) d = -d;
    ceras::value<double> k{ d };
    auto const run = [&]( char const* name, std::function<double( double )> f, auto bld ) { c.label( name ); c.desc << name << " k=" << d; self_case( s, c, name, x, f, [&]( auto const& a ) { return bld( a, k ); } ); };
    switch ( s.draw( 7 ) )
    {
        case 0: return run( "x+value", [d]( double v ) { return v + d; }, []( auto const& a, auto const& k ) { return a + k; } );
        case 1: return run( "value+x", [d]( double v ) { return v + d; }, []( auto const& a, auto const& k ) { return k + a; } );
        case 2: return run( "x-value", [d]( double v ) { return v - d; }, []( auto const& a, auto const& k ) { return a - k; } );
        case 3: return run( "value-x", [d]( double v ) { return d - v; }, []( auto const& a, auto const& k ) { return k - a; } );
        case 4: return run( "x*value", [d]( double v ) { return v * d; }, []( auto const& a, auto const& k ) { return a * k; } );
        case 5: return run( "value*x", [d]( double v ) { return v * d; }, []( auto const& a, auto const& k ) { return k * a; } );
        default: return run( "value/x", [d]( double v ) { return d / v; }, []( auto const& a, auto const& k ) { return k / a; } );
    }
}
PBT_FAMILY( "constant-operand", 1600, 16000, 100, "+ - / and element-wise product between a variable and a constant of a broadcastable shape; non-trivial when the result has at least 2 elements" )
{
    shape_t sa, sb; gen_shapes( s, suffix, sa, sb, c );
    nd const x = gen_nd( s, sa, 0.3, 4 ), y = gen_nd( s, sb, 0.3, 4 ); c.nontrivial( x.size() >= 2 || y.size() >= 2 );
    ceras::constant<ceras::tensor<double>> k{ to_tensor<double>( y ) };
    c.desc << " constant=" << str( y, 12 );
    var<double> a{ to_tensor<double>( x ) };
    auto const run = [&]( char const* name, f2 f, auto bld )
    {
        c.label( name ); c.desc << name; auto ex = bld( a, k ); opts o; o.name = name;
        check_erased<double>( s, c, erase<double>( ex ), { &a }, [&]( std::vector<nd> const& v ) { return bzip( v[0], y, f ); }, o );
        expect_same( c, to_nd( k.data() ), y, "constant", "a constant must never change" );
    };
    switch ( s.draw( 6 ) )
    {
        case 0: return run( "x+constant", F( x + y ), []( auto const& a, auto const& k ) { return a + k; } );
        case 1: return run( "constant+x", F( x + y ), []( auto const& a, auto const& k ) { return k + a; } );
        case 2: return run( "x-constant", F( x - y ), []( auto const& a, auto const& k ) { return a - k; } );
        case 3: return run( "constant-x", F( y - x ), []( auto const& a, auto const& k ) { return k - a; } );
        case 4: return run( "x.constant", F( x * y ), []( auto const& a, auto const& k ) { return ceras::elementwise_product( a, k ); } );
        default: return run( "constant/x", F( y / x ), []( auto const& a, auto const& k ) { return k / a; } );
    }
}

// ---- clip / pow / assign ----------------------------------------------------------------------------------------------
PBT_FAMILY( "clip", 1200, 12000, 100, "clip( lower, upper ) of a tensor with values on both sides of and inside the bounds; non-trivial when something is clipped" )
{
    nd const x = gen_nd( s, gen_shape_wide( s, 1, 3, 5, 40 ), -5, 5 );
    double lo = s.uniform( -4, 1 ), hi = lo + s.uniform( 0.1, 4 ); bool const one = s.chance( 1, 4 );
    if ( one ) hi = std::numeric_limits<double>::max();
    for ( double v : x.v ) c.nontrivial( v < lo || v > hi );
    c.desc << "clip(" << lo << "," << hi << ")";
    self_case( s, c, "clip", x, [=]( double v ) { return std::min( hi, std::max( lo, v ) ); }, [&]( auto const& a ) { return one ? ceras::clip( lo )( a ) : ceras::clip( lo, hi )( a ); } );
}
#ifndef NO_POW
PBT_FAMILY( "pow", 1200, 12000, 100, "pow( x, exponent ); non-trivial when it has at least 2 elements" )
{
    nd const x = gen_nd( s, gen_shape_wide( s, 1, 3, 5, 40 ), 0.2, 3 ); c.nontrivial( x.size() >= 2 );
    double const e = s.real( -3, 3 ); c.desc << "pow " << e;
    self_case( s, c, "pow", x, [=]( double v ) { return std::pow( v, e ); }, [&]( auto const& a ) { return ceras::pow( a, e ); } );
}
#endif

// ---- values and derivatives by formula, over all magnitudes --------------------------------------------------------------
typedef std::function<ld( ld, ld )> l2;
struct surface { char const* name; double least, most; bool left_any, right_any; l2 f, dx, dy; std::function<void( var<double>&, var<double>&, use_t const& )> mk_d; std::function<void( var<float>&, var<float>&, use_t const& )> mk_f; bool apart = false; };
#define SURFACE( e ) []( var<double>& a, var<double>& b, use_t const& use ) { auto ex = e; use( erase<double>( ex ) ); }, []( var<float>& a, var<float>& b, use_t const& use ) { auto ex = e; use( erase<float>( ex ) ); }
#define L2( e ) []( ld x, ld y ) -> ld { (void)x; (void)y; return e; }
static std::vector<surface> const& surfaces()
{
    static std::vector<surface> const t = {
        { "plus", 1e-30, 1e30, true, true, L2( x + y ), L2( 1 ), L2( 1 ), SURFACE( ceras::plus( a, b ) ) },
        { "minus", 1e-30, 1e30, true, true, L2( x - y ), L2( 1 ), L2( -1 ), SURFACE( ceras::minus( a, b ) ) },
        { "elementwise_product", 1e-15, 1e15, true, true, L2( x * y ), L2( y ), L2( x ), SURFACE( ceras::elementwise_product( a, b ) ) },
        { "divide", 1e-7, 1e7, true, true, L2( x / y ), L2( 1 / y ), L2( -x / ( y * y ) ), SURFACE( ceras::divide( a, b ) ) },
        { "maximum", 1e-30, 1e30, true, true, L2( std::max( x, y ) ), L2( x > y ), L2( y > x ), SURFACE( ceras::maximum( a, b ) ), true },
        { "minimum", 1e-30, 1e30, true, true, L2( std::min( x, y ) ), L2( x < y ), L2( y < x ), SURFACE( ceras::minimum( a, b ) ), true },
        { "hypot", 1e-13, 1e13, true, true, L2( std::hypot( x, y ) ), L2( x / std::hypot( x, y ) ), L2( y / std::hypot( x, y ) ), SURFACE( ceras::hypot( a, b ) ) },
        { "atan2", 1e-13, 1e13, true, true, L2( std::atan2( x, y ) ), L2( y / ( x * x + y * y ) ), L2( -x / ( x * x + y * y ) ), SURFACE( ceras::atan2( a, b ) ) },
    };
    return t;
}
template<class T, class B> static void surface_case( src& s, ctx& c, surface const& f, B const& build )
{
    double const eps = std::numeric_limits<T>::epsilon(), tiny = 64 * static_cast<double>( std::numeric_limits<T>::min() ); shape_t const sh = gen_shape( s, 1, 3, 5, 24 ); nd x{ sh }, y{ sh }, up{ sh }; bool far = false;
    auto const one = [&] { double const v = ( s.coin() ? 1 : -1 ) * ( s.coin() ? s.magnitude( 0.1, 10 ) : s.magnitude( f.least, f.most ) ); far = far || std::fabs( v ) < 1e-3 || std::fabs( v ) > 1e3; return static_cast<double>( static_cast<T>( v ) ); };
    for ( auto& v : x.v ) v = one(); for ( auto& v : y.v ) v = one(); for ( auto& u : up.v ) u = static_cast<double>( static_cast<T>( ( s.coin() ? 1 : -1 ) * s.magnitude( 1e-3, 1e3 ) ) );
    if ( s.coin() ) for ( ul i = 0; i < x.size(); ++i ) if ( s.coin() ) { y.v[i] = static_cast<double>( static_cast<T>( x.v[i] * ( 1 + ( s.coin() ? 1 : -1 ) * s.magnitude( 1e-5, 1e-2 ) ) ) ); if ( s.coin() ) y.v[i] = -y.v[i]; c.label( "nearly equal operands" ); }
    if ( f.apart ) for ( ul i = 0; i < x.size(); ++i ) if ( x.v[i] == y.v[i] ) y.v[i] = -y.v[i];
    c.nontrivial( far ); c.label( f.name ); c.label( std::is_same_v<T, float> ? "float" : "double" ); c.desc << f.name << ( std::is_same_v<T, float> ? " float " : " double " ) << str( x, 24 ) << " and " << str( y, 24 ) << " upstream " << str( up, 24 ); c.flush_desc();
    var<T> a{ to_tensor<T>( x ) }, b{ to_tensor<T>( y ) }; nd z, g; build( a, b, [&]( expr_if const& e ) { z = e.run(); g = e.back( up ); } ); nd const da = to_nd( a.gradient() ), db = to_nd( b.gradient() );
    c.require( z.shape == sh && da.shape == sh && db.shape == sh, "formula:shape", f.name, " of shape ", str( sh ), " gives a value of shape ", str( z.shape ), " and gradients of shapes ", str( da.shape ), " and ", str( db.shape ) );
    for ( ul i = 0; i < x.size(); ++i )
    {
        ld const p = x.v[i], q = y.v[i], u = std::fabs( up.v[i] ), want = f.f( p, q ), wx = f.dx( p, q ), wy = f.dy( p, q );
        c.require( std::fabs( z.v[i] - want ) <= 16 * eps * ( std::fabs( want ) + std::fabs( p * wx ) + std::fabs( q * wy ) ) + tiny, "formula:value", f.name, "( ", x.v[i], ", ", y.v[i], " ) = ", z.v[i], " instead of ", static_cast<double>( want ) );
        auto const slope = [&]( char const* side, double got, l2 const& d ) { ld const w = d( p, q ), loose = f.apart ? 0 : drift( [&]( ld t ) { return d( t, q ); }, p ) + drift( [&]( ld t ) { return d( p, t ); }, q ); c.require( std::fabs( got - w * up.v[i] ) <= 32 * eps * u * ( std::fabs( w ) + loose ) + tiny * std::max( 1.0L, u ), "formula:gradient", f.name, " at ( ", x.v[i], ", ", y.v[i], " ) gives its ", side, " operand ", got, " for the upstream gradient ", up.v[i], " instead of ", static_cast<double>( w * up.v[i] ) ); };
        slope( "left", da.v[i], f.dx ); slope( "right", db.v[i], f.dy );
    }
    expect_same( c, to_nd( a.data() ), x, "formula:operand", "the left operand" ); expect_same( c, to_nd( b.data() ), y, "formula:operand", "the right operand" ); expect_same( c, g, up, "formula:upstream", "the upstream gradient" );
}
PBT_FAMILY( "binary-formulas", 4000, 60000, 100, "8 operators on pairs of float or double tensors of one shape, values from 1e-30 to 1e30 in magnitude and nearly equal or opposite ones, upstream gradients of 0.001 to 1000: value and both gradients of every element against the formula in long double, up to rounding; non-trivial with an element below 0.001 or above 1000 in magnitude" )
{
    surface const& f = s.pick( surfaces() ); if ( s.coin() ) surface_case<double>( s, c, f, f.mk_d ); else surface_case<float>( s, c, f, f.mk_f );
}
template<class T> static void pow_case( src& s, ctx& c )
{
    static std::vector<double> const es = { -3, -2, -1, -0.5, 0, 0.5, 1, 1.5, 2, 3, 4, 5, 0.25 }; double const e = s.pick( es ); bool const whole = e == std::floor( e ); bool far = false; double const eps = std::numeric_limits<T>::epsilon();
    nd x{ gen_shape( s, 1, 3, 5, 24 ) }, up{ x.shape }; for ( auto& v : x.v ) v = std::fabs( gen_wide<T>( s, -1e30, 1e30, 1e5, {}, far ) ); for ( auto& v : x.v ) { if ( v < 1e-5 ) v = static_cast<double>( static_cast<T>( 1e-5 ) ); if ( whole && s.coin() ) v = -v; }
    for ( auto& u : up.v ) u = static_cast<double>( static_cast<T>( ( s.coin() ? 1 : -1 ) * s.magnitude( 1e-3, 1e3 ) ) );
    c.nontrivial( far ); c.label( std::is_same_v<T, float> ? "float" : "double" ); c.desc << "pow( x, " << e << " ) " << str( x, 24 ) << " upstream " << str( up, 24 ); c.flush_desc();
    var<T> a{ to_tensor<T>( x ) }; auto ex = ceras::pow( a, static_cast<T>( e ) ); expr_if const& r = erase<T>( ex ); nd const y = r.run(); r.back( up ); nd const d = to_nd( a.gradient() );
    for ( ul i = 0; i < x.size(); ++i )
    {
        ld const want = std::pow( static_cast<ld>( x.v[i] ), static_cast<ld>( e ) ), slope = e == 0 ? 0 : e * std::pow( static_cast<ld>( x.v[i] ), static_cast<ld>( e ) - 1 );
        c.require( std::fabs( y.v[i] - want ) <= 32 * eps * ( 1 + std::fabs( e ) ) * std::fabs( want ), "pow:value", x.v[i], " to the power ", e, " is ", y.v[i], " instead of ", static_cast<double>( want ) );
        c.require( std::fabs( d.v[i] - slope * up.v[i] ) <= 64 * eps * ( 2 + std::fabs( e ) ) * std::fabs( slope * up.v[i] ), "pow:gradient", "the derivative of x to the power ", e, " at ", x.v[i], " times ", up.v[i], " is ", d.v[i], " instead of ", static_cast<double>( slope * up.v[i] ) );
    }
}
PBT_FAMILY( "pow-formulas", 1200, 12000, 100, "pow( x, e ) for whole and fractional exponents from -3 to 5 of float and double tensors from 1e-5 to 1e5 in magnitude, negative ones for whole exponents: value and derivative by formula; non-trivial with an element below 0.001 or above 12" ) { if ( s.coin() ) pow_case<float>( s, c ); else pow_case<double>( s, c ); }
CER_MAIN()
