// Activation functions: value = the published function, gradient = its derivative (softmax: along the last dimension).
#include "../lib/cer.hpp"
using namespace cer;

struct entry { char const* name; double lo, hi; ref_t f; std::function<void( src&, ctx&, nd const&, entry const& )> check; };
template<class B> static std::function<void( src&, ctx&, nd const&, entry const& )> mk( B b )
{
    return [b]( src& s, ctx& c, nd const& x, entry const& e )
    {
        var<double> v{ to_tensor<double>( x ) };
        auto ex = b( v );
        opts o; o.name = e.name; o.kinks = o.name != "crelu";
        check_erased<double>( s, c, erase<double>( ex ), { &v }, e.f, o );
    };
}
static ref_t ew( std::function<double( double )> f ) { return [f]( std::vector<nd> const& a ) { return map( a[0], f ); }; }
static double sigm( double x ) { return 1 / ( 1 + std::exp( -x ) ); }
static nd softmax_ref( nd const& x )
{
    nd r = x; ul const n = x.shape.back();
    for ( ul i = 0; i < x.size() / n; ++i )
    {
        double m = -1e300; for ( ul j = 0; j < n; ++j ) m = std::max( m, x.v[i * n + j] );
        double t = 0; for ( ul j = 0; j < n; ++j ) t += std::exp( x.v[i * n + j] - m );
        for ( ul j = 0; j < n; ++j ) r.v[i * n + j] = std::exp( x.v[i * n + j] - m ) / t;
    }
    return r;
}
static nd crelu_ref( nd const& x )
{
    shape_t sh = x.shape; ul const n = sh.back(); sh.back() = 2 * n; nd r{ sh };
    for ( ul i = 0; i < x.size() / n; ++i ) for ( ul j = 0; j < n; ++j ) { double v = x.v[i * n + j]; r.v[i * 2 * n + j] = v > 0 ? v : 0; r.v[i * 2 * n + n + j] = v < 0 ? -v : 0; }
    return r;
}
#define OP( e ) mk( []( auto const& a ) { return e; } )
#define F( e ) ew( []( double x ) -> double { return e; } )
static std::vector<entry> const& table()
{
    double const k = std::sqrt( 2 / M_PI ); (void)k;
    static std::vector<entry> const t = {
        { "relu", -5, 5, F( x > 0 ? x : 0 ), OP( ceras::relu( a ) ) },
        { "negative_relu", -5, 5, F( x > 0 ? -x : 0 ), OP( ceras::negative_relu( a ) ) },
        { "relu6", -4, 10, F( x < 0 ? 0 : x > 6 ? 6 : x ), OP( ceras::relu6( a ) ) },
        { "leaky_relu(0.2)", -5, 5, F( x > 0 ? x : 0.2 * x ), OP( ceras::leaky_relu( 0.2 )( a ) ) },
        { "leaky_relu(0.7)", -5, 5, F( x > 0 ? x : 0.7 * x ), OP( ceras::leaky_relu( 0.7 )( a ) ) },
        { "prelu(0.3)", -5, 5, F( x > 0 ? x : 0.3 * x ), OP( ceras::prelu( 0.3 )( a ) ) },
        { "elu(1)", -4, 4, F( x > 0 ? x : std::expm1( x ) ), OP( ceras::elu( 1.0 )( a ) ) },
        { "elu(1.7)", -4, 4, F( x > 0 ? x : 1.7 * std::expm1( x ) ), OP( ceras::elu( 1.7 )( a ) ) },
        { "elu()", -4, 4, F( x > 0 ? x : std::expm1( x ) ), OP( ceras::elu()( a ) ) },
        { "selu", -4, 4, F( x >= 0 ? 1.0507 * x : 1.0507 * 1.67326 * std::expm1( x ) ), OP( ceras::selu( a ) ) },
        { "softplus", -20, 20, F( std::log1p( std::exp( x ) ) ), OP( ceras::softplus( a ) ) },
        { "softsign", -6, 6, F( x / ( 1 + std::fabs( x ) ) ), OP( ceras::softsign( a ) ) },
        { "sigmoid", -12, 12, F( sigm( x ) ), OP( ceras::sigmoid( a ) ) },
        { "exponential", -5, 5, F( std::exp( x ) ), OP( ceras::exponential( a ) ) },
        { "hard_sigmoid", -3, 3, F( x > 1 ? 1 : x < -1 ? 0 : ( x + 1 ) / 2 ), OP( ceras::hard_sigmoid( a ) ) },
        { "gelu", -5, 5, F( 0.5 * x * ( 1 + std::tanh( 0.79788456080286535588 * ( x + 0.044715 * x * x * x ) ) ) ), OP( ceras::gelu( a ) ) },
        { "gaussian", -3, 3, F( std::exp( -x * x ) ), OP( ceras::gaussian( a ) ) },
        { "swish", -6, 6, F( x * sigm( x ) ), OP( ceras::swish( a ) ) },
        { "silu", -6, 6, F( x * sigm( x ) ), OP( ceras::silu( a ) ) },
        { "tank_shrink", -4, 4, F( x - std::tanh( x ) ), OP( ceras::tank_shrink( a ) ) },
        { "mish", -6, 6, F( x * std::tanh( std::log1p( std::exp( x ) ) ) ), OP( ceras::mish( a ) ) },
        { "lisht", -4, 4, F( x * std::tanh( x ) ), OP( ceras::lisht( a ) ) },
        { "heaviside_step(1.5)", -2, 2, F( sigm( 3 * x ) ), OP( ceras::heaviside_step( 1.5 )( a ) ) },
        { "soft_sign", -0.4, 0.4, F( sigm( 40 * x ) ), OP( ceras::soft_sign( a ) ) },
        { "unit_step", -0.4, 0.4, F( sigm( 40 * x ) ), OP( ceras::unit_step( a ) ) },
        { "binary_step", -0.4, 0.4, F( sigm( 40 * x ) ), OP( ceras::binary_step( a ) ) },
        { "softmax", -6, 6, []( std::vector<nd> const& a ) { return softmax_ref( a[0] ); }, OP( ceras::softmax( a ) ) },
        { "softmax-wide", -300, 300, []( std::vector<nd> const& a ) { return softmax_ref( a[0] ); }, OP( ceras::softmax( a ) ) },
        { "crelu", -5, 5, []( std::vector<nd> const& a ) { return crelu_ref( a[0] ); }, OP( ceras::crelu( a ) ) },
    };
    return t;
}
PBT_FAMILY( "activation", 9000, 90000, 150, "an activation and a tensor of 1-4 dimensions with values on both sides of its breakpoints; non-trivial when it has at least 2 elements" )
{
    entry const& e = s.pick( table() );
    nd x = gen_nd( s, gen_shape_wide( s, 1, 4, 6, 60 ), e.lo, e.hi );
    if ( std::string{ "crelu" } == e.name ) for ( auto& v : x.v ) if ( std::fabs( v ) < 1e-3 ) v = 0.5; // the kinks of its two halves may cancel out
    c.label( e.name ); c.desc << e.name; c.nontrivial( x.size() >= 2 );
    e.check( s, c, x, e );
}
PBT_FAMILY( "softmax-distribution", 1500, 15000, 150, "softmax of rows of any magnitude: every row is non-negative, sums to one, keeps the order of its inputs and does not change when a constant is added; non-trivial when a row has at least 2 entries" )
{
    shape_t const sh = gen_shape_wide( s, 1, 3, 8, 60 ); double const m = s.magnitude( 1e-3, 2e3 ), far = s.chance( 1, 3 ) ? s.magnitude( 1, 1e5 ) * ( s.coin() ? 1 : -1 ) : 0; // whole rows far from zero, too
    nd x = map( gen_generic( s, sh, -m, m ), [far]( double a ) { return a + far; } ); ul const n = sh.back(); c.nontrivial( n >= 2 ); c.desc << str( x, 16 );
    var<double> v{ to_tensor<double>( x ) }; auto ex = ceras::softmax( v ); nd const y = run<double>( ex );
    for ( ul i = 0; i < x.size() / n; ++i )
    {
        double t = 0;
        for ( ul j = 0; j < n; ++j )
        {
            double const p = y[i * n + j]; c.require( p >= 0 && p <= 1 + 1e-12, "softmax:range", "probability ", p ); t += p;
            for ( ul k = 0; k < n; ++k ) c.require( !( x[i * n + j] < x[i * n + k] ) || p <= y[i * n + k], "softmax:order", "order not preserved in row ", i );
        }
        c.require( std::fabs( t - 1 ) < 1e-9, "softmax:sum", "row ", i, " sums to ", t );
    }
    double const d = s.uniform( -5, 5 ); nd x2 = map( x, [d]( double a ) { return a + d; } );
    var<double> v2{ to_tensor<double>( x2 ) }; auto ex2 = ceras::softmax( v2 ); expect_close( c, run<double>( ex2 ), y, 1e-8, 1e-12, "softmax:shift", "softmax( x + constant )" );
}
PBT_FAMILY( "activation-range", 2000, 20000, 200, "saturating activations over inputs up to +-700: values stay in range and finite, non-decreasing in the input; non-trivial when a magnitude above 20 occurs" )
{
    ul const n = 2 + s.draw( 8 ); nd x{ { n } }; for ( auto& v : x.v ) { v = s.magnitude( 1e-3, 600 ); if ( s.coin() ) v = -v; if ( std::fabs( v ) > 20 ) c.nontrivial(); }
    std::sort( x.v.begin(), x.v.end() ); c.desc << str( x, 16 );
    var<double> v{ to_tensor<double>( x ) };
    auto const mono = [&]( char const* name, nd const& y, double lo, double hi )
    {
        c.label( name );
        for ( ul i = 0; i < n; ++i ) c.require( std::isfinite( y[i] ) && y[i] >= lo - 1e-12 && y[i] <= hi + 1e-12, "range", name, "( ", x[i], " ) = ", y[i] );
        for ( ul i = 1; i < n; ++i ) c.require( y[i - 1] <= y[i], "monotone", name, " is not monotone between ", x[i - 1], " and ", x[i] );
    };
    switch ( s.draw( 7 ) )
    {
        case 0: { auto e = ceras::sigmoid( v ); mono( "sigmoid", run<double>( e ), 0, 1 ); break; }
        case 1: { auto e = ceras::softsign( v ); mono( "softsign", run<double>( e ), -1, 1 ); break; }
        case 2: { auto e = ceras::hard_sigmoid( v ); mono( "hard_sigmoid", run<double>( e ), 0, 1 ); break; }
        case 3: { auto e = ceras::relu6( v ); mono( "relu6", run<double>( e ), 0, 6 ); break; }
        case 4: { auto e = ceras::relu( v ); mono( "relu", run<double>( e ), 0, 1e300 ); break; }
        case 5: { auto e = ceras::tanh( v ); mono( "tanh", run<double>( e ), -1, 1 ); break; }
        default: { auto e = ceras::softplus( v ); mono( "softplus", run<double>( e ), 0, 1e300 ); break; }
    }
}

// ---- values and derivatives by formula, over all magnitudes --------------------------------------------------------------
typedef long double ld; typedef std::function<void( expr_if const& )> use_t;
struct formula { char const* name; double top; bool linear; std::vector<double> kinks; std::function<ld( ld )> f, d; std::function<void( var<double>&, use_t const& )> mk_d; std::function<void( var<float>&, use_t const& )> mk_f; };
static ld sg( ld x ) { return 1 / ( 1 + std::exp( -x ) ); } static ld sp( ld x ) { return std::max( x, 0.0L ) + std::log1p( std::exp( -std::fabs( x ) ) ); } static ld sech2( ld x ) { ld const t = std::cosh( std::min( std::fabs( x ), 2000.0L ) ); return 1 / ( t * t ); }
#define BOTH( e ) []( var<double>& a, use_t const& use ) { typedef double T; (void)sizeof( T ); auto ex = e; use( erase<double>( ex ) ); }, []( var<float>& a, use_t const& use ) { typedef float T; (void)sizeof( T ); auto ex = e; use( erase<float>( ex ) ); }
#define L( e ) []( ld x ) -> ld { return e; }
static std::vector<formula> const& formulas()
{
    static std::vector<formula> const t = {
        { "relu", 1e30, true, { 0 }, L( x > 0 ? x : 0 ), L( x > 0 ), BOTH( ceras::relu( a ) ) },
        { "negative_relu", 1e30, true, { 0 }, L( x > 0 ? -x : 0 ), L( x > 0 ? -1 : 0 ), BOTH( ceras::negative_relu( a ) ) },
        { "relu6", 1e30, true, { 0, 6 }, L( x < 0 ? 0 : x > 6 ? 6 : x ), L( x > 0 && x < 6 ), BOTH( ceras::relu6( a ) ) },
        { "leaky_relu(1/4)", 1e30, true, { 0 }, L( x > 0 ? x : x / 4 ), L( x > 0 ? 1 : 0.25L ), BOTH( ceras::leaky_relu( T{ 0.25 } )( a ) ) },
        { "prelu(3/4)", 1e30, true, { 0 }, L( x > 0 ? x : x * 3 / 4 ), L( x > 0 ? 1 : 0.75L ), BOTH( ceras::prelu( T{ 0.75 } )( a ) ) },
        { "hard_sigmoid", 1e30, false, { -1, 1 }, L( x > 1 ? 1 : x < -1 ? 0 : ( x + 1 ) / 2 ), L( x > -1 && x < 1 ? 0.5L : 0 ), BOTH( ceras::hard_sigmoid( a ) ) },
        { "elu(1)", 1e30, false, { 0 }, L( x > 0 ? x : std::expm1( x ) ), L( x > 0 ? 1 : std::exp( x ) ), BOTH( ceras::elu( T{ 1 } )( a ) ) },
        { "elu(3)", 1e30, false, { 0 }, L( x > 0 ? x : 3 * std::expm1( x ) ), L( x > 0 ? 1 : 3 * std::exp( x ) ), BOTH( ceras::elu( T{ 3 } )( a ) ) },
        { "elu(1/2)", 1e30, false, { 0 }, L( x > 0 ? x : std::expm1( x ) / 2 ), L( x > 0 ? 1 : std::exp( x ) / 2 ), BOTH( ceras::elu( T{ 0.5 } )( a ) ) },
        { "selu", 1e30, false, { 0 }, L( x >= 0 ? 1.0507L * x : 1.0507L * 1.67326L * std::expm1( x ) ), L( x >= 0 ? 1.0507L : 1.0507L * 1.67326L * std::exp( x ) ), BOTH( ceras::selu( a ) ) },
        { "softplus", 1e30, false, {}, sp, sg, BOTH( ceras::softplus( a ) ) },
        { "softsign", 1e15, false, {}, L( x / ( 1 + std::fabs( x ) ) ), L( 1 / ( ( 1 + std::fabs( x ) ) * ( 1 + std::fabs( x ) ) ) ), BOTH( ceras::softsign( a ) ) },
        { "sigmoid", 1e30, false, {}, sg, L( sg( x ) * sg( -x ) ), BOTH( ceras::sigmoid( a ) ) },
        { "gelu", 1e6, false, {}, L( 0.5L * x * ( 1 + std::tanh( 0.79788456080286535588L * ( x + 0.044715L * x * x * x ) ) ) ), L( 0.5L * ( 1 + std::tanh( 0.79788456080286535588L * ( x + 0.044715L * x * x * x ) ) ) + 0.5L * x * sech2( 0.79788456080286535588L * ( x + 0.044715L * x * x * x ) ) * 0.79788456080286535588L * ( 1 + 3 * 0.044715L * x * x ) ), BOTH( ceras::gelu( a ) ) },
        { "gaussian", 1e15, false, {}, L( std::exp( -x * x ) ), L( -2 * x * std::exp( -x * x ) ), BOTH( ceras::gaussian( a ) ) },
        { "swish", 1e30, false, {}, L( x * sg( x ) ), L( sg( x ) + x * sg( x ) * sg( -x ) ), BOTH( ceras::swish( a ) ) },
        { "mish", 1e30, false, {}, L( x * std::tanh( sp( x ) ) ), L( std::tanh( sp( x ) ) + x * sech2( sp( x ) ) * sg( x ) ), BOTH( ceras::mish( a ) ) },
        { "lisht", 1e30, false, {}, L( x * std::tanh( x ) ), L( std::tanh( x ) + x * sech2( x ) ), BOTH( ceras::lisht( a ) ) },
        { "tank_shrink", 1e30, false, {}, L( x - std::tanh( x ) ), L( 1 - sech2( x ) ), BOTH( ceras::tank_shrink( a ) ) },
        { "heaviside_step(3/2)", 1e30, false, {}, L( sg( 3 * x ) ), L( 3 * sg( 3 * x ) * sg( -3 * x ) ), BOTH( ceras::heaviside_step( T{ 1.5 } )( a ) ) },
    };
    return t;
}
template<class T, class B> static void formula_case( src& s, ctx& c, formula const& f, B const& build )
{
    double const eps = std::numeric_limits<T>::epsilon(), least = std::is_same_v<T, float> ? 1e-30 : 1e-150; nd x{ gen_shape( s, 1, 3, 5, 24 ) }; bool far = false;
    for ( auto& v : x.v ) { ul const how = s.draw( 6 ); if ( how == 0 && !f.kinks.empty() ) v = s.pick( f.kinks ) + ( s.coin() ? 1 : -1 ) * s.magnitude( 1e-5, 1e-1 ); else if ( how == 1 ) v = s.magnitude( least, 1e-3 ); else if ( how == 2 ) v = s.magnitude( 8, std::min( f.top, std::is_same_v<T, float> ? 1e15 : 1e30 ) ); else if ( how == 3 ) v = s.magnitude( 8, 900 ); else v = s.magnitude( 1e-3, 12 ); if ( how && s.coin() ) v = -v; v = static_cast<double>( static_cast<T>( v ) ); if ( std::find( f.kinks.begin(), f.kinks.end(), v ) != f.kinks.end() ) v = static_cast<T>( 0.37 ); far = far || std::fabs( v ) < 1e-3 || std::fabs( v ) > 12; }
    nd up{ x.shape }; for ( auto& u : up.v ) u = static_cast<double>( static_cast<T>( ( s.coin() ? 1 : -1 ) * s.magnitude( 1e-3, 1e3 ) ) ); c.nontrivial( far ); c.label( f.name ); c.label( std::is_same_v<T, float> ? "float" : "double" ); c.desc << f.name << ( std::is_same_v<T, float> ? " float " : " double " ) << str( x, 24 ) << " upstream " << str( up, 24 ); c.flush_desc();
    var<T> v{ to_tensor<T>( x ) }; nd y, g; build( v, [&]( expr_if const& e ) { y = e.run(); g = e.back( up ); } ); nd const d = to_nd( v.gradient() );
    for ( ul i = 0; i < x.size(); ++i )
    {
        ld const q = x.v[i], want = f.f( q ), slope = f.d( q ) * up.v[i], scale = std::max( 1.0L, std::fabs( q ) );
        c.require( std::fabs( y.v[i] - want ) <= 16 * eps * ( f.linear ? std::fabs( want ) : std::fabs( want ) + scale ), "formula:value", f.name, "( ", x.v[i], " ) = ", y.v[i], " instead of ", static_cast<double>( want ) );
        c.require( std::fabs( d.v[i] - slope ) <= 64 * eps * std::fabs( up.v[i] ) * ( f.linear ? std::fabs( f.d( q ) ) : std::min( scale, 1e3L ) * 4 ), "formula:gradient", f.name, " at ", x.v[i], " gives the upstream gradient ", up.v[i], " back as ", d.v[i], " instead of ", static_cast<double>( slope ) );
    }
    expect_same( c, to_nd( v.data() ), x, "formula:operand", "the operand" ); expect_same( c, g, up, "formula:upstream", "the upstream gradient" );
}
PBT_FAMILY( "formulas", 6000, 100000, 100, "20 activations on float and double tensors of values between 1e-150 and 1e30 in magnitude, close to their breakpoints, tiny, ordinary and huge, with upstream gradients of 0.001 to 1000: value and gradient of every element against the published formulas in long double, up to rounding; non-trivial with an element below 0.001 or above 12 in magnitude" )
{
    formula const& f = s.pick( formulas() ); if ( s.coin() ) formula_case<double>( s, c, f, f.mk_d ); else formula_case<float>( s, c, f, f.mk_f );
}
CER_MAIN()
