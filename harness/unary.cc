// Element-wise unary mathematical operators: value = the mathematical function, gradient = its derivative.
#include "../lib/curve.hpp"
using namespace cer;

struct entry { char const* name; double lo, hi; std::function<double( double )> f; std::function<void( src&, ctx&, nd const&, entry const& )> check; bool grad = true; };

template<class T, class B> static std::function<void( src&, ctx&, nd const&, entry const& )> mk( B b )
{
    return [b]( src& s, ctx& c, nd const& x, entry const& e )
    {
        var<T> v{ to_tensor<T>( x ) };
        auto ex = b( v );
        opts o; o.name = e.name; o.gradient = e.grad;
        auto f = e.f;
        check_expression<T>( s, c, ex, { &v }, [f]( std::vector<nd> const& a ) { return map( a[0], f ); }, o );
    };
}
#define OP( op ) mk<double>( []( auto const& v ) { return ceras::op( v ); } )

static std::vector<entry> const& table()
{
    static std::vector<entry> const t = {
        { "abs", -5, 5, []( double x ) { return std::fabs( x ); }, OP( abs ) },
        { "fabs", -5, 5, []( double x ) { return std::fabs( x ); }, OP( fabs ) },
        { "acos", -0.98, 0.98, []( double x ) { return std::acos( x ); }, OP( acos ) },
        { "acosh", 1.05, 9, []( double x ) { return std::acosh( x ); }, OP( acosh ) },
        { "asin", -0.98, 0.98, []( double x ) { return std::asin( x ); }, OP( asin ) },
        { "asinh", -6, 6, []( double x ) { return std::asinh( x ); }, OP( asinh ) },
        { "atan", -6, 6, []( double x ) { return std::atan( x ); }, OP( atan ) },
        { "atanh", -0.95, 0.95, []( double x ) { return std::atanh( x ); }, OP( atanh ) },
        { "cbrt", 0.05, 9, []( double x ) { return std::cbrt( x ); }, OP( cbrt ) },
        { "cbrt-negative", -9, -0.05, []( double x ) { return std::cbrt( x ); }, OP( cbrt ) },
        { "cos", -7, 7, []( double x ) { return std::cos( x ); }, OP( cos ) },
        { "cosh", -4, 4, []( double x ) { return std::cosh( x ); }, OP( cosh ) },
        { "erf", -3, 3, []( double x ) { return std::erf( x ); }, OP( erf ) },
        { "erfc", -3, 3, []( double x ) { return std::erfc( x ); }, OP( erfc ) },
        { "exp", -6, 6, []( double x ) { return std::exp( x ); }, OP( exp ) },
        { "exp2", -6, 6, []( double x ) { return std::exp2( x ); }, OP( exp2 ) },
        { "expm1", -6, 6, []( double x ) { return std::expm1( x ); }, OP( expm1 ) },
        { "log", 0.05, 20, []( double x ) { return std::log( x ); }, OP( log ) },
        { "log10", 0.05, 20, []( double x ) { return std::log10( x ); }, OP( log10 ) },
        { "log1p", -0.9, 9, []( double x ) { return std::log1p( x ); }, OP( log1p ) },
        { "log2", 0.05, 20, []( double x ) { return std::log2( x ); }, OP( log2 ) },
        { "sin", -7, 7, []( double x ) { return std::sin( x ); }, OP( sin ) },
        { "sinh", -4, 4, []( double x ) { return std::sinh( x ); }, OP( sinh ) },
        { "sqrt", 0.05, 20, []( double x ) { return std::sqrt( x ); }, OP( sqrt ) },
        { "tan", -1.35, 1.35, []( double x ) { return std::tan( x ); }, OP( tan ) },
        { "tanh", -4, 4, []( double x ) { return std::tanh( x ); }, OP( tanh ) },
        { "square", -5, 5, []( double x ) { return x * x; }, OP( square ) },
        { "negative", -5, 5, []( double x ) { return -x; }, OP( negative ) },
        { "unary minus", -5, 5, []( double x ) { return -x; }, mk<double>( []( auto const& v ) { return -v; } ) },
        { "unary plus", -5, 5, []( double x ) { return x; }, mk<double>( []( auto const& v ) { return +v; } ) },
        { "identity", -5, 5, []( double x ) { return x; }, OP( identity ) },
        { "inverse", 0.1, 8, []( double x ) { return 1 / x; }, OP( inverse ) },
        { "inverse-negative", -8, -0.1, []( double x ) { return 1 / x; }, OP( inverse ) },
        { "sign", -5, 5, []( double x ) { return x > 0 ? 1. : x < 0 ? -1. : 0.; }, OP( sign ) },
        { "ceil", -5, 5, []( double x ) { return std::ceil( x ); }, OP( ceil ), false },
        { "floor", -5, 5, []( double x ) { return std::floor( x ); }, OP( floor ), false },
        { "trunc", -5, 5, []( double x ) { return std::trunc( x ); }, OP( trunc ), false },
        { "round", -5, 5, []( double x ) { return std::round( x ); }, OP( round ), false },
        { "rint", -5, 5, []( double x ) { return std::rint( x ); }, OP( rint ), false },
        { "nearbyint", -5, 5, []( double x ) { return std::nearbyint( x ); }, OP( nearbyint ), false },
        { "lrint", -5, 5, []( double x ) { return static_cast<double>( std::lrint( x ) ); }, OP( lrint ), false },
        { "llrint", -5, 5, []( double x ) { return static_cast<double>( std::llrint( x ) ); }, OP( llrint ), false },
        { "lround", -5, 5, []( double x ) { return static_cast<double>( std::lround( x ) ); }, OP( lround ), false },
        { "llround", -5, 5, []( double x ) { return static_cast<double>( std::llround( x ) ); }, OP( llround ), false },
        { "zeros_like", -5, 5, []( double ) { return 0.; }, OP( zeros_like ) },
        { "ones_like", -5, 5, []( double ) { return 1.; }, OP( ones_like ) },
    };
    return t;
}

PBT_FAMILY( "unary-math", 12000, 120000, 200, "an operator from the table and a tensor of 1-4 dimensions with values across the operator's domain; non-trivial when it has at least 2 elements" )
{
    entry const& e = s.pick( table() );
    shape_t const sh = gen_shape_wide( s, 1, 4, 5, 60 );
    nd x{ sh };
    for ( auto& v : x.v ) v = s.real( e.lo, e.hi );
    c.label( e.name ); c.desc << e.name; c.nontrivial( x.size() >= 2 );
    e.check( s, c, x, e );
}

// ---- values and derivatives by formula, over all magnitudes --------------------------------------------------------------
#define ROUNDED( op ) { #op, -1e30, 1e30, 8e6, 4e15, 0, LD( std::op( x ) ), nullptr, CURVE( ceras::op( a ) ) }
static std::vector<curve> const& curves()
{
    static double const W = 1e30;
    static ld const pi_2 = 1.12837916709551257389617690315489L; // 2 / sqrt( pi )
    static std::vector<curve> const t = {
        { "abs", -W, W, W, W, 0, LD( std::fabs( x ) ), LD( x > 0 ? 1 : -1 ), CURVE( ceras::abs( a ) ), { 0 } },
        { "fabs", -W, W, W, W, 0, LD( std::fabs( x ) ), LD( x > 0 ? 1 : -1 ), CURVE( ceras::fabs( a ) ), { 0 } },
        { "acos", -1, 1, 1, 1, 0, LD( std::acos( x ) ), LD( -1 / std::sqrt( ( 1 - x ) * ( 1 + x ) ) ), CURVE( ceras::acos( a ) ) },
        { "asin", -1, 1, 1, 1, 0, LD( std::asin( x ) ), LD( 1 / std::sqrt( ( 1 - x ) * ( 1 + x ) ) ), CURVE( ceras::asin( a ) ) },
        { "atan", -W, W, 1e15, W, 0, LD( std::atan( x ) ), LD( 1 / ( 1 + x * x ) ), CURVE( ceras::atan( a ) ) },
        { "acosh", 1, W, 1e15, W, 0, LD( std::acosh( x ) ), LD( 1 / std::sqrt( ( x - 1 ) * ( x + 1 ) ) ), CURVE( ceras::acosh( a ) ) },
        { "asinh", -W, W, 1e15, W, 0, LD( std::asinh( x ) ), LD( 1 / std::sqrt( 1 + x * x ) ), CURVE( ceras::asinh( a ) ) },
        { "atanh", -1, 1, 1, 1, 0, LD( std::atanh( x ) ), LD( 1 / ( ( 1 - x ) * ( 1 + x ) ) ), CURVE( ceras::atanh( a ) ) },
        { "cbrt", -W, W, W, W, 0, LD( std::cbrt( x ) ), LD( 1 / ( 3 * std::cbrt( x ) * std::cbrt( x ) ) ), CURVE( ceras::cbrt( a ) ), { 0 } },
        { "cos", -W, W, 1e6, 1e6, 0, LD( std::cos( x ) ), LD( -std::sin( x ) ), CURVE( ceras::cos( a ) ) },
        { "sin", -W, W, 1e6, 1e6, 0, LD( std::sin( x ) ), LD( std::cos( x ) ), CURVE( ceras::sin( a ) ) },
        { "tan", -W, W, 1e3, 1e3, 0, LD( std::tan( x ) ), LD( 1 + std::tan( x ) * std::tan( x ) ), CURVE( ceras::tan( a ) ) },
        { "cosh", -W, W, 75, 650, 0, LD( std::cosh( x ) ), LD( std::sinh( x ) ), CURVE( ceras::cosh( a ) ) },
        { "sinh", -W, W, 75, 650, 0, LD( std::sinh( x ) ), LD( std::cosh( x ) ), CURVE( ceras::sinh( a ) ) },
        { "tanh", -W, W, W, W, 1, LD( std::tanh( x ) ), LD( 1 / ( std::cosh( std::min( std::fabs( x ), 2000.0L ) ) * std::cosh( std::min( std::fabs( x ), 2000.0L ) ) ) ), CURVE( ceras::tanh( a ) ) },
        { "erf", -W, W, 1e15, W, 0, LD( std::erf( x ) ), LD( pi_2 * std::exp( -x * x ) ), CURVE( ceras::erf( a ) ) },
        { "erfc", -W, W, 9, 25, 0, LD( std::erfc( x ) ), LD( -pi_2 * std::exp( -x * x ) ), CURVE( ceras::erfc( a ) ) },
        { "exp", -W, W, 75, 650, 0, LD( std::exp( x ) ), LD( std::exp( x ) ), CURVE( ceras::exp( a ) ) },
        { "exp2", -W, W, 110, 1000, 0, LD( std::exp2( x ) ), LD( 0.693147180559945309417232121458176568L * std::exp2( x ) ), CURVE( ceras::exp2( a ) ) },
        { "expm1", -W, W, 75, 650, 1, LD( std::expm1( x ) ), LD( std::exp( x ) ), CURVE( ceras::expm1( a ) ) },
        { "log", 0, W, W, W, 0, LD( std::log( x ) ), LD( 1 / x ), CURVE( ceras::log( a ) ) },
        { "log10", 0, W, W, W, 0, LD( std::log10( x ) ), LD( 0.434294481903251827651128918916605082L / x ), CURVE( ceras::log10( a ) ) },
        { "log2", 0, W, W, W, 0, LD( std::log2( x ) ), LD( 1.44269504088896340735992468100189214L / x ), CURVE( ceras::log2( a ) ) },
        { "log1p", -1, W, W, W, 0, LD( std::log1p( x ) ), LD( 1 / ( 1 + x ) ), CURVE( ceras::log1p( a ) ) },
        { "sqrt", 0, W, W, W, 0, LD( std::sqrt( x ) ), LD( 0.5L / std::sqrt( x ) ), CURVE( ceras::sqrt( a ) ) },
        { "square", -W, W, 1e15, W, 0, LD( x * x ), LD( 2 * x ), CURVE( ceras::square( a ) ) },
        { "negative", -W, W, W, W, 0, LD( -x ), LD( -1 ), CURVE( ceras::negative( a ) ) },
        { "unary minus", -W, W, W, W, 0, LD( -x ), LD( -1 ), CURVE( -a ) },
        { "inverse", 1e-7, W, 1e15, W, 0, LD( 1 / x ), LD( -1 / ( x * x ) ), CURVE( ceras::inverse( a ) ) },
        { "inverse-negative", -W, -1e-7, 1e15, W, 0, LD( 1 / x ), LD( -1 / ( x * x ) ), CURVE( ceras::inverse( a ) ) },
        { "sign", -W, W, W, W, 0, LD( x > 0 ? 1 : x < 0 ? -1 : 0 ), nullptr, CURVE( ceras::sign( a ) ) },
        ROUNDED( ceil ), ROUNDED( floor ), ROUNDED( trunc ), ROUNDED( round ), ROUNDED( rint ), ROUNDED( nearbyint ), ROUNDED( lrint ), ROUNDED( llrint ), ROUNDED( lround ), ROUNDED( llround ),
    };
    return t;
}
PBT_FAMILY( "formulas", 9000, 150000, 100, "40 operators on float and double tensors with values from 1e-150 to 1e30 in magnitude, near the ends of the operator's domain, tiny, ordinary and huge, with upstream gradients of 0.001 to 1000: value and gradient of every element against the formula in long double, up to rounding; non-trivial with an element below 0.001 or above 12 in magnitude" )
{
    curve const& f = s.pick( curves() ); if ( s.coin() ) curve_case<double>( s, c, f, f.mk_d ); else curve_case<float>( s, c, f, f.mk_f );
}
static curve const& rounding( src& s ) { static std::vector<curve const*> const t = [] { std::vector<curve const*> r; for ( auto const& f : curves() ) if ( !f.d ) r.push_back( &f ); return r; }(); return *s.pick( t ); }
PBT_FAMILY( "halves", 1500, 20000, 100, "the rounding operators and sign on whole numbers, exact halves and their neighbours of both signs, and zeros: every value exact; non-trivial with an exact half" )
{
    curve const& f = rounding( s ); bool const flt = s.coin(); nd x{ gen_shape( s, 1, 3, 5, 24 ) };
    for ( auto& v : x.v ) { v = ( static_cast<double>( s.draw( 41 ) ) - 20 ) / 2; c.nontrivial( v != std::floor( v ) ); ul const n = s.draw( 4 ); if ( n > 1 ) v = flt ? std::nextafterf( static_cast<float>( v ), n == 2 ? 50.f : -50.f ) : std::nextafter( v, n == 2 ? 50. : -50. ); }
    c.label( f.name ); c.desc << f.name << ( flt ? " float " : " double " ) << str( x, 24 ); nd y; auto const go = [&]( auto t, auto const& mk ) { typedef decltype( t ) T; var<T> v{ to_tensor<T>( x ) }; mk( v, [&]( expr_if const& e ) { y = e.run(); } ); };
    if ( flt ) go( 1.0f, f.mk_f ); else go( 1.0, f.mk_d );
    for ( ul i = 0; i < x.size(); ++i ) c.require( y.v[i] == static_cast<double>( f.f( x.v[i] ) ), "halves:value", f.name, "( ", x.v[i], " ) = ", y.v[i], " instead of ", static_cast<double>( f.f( x.v[i] ) ) );
}
CER_MAIN()
