// Everything computed over float tensors is, up to rounding, what is computed over double tensors.
#include "../lib/dag.hpp"
using namespace cer;

static double largest( nd const& x ) { double m = 0; for ( double v : x.v ) m = std::max( m, std::fabs( v ) ); return m; }
// every element of `f` lies near that of `d`: within `tol` of the largest one and within the uncertainty `slack` of the whole
static void near( ctx& c, nd const& f, nd const& d, double tol, double slack, std::string const& tag, std::string const& what )
{
    if ( f.shape != d.shape ) c.fail( tag + ":shape", what, ": shape is ", str( f.shape ), " in single precision but ", str( d.shape ), " in double precision" );
    double const t = tol * ( 1 + largest( d ) ) + slack;
    for ( ul i = 0; i < f.size(); ++i ) if ( !( std::fabs( f.v[i] - d.v[i] ) <= t ) && !( std::isnan( f.v[i] ) && std::isnan( d.v[i] ) ) ) c.fail( tag, what, ": element ", i, " is ", f.v[i], " in single precision but ", d.v[i], " in double precision; ", str( f ), " and ", str( d ) );
}
static double apart( nd const& x, nd const& y ) { double m = 0; for ( ul i = 0; i < x.size(); ++i ) m = std::max( m, std::fabs( x.v[i] - y.v[i] ) ); return m; }

// ---- whole expressions -------------------------------------------------------------------------------------------------
struct outcome { nd value; std::vector<nd> grads; };
template<class T> static outcome evaluate( dag_of<T>& g, ul root, nd const& up )
{
    outcome o; any_of<T> ex = g.nodes[root].ex; o.value = run<T>( ex ); if ( up.size() != o.value.size() ) return o;
    auto t = to_tensor<T>( up ); ex.backward( t ); auto const need = g.needed( root );
    for ( ul k = 0, v = 0; k <= root; ++k ) if ( g.nodes[k].text.find( "=v(" ) != std::string::npos ) { if ( need[k] ) o.grads.push_back( to_nd( g.vars[v].gradient() ) ); ++v; }
    return o;
}
template<class T> static ul build( src& s, dag_of<T>& g ) { g.leaves( s, s.coin() ); g.grow( s, 2 + s.draw( 9 ) ); if ( s.chance( 2, 3 ) ) g.join( s, 4 ); return g.nodes.size() - 1; }
PBT_FAMILY( "expressions", 4000, 60000, 60, "random expressions of up to 25 operators over variables, constants and place holders, built twice from the same choices, over float and over double tensors: value, and the gradient of every variable when no operator has a kink; non-trivial when a gradient is compared" )
{
    src again = s; dag_of<double> d; dag_of<float> f; ul const root = build( s, d ); { src t = again; t.shm = nullptr; ul const r = build( t, f ); if ( r != root ) c.fail( "harness", "the two expressions differ" ); }
    std::string const t = d.text( root ); c.desc << "batch " << d.batch << " " << t; c.flush_desc(); for ( auto const& o : d.used_ops ) c.label( o );
    auto const need = d.needed( root ); bool kink = false; for ( ul k = 0; k <= root; ++k ) if ( need[k] ) for ( char const* op : { "abs(", "relu", "clip(", "maximum(", "minimum(", "reduce_max", "reduce_min" } ) kink = kink || d.nodes[k].text.find( op ) != std::string::npos;
    nd const up0{ d.shape( root ), 1. }; nd up = as_float( gen_upstream( s, up0.shape ) ); outcome const x = evaluate( d, root, up ), y = evaluate( f, root, up );
    // how much the results depend on rounding the leaves: the same expression with slightly other leaves
    auto e = d.now; for ( auto* vs : { &e.vars, &e.inputs } ) for ( auto& n : *vs ) for ( auto& v : n.v ) v *= 1 + 1e-5 * s.uniform( -1, 1 );
    for ( ul k = 0; k < e.vars.size(); ++k ) set_data( d.vars[k], e.vars[k] ); for ( ul k = 0; k < e.inputs.size(); ++k ) d.inputs[k].bind( to_tensor<double>( e.inputs[k] ) );
    outcome const z = evaluate( d, root, up ); c.require( z.value.shape == x.value.shape, "shape", "the shape changed with the numbers" );
    double const dev = apart( z.value, x.value ); if ( dev > 0.02 * ( 1 + largest( x.value ) ) ) c.discard();
    near( c, y.value, x.value, 2e-4, 5 * dev, "value", "expression" );
    if ( kink || x.grads.empty() ) return;
    for ( ul k = 0; k < x.grads.size(); ++k )
    {
        double const gd = apart( z.grads[k], x.grads[k] ); if ( gd > 0.02 * ( 1 + largest( x.grads[k] ) ) ) continue;
        near( c, y.grads[k], x.grads[k], 2e-4, 5 * gd, "gradient", "variable " + std::to_string( k ) ); c.nontrivial();
    }
}

// ---- single operators --------------------------------------------------------------------------------------------------
enum kind { one, two, suffix, numpy, image, conv, matrix, product, probability };
struct par { ul k, axis, n; double p, q; shape_t sh; bool same; };
struct op { char const* name; kind kd; double lo, hi; std::function<outcome( bool, std::vector<nd> const&, par const&, nd& )> go; };
template<class T, class L> static outcome use( std::vector<nd> const& x, par const& p, nd& up, L const& bld )
{
    std::vector<var<T>> v; for ( auto const& n : x ) v.emplace_back( to_tensor<T>( n ) ); std::vector<any_of<T>> a; for ( auto& n : v ) a.push_back( any_of<T>::of( n ) ); while ( a.size() < 3 ) a.push_back( a[0] );
    any_of<T> ex = any_of<T>::of( bld( a[0], a[1], a[2], p, T{} ) ); outcome o; o.value = run<T>( ex );
    if ( up.v.empty() ) { up = nd{ o.value.shape }; for ( ul i = 0; i < up.size(); ++i ) up.v[i] = -1 + 0.125 * static_cast<double>( ( i * 7 ) % 17 ); } if ( up.size() != o.value.size() ) return o;
    auto t = to_tensor<T>( up ); ex.backward( t ); for ( auto& n : v ) o.grads.push_back( to_nd( n.gradient() ) ); return o;
}
template<class L> static std::function<outcome( bool, std::vector<nd> const&, par const&, nd& )> both( L const& l ) { return [l]( bool dbl, std::vector<nd> const& x, par const& p, nd& up ) { return dbl ? use<double>( x, p, up, l ) : use<float>( x, p, up, l ); }; }
#define O( name, kd, lo, hi, ... ) { name, kd, lo, hi, both( []( auto const& a, auto const& b, auto const& w, par const& p, auto t ) { typedef decltype( t ) T; (void)b; (void)w; (void)p; return __VA_ARGS__; } ) }
#define U( f, lo, hi ) O( #f, one, lo, hi, ceras::f( a ) )
static std::vector<op> const& ops()
{
    static std::vector<op> const v = {
        U( abs, -3, 3 ), U( acos, -0.9, 0.9 ), U( acosh, 1.2, 9 ), U( asin, -0.9, 0.9 ), U( asinh, -50, 50 ), U( atan, -5, 5 ), U( atanh, -0.9, 0.9 ), U( cbrt, 0.3, 9 ), U( cbrt, -9, -0.3 ), U( ceil, -5, 5 ), U( cos, -9, 9 ), U( cosh, -4, 4 ), U( erf, -3, 3 ), U( erfc, -3, 3 ), U( exp, -6, 4 ), U( exp2, -6, 4 ), U( expm1, -5, 4 ), U( fabs, -3, 3 ), U( floor, -5, 5 ), U( llrint, -5, 5 ), U( llround, -5, 5 ), U( log, 0.1, 30 ), U( log10, 0.1, 30 ), U( log1p, -0.8, 30 ), U( log2, 0.1, 30 ), U( lrint, -5, 5 ), U( lround, -5, 5 ), U( nearbyint, -5, 5 ), U( rint, -5, 5 ), U( round, -5, 5 ), U( sin, -9, 9 ), U( sinh, -4, 4 ), U( sqrt, 0.1, 50 ), U( square, -7, 7 ), U( tan, -1.3, 1.3 ), U( tanh, -4, 4 ), U( trunc, -5, 5 ), U( sign, -5, 5 ), U( negative, -5, 5 ), U( inverse, 0.2, 9 ), U( unit_step, -2, 2 ),
        U( softmax, -6, 6 ), U( selu, -4, 4 ), U( softplus, -9, 9 ), U( softsign, -9, 9 ), U( sigmoid, -9, 9 ), U( relu, -3, 3 ), U( relu6, -3, 9 ), U( hard_sigmoid, -3, 3 ), U( gelu, -3, 3 ), U( swish, -6, 6 ), U( silu, -6, 6 ), U( crelu, -3, 3 ), U( tank_shrink, -3, 3 ), U( mish, -5, 5 ), U( lisht, -5, 5 ), U( exponential, -5, 3 ), U( gaussian, -2, 2 ), O( "elu", one, -3, 3, ceras::elu( T( p.p ) )( a ) ), O( "leaky_relu", one, -3, 3, ceras::leaky_relu( T( p.p / 4 ) )( a ) ), O( "prelu", one, -3, 3, ceras::prelu( T( p.p / 4 ) )( a ) ), O( "clip", one, -3, 3, ceras::clip( T( -p.p ), T( p.q ) )( a ) ),
        O( "pow", one, 0.2, 4, ceras::pow( a, T( p.q ) ) ), O( "a+number", one, -3, 3, a + T( p.p ) ), O( "number+a", one, -3, 3, T( p.p ) + a ), O( "a-number", one, -3, 3, a - T( p.p ) ), O( "number-a", one, -3, 3, T( p.p ) - a ), O( "a*number", one, -3, 3, a * T( p.p ) ), O( "number*a", one, -3, 3, T( p.p ) * a ), O( "a/number", one, -3, 3, a / T( p.p ) ), O( "number/a", one, 0.2, 3, T( p.p ) / a ), O( "+a", one, -3, 3, +a ), O( "-a", one, -3, 3, -a ),
        U( sum_reduce, -3, 3 ), U( reduce_sum, -3, 3 ), U( mean_reduce, -3, 3 ), U( mean, -3, 3 ), O( "reduce_sum@", one, -3, 3, ceras::reduce_sum( p.axis )( a ) ), O( "reduce_max@", one, -3, 3, ceras::reduce_max( p.axis )( a ) ), O( "reduce_min@", one, -3, 3, ceras::reduce_min( p.axis )( a ) ), O( "max_reduce last", one, -3, 3, ceras::reduce_max( -1 )( a ) ), O( "argmax@", one, -3, 3, ceras::argmax( p.axis )( a ) ), O( "argmin@", one, -3, 3, ceras::argmin( p.axis )( a ) ),
        O( "repeat", one, -3, 3, ceras::repeat( p.k, p.axis )( a ) ), O( "flip", one, -3, 3, ceras::flip( static_cast<long>( p.axis ) )( a ) ), O( "expand_dims", one, -3, 3, ceras::expand_dims( static_cast<long>( p.axis ) )( a ) ), O( "squeeze", one, -3, 3, ceras::squeeze()( a ) ), O( "reshape", one, -3, 3, ceras::reshape( { p.n }, false )( a ) ), O( "broadcast", one, -3, 3, ceras::broadcast( p.sh )( a ) ), O( "identity", one, -3, 3, ceras::identity( a ) ), U( ones_like, -3, 3 ), U( zeros_like, -3, 3 ),
        O( "plus", numpy, -5, 5, a + b ), O( "minus", numpy, -5, 5, a - b ), O( "elementwise_product", suffix, -4, 4, ceras::elementwise_product( a, b ) ), O( "divide", suffix, 0.3, 6, a / b ), O( "maximum", two, -4, 4, ceras::maximum( a, b ) ), O( "minimum", two, -4, 4, ceras::minimum( a, b ) ), O( "atan2", two, 0.2, 4, ceras::atan2( a, b ) ), O( "hypot", two, 0.2, 4, ceras::hypot( a, b ) ), O( "equal", two, -1, 1, ceras::equal( a, b, T( 0.1 ) ) ), O( "concatenate", two, -4, 4, ceras::concatenate( a, b )( p.axis ) ), O( "concatenate last", two, -4, 4, ceras::concatenate( -1 )( a, b ) ),
        O( "squared_loss", two, -4, 4, ceras::squared_loss( a, b ) ), O( "mean_squared_error", two, -4, 4, ceras::mean_squared_error( a, b ) ), O( "abs_loss", two, -4, 4, ceras::abs_loss( a, b ) ), O( "mean_absolute_error", two, -4, 4, ceras::mean_absolute_error( a, b ) ), O( "hinge_loss", two, -2, 2, ceras::hinge_loss( a, b ) ), O( "mean_squared_logarithmic_error", two, 0.1, 5, ceras::mean_squared_logarithmic_error( a, b ) ), O( "cross_entropy", two, 0.05, 0.95, ceras::cross_entropy( a, b ) ), O( "binary_cross_entropy_loss", two, 0.05, 0.95, ceras::binary_cross_entropy_loss( a, b ) ), O( "cross_entropy_loss", probability, -4, 4, ceras::cross_entropy_loss( a, b ) ), O( "cross_entropy_loss smoothed", probability, -4, 4, ceras::cross_entropy_loss( a, b, T( 0.1 ) ) ),
        O( "max_pooling_2d", image, -3, 3, ceras::max_pooling_2d( p.k )( a ) ), O( "average_pooling_2d", image, -3, 3, ceras::average_pooling_2d( p.k )( a ) ), O( "up_sampling_2d", image, -3, 3, ceras::up_sampling_2d( p.k )( a ) ), O( "zero_padding_2d", image, -3, 3, ceras::zero_padding_2d( { p.k, 1, 2, p.n % 3 + 1 } )( a ) ), O( "cropping_2d", image, -3, 3, ceras::cropping_2d( { 1 } )( a ) ), O( "img2col", image, -3, 3, ceras::img2col( 2, 2, p.k, 1, 1, p.k, 1, 1 )( a ) ), O( "flatten", image, -3, 3, ceras::flatten( a ) ), O( "flip image", image, -3, 3, ceras::flip( static_cast<long>( p.k % 4 ) )( a ) ),
        O( "normalization_batch", image, -3, 3, ceras::normalization_batch( T( 0.9 ) )( a ) ), O( "scaled normalization_batch", conv, -3, 3, ceras::elementwise_product( ceras::normalization_batch( T( 0.9 ) )( a ), w ) + w ),
        O( "conv2d", conv, -2, 2, ceras::conv2d( p.sh[1], p.sh[2], p.same ? 1 : p.k, 1, 1, 1, p.same ? "same" : "valid" )( a, b ) ), O( "general_conv2d", conv, -2, 2, ceras::general_conv2d( 1, p.same ? 1 : p.k, 1, 1, p.same ? "same" : "valid" )( a, b ) ), O( "conv2d_transpose", conv, -2, 2, ceras::conv2d_transpose( 3, 3, p.k, 1, 1, 1, p.same ? "same" : "valid" )( a, b ) ),
        O( "matrix product", matrix, -2, 2, a * b ), O( "multiply", matrix, -2, 2, ceras::multiply( a, b ) ), O( "transpose", product, -2, 2, ceras::transpose( a ) ),
        // several operators deep
        O( "dense layer", matrix, -1, 1, ceras::tanh( a * b ) ), O( "softmax of a product", matrix, -2, 2, ceras::softmax( a * b ) ), O( "normalised product", matrix, -2, 2, ceras::sigmoid( ceras::square( a * b ) ) ), O( "convolution block", conv, -1, 1, ceras::max_pooling_2d( 2 )( ceras::relu( ceras::general_conv2d( 1, 1, 1, 1, "same" )( a, b ) ) ) ),
    };
    return v;
}
static nd grid( src& s, shape_t const& sh, double lo, double hi ) // representable in single precision, and never a whole or half number
{
    nd r{ sh }; long const a = static_cast<long>( std::ceil( lo * 128 ) ), b = static_cast<long>( std::floor( hi * 128 ) ) - 1; for ( auto& v : r.v ) v = ( static_cast<double>( s.range( a, b ) ) + 0.5 ) / 128; return r;
}
PBT_FAMILY( "operators", 9000, 90000, 80, "every operator, activation and loss with random options, on inputs exact in both precisions, float against double: value and the gradients of all operands; non-trivial when there are at least 2 elements" )
{
    op const& o = s.pick( ops() ); c.label( o.name ); par p; p.k = 2 + s.draw( 2 ); p.p = ( 1 + s.draw( 40 ) ) / 16.; p.q = ( 1 + s.draw( 40 ) ) / 16.; p.same = s.coin(); std::vector<nd> x; shape_t sh;
    switch ( o.kd )
    {
        case one: sh = gen_shape_wide( s, 1, 4, 6, 150 ); x = { grid( s, sh, o.lo, o.hi ) }; break;
        case two: sh = gen_shape_wide( s, 1, 4, 6, 150 ); x = { grid( s, sh, o.lo, o.hi ), grid( s, sh, o.lo, o.hi ) }; break;
        case suffix: { sh = gen_shape_wide( s, 1, 4, 6, 150 ); shape_t t( sh.begin() + s.draw( sh.size() ), sh.end() ); x = { grid( s, sh, o.lo, o.hi ), grid( s, t, o.lo, o.hi ) }; if ( s.coin() ) std::swap( x[0], x[1] ); break; }
        case numpy: { sh = gen_shape( s, 1, 4, 5, 60 ); shape_t t = sh; for ( ul k = 0; k < sh.size(); ++k ) { ul const e = s.draw( 4 ); if ( e == 0 ) sh[k] = 1; if ( e == 1 ) t[k] = 1; } t.erase( t.begin(), t.begin() + s.draw( t.size() ) ); x = { grid( s, sh, o.lo, o.hi ), grid( s, t, o.lo, o.hi ) }; if ( s.coin() ) std::swap( x[0], x[1] ); break; }
        case image: sh = { 1 + s.draw( 3 ), p.k * ( 1 + s.draw( 3 ) ), p.k * ( 1 + s.draw( 3 ) ), 1 + s.draw( 3 ) }; if ( std::string( "cropping_2d" ) == o.name ) { sh[1] += 2; sh[2] += 2; } x = { grid( s, sh, o.lo, o.hi ) }; break;
        case conv: { ul const ch = 1 + s.draw( 3 ); sh = { 1 + s.draw( 3 ), 3 + s.draw( 4 ), 3 + s.draw( 4 ), ch }; x = { grid( s, sh, o.lo, o.hi ), grid( s, { 1 + s.draw( 3 ), 3, 3, ch }, o.lo, o.hi ), grid( s, { ch }, o.lo, o.hi ) }; break; }
        case matrix: { ul const m = s.chance( 1, 10 ) ? 40 : 7, k = 1 + s.draw( m ); sh = { 1 + s.draw( m ), k }; x = { grid( s, sh, o.lo, o.hi ), grid( s, { k, 1 + s.draw( m ) }, o.lo, o.hi ) }; break; }
        case product: sh = { 1 + s.draw( 9 ), 1 + s.draw( 9 ) }; x = { grid( s, sh, o.lo, o.hi ) }; break;
        default: { sh = { 1 + s.draw( 5 ), 2 + s.draw( 5 ) }; nd t{ sh }; for ( ul i = 0; i < t.size(); i += sh[1] ) t.v[i + s.draw( sh[1] )] = 1; x = { t, grid( s, sh, o.lo, o.hi ) }; }
    }
    p.axis = s.draw( sh.size() ); p.n = prod( sh ); p.sh = sh; if ( std::string( "broadcast" ) == o.name ) p.sh.insert( p.sh.begin(), p.k );
    c.desc << o.name << " k=" << p.k << " axis=" << p.axis << " p=" << p.p << " q=" << p.q << ( p.same ? " same" : " valid" ); for ( auto const& v : x ) c.desc << " " << str( v, 12 ); c.flush_desc(); c.nontrivial( x[0].size() > 1 );
    bool const normal = std::string( o.name ).find( "batch" ) != std::string::npos;
    if ( normal ) { ul const ch = sh.back(), n = x[0].size() / ch; if ( n < 4 ) c.discard(); for ( ul k = 0; k < ch; ++k ) { double m = 0, v = 0; for ( ul i = 0; i < n; ++i ) m += x[0].v[i * ch + k] / n; for ( ul i = 0; i < n; ++i ) v += ( x[0].v[i * ch + k] - m ) * ( x[0].v[i * ch + k] - m ) / n; if ( v < 0.2 ) c.discard(); } }
    double err = 0, rows = 1; // the mean loses digits of single precision far from zero, the spread must not
    if ( normal && s.coin() )
    {
        double const by = std::floor( s.magnitude( 1, 2e4 ) ) * ( s.coin() ? 1 : -1 ); for ( auto& v : x[0].v ) v += by; rows = static_cast<double>( x[0].size() / sh.back() ); err = rows * 6e-8 * std::fabs( by ) / std::sqrt( 0.2 );
        c.desc << " shifted by " << by; c.flush_desc(); c.label( "far from zero" );
    }
    nd up; outcome const d = o.go( true, x, p, up ), f = o.go( false, x, p, up ); near( c, f.value, d.value, 2e-5 + 2 * err, 0, "value", o.name ); c.require( f.grads.size() == d.grads.size(), "gradient", o.name );
    for ( ul k = 0; k < d.grads.size(); ++k ) near( c, f.grads[k], d.grads[k], 1e-4 + 4 * rows * err, 0, "gradient", std::string( o.name ) + " operand " + std::to_string( k ) );
}
CER_MAIN()
