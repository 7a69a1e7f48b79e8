// Matrix multiplication: gemm, tensor products, the * operator of expressions and its gradients.
#include "../lib/cer.hpp"
using namespace cer;

template<class T> constexpr double tol() { return std::is_same_v<T, double> ? 1e-12 : 1e-4; }
static nd transposed( nd const& a ) { nd r{ { a.shape[1], a.shape[0] } }; for ( ul i = 0; i < a.shape[0]; ++i ) for ( ul j = 0; j < a.shape[1]; ++j ) r.v[j * a.shape[0] + i] = a.v[i * a.shape[1] + j]; return r; }
static ul extent( src& s ) { return s.chance( 1, 12 ) ? 1 + s.draw( 70 ) : 1 + s.draw( 9 ); }
template<class T> static nd gen_m( src& s, ul r, ul q ) { nd a = gen_nd( s, { r, q }, -4, 4 ); return std::is_same_v<T, float> ? as_float( a ) : a; }

template<class T> static void gemm_case( src& s, ctx& c )
{
    ul const m = extent( s ), n = extent( s ), k = extent( s ); bool const ta = s.coin(), tb = s.coin(); nd const A = gen_m<T>( s, m, n ), B = gen_m<T>( s, n, k );
    c.desc << "gemm " << m << "x" << n << "x" << k << ( ta ? " A'" : " A" ) << ( tb ? " B'" : " B" ) << ( std::is_same_v<T, float> ? " float" : " double" ); c.label( std::string( ta ? "A'" : "A" ) + ( tb ? " B'" : " B" ) ); c.nontrivial( m * n * k > 1 );
    nd const sa = ta ? transposed( A ) : A, sb = tb ? transposed( B ) : B; // as stored
    std::vector<T> a( sa.v.begin(), sa.v.end() ), b( sb.v.begin(), sb.v.end() ), r( m * k, T( 3.5 ) );
    if ( s.coin() ) ceras::gemm( a.data(), ta, b.data(), tb, m, n, k, r.data() ); else ceras::gemm_cpu( a.data(), ta, b.data(), tb, m, n, k, r.data() );
    expect_close( c, nd{ { m, k }, std::vector<double>( r.begin(), r.end() ) }, matmul( A, B ), tol<T>(), tol<T>() * n, "gemm", "gemm" );
    expect_same( c, nd{ sa.shape, std::vector<double>( a.begin(), a.end() ) }, sa, "operand", "A" ); expect_same( c, nd{ sb.shape, std::vector<double>( b.begin(), b.end() ) }, sb, "operand", "B" );
    if ( !ta && !tb )
    { // the form on views
        std::vector<T> z( m * k, T( -1 ) ); ceras::view_2d<T> x{ a.data(), m, n }, y{ b.data(), n, k }, zz{ z.data(), m, k }; ceras::gemm( x, y, zz );
        expect_close( c, nd{ { m, k }, std::vector<double>( z.begin(), z.end() ) }, matmul( A, B ), tol<T>(), tol<T>() * n, "gemm:views", "gemm of views" );
    }
}
PBT_FAMILY( "gemm", 5000, 50000, 100, "gemm with every combination of transposed operands, float and double, extents up to 70, into a dirty result; non-trivial when there is more than one product" )
{
    if ( s.coin() ) gemm_case<double>( s, c ); else gemm_case<float>( s, c );
}
template<class T> static void tensors( src& s, ctx& c )
{
    ul const form = s.draw( 4 ); ul const m = form == 1 || form == 3 ? 1 : extent( s ), n = extent( s ), k = form >= 2 ? 1 : extent( s ); nd const A = gen_m<T>( s, m, n ), B = gen_m<T>( s, n, k );
    static char const* const names[] = { "matrix * matrix", "vector * matrix", "matrix * vector", "vector * vector" }; c.label( names[form] ); c.desc << names[form] << " " << m << "x" << n << "x" << k; c.nontrivial( m * n * k > 1 );
    nd const x = form == 1 || form == 3 ? A.reshaped( { n } ) : A, y = form >= 2 ? B.reshaped( { n } ) : B; auto a = to_tensor<T>( x ), b = to_tensor<T>( y );
    ceras::tensor<T> r; ul const how = s.draw( 4 );
    if ( how == 0 ) r = a * b; else if ( how == 1 ) r = ceras::multiply( a, b ); else { if ( how == 2 ) r = to_tensor<T>( gen_nd( s, gen_shape( s, 1, 3, 4 ), -1, 1 ) ); ceras::multiply( a, b, r ); }
    expect_close( c, to_nd( r ), matmul( A, B ), tol<T>(), tol<T>() * n, "product", names[form] );
    expect_same( c, to_nd( a ), x, "operand", "the left operand" ); expect_same( c, to_nd( b ), y, "operand", "the right operand" );
    for ( auto& v : r ) v = 9; expect_same( c, to_nd( a ), x, "operand", "the left operand" ); expect_same( c, to_nd( b ), y, "operand", "the right operand" );
}
PBT_FAMILY( "tensors", 4000, 40000, 100, "products of 1-D and 2-D tensors, also into an existing result; non-trivial when there is more than one product" )
{
    if ( s.coin() ) tensors<double>( s, c ); else tensors<float>( s, c );
}
PBT_FAMILY( "laws", 1500, 15000, 100, "(AB)C = A(BC), A(B+C) = AB+AC, identity; non-trivial when the matrices have more than one element" )
{
    ul const m = extent( s ), n = extent( s ), k = extent( s ), l = extent( s ); c.nontrivial( m * n * k * l > 1 ); c.desc << m << "x" << n << "x" << k << "x" << l;
    auto a = to_tensor<double>( gen_m<double>( s, m, n ) ), b = to_tensor<double>( gen_m<double>( s, n, k ) ), b2 = to_tensor<double>( gen_m<double>( s, n, k ) ), d = to_tensor<double>( gen_m<double>( s, k, l ) );
    expect_close( c, to_nd( ( a * b ) * d ), to_nd( a * ( b * d ) ), 1e-9, 1e-8, "associative", "(AB)C and A(BC)" ); expect_close( c, to_nd( a * ( b + b2 ) ), to_nd( a * b + a * b2 ), 1e-9, 1e-8, "distributive", "A(B+C)" );
    ceras::tensor<double> id{ { n, n } }; for ( ul i = 0; i < n; ++i ) id[i * n + i] = 1; expect_same( c, to_nd( a * id ), to_nd( a ), "identity", "AI" ); expect_same( c, to_nd( id * b ), to_nd( b ), "identity", "IB" );
}
static nd mm( nd const& a, nd const& b ) { return matmul( a, b ); }
template<class T> static void expression( src& s, ctx& c )
{
    auto const e = [&]() { return 1 + s.draw( 6 ); }; ul m = e(), n = e(), k = e(), l = e(); ul const form = s.draw( 8 ); if ( form == 2 ) n = m; if ( form >= 3 ) { m = std::min<ul>( m, 4 ); l = std::min<ul>( l, 4 ); }
    bool const big = form < 2 && s.chance( 1, 20 ); if ( big ) { m *= 6; n *= 5; k *= 5; c.label( "large" ); }
    nd const A = gen_m<T>( s, m, n ), B = gen_m<T>( s, n, k ), D = gen_m<T>( s, k, l ); var<T> a{ to_tensor<T>( A ) }, b{ to_tensor<T>( B ) }, d{ to_tensor<T>( D ) }; ceras::constant<ceras::tensor<T>> kb{ to_tensor<T>( B ) };
    opts o; if ( std::is_same_v<T, float> ) { o.ftol = 1e-4; o.fatol = 1e-3; o.gtol = 1e-3; o.gatol = 2e-3; } c.nontrivial( m * n * k > 1 );
    auto const go = [&]( char const* name, auto ex, std::vector<var<T>*> vars, ref_t f ) { o.name = name; c.label( name ); c.desc << name << ( std::is_same_v<T, float> ? " float" : " double" ); check_erased<T>( s, c, erase<T>( ex ), vars, f, o ); };
    switch ( form )
    {
        case 0: return go( "A*B", a * b, { &a, &b }, []( std::vector<nd> const& v ) { return mm( v[0], v[1] ); } );
        case 1: return go( "multiply(A,B)", ceras::multiply( a, b ), { &a, &b }, []( std::vector<nd> const& v ) { return mm( v[0], v[1] ); } );
        case 2: return go( "A*A", a * a, { &a }, []( std::vector<nd> const& v ) { return mm( v[0], v[0] ); } );
        case 3: return go( "(A*B)*C", ( a * b ) * d, { &a, &b, &d }, []( std::vector<nd> const& v ) { return mm( mm( v[0], v[1] ), v[2] ); } );
        case 4: return go( "A*(B*C)", a * ( b * d ), { &a, &b, &d }, []( std::vector<nd> const& v ) { return mm( v[0], mm( v[1], v[2] ) ); } );
        case 5: return go( "A*constant", a * kb, { &a }, [B]( std::vector<nd> const& v ) { return mm( v[0], B ); } );
        case 6: return go( "transpose(B)*transpose(A)", ceras::transpose( b ) * ceras::transpose( a ), { &a, &b }, []( std::vector<nd> const& v ) { return transposed( mm( v[0], v[1] ) ); } );
        default: return go( "A*B+A*constant", a * b + a * kb, { &a, &b }, [B]( std::vector<nd> const& v ) { return zip( mm( v[0], v[1] ), mm( v[0], B ), []( double p, double q ) { return p + q; } ); } );
    }
}
PBT_FAMILY( "expression", 3000, 30000, 60, "the product of matrix expressions (variables, constants, products, transposes, a matrix with itself), value and gradients in float and double; non-trivial when there is more than one product" )
{
    if ( s.chance( 1, 4 ) ) expression<float>( s, c ); else expression<double>( s, c );
}
PBT_FAMILY( "batches", 800, 8000, 40, "one product of a place holder and a matrix evaluated on batches of different sizes; non-trivial when the sizes differ" )
{
    ul const n = 1 + s.draw( 6 ), k = 1 + s.draw( 6 ); nd const W = gen_m<double>( s, n, k ); var<double> w{ to_tensor<double>( W ) }; ceras::place_holder<ceras::tensor<double>> ph{ shape_t{ n } }; auto ex = ph * w; auto& ss = ceras::get_default_session<ceras::tensor<double>>();
    ul last = 0; c.desc << "batches of";
    for ( int i = 0; i < 4; ++i )
    {
        ul const b = 1 + s.draw( 8 ); c.desc << " " << b; if ( last && last != b ) c.nontrivial(); last = b; nd const X = gen_m<double>( s, b, n ); ss.bind( ph, to_tensor<double>( X ) );
        expect_close( c, run<double>( ex ), matmul( X, W ), 1e-12, 1e-11, "batch", "product of a batch of " + std::to_string( b ) );
        nd const up = gen_upstream( s, { b, k } ); auto t = to_tensor<double>( up ); ex.backward( t ); expect_close( c, to_nd( w.gradient() ), matmul( transposed( X ), up ), 1e-11, 1e-10, "batch:gradient", "weight gradient" );
    }
}
CER_MAIN()
