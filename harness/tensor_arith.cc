// Tensor arithmetic: operators between tensors and with numbers, compound assignment, broadcasting helpers.
#include "../lib/cer.hpp"
using namespace cer;

template<class T> constexpr char const* tname() { return std::is_same_v<T, double> ? "double" : std::is_same_v<T, float> ? "float" : "int"; }
template<class T> static nd gen_t( src& s, shape_t const& sh, bool nonzero = false )
{
    nd r{ sh };
    for ( auto& x : r.v )
    {
        if constexpr ( std::is_same_v<T, int> ) { x = static_cast<double>( s.range( -50, 50 ) ); if ( nonzero && x == 0 ) x = 7; }
        else { x = static_cast<double>( static_cast<T>( s.real( -8, 8 ) ) ); if ( nonzero && std::fabs( x ) < 0.05 ) x = 1.25; }
    }
    return r;
}
template<class T> static T op( char o, T x, T y ) { switch ( o ) { case '+': return x + y; case '-': return x - y; case '*': return x * y; default: return x / y; } }
template<class T> static nd ref( char o, nd const& a, nd const& b ) { return bzip( a, b, [o]( double x, double y ) { return static_cast<double>( op<T>( o, static_cast<T>( x ), static_cast<T>( y ) ) ); } ); }
template<class T> constexpr double tol() { return std::is_same_v<T, double> ? 1e-14 : std::is_same_v<T, float> ? 1e-6 : 0; }

// b becomes a trailing part of a (with leading ones now and then), or both are mixed with ones as in numpy
static void gen_pair( src& s, ctx& c, ul mode, shape_t& a, shape_t& b )
{
    a = gen_shape_wide( s, 1, 5, 5, 90 ); b = a;
    if ( mode == 0 ) { c.label( "equal shapes" ); return; }
    if ( mode == 1 )
    {
        ul const drop = s.draw( a.size() + 1 ); b.assign( a.begin() + drop, a.end() ); b.insert( b.begin(), s.draw( drop + 1 ), 1 ); if ( b.empty() ) b = { 1 };
        if ( s.coin() ) std::swap( a, b ); c.label( "trailing part" ); return;
    }
    for ( ul i = 0; i < a.size(); ++i ) { ul t = s.draw( 4 ); if ( t == 0 ) a[i] = 1; if ( t == 1 ) b[i] = 1; }
    ul const drop = s.draw( a.size() ); auto& x = s.coin() ? a : b; x.erase( x.begin(), x.begin() + drop ); c.label( "mutual broadcast" );
}
template<class T> static void unchanged( ctx& c, ceras::tensor<T> const& t, nd const& was, char const* what ) { expect_same( c, to_nd( t ), was, "operand", std::string( what ) + " must not be modified" ); }

template<class T> static void binary( src& s, ctx& c )
{
    static char const* const names[] = { "operator+", "add", "operator-", "minus", "elementwise_product", "hadamard_product", "elementwise_divide" };
    ul const k = s.draw( std::is_same_v<T, int> ? 6 : 7 ); ul mode = s.draw( 3 ); if ( k >= 4 && mode == 2 ) mode = 1; if ( k == 6 ) mode = 0;
    shape_t sa, sb; gen_pair( s, c, mode, sa, sb );
    nd const x = gen_t<T>( s, sa ), y = gen_t<T>( s, sb, k == 6 ); auto a = to_tensor<T>( x ), b = to_tensor<T>( y );
    c.desc << names[k] << " " << tname<T>() << " " << str( x, 12 ) << " " << str( y, 12 ); c.label( names[k] ); c.label( tname<T>() ); c.nontrivial( x.size() > 1 || y.size() > 1 );
    bool const self = sa == sb && s.chance( 1, 6 ); auto const& bb = self ? a : b; nd const& yy = self ? x : y; if ( self ) c.label( "same tensor on both sides" ); if ( self && k == 6 ) c.discard();
    ceras::tensor<T> r = k == 0 ? a + bb : k == 1 ? ceras::add( a, bb ) : k == 2 ? a - bb : k == 3 ? ceras::minus( a, bb ) : k == 4 ? ceras::elementwise_product( a, bb ) : k == 5 ? ceras::hadamard_product( a, bb ) : ceras::elementwise_divide( a, bb );
    nd const want = ref<T>( "++--**/"[k], x, yy );
    expect_close( c, to_nd( r ), want, tol<T>(), tol<T>(), std::string( names[k] ), names[k] );
    unchanged( c, a, x, "the left operand" ); unchanged( c, b, y, "the right operand" );
    // the result is independent of the operands
    for ( auto& v : r ) v = static_cast<T>( 77 );
    unchanged( c, a, x, "the left operand, when the result is written to," ); unchanged( c, b, y, "the right operand, when the result is written to," );
}
PBT_FAMILY( "binary", 12000, 120000, 200, "tensor + - element-wise product and quotient of two int, float or double tensors (equal, trailing-part or mutually broadcast shapes); non-trivial when an operand has at least 2 elements" )
{
    switch ( s.draw( 3 ) ) { case 0: return binary<double>( s, c ); case 1: return binary<float>( s, c ); default: return binary<int>( s, c ); }
}
template<class T> static void scalar( src& s, ctx& c )
{
    static char const* const names[] = { "t+k", "k+t", "t-k", "k-t", "t*k", "k*t", "t/k", "-t" };
    ul const f = s.draw( 8 ); nd const x = gen_t<T>( s, gen_shape_wide( s, 1, 5, 5, 90 ) ); auto a = to_tensor<T>( x ); T const k = static_cast<T>( gen_t<T>( s, { 1 }, f == 6 ).v[0] );
    c.desc << names[f] << " " << tname<T>() << " k=" << k << " " << str( x, 12 ); c.label( names[f] ); c.label( tname<T>() ); c.nontrivial( x.size() > 1 );
    ceras::tensor<T> r = f == 0 ? a + k : f == 1 ? k + a : f == 2 ? a - k : f == 3 ? k - a : f == 4 ? a * k : f == 5 ? k * a : f == 6 ? a / k : -a;
    nd const want = map( x, [&]( double v ) { T const t = static_cast<T>( v ); return static_cast<double>( f < 2 ? t + k : f == 2 ? t - k : f == 3 ? k - t : f < 6 ? t * k : f == 6 ? t / k : -t ); } );
    expect_close( c, to_nd( r ), want, tol<T>(), tol<T>(), names[f], names[f] ); unchanged( c, a, x, "the operand" );
    for ( auto& v : r ) v = static_cast<T>( 77 );
    unchanged( c, a, x, "the operand, when the result is written to," );
}
PBT_FAMILY( "number", 9000, 90000, 200, "+ - * / between a tensor and a number on either side, and unary minus, over int, float and double; non-trivial when the tensor has at least 2 elements" )
{
    switch ( s.draw( 3 ) ) { case 0: return scalar<double>( s, c ); case 1: return scalar<float>( s, c ); default: return scalar<int>( s, c ); }
}
template<class T> static void compound( src& s, ctx& c )
{
    static char const* const names[] = { "+=t", "-=t", "*=t", "/=t", "+=k", "-=k", "*=k", "/=k", "map", "reset", "clip", "map()" };
    ul const f = s.draw( 12 ); shape_t const sh = gen_shape_wide( s, 1, 5, 5, 90 ); nd const x = gen_t<T>( s, sh, f == 3 ), y = gen_t<T>( s, sh, f == 3 ); auto a = to_tensor<T>( x ), b = to_tensor<T>( y );
    ul const at = s.draw( a.size() ); bool const element = f >= 4 && f < 8 && s.chance( 1, 4 ) && !( f == 7 && a[at] == 0 ); // the number is an element of the tensor itself
    T const k = element ? static_cast<T>( a[at] ) : static_cast<T>( gen_t<T>( s, { 1 }, f == 7 ).v[0] ); if ( element ) c.label( "with an element of itself" ); bool const self = f < 4 && s.chance( 1, 5 );
    c.desc << names[f] << " " << tname<T>() << " k=" << k << ( self ? " self " : " " ) << str( x, 12 ) << str( y, 12 ); c.label( names[f] ); c.label( tname<T>() ); if ( self ) c.label( "with itself" ); c.nontrivial( x.size() > 1 );
    auto& bb = self ? a : b; nd const& yy = self ? x : y; nd want;
    ceras::tensor<T>* r = &a;
    T const hi = static_cast<T>( k + 3 );
    switch ( f )
    {
        case 0: r = &( a += bb ); want = ref<T>( '+', x, yy ); break;
        case 1: r = &( a -= bb ); want = ref<T>( '-', x, yy ); break;
        case 2: r = &( a *= bb ); want = ref<T>( '*', x, yy ); break;
        case 3: r = &( a /= bb ); want = ref<T>( '/', x, yy ); break;
        case 4: if ( element ) r = &( a += a[at] ); else r = &( a += k ); break;
        case 5: if ( element ) r = &( a -= a[at] ); else r = &( a -= k ); break;
        case 6: if ( element ) r = &( a *= a[at] ); else r = &( a *= k ); break;
        case 7: if ( element ) r = &( a /= a[at] ); else r = &( a /= k ); break;
        case 8: r = &a.map( [k]( T& v ) { v = v * k + k; } ); break;
        case 9: r = &a.reset( k ); break;
        case 10: ceras::clip( a, k, hi ); break;
        default: ceras::map( a, [k]( T& v ) { v = v * k + k; } );
    }
    if ( f >= 4 ) want = map( x, [&]( double v ) { T const t = static_cast<T>( v ); return static_cast<double>( f == 4 ? t + k : f == 5 ? t - k : f == 6 ? t * k : f == 7 ? t / k : f == 9 ? k : f == 10 ? std::max( k, std::min( hi, t ) ) : t * k + k ); } );
    c.require( r == &a, "returns", names[f], " must return the tensor itself" );
    expect_close( c, to_nd( a ), want, tol<T>(), tol<T>() * 4, names[f], names[f] ); if ( !self ) unchanged( c, b, y, "the right operand" );
}
PBT_FAMILY( "compound", 9000, 90000, 200, "+= -= *= /= with a tensor (also itself) or a number, map, reset and clip in place over int, float and double; non-trivial when the tensor has at least 2 elements" )
{
    switch ( s.draw( 3 ) ) { case 0: return compound<double>( s, c ); case 1: return compound<float>( s, c ); default: return compound<int>( s, c ); }
}
PBT_FAMILY( "broadcast", 5000, 50000, 200, "broadcast_shape of two shapes and broadcast_tensor to a larger shape follow numpy; non-trivial when the shapes differ" )
{
    shape_t a, b; gen_pair( s, c, 2, a, b ); c.nontrivial( a != b ); c.desc << str( a ) << " " << str( b );
    shape_t const want = broadcast_shape( a, b ), got = ceras::broadcast_shape( a, b ), rev = ceras::broadcast_shape( b, a );
    c.require( got == want && rev == want, "broadcast_shape", "broadcast_shape", str( a ), str( b ), " is ", str( got ), " / ", str( rev ), " but must be ", str( want ) );
    nd const x = gen_nd( s, a, -9, 9 ); auto t = to_tensor<double>( x ); auto r = ceras::broadcast_tensor( t, want );
    nd w{ want }; ul k = 0; each( want, [&]( shape_t const& i ) { w.v[k++] = bget( x, i ); } );
    expect_same( c, to_nd( r ), w, "broadcast_tensor", "broadcast_tensor" ); unchanged( c, t, x, "the operand" );
}
PBT_FAMILY( "laws", 4000, 40000, 200, "(a+b)-b, commutativity of + and the products, a+(-b) = a-b, k*(a+b) = k*a+k*b over broadcast pairs; non-trivial when an operand has at least 2 elements" )
{
    shape_t sa, sb; ul const mode = s.draw( 3 ); gen_pair( s, c, mode, sa, sb ); nd const x = gen_t<double>( s, sa ), y = gen_t<double>( s, sb ); auto a = to_tensor<double>( x ), b = to_tensor<double>( y ); c.nontrivial( x.size() > 1 || y.size() > 1 );
    c.desc << str( x, 12 ) << str( y, 12 );
    expect_close( c, to_nd( a + b ), to_nd( b + a ), 1e-14, 0, "commutative", "a+b and b+a" );
    expect_close( c, to_nd( a + ( -b ) ), to_nd( a - b ), 1e-14, 1e-14, "negation", "a+(-b) and a-b" );
    expect_close( c, to_nd( ( a + b ) - b ), to_nd( a + b * 0.0 ), 1e-13, 1e-13, "inverse", "(a+b)-b and a" );
    double const k = s.real( -3, 3 ); expect_close( c, to_nd( k * ( a + b ) ), to_nd( k * a + k * b ), 1e-12, 1e-12, "distributive", "k(a+b) and ka+kb" );
    if ( mode < 2 ) expect_close( c, to_nd( ceras::elementwise_product( a, b ) ), to_nd( ceras::elementwise_product( b, a ) ), 1e-14, 0, "commutative product", "a.b and b.a" );
}
CER_MAIN()
