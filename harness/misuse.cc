// Requests that cannot be met stop with a diagnostic; the nearest ones that can be met are carried out.
#include "../lib/cer.hpp"
using namespace cer;
typedef ceras::tensor<double> tn; typedef std::function<void()> act;
struct request { act go; std::string text; bool wrong; };
static volatile double sink;
template<class T> static void use( T const& t ) { double x = 0; for ( auto v : t ) x += static_cast<double>( v ); sink = x; }
template<class E> static void evaluate( E e ) { auto& ss = ceras::get_default_session<tn>(); tn const r = ss.run( e ); use( r ); }
template<class E> static void differentiate( E e, double up ) { auto& ss = ceras::get_default_session<tn>(); tn const r = ss.run( e ); tn g{ r.shape() }; for ( auto& v : g ) v = up; e.backward( g ); }
static tn some( src& s, shape_t const& sh, double lo = 0.5, double hi = 2 ) { return to_tensor<double>( gen_nd( s, sh, lo, hi ) ); }
static shape_t other_shape( src& s, shape_t sh ) // another shape: as many elements in other dimensions, or one element more along a dimension
{
    if ( s.coin() )
    {
        shape_t to = sh; ul const i = s.draw( sh.size() ), j = s.draw( sh.size() );
        if ( s.coin() ) std::swap( to[i], to[j] );
        else if ( i != j ) { to[i] *= to[j]; to[j] = 1; }
        if ( to != sh ) return to;
    }
    ul const i = s.draw( sh.size() ); sh[i] += 1; return sh;
}
static shape_t several( src& s, ul lo, ul hi ) { shape_t sh = gen_shape( s, lo, hi, 5, 60 ); for ( auto& d : sh ) d = std::max<ul>( d, 2 ); return sh; }
static double bad_number( src& s ) { return s.coin() ? std::numeric_limits<double>::quiet_NaN() : -std::numeric_limits<double>::quiet_NaN(); }
static tn spoiled( src& s, shape_t const& sh, bool wrong ) { tn t = some( s, sh ); if ( wrong ) t[s.draw( t.size() )] = bad_number( s ); return t; }
static request check( src& s, bool w, std::string const& text, act go ) { (void)s; return { go, text, w }; }

typedef request ( *maker )( src&, bool );
#define MK( ... ) []( src& s, bool w ) -> request { (void)s; (void)w; __VA_ARGS__ }
#define GO( text, ... ) return check( s, w, text, [=]() mutable { __VA_ARGS__; } );
#define T2( op ) { "tensor " #op, MK( shape_t const sh = several( s, 1, 3 ); tn a = some( s, sh ), b = some( s, w ? other_shape( s, sh ) : sh ); GO( str( sh ) + " " #op " " + str( b.shape() ), a op b; use( a ) ) ) }
struct scenario { char const* name; maker mk; };
static std::vector<ul> const& pads() { static std::vector<ul> const p = { 1, 2, 3 }; return p; }
static std::vector<scenario> const& tensors()
{
    static std::vector<scenario> const t = {
        { "tensor from a list of another size", MK( shape_t const sh = w ? s.pick( std::vector<shape_t>{ { 5 }, { 2, 3 }, { 3 }, { 1, 2 }, { 1, 1, 1 }, { 2, 2, 2 }, { 8 }, { 4, 4 } } ) : s.pick( std::vector<shape_t>{ { 4 }, { 2, 2 }, { 1, 4 }, { 4, 1, 1 }, { 2, 1, 2 } } ); GO( str( sh ) + " from 4 values", tn t( sh, { 1.0, 2.0, 3.0, 4.0 } ); use( t ) ) ) },
        T2( += ), T2( -= ), T2( *= ), T2( /= ),
        { "tensor + tensor", MK( shape_t sh = several( s, 1, 3 ), to = sh; ul const i = s.draw( sh.size() ); to[i] += w ? 1 : 0; if ( !w && s.coin() ) to[i] = 1; tn a = some( s, sh ); tn b = some( s, to ); GO( str( sh ) + " + " + str( to ), use( a + b ) ) ) },
        { "tensor - tensor", MK( shape_t sh = several( s, 1, 3 ), to = sh; ul const i = s.draw( sh.size() ); to[i] += w ? 1 : 0; if ( !w && s.coin() ) to[i] = 1; tn a = some( s, sh ); tn b = some( s, to ); GO( str( sh ) + " - " + str( to ), use( a - b ) ) ) },
        { "elementwise_product", MK( ul const n = s.range( 2, 30 ), m = w ? n + 1 + s.draw( n - 1 ) : n * s.range( 1, 3 ); tn a = some( s, { n } ); tn b = some( s, { m } ); bool const turn = s.coin(); GO( std::to_string( n ) + " and " + std::to_string( m ), use( turn ? elementwise_product( b, a ) : elementwise_product( a, b ) ) ) ) },
        { "elementwise_divide", MK( shape_t const sh = several( s, 1, 3 ); tn a = some( s, sh ); tn b = some( s, w ? other_shape( s, sh ) : sh ); bool const turn = s.coin(); GO( str( sh ) + " and " + str( b.shape() ), use( turn ? elementwise_divide( b, a ) : elementwise_divide( a, b ) ) ) ) },
        { "matrix product of tensors", MK( ul const m = s.range( 1, 6 ), k = s.range( 1, 6 ), n = s.range( 1, 6 ); ul l = k; if ( w ) while ( l == k ) l = s.range( 1, 7 ); tn a = some( s, { m, k } ); tn b = some( s, { l, n } ); GO( str( a.shape() ) + " * " + str( b.shape() ), use( a * b ) ) ) },
        { "matrix product of tensors of 3 dimensions", MK( ul const k = s.range( 2, 4 ); shape_t sh = w ? shape_t{ k, k, k } : shape_t{ k, k }; tn a = some( s, sh ); tn b = some( s, { k, k } ); bool const turn = s.coin(); GO( str( sh ), use( turn ? b * a : a * b ) ) ) },
        { "as_scalar", MK( ul const n = w ? s.range( 2, 5 ) : 1; tn a = some( s, { n, 1 } ); GO( std::to_string( n ), sink = a.as_scalar() ) ) },
        { "squeeze of an axis", MK( shape_t sh = several( s, 1, 3 ); ul const i = s.draw( sh.size() + 1 ); sh.insert( sh.begin() + i, 1 ); ul ax = i; if ( w ) while ( ax == i ) ax = s.draw( sh.size() + 2 ); tn a = some( s, sh ); GO( str( sh ) + " axis " + std::to_string( ax ), use( squeeze( a, static_cast<int>( ax ) ) ) ) ) },
        { "concatenate", MK( shape_t const sh = several( s, 2, 3 ); ul const ax = s.draw( sh.size() ); shape_t to = sh; to[ax] = s.range( 1, 5 ); ul a2 = ax; if ( w ) { if ( s.coin() ) a2 = sh.size() + s.draw( 3 ); else to[( ax + 1 ) % sh.size()] += 1; } tn a = some( s, sh ); tn b = some( s, to ); GO( str( sh ) + " and " + str( to ) + " axis " + std::to_string( a2 ), use( concatenate( a, b, a2 ) ) ) ) },
        { "repmat", MK( shape_t sh = several( s, 2, 2 ); if ( w ) { if ( s.coin() ) sh.push_back( 2 ); else sh.pop_back(); } tn a = some( s, sh ); GO( str( sh ), use( repmat( a, 2, 3 ) ) ) ) },
        { "max, min, sum, mean of nothing", MK( tn a = w ? tn{} : some( s, { 3 } ); ul const k = s.draw( 5 ); GO( std::to_string( k ), sink = k == 0 ? max( a ) : k == 1 ? min( a ) : k == 2 ? sum( a ) : k == 3 ? mean( a ) : sum( a ) ) ) },
        { "softmax of nothing", MK( tn a = w ? tn{} : some( s, { 3 } ); GO( "", use( softmax( a ) ) ) ) },
        { "reduction along an axis", MK( shape_t const sh = several( s, 1, 3 ); ul const ax = w ? sh.size() + s.draw( 3 ) : s.draw( sh.size() ), k = s.draw( 4 ); bool const keep = s.coin(); tn a = some( s, sh ); GO( str( sh ) + " axis " + std::to_string( ax ), use( k == 0 ? max( a, ax, keep ) : k == 1 ? min( a, ax, keep ) : k == 2 ? sum( a, ax, keep ) : mean( a, ax, keep ) ) ) ) },
        { "linspace", MK( ul const n = w ? s.draw( 2 ) : s.range( 2, 9 ); bool const end = s.coin(); GO( std::to_string( n ), use( ceras::linspace<double>( 0., 1., n, end ) ) ) ) },
        { "reading a tensor whose text lacks values or has more", MK( ul n = s.range( 2, 9 ), m = n; if ( w ) m = s.coin() ? n - 1 : n + 1; std::string text = std::to_string( n ) + "\n"; for ( ul i = 0; i < m; ++i ) text += "1 "; text += "\n"; GO( text, std::stringstream ss( text ); tn t; read_tensor( ss, t ); use( t ) ) ) },
        { "loading a tensor from a missing file", MK( if ( !w ) save_tensor( "there.txt", some( s, { 3 } ) ); std::string const f = w ? "missing.txt" : "there.txt"; GO( f, tn t = ceras::load_tensor<double>( f ); use( t ) ) ) },
        { "flip", MK( shape_t const sh = w && s.coin() ? shape_t{ 2, 2, 2, 2, 2 } : several( s, 1, 3 ); int ax = static_cast<int>( s.draw( sh.size() ) ); if ( w && sh.size() < 5 ) ax = static_cast<int>( sh.size() + s.draw( 3 ) ); tn a = some( s, sh ); GO( str( sh ) + " axis " + std::to_string( ax ), tn b; flip( a, ax, b ); use( b ) ) ) },
    };
    return t;
}
static void run_request( src& s, ctx& c, std::vector<scenario> const& all )
{
    scenario const& k = s.pick( all ); bool const wrong = s.chance( 2, 3 ); request const r = k.mk( s, wrong ); c.label( k.name ); c.desc << k.name << ( wrong ? ", which cannot be done: " : ", which can be done: " ) << r.text; c.flush_desc(); c.nontrivial( wrong );
    auto const e = in_child( r.go );
    if ( wrong ) c.require( e == ending::rejected, std::string( k.name ) + ":accepted", k.name, " ", r.text, ": this cannot be done, but the program ", e == ending::done ? "goes on" : e == ending::hung ? "hangs" : "crashes" );
    else c.require( e == ending::done, std::string( k.name ) + ":refused", k.name, " ", r.text, ": this can be done, but the program ", e == ending::rejected ? "stops" : e == ending::hung ? "hangs" : "crashes" );
}
PBT_FAMILY( "tensors", 1500, 12000, 40, "a tensor function or operator with operands whose sizes, dimensions or axis fit or do not fit, run in a child process: the ones that do not fit end in an assertion or exception, the others are carried out; non-trivial when they do not fit" ) { run_request( s, c, tensors() ); }

#define NAN_IN( name, ex ) { name " of a tensor with nan", MK( var<double> a{ spoiled( s, several( s, 1, 3 ), w ) }; GO( str( a.data().shape() ), evaluate( ex ) ) ) }
#define NAN_GRAD( name, ex ) { name " with a nan gradient", MK( var<double> a{ some( s, several( s, 1, 3 ) ) }; double const up = w ? bad_number( s ) : 1.5; GO( str( a.data().shape() ), differentiate( ex, up ) ) ) }
static shape_t image( src& s, bool w ) { shape_t sh = { s.range( 1, 2 ), 2 * s.range( 1, 3 ), 2 * s.range( 1, 3 ), s.range( 1, 2 ) }; if ( w ) { if ( s.coin() ) sh.erase( sh.begin() ); else sh.push_back( 2 ); } return sh; }
static std::vector<ul> paddings( src& s, bool w ) { ul const n = s.coin() ? 4 : s.range( 1, 2 ); std::vector<ul> p( n ); for ( auto& v : p ) v = s.pick( pads() ); if ( w ) { if ( s.coin() ) p[s.draw( n )] = 0; else p.resize( s.pick( std::vector<ul>{ 0, 3, 5, 6 } ), 1 ); } return p; }
static std::vector<scenario> const& operators()
{
    static std::vector<scenario> const t = {
        { "plus of expressions", MK( shape_t sh = several( s, 1, 3 ), to = sh; to[s.draw( to.size() )] += w ? 1 : 0; var<double> a{ some( s, sh ) }, b{ some( s, to ) }; GO( str( sh ) + " + " + str( to ), evaluate( a + b ) ) ) },
        { "minus of expressions", MK( shape_t sh = several( s, 1, 3 ), to = sh; to[s.draw( to.size() )] += w ? 1 : 0; var<double> a{ some( s, sh ) }, b{ some( s, to ) }; GO( str( sh ) + " - " + str( to ), evaluate( a - b ) ) ) },
        { "maximum", MK( shape_t const sh = several( s, 1, 3 ); var<double> a{ some( s, sh ) }, b{ some( s, w ? other_shape( s, sh ) : sh ) }; GO( str( sh ), evaluate( ceras::maximum( a, b ) ) ) ) },
        { "minimum", MK( shape_t const sh = several( s, 1, 3 ); var<double> a{ some( s, sh ) }, b{ some( s, w ? other_shape( s, sh ) : sh ) }; GO( str( sh ), evaluate( ceras::minimum( a, b ) ) ) ) },
        { "atan2", MK( shape_t const sh = several( s, 1, 3 ); var<double> a{ some( s, sh ) }, b{ some( s, w ? other_shape( s, sh ) : sh ) }; GO( str( sh ), evaluate( ceras::atan2( a, b ) ) ) ) },
        { "equal", MK( shape_t const sh = several( s, 1, 3 ); var<double> a{ some( s, sh ) }, b{ some( s, w ? other_shape( s, sh ) : sh ) }; GO( str( sh ), evaluate( ceras::equal( a, b, 0.5 ) ) ) ) },
        { "matrix product", MK( ul const m = s.range( 1, 6 ), k = s.range( 1, 6 ), n = s.range( 1, 6 ); ul l = k; if ( w ) while ( l == k ) l = s.range( 1, 7 ); var<double> a{ some( s, { m, k } ) }, b{ some( s, { l, n } ) }; GO( str( a.data().shape() ) + " * " + str( b.data().shape() ), evaluate( a * b ) ) ) },
        { "matrix product of 3 dimensions", MK( ul const k = s.range( 2, 4 ); var<double> a{ some( s, w ? shape_t{ k, k, k } : shape_t{ k, k } ) }, b{ some( s, { k, k } ) }; bool const turn = s.coin(); GO( std::to_string( k ), if ( turn ) evaluate( b * a ); else evaluate( a * b ) ) ) },
        { "transpose", MK( var<double> a{ some( s, w ? several( s, 3, 4 ) : several( s, 2, 2 ) ) }; GO( str( a.data().shape() ), evaluate( ceras::transpose( a ) ) ) ) },
        { "reshape", MK( shape_t const sh = several( s, 2, 3 ); shape_t to( sh.begin() + 1, sh.end() ); bool const whole = s.coin(); if ( w ) to.assign( 1, prod( sh ) - 1 ); else if ( whole ) to = sh; var<double> a{ some( s, sh ) }; GO( str( sh ) + " to " + str( to ) + ( whole ? " without batches" : "" ), evaluate( ceras::reshape( to, !whole )( a ) ) ) ) },
        { "reshape without batches to a part", MK( shape_t const sh = several( s, 2, 3 ); shape_t to( sh.begin() + ( w ? 1 : 0 ), sh.end() ); var<double> a{ some( s, sh ) }; GO( str( sh ) + " to " + str( to ), evaluate( ceras::reshape( to, false )( a ) ) ) ) },
        { "flatten", MK( var<double> a{ some( s, w ? several( s, 1, 1 ) : several( s, 2, 4 ) ) }; GO( str( a.data().shape() ), evaluate( ceras::flatten( a ) ) ) ) },
        { "repeat", MK( var<double> a{ some( s, several( s, 1, 3 ) ) }; ul const n = w ? 0 : s.range( 1, 3 ); GO( std::to_string( n ), evaluate( ceras::repeat( n )( a ) ) ) ) },
        { "max_pooling_2d stride", MK( var<double> a{ some( s, image( s, false ) ) }; ul const st = w ? s.draw( 2 ) : 2; GO( std::to_string( st ), evaluate( ceras::max_pooling_2d( st )( a ) ) ) ) },
        { "average_pooling_2d stride", MK( var<double> a{ some( s, image( s, false ) ) }; ul const st = w ? s.draw( 2 ) : 2; GO( std::to_string( st ), evaluate( ceras::average_pooling_2d( st )( a ) ) ) ) },
        { "up_sampling_2d stride", MK( var<double> a{ some( s, image( s, false ) ) }; ul const st = w ? s.draw( 2 ) : s.range( 2, 3 ); GO( std::to_string( st ), evaluate( ceras::up_sampling_2d( st )( a ) ) ) ) },
        { "max_pooling_2d dimensions", MK( var<double> a{ some( s, image( s, w ) ) }; GO( str( a.data().shape() ), evaluate( ceras::max_pooling_2d( 2 )( a ) ) ) ) },
        { "average_pooling_2d dimensions", MK( var<double> a{ some( s, image( s, w ) ) }; GO( str( a.data().shape() ), evaluate( ceras::average_pooling_2d( 2 )( a ) ) ) ) },
        { "up_sampling_2d dimensions", MK( var<double> a{ some( s, image( s, w ) ) }; GO( str( a.data().shape() ), evaluate( ceras::up_sampling_2d( 2 )( a ) ) ) ) },
        { "zero_padding_2d paddings", MK( var<double> a{ some( s, image( s, false ) ) }; auto const p = paddings( s, w ); GO( str( p ), evaluate( ceras::zero_padding_2d( p )( a ) ) ) ) },
        { "zero_padding_2d dimensions", MK( var<double> a{ some( s, image( s, w ) ) }; GO( str( a.data().shape() ), evaluate( ceras::zero_padding_2d( { 1 } )( a ) ) ) ) },
        { "cropping_2d paddings", MK( var<double> a{ some( s, { 2, 8, 9, 2 } ) }; auto const p = paddings( s, w ); GO( str( p ), evaluate( ceras::cropping_2d( p )( a ) ) ) ) },
        { "cropping_2d dimensions", MK( shape_t sh = { 2, 5, 6, 2 }; if ( w ) { if ( s.coin() ) sh.erase( sh.begin() ); else sh.push_back( 2 ); } var<double> a{ some( s, sh ) }; GO( str( sh ), evaluate( ceras::cropping_2d( { 1 } )( a ) ) ) ) },
        { "cropping_2d of everything", MK( ul const t = s.range( 1, 4 ), b = s.range( 1, 4 ), l = s.range( 1, 4 ), r = s.range( 1, 4 ); ul row = t + b + s.range( 1, 3 ), col = l + r + s.range( 1, 3 ); if ( w ) { ul const k = s.draw( 3 ); if ( k != 0 ) row = s.range( 1, t + b ); if ( k != 1 ) col = s.range( 1, l + r ); } var<double> a{ some( s, { 1, row, col, 2 } ) }; std::vector<ul> const p = { t, b, l, r }; GO( str( a.data().shape() ) + " by " + str( p ), evaluate( ceras::cropping_2d( p )( a ) ) ) ) },
        { "drop_out rate", MK( var<double> a{ some( s, several( s, 1, 3 ) ) }; double const f = w ? s.pick( std::vector<double>{ 0, 1, -0.25, 1.5, -3, 40 } ) : s.uniform( 0.05, 0.95 ); GO( std::to_string( f ), evaluate( ceras::drop_out( f )( a ) ) ) ) },
        { "leaky_relu factor", MK( var<double> a{ some( s, several( s, 1, 3 ) ) }; double const f = w ? s.pick( std::vector<double>{ 0, 1, -0.25, 1.5, -3, 40 } ) : s.uniform( 0.05, 0.95 ); GO( std::to_string( f ), evaluate( ceras::leaky_relu( f )( a ) ) ) ) },
        { "concatenate of expressions", MK( shape_t const sh = several( s, 2, 3 ); ul const ax = s.draw( sh.size() ); shape_t to = sh; to[ax] = s.range( 1, 5 ); if ( w ) to[( ax + 1 ) % sh.size()] += 1; var<double> a{ some( s, sh ) }, b{ some( s, to ) }; GO( str( sh ) + " and " + str( to ) + " axis " + std::to_string( ax ), evaluate( ceras::concatenate( static_cast<int>( ax ) )( a, b ) ) ) ) },
        { "img2col dimensions", MK( var<double> a{ some( s, w ? shape_t{ 4, 4, 2 } : shape_t{ 1, 4, 4, 2 } ) }; GO( str( a.data().shape() ), evaluate( ceras::img2col( 2 )( a ) ) ) ) },
        { "exponential of values too large", MK( shape_t const sh = several( s, 1, 3 ); tn t = some( s, sh ); if ( w ) t[s.draw( t.size() )] = s.uniform( 710, 5000 ); var<double> a{ t }; GO( str( sh ), evaluate( ceras::exponential( a ) ) ) ) },
        { "an unbound place holder", MK( ceras::place_holder<tn> p; if ( !w ) p.bind( some( s, { 2, 3 } ) ); GO( "", evaluate( p + p ) ) ) },
        { "gradient_descent with a nan gradient", MK( var<double> a{ spoiled( s, { 2, 3 }, false ) }; tn k = some( s, { 2, 3 } ); if ( w ) k[s.draw( 6 )] = bad_number( s ); ceras::constant<tn> q{ k }; GO( "", auto l = ceras::hadamard_product( a, q ); auto m = ceras::identity( l ); ceras::gradient_descent o{ m, 1, 0.1 }; auto& ss = ceras::get_default_session<tn>(); ss.run( m ); o.forward(); use( a.data() ) ) ) },
        { "restoring a session from a missing file", MK( if ( !w ) { var<double> a{ some( s, { 2 } ) }; auto& ss = ceras::get_default_session<tn>(); ss.save( "session.bin" ); GO( "", ceras::get_default_session<tn>().restore( "session.bin" ) ) } GO( "", ceras::get_default_session<tn>().restore( "no-such-session.bin" ) ) ) },
        { "saving a session where nothing can be written", MK( auto keep = std::make_shared<var<double>>( some( s, { 2 } ) ); std::string const f = w ? "no-such-directory/session.bin" : "fine.bin"; GO( f, ceras::get_default_session<tn>().save( f ); use( keep->data() ) ) ) },
        { "restoring variables the session does not have", MK( { auto& ss = ceras::get_default_session<tn>(); if ( w ) { { var<double> a{ some( s, { 2 } ) }; ss.save( "other.bin" ); } fresh_session<double>(); } else { ss.save( "other.bin" ); } } GO( "", ceras::get_default_session<tn>().restore( "other.bin" ) ) ) },
        NAN_IN( "plus", a + a ), NAN_IN( "square", ceras::square( a ) ), NAN_IN( "sum_reduce", ceras::sum_reduce( a ) ), NAN_IN( "mean_reduce", ceras::mean_reduce( a ) ), NAN_IN( "clip", ceras::clip( 0.1, 1.0 )( a ) ), NAN_IN( "negative", ceras::negative( a ) ),
        NAN_GRAD( "plus", a + a ), NAN_GRAD( "square", ceras::square( a ) ), NAN_GRAD( "sum_reduce", ceras::sum_reduce( a ) ), NAN_GRAD( "mean_reduce", ceras::mean_reduce( a ) ), NAN_GRAD( "clip", ceras::clip( 0.1, 1.0 )( a ) ), NAN_GRAD( "softmax", ceras::softmax( a ) ), NAN_GRAD( "negative", ceras::negative( a ) ),
    };
    return t;
}
PBT_FAMILY( "operators", 2200, 16000, 40, "an operator, optimizer or session request with operands, options or values that fit or do not fit, run in a child process: the ones that do not fit end in an assertion or exception, the others are carried out; non-trivial when they do not fit" ) { run_request( s, c, operators() ); }

typedef ceras::tensor<float> tf;
template<class E> static void evaluate_float( E e ) { auto& ss = ceras::get_default_session<tf>(); tf const r = ss.run( e ); use( r ); }
template<class L> static void layer_on( L l, shape_t const& in ) { ceras::place_holder<tf> p{ shape_t( in.begin() + 1, in.end() ) }; tf t{ in }; for ( auto& v : t ) v = 0.5f; auto y = l( p ); auto& ss = ceras::get_default_session<tf>(); ss.bind( p, t ); evaluate_float( y ); }
template<class O> static void batch_size( O make ) { var<float> a{ ceras::ones<float>( { 2, 3 } ) }; auto l = ceras::mean_reduce( ceras::square( a ) ); auto o = make( l ); auto& ss = ceras::get_default_session<tf>(); ss.run( l ); o.forward(); use( a.data() ); }
#define BATCH( name ) { #name " batch size", MK( ul const n = w ? 0 : s.range( 1, 5 ); GO( std::to_string( n ), batch_size( [=]( auto& l ) { return ceras::name<std::remove_cvref_t<decltype( l )>, float>{ l, n, 0.1f }; } ) ) ) }
static std::vector<scenario> const& models()
{
    static std::vector<scenario> const t = {
        { "Conv2D channels", MK( ul const n = w ? 0 : s.range( 1, 3 ); GO( std::to_string( n ), layer_on( ceras::Conv2D( n, { 3, 3 }, "valid" ), { 1, 5, 5, 2 } ) ) ) },
        { "Conv2D kernel size", MK( std::vector<ul> k( w ? 0 : s.range( 1, 2 ), 3 ); GO( str( k ), layer_on( ceras::Conv2D( 2, k, "valid" ), { 1, 5, 5, 2 } ) ) ) },
        { "Conv2D strides", MK( std::vector<ul> k( w ? 0 : s.range( 1, 2 ), 1 ); GO( str( k ), layer_on( ceras::Conv2D( 2, { 3, 3 }, "valid", k ), { 1, 5, 5, 2 } ) ) ) },
        { "Conv2D dimensions", MK( GO( "", layer_on( ceras::Conv2D( 2, { 3, 3 }, "valid" ), w ? shape_t{ 1, 5, 5 } : shape_t{ 1, 5, 5, 2 } ) ) ) },
        { "Conv2DTranspose channels", MK( ul const n = w ? 0 : s.range( 1, 3 ); GO( std::to_string( n ), layer_on( ceras::Conv2DTranspose( n, { 3, 3 }, "valid" ), { 1, 5, 5, 2 } ) ) ) },
        { "Conv2DTranspose kernel size", MK( std::vector<ul> k( w ? 0 : s.range( 1, 2 ), 3 ); GO( str( k ), layer_on( ceras::Conv2DTranspose( 2, k, "valid" ), { 1, 5, 5, 2 } ) ) ) },
        { "Conv2DTranspose strides", MK( std::vector<ul> k( w ? 0 : s.range( 1, 2 ), 1 ); GO( str( k ), layer_on( ceras::Conv2DTranspose( 2, { 3, 3 }, "valid", k ), { 1, 5, 5, 2 } ) ) ) },
        { "Dropout rate", MK( float const f = w ? s.pick( std::vector<float>{ 0, 1, -0.25f, 1.5f } ) : static_cast<float>( s.uniform( 0.05, 0.95 ) ); GO( std::to_string( f ), layer_on( ceras::Dropout( f ), { 2, 5 } ) ) ) },
        { "LeakyReLU factor", MK( float const f = w ? s.pick( std::vector<float>{ 0, 1, -0.25f, 1.5f } ) : static_cast<float>( s.uniform( 0.05, 0.95 ) ); GO( std::to_string( f ), layer_on( ceras::LeakyReLU( f ), { 2, 5 } ) ) ) },
        { "MaxPooling2D stride", MK( ul const n = w ? s.draw( 2 ) : 2; GO( std::to_string( n ), layer_on( ceras::MaxPooling2D( n ), { 1, 4, 4, 2 } ) ) ) },
        BATCH( sgd ), BATCH( adagrad ), BATCH( rmsprop ), BATCH( adadelta ), BATCH( adam ),
    };
    return t;
}
PBT_FAMILY( "models", 600, 4000, 30, "layers and optimizers made with options that can or cannot be met, run in a child process: the latter end in an assertion or exception, the others are carried out; non-trivial when they cannot be met" ) { run_request( s, c, models() ); }
CER_MAIN()
