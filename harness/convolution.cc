// img2col, conv2d, general_conv2d and conv2d_transpose against direct loops.
#include "../lib/cer.hpp"
using namespace cer;

struct geo { ul kr, kc, pr = 0, pc = 0, sr = 1, sc = 1, dr = 1, dc = 1; ul er() const { return dr * ( kr - 1 ) + 1; } ul ec() const { return dc * ( kc - 1 ) + 1; } };
static ul out_extent( ul n, ul pad, ul ext, ul stride ) { return ( n + 2 * pad - ext ) / stride + 1; }
static double get( nd const& x, ul b, long r, long q, ul ch ) { return r < 0 || q < 0 || r >= static_cast<long>( x.shape[1] ) || q >= static_cast<long>( x.shape[2] ) ? 0. : x.v[( ( b * x.shape[1] + r ) * x.shape[2] + q ) * x.shape[3] + ch]; }

// cross-correlation of x [B,R,C,CH] with w [N,kr,kc,CH]
static nd conv( nd const& x, nd const& w, geo const& g )
{
    ul const R = out_extent( x.shape[1], g.pr, g.er(), g.sr ), C = out_extent( x.shape[2], g.pc, g.ec(), g.sc ), CH = x.shape[3], N = w.shape[0];
    nd r{ { x.shape[0], R, C, N } }; ul k = 0;
    for ( ul b = 0; b < x.shape[0]; ++b ) for ( ul i = 0; i < R; ++i ) for ( ul j = 0; j < C; ++j ) for ( ul n = 0; n < N; ++n )
    {
        double s = 0;
        for ( ul p = 0; p < g.kr; ++p ) for ( ul q = 0; q < g.kc; ++q ) for ( ul ch = 0; ch < CH; ++ch )
            s += get( x, b, static_cast<long>( i * g.sr + p * g.dr ) - static_cast<long>( g.pr ), static_cast<long>( j * g.sc + q * g.dc ) - static_cast<long>( g.pc ), ch ) * w.v[( ( n * g.kr + p ) * g.kc + q ) * CH + ch];
        r.v[k++] = s;
    }
    return r;
}
// the matrix of all patches: row (p,q,ch), column (b,i,j)
static nd columns( nd const& x, geo const& g )
{
    ul const R = out_extent( x.shape[1], g.pr, g.er(), g.sr ), C = out_extent( x.shape[2], g.pc, g.ec(), g.sc ), CH = x.shape[3], B = x.shape[0];
    nd r{ { g.kr * g.kc * CH, B * R * C } }; ul k = 0;
    for ( ul p = 0; p < g.kr; ++p ) for ( ul q = 0; q < g.kc; ++q ) for ( ul ch = 0; ch < CH; ++ch ) for ( ul b = 0; b < B; ++b ) for ( ul i = 0; i < R; ++i ) for ( ul j = 0; j < C; ++j )
        r.v[k++] = get( x, b, static_cast<long>( i * g.sr + p * g.dr ) - static_cast<long>( g.pr ), static_cast<long>( j * g.sc + q * g.dc ) - static_cast<long>( g.pc ), ch );
    return r;
}
static std::string str_geo( geo const& g ) { std::ostringstream o; o << " kernel " << g.kr << "x" << g.kc << " padding " << g.pr << "," << g.pc << " stride " << g.sr << "," << g.sc << " dilation " << g.dr << "," << g.dc; return o.str(); }
static ul small( src& s, ul mx ) { return 1 + s.draw( mx ); }

PBT_FAMILY( "img2col", 1500, 15000, 40, "all patches of a padded, strided, dilated image as columns, evaluated on two inputs of different shapes; non-trivial when there are at least 2 patches and a kernel larger than 1x1" )
{
    geo g; g.kr = small( s, 3 ); g.kc = small( s, 3 ); g.pr = s.draw( 3 ); g.pc = s.draw( 3 ); g.sr = small( s, 3 ); g.sc = small( s, 3 ); g.dr = small( s, 2 ); g.dc = small( s, 2 );
    auto const image = [&]() { return shape_t{ small( s, 2 ), g.er() + s.draw( 4 ), g.ec() + s.draw( 4 ), small( s, 3 ) }; };
    shape_t const sh = image(); nd const x = gen_nd( s, sh, -5, 5 ); c.desc << "img2col" << str_geo( g ); c.nontrivial( g.kr * g.kc > 1 && columns( x, g ).shape[1] > 1 );
    ref_t f = [g]( std::vector<nd> const& v ) { return columns( v[0], g ); }; opts o; o.name = "img2col"; o.ftol = o.fatol = 0;
    var<double> a{ to_tensor<double>( x ) };
    auto make = ceras::img2col( g.kr, g.kc, g.pr, g.pc, g.sr, g.sc, g.dr, g.dc );
    { auto ex = make( a ); check_erased<double>( s, c, erase<double>( ex ), { &a }, f, o ); }
    { // a place holder bound to images of other shapes
        ceras::place_holder<ceras::tensor<double>> ph; auto ex = make( ph ); auto& ss = ceras::get_default_session<ceras::tensor<double>>();
        shape_t p = image(), q = s.coin() ? shape_t{ p[0], p[2], p[1], p[3] } : image(); if ( q[1] < g.er() || q[2] < g.ec() ) q = image();
        for ( auto const& t : { p, q, p } ) { nd const y = gen_nd( s, t, -5, 5 ); ss.bind( ph, to_tensor<double>( y ) ); expect_same( c, run<double>( ex ), columns( y, g ), "img2col:other-shape", "img2col of an input of shape " + str( t ) ); }
    }
    if ( s.chance( 1, 4 ) && g.kr == g.kc ) { geo h; h.kr = h.kc = g.kr; auto ex = ceras::img2col( h.kr )( a ); c.label( "square kernel form" ); if ( sh[1] >= h.er() && sh[2] >= h.ec() ) check_erased<double>( s, c, erase<double>( ex ), { &a }, [h]( std::vector<nd> const& v ) { return columns( v[0], h ); }, o ); }
}
static geo gen_conv( src& s, bool same, bool square_stride_ok = true )
{
    geo g; g.kr = small( s, 3 ); g.kc = small( s, 3 ); g.sr = small( s, 3 ); g.sc = small( s, 3 ); if ( s.chance( 1, 3 ) ) { g.dr = small( s, 2 ); g.dc = small( s, 2 ); }
    if ( !same ) return g;
    auto const pad = [&]( ul k, ul ext, ul& st ) { if ( ( ext > st ? ext - st : 0 ) % 2 ) { st = ext % 2 ? 1 : 2; } return ext > st ? ( ext - st ) / 2 : 0; };
    g.pr = pad( g.kr, g.er(), g.sr ); g.pc = pad( g.kc, g.ec(), g.sc );
    return g;
}
PBT_FAMILY( "conv", 2000, 20000, 40, "conv2d and general_conv2d, valid and same padding, against direct cross-correlation, value and both gradients; non-trivial when the kernel is larger than 1x1 or there are several channels" )
{
    bool const general = s.coin(), same = s.coin(); geo const g = gen_conv( s, same );
    shape_t sh = { small( s, 2 ), g.er() + s.draw( 4 ), g.ec() + s.draw( 4 ), small( s, 3 ) };
    if ( same && s.coin() ) { sh[1] = small( s, 5 ); sh[2] = small( s, 5 ); if ( sh[1] + 2 * g.pr < g.er() ) sh[1] = g.er(); if ( sh[2] + 2 * g.pc < g.ec() ) sh[2] = g.ec(); }
    shape_t const ws = { small( s, 3 ), g.kr, g.kc, sh[3] };
    var<double> x{ to_tensor<double>( gen_nd( s, sh, -3, 3 ) ) }, w{ to_tensor<double>( gen_nd( s, ws, -3, 3 ) ) }; opts o; o.name = general ? "general_conv2d" : "conv2d"; o.name += same ? " same" : " valid"; c.label( o.name ); c.desc << o.name << str_geo( g );
    c.nontrivial( g.kr * g.kc > 1 || sh[3] > 1 );
    ref_t f = [g]( std::vector<nd> const& v ) { return conv( v[0], v[1], g ); }; std::string const pad = same ? "same" : "valid";
    auto const go = [&]( auto ex ) { check_erased<double>( s, c, erase<double>( ex ), { &x, &w }, f, o ); };
    if ( general ) go( ceras::general_conv2d( g.sr, g.sc, g.dr, g.dc, pad )( x, w ) ); else go( ceras::conv2d( sh[1], sh[2], g.sr, g.sc, g.dr, g.dc, pad )( x, w ) );
    if ( same && sh[1] % g.sr == 0 && sh[2] % g.sc == 0 && g.er() >= g.sr && g.ec() >= g.sc ) { nd const y = conv( to_nd( x.data() ), to_nd( w.data() ), g ); c.require( y.shape[1] * g.sr == sh[1] && y.shape[2] * g.sc == sh[2], "same:extent", "same padding must give extents ", sh[1] / g.sr, " x ", sh[2] / g.sc, " but gives ", str( y.shape ) ); c.label( "same padding keeps the extents" ); }
}
PBT_FAMILY( "transpose", 1500, 15000, 40, "conv2d_transpose with valid padding is the adjoint of conv2d, and with same padding a convolution of the dilated input; value and both gradients; non-trivial when the kernel is larger than 1x1" )
{
    bool const same = s.chance( 1, 3 ); geo g; g.kr = same ? 1 + 2 * s.draw( 2 ) : small( s, 3 ); g.kc = same ? 1 + 2 * s.draw( 2 ) : small( s, 3 ); g.sr = small( s, 3 ); g.sc = small( s, 3 );
    ul const CH = small( s, 3 ), N = small( s, 3 ), R = small( s, 3 ), C = small( s, 3 ), B = small( s, 2 );
    nd const xv = gen_nd( s, { B, R, C, CH }, -3, 3 ), wv = gen_nd( s, { N, g.kr, g.kc, CH }, -3, 3 ); var<double> x{ to_tensor<double>( xv ) }, w{ to_tensor<double>( wv ) }; opts o; o.name = same ? "conv2d_transpose same" : "conv2d_transpose valid"; c.label( o.name ); c.desc << o.name << str_geo( g ); c.nontrivial( g.kr * g.kc > 1 );
    if ( CH > 1 ) c.label( "several channels" ); if ( g.sr > 1 || g.sc > 1 ) c.label( "strided" );
    ref_t const f = [=]( std::vector<nd> const& v )
    { // every input element adds a scaled copy of the kernel to the output at its strided position
        long const offr = same ? static_cast<long>( g.kr - 1 ) / 2 : 0, offc = same ? static_cast<long>( g.kc - 1 ) / 2 : 0;
        nd r{ { B, same ? R * g.sr : ( R - 1 ) * g.sr + g.kr, same ? C * g.sc : ( C - 1 ) * g.sc + g.kc, N } };
        for ( ul b = 0; b < B; ++b ) for ( ul i = 0; i < R; ++i ) for ( ul j = 0; j < C; ++j ) for ( ul ch = 0; ch < CH; ++ch ) for ( ul n = 0; n < N; ++n ) for ( ul p = 0; p < g.kr; ++p ) for ( ul q = 0; q < g.kc; ++q )
        {
            long const a = static_cast<long>( i * g.sr + p ) - offr, d = static_cast<long>( j * g.sc + q ) - offc;
            if ( a < 0 || d < 0 || a >= static_cast<long>( r.shape[1] ) || d >= static_cast<long>( r.shape[2] ) ) continue;
            r.at( { b, ul( a ), ul( d ), n } ) += v[0].at( { b, i, j, ch } ) * v[1].at( { n, p, q, ch } );
        }
        return r;
    };
    auto ex = ceras::conv2d_transpose( g.kr, g.kc, g.sr, g.sc, 1, 1, same ? "same" : "valid" )( x, w );
    check_erased<double>( s, c, erase<double>( ex ), { &x, &w }, f, o );
    if ( same ) return;
    // < conv( u, w ), x > = < u, conv_transpose( x, w' ) > for every u, with w' the kernel with its channels exchanged
    nd const y = to_nd( run_raw<double>( ex ) ); nd const u = gen_nd( s, y.shape, -2, 2 ); nd wt{ { CH, g.kr, g.kc, N } }; each( wt.shape, [&]( shape_t const& i ) { wt.at( i ) = wv.at( { i[3], i[1], i[2], i[0] } ); } );
    var<double> uv{ to_tensor<double>( u ) }, wtv{ to_tensor<double>( wt ) }; auto fwd = ceras::general_conv2d( g.sr, g.sc )( uv, wtv ); nd const z = run<double>( fwd );
    c.require( z.shape == xv.shape, "adjoint:shape", "the convolution of the output has shape ", str( z.shape ) );
    double const l = sum( zip( z, xv, []( double p, double q ) { return p * q; } ) ), r = sum( zip( u, y, []( double p, double q ) { return p * q; } ) ); c.require( close( l, r, 1e-8, 1e-8 ), "adjoint", "<conv(u),x> = ", l, " but <u,convT(x)> = ", r );
}
PBT_FAMILY( "place-holder-batch", 500, 5000, 25, "a convolution of a place holder bound to batches of different sizes; non-trivial when the sizes differ" )
{
    geo const g = gen_conv( s, false ); ul const R = g.er() + s.draw( 3 ), C = g.ec() + s.draw( 3 ), CH = small( s, 2 ); nd const wv = gen_nd( s, { small( s, 2 ), g.kr, g.kc, CH }, -3, 3 );
    ceras::place_holder<ceras::tensor<double>> ph{ shape_t{ R, C, CH } }; var<double> w{ to_tensor<double>( wv ) }; c.desc << "place holder " << R << "x" << C << "x" << CH << str_geo( g ) << " batches";
    bool const general = s.coin(); auto& ss = ceras::get_default_session<ceras::tensor<double>>();
    auto const go = [&]( auto ex )
    {
        ul last = 0; for ( int k = 0; k < 3; ++k )
        {
            ul const B = small( s, 4 ); c.desc << " " << B; if ( last && B != last ) c.nontrivial(); last = B; nd const x = gen_nd( s, { B, R, C, CH }, -3, 3 ); ss.bind( ph, to_tensor<double>( x ) );
            nd const y = run<double>( ex ), want = conv( x, wv, g ); expect_close( c, y, want, 1e-9, 1e-10, "batch", "convolution of a batch of " + std::to_string( B ) );
            nd const up = gen_upstream( s, want.shape ); auto t = to_tensor<double>( up ); ex.backward( t );
            expect_grad( c, to_nd( w.gradient() ), numeric_vjp( [g]( std::vector<nd> const& v ) { return conv( v[0], v[1], g ); }, { x, wv }, 1, up ), 2e-6, 2e-7, "batch:gradient", "kernel gradient" );
        }
    };
    if ( general ) go( ceras::general_conv2d( g.sr, g.sc, g.dr, g.dc )( ph, w ) ); else go( ceras::conv2d( R, C, g.sr, g.sc, g.dr, g.dc )( ph, w ) );
}
CER_MAIN()
