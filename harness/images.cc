// Image files, resizing, and the data set loaders.
#include "../lib/cer.hpp"
#include <fstream>
#include "include/utils/imageio.hpp"
#include <sys/stat.h>
using namespace cer;
using namespace ceras::imageio;
typedef ceras::tensor<unsigned char> img_t;
typedef std::vector<unsigned char> bytes;

static bytes of( img_t const& t ) { return bytes( t.begin(), t.end() ); }
static shape_t shape_of( img_t const& t ) { auto const s = t.shape(); return shape_t( s.begin(), s.end() ); }
static bytes gen_pixels( src& s, ul n, int lo = 0, int hi = 255 )
{
    bytes r( n ); ul const kind = s.draw( 4 ); unsigned char const a = static_cast<unsigned char>( s.range( lo, hi ) ), b = static_cast<unsigned char>( s.range( lo, hi ) ); pbt::src q; q.state = s.draw( 1UL << 40 );
    for ( ul i = 0; i < n; ++i ) r[i] = kind == 0 ? a : kind == 1 ? ( ( i / 3 ) % 2 ? a : b ) : kind == 2 ? static_cast<unsigned char>( lo + static_cast<int>( i % static_cast<ul>( hi - lo + 1 ) ) ) : static_cast<unsigned char>( q.range( lo, hi ) );
    return r;
}
static img_t image( shape_t const& sh, bytes const& p ) { img_t t{ sh }; std::copy( p.begin(), p.end(), t.begin() ); return t; }
static bool exists( std::string const& f ) { struct stat st; return stat( f.c_str(), &st ) == 0; }
// what a file of this kind gives back for an image of ch channels: the number of channels, and the pixels as this many
static ul read_channels( std::string const& ext, ul ch ) { if ( ext == ".png" || ext == ".tga" ) return ch; return 3; }
static bytes spread( bytes const& p, ul from, ul to ) { if ( from == to ) return p; bytes r; for ( ul i = 0; i < p.size(); i += from ) for ( ul k = 0; k < to; ++k ) r.push_back( from == 1 ? p[i] : p[i + k] ); return r; }
static double linear( double v ) { return std::pow( v / 255, 2.2 ); }
static void compare( ctx& c, std::string const& ext, bytes const& got, bytes const& want, std::string const& what )
{
    c.require( got.size() == want.size(), what, "the image has ", got.size(), " bytes instead of ", want.size() );
    for ( ul i = 0; i < want.size(); ++i )
    {
        if ( ext == ".hdr" ) { double const m = std::max( { want[i - i % 3], want[i - i % 3 + 1], want[i - i % 3 + 2] } ), d = std::fabs( linear( got[i] ) - linear( want[i] ) ); c.require( d <= linear( m ) / 100 + linear( got[i] + 1. ) - linear( got[i] - 1. < 0 ? 0. : got[i] - 1. ) + 1e-6, what, ext, ": byte ", i, " is ", int( got[i] ), " instead of ", int( want[i] ) ); }
        else c.require( got[i] == want[i], what, ext, ": byte ", i, " is ", int( got[i] ), " instead of ", int( want[i] ) );
    }
}
static std::vector<std::string> const extensions = { ".png", ".bmp", ".tga", ".hdr" };
PBT_FAMILY( "files", 4000, 50000, 60, "images of up to 60x60 pixels with 1 (also as 2-D tensors), 3 or 4 channels written as png, bmp, tga or hdr, without an extension and with an unknown one (png), over an earlier file or not, and read back: shape (width, height, channels) and every byte, for hdr up to its precision; gray is read back from bmp and hdr with 3 equal channels, no alpha is, and in bmp only opaque pixels are compared; non-trivial when the image is not of one colour" )
{
    ul const ch = s.pick( std::vector<ul>{ 1, 3, 4 } ); bool const flat = ch == 1 && s.coin(); ul const w = 1 + s.draw( s.chance( 1, 5 ) ? 60 : 9 ), h = 1 + s.draw( s.chance( 1, 5 ) ? 60 : 9 ); bytes p = gen_pixels( s, w * h * ch ); if ( ch == 4 && s.coin() ) for ( ul i = 3; i < p.size(); i += 4 ) p[i] = 255; c.nontrivial( std::set<unsigned char>( p.begin(), p.end() ).size() > 1 );
    img_t const t = image( flat ? shape_t{ w, h } : shape_t{ w, h, ch }, p ); ul const e = s.draw( 7 ); std::string ext, name, file;
    if ( e < 4 ) { ext = extensions[e]; name = file = "picture" + ext; } else if ( e == 4 ) { ext = ".png"; name = "picture"; file = "picture.png"; } else if ( e == 5 ) { ext = ".png"; name = s.coin() ? "picture.v2" : "./picture"; file = name + ".png"; } else { mkdir( "dir.of.images", 0755 ); ext = ".png"; name = "dir.of.images/picture"; file = name + ".png"; }
    c.desc << name << " " << w << "x" << h << "x" << ch << ( flat ? " (2-D)" : "" ); c.label( e < 4 ? ext : e == 4 ? "no extension" : e == 5 ? "unknown extension" : "directory with dots" ); c.flush_desc(); if ( s.coin() ) { std::remove( file.c_str() ); }
    c.require( imwrite( name, t ), "written", "writing ", name, " reports a failure" ); c.require( of( t ) == p, "operand", "the image changed" ); c.require( exists( file ), "file", name, " was not written to ", file );
    img_t const r = imread( file ); ul const rc = read_channels( ext, ch ); c.require( shape_of( r ) == shape_t{ w, h, rc }, "shape", "the image read from ", file, " has shape ", str( shape_of( r ) ), " instead of ", str( shape_t{ w, h, rc } ) );
    bytes got = of( r ), want = spread( p, ch, rc ); if ( ext == ".bmp" && ch == 4 ) for ( ul i = 0; i < w * h; ++i ) if ( p[4 * i + 3] != 255 ) for ( ul k = 0; k < 3; ++k ) got[3 * i + k] = want[3 * i + k] = 0; // what is not opaque is blended with some background
    compare( c, ext, got, want, "pixels" ); if ( s.chance( 1, 4 ) ) { img_t const again = imread( file ); c.require( of( again ) == of( r ) && again.data() != r.data(), "again", "reading again gives another image" ); }
}
PBT_FAMILY( "jpeg", 800, 10000, 60, "smooth images written as jpg and jpeg: shape, and every pixel near the original; non-trivial when the image is not of one colour" )
{
    ul const ch = s.pick( std::vector<ul>{ 1, 3, 4 } ), w = 1 + s.draw( 40 ), h = 1 + s.draw( 40 ); bytes p( w * h * ch ); double a[4], b[4], d[4]; for ( ul k = 0; k < 4; ++k ) { a[k] = s.uniform( 40, 215 ); b[k] = s.uniform( -40, 40 ); d[k] = s.uniform( -40, 40 ); if ( k && ch != 1 ) { a[k] = a[0]; b[k] = b[0] + s.uniform( -2, 2 ); d[k] = d[0] + s.uniform( -2, 2 ); } }
    for ( ul j = 0; j < h; ++j ) for ( ul i = 0; i < w; ++i ) for ( ul k = 0; k < ch; ++k ) p[( j * w + i ) * ch + k] = static_cast<unsigned char>( std::clamp( a[k] + b[k] * static_cast<double>( i ) / static_cast<double>( w ) + d[k] * static_cast<double>( j ) / static_cast<double>( h ), 0., 255. ) );
    c.nontrivial( std::set<unsigned char>( p.begin(), p.end() ).size() > 1 ); std::string const name = s.coin() ? "photo.jpg" : "photo.jpeg"; c.desc << name << " " << w << "x" << h << "x" << ch; c.flush_desc(); c.require( imwrite( name, image( { w, h, ch }, p ) ), "written", "writing reports a failure" );
    img_t const r = imread( name ); auto const sh = shape_of( r ); c.require( sh.size() == 3 && sh[0] == w && sh[1] == h && ( sh[2] == 3 || sh[2] == 1 ), "shape", "the image read has shape ", str( sh ) ); bytes const got = of( r ); ul const rc = sh[2];
    for ( ul i = 0; i < w * h; ++i ) for ( ul k = 0; k < rc; ++k ) { int const x = got[i * rc + k], y = p[i * ch + ( ch == 1 ? 0 : k )]; c.require( std::abs( x - y ) <= 8, "pixels", "channel ", k, " of pixel ", i, " is ", x, " instead of ", y ); }
}
template<class T> static void scaled( src& s, ctx& c )
{
    ul const ch = s.pick( std::vector<ul>{ 1, 3, 4 } ), w = 1 + s.draw( 9 ), h = 1 + s.draw( 9 ); bool const flat = ch == 1 && s.coin(); ceras::tensor<T> t{ flat ? std::vector<unsigned long>{ w, h } : std::vector<unsigned long>{ w, h, ch } };
    bool const whole = std::is_integral_v<T>; double const m = whole ? 1000. : s.magnitude( 1e-2, 1e4 ), o = s.coin() ? 0 : s.uniform( -m, m ); for ( auto& v : t ) v = static_cast<T>( s.uniform( -m, m ) + o ); nd const x = to_nd( t ); double const lo = *std::min_element( x.v.begin(), x.v.end() ), hi = *std::max_element( x.v.begin(), x.v.end() ); c.nontrivial( hi > lo );
    std::string const ext = s.pick( std::vector<std::string>{ ".png", ".bmp", ".tga" } ); if ( ext == ".bmp" && ch == 4 ) c.discard(); c.desc << "map" << ext << " " << w << "x" << h << "x" << ch << " from " << lo << " to " << hi; c.flush_desc(); if ( hi > lo && hi - lo < ( whole ? 1 : 1e-4 * ( std::fabs( lo ) + std::fabs( hi ) ) ) ) c.discard();
    c.require( imwrite( "map" + ext, t ), "written", "writing reports a failure" ); expect_same( c, to_nd( t ), x, "operand", "the image" ); img_t const r = imread( "map" + ext ); ul const rc = read_channels( ext, ch ); c.require( shape_of( r ) == shape_t{ w, h, rc }, "shape", "the image read has shape ", str( shape_of( r ) ) );
    bytes const got = of( r ); for ( ul i = 0; i < w * h; ++i ) for ( ul k = 0; k < rc; ++k ) { double const v = x.v[i * ch + ( ch == 1 ? 0 : k )], want = hi > lo ? 255 * ( v - lo ) / ( hi - lo ) : 0; c.require( std::fabs( got[i * rc + k] - want ) <= 1.01 || hi == lo, "pixels", "channel ", k, " of pixel ", i, ", ", v, " between ", lo, " and ", hi, ", is ", int( got[i * rc + k] ) ); if ( hi == lo ) c.require( got[i * rc + k] == got[0], "pixels", "a constant image has pixels ", int( got[0] ), " and ", int( got[i * rc + k] ) ); }
}
PBT_FAMILY( "scaled", 1500, 20000, 60, "images of float, double or int of any range are written with their smallest value as 0, their largest as 255 and the others linearly in between, within one; non-trivial when the image is not of one colour" )
{
    switch ( s.draw( 3 ) ) { case 0: return scaled<float>( s, c ); case 1: return scaled<double>( s, c ); default: return scaled<int>( s, c ); }
}
static bytes channel( bytes const& p, ul ch, ul k ) { bytes r; for ( ul i = k; i < p.size(); i += ch ) r.push_back( p[i] ); return r; }
static bytes mirror( bytes const& p, ul w, ul h, ul ch, bool lr ) { bytes r( p.size() ); for ( ul j = 0; j < h; ++j ) for ( ul i = 0; i < w; ++i ) for ( ul k = 0; k < ch; ++k ) r[( j * w + i ) * ch + k] = p[( ( lr ? j : h - 1 - j ) * w + ( lr ? w - 1 - i : i ) ) * ch + k]; return r; }
static void near( ctx& c, bytes const& a, bytes const& b, char const* tag, int tol ) { c.require( a.size() == b.size(), tag, "sizes differ" ); for ( ul i = 0; i < a.size(); ++i ) c.require( std::abs( int( a[i] ) - int( b[i] ) ) <= tol, tag, "byte ", i, " is ", int( a[i] ), " against ", int( b[i] ) ); }
PBT_FAMILY( "resizing", 3000, 40000, 60, "images of 1-4 channels and 2-D gray ones of up to 12x12 pixels resized to any size up to 16x16: the shape asked for, the input unchanged, every channel resized as if alone, constant images stay constant, mirrored inputs give mirrored results (within 1), smooth ramps stay ramps; non-trivial when the size changes" )
{
    ul const ch = s.coin() ? 1 : 2 + s.draw( 3 ); bool const flat = ch == 1 && s.chance( 2, 3 ); ul const w = 1 + s.draw( 12 ), h = 1 + s.draw( 12 ), W = 1 + s.draw( 16 ), H = 1 + s.draw( 16 ); c.nontrivial( w != W || h != H ); c.desc << w << "x" << h << " to " << W << "x" << H << " channels " << ch << ( flat ? " (2-D)" : "" ); c.label( flat ? "2-D" : std::to_string( ch ) + " channels" ); c.flush_desc();
    shape_t const in = flat ? shape_t{ w, h } : shape_t{ w, h, ch }, out = flat ? shape_t{ W, H } : shape_t{ W, H, ch }; bytes const p = gen_pixels( s, w * h * ch ); img_t const t = image( in, p ), r = imresize( t, out ); bytes const q = of( r );
    c.require( shape_of( r ) == out, "shape", "the result has shape ", str( shape_of( r ) ), " instead of ", str( out ) ); c.require( of( t ) == p, "operand", "the input changed" );
    if ( std::set<unsigned char>( p.begin(), p.end() ).size() == 1 ) near( c, q, bytes( q.size(), p[0] ), "constant", 0 );
    for ( ul k = 0; k < ch; ++k ) { bytes const one = channel( p, ch, k ); near( c, of( imresize( image( { w, h }, one ), { W, H } ) ), channel( q, ch, k ), "channel", 0 ); near( c, of( imresize( image( { w, h, 1 }, one ), { W, H, 1 } ) ), channel( q, ch, k ), "channel", 0 ); }
    for ( bool lr : { false, true } ) near( c, of( imresize( image( in, mirror( p, w, h, ch, lr ) ), out ) ), mirror( q, W, H, ch, lr ), lr ? "mirror left-right" : "mirror up-down", 1 );
    bytes ramp( w * h ); double const a = s.uniform( 60, 190 ), b = s.uniform( -50, 50 ), d = s.uniform( -50, 50 ); auto const at = [&]( double x, double y ) { return a + b * ( x - 0.5 ) + d * ( y - 0.5 ); };
    for ( ul j = 0; j < h; ++j ) for ( ul i = 0; i < w; ++i ) ramp[j * w + i] = static_cast<unsigned char>( std::lround( at( ( static_cast<double>( i ) + 0.5 ) / static_cast<double>( w ), ( static_cast<double>( j ) + 0.5 ) / static_cast<double>( h ) ) ) );
    bytes const z = of( imresize( image( { w, h }, ramp ), { W, H } ) ); // away from the borders, of the size of a source pixel or a target pixel, the ramp goes on
    for ( ul j = 0; j < H; ++j ) for ( ul i = 0; i < W; ++i ) { double const x = ( static_cast<double>( i ) + 0.5 ) / static_cast<double>( W ), y = ( static_cast<double>( j ) + 0.5 ) / static_cast<double>( H ), slack = std::fabs( b ) * 1.2 * ( 1. / static_cast<double>( w ) + 1. / static_cast<double>( W ) ) + std::fabs( d ) * 1.2 * ( 1. / static_cast<double>( h ) + 1. / static_cast<double>( H ) ); c.require( std::fabs( z[j * W + i] - at( x, y ) ) <= slack + 3, "ramp", "pixel ", i, ",", j, " is ", int( z[j * W + i] ), " where the ramp has ", at( x, y ) ); }
}
PBT_FAMILY( "damage", 1500, 20000, 60, "files that do not exist, are no images, or are images cut at any byte or changed in a few bytes other than their extents: reading them gives an empty tensor or an image of 1-4 channels, and images of other numbers of channels or dimensions are not written; non-trivial always" )
{
    ul const k = s.draw( 6 ); c.nontrivial(); std::remove( "damaged" );
    if ( k == 0 ) { ul const ch = s.pick( std::vector<ul>{ 2, 5, 6 } ); bool const many = s.coin(); c.desc << "writing " << ( many ? "4-D" : std::to_string( ch ) + " channels" ); c.flush_desc(); c.label( "wrong images" ); c.require( in_child( [&]() { if ( many ) imwrite( "no.png", img_t{ { 1, 2, 2, 3 } } ); else imwrite( "no.png", img_t{ { 3, 2, ch } } ); } ) == ending::rejected, "wrong-image", "such an image must be rejected" ); return; }
    if ( k == 1 ) { c.desc << "no such directory"; c.flush_desc(); c.label( "no such directory" ); c.require( !imwrite( "no/such/directory/i.png", image( { 1, 1 }, { 7 } ) ), "directory", "writing into a directory that does not exist reports success" ); c.require( imread( "no/such/directory/i.png" ).empty(), "missing", "reading a file that does not exist gives an image" ); return; }
    bytes f; if ( k == 2 ) { f = gen_pixels( s, s.draw( 200 ) ); if ( f.size() > 1 && f[1] < 2 ) f[1] = 2; /* not a tga file, which may have gigabytes */ c.desc << "arbitrary " << f.size() << " bytes"; c.label( "arbitrary" ); }
    else
    {
        ul const ch = s.pick( std::vector<ul>{ 1, 3, 4 } ), w = 1 + s.draw( 20 ), h = 1 + s.draw( 20 ); std::string const ext = s.pick( std::vector<std::string>{ ".png", ".bmp", ".tga", ".jpg" } ); imwrite( "whole" + ext, image( { w, h, ch }, gen_pixels( s, w * h * ch ) ) ); std::ifstream i( "whole" + ext, std::ios::binary ); f.assign( std::istreambuf_iterator<char>( i ), {} ); c.desc << "whole" << ext << " " << w << "x" << h << "x" << ch; c.label( ext );
        if ( s.coin() ) { f.resize( s.draw( f.size() ) ); c.desc << " cut to " << f.size(); } else for ( ul n = 1 + s.draw( 4 ); n-- > 0; ) { ul const from = ext == ".png" ? 0 : ext == ".jpg" ? f.size() / 2 : ext == ".bmp" ? 54 : 18, at = from + ( s.coin() ? s.draw( std::min<ul>( f.size() - from, 40 ) ) : s.draw( f.size() - from ) ); /* not the width and height */ f[at] = static_cast<unsigned char>( s.draw( 256 ) ); c.desc << " [" << at << "]=" << int( f[at] ); }
    }
    c.flush_desc(); { std::ofstream o( "damaged", std::ios::binary ); o.write( reinterpret_cast<char const*>( f.data() ), static_cast<long>( f.size() ) ); }
    auto const e = in_child( []() { img_t const t = imread( "damaged" ); if ( t.empty() ) throw 1; auto const sh = shape_of( t ); if ( sh.size() != 3 || prod( sh ) != t.size() || sh[2] < 1 || sh[2] > 4 ) throw 1; } );
    c.require( e == ending::done || e == ending::rejected, "robust", "reading the damaged file ", e == ending::hung ? "hangs" : "crashes" );
}
// ---- data sets ----------------------------------------------------------------------------------------------------------
static void put( std::string const& f, bytes const& b ) { std::ofstream o( f, std::ios::binary ); o.write( reinterpret_cast<char const*>( b.data() ), static_cast<long>( b.size() ) ); }
static bytes header( std::vector<ul> const& w ) { bytes r; for ( ul v : w ) for ( int k = 24; k >= 0; k -= 8 ) r.push_back( static_cast<unsigned char>( v >> k ) ); return r; }
PBT_FAMILY( "datasets", 1200, 15000, 60, "mnist and fashion_mnist files of 1-12 training and 1-5 test samples: images of shape (n,28,28) and one-hot labels of shape (n,10), every byte; and files that are missing, shorter than their header, cut inside an image or with a label above 9 are rejected; non-trivial when there are at least 2 samples" )
{
    bool const fashion = s.coin(); ul const n[2] = { 1 + s.draw( 12 ), 1 + s.draw( 5 ) }; mkdir( "data", 0755 ); bytes px[2], lb[2]; char const* const names[2][2] = { { "data/train-images-idx3-ubyte", "data/train-labels-idx1-ubyte" }, { "data/t10k-images-idx3-ubyte", "data/t10k-labels-idx1-ubyte" } };
    ul const bad = s.chance( 1, 3 ) ? 1 + s.draw( 6 ) : 0, where = s.draw( 2 ); c.desc << ( fashion ? "fashion_mnist " : "mnist " ) << n[0] << "+" << n[1]; c.nontrivial( n[0] + n[1] > 2 ); static char const* const kinds[] = { "whole", "image file missing", "label file missing", "image file shorter than its header", "label file shorter than its header", "cut inside an image", "label above 9" }; c.label( kinds[bad] ); c.desc << " " << kinds[bad] << ( bad ? where ? " (test)" : " (training)" : "" ); c.flush_desc();
    for ( ul k = 0; k < 2; ++k )
    {
        px[k] = gen_pixels( s, n[k] * 784 ); lb[k].resize( n[k] ); for ( auto& l : lb[k] ) l = static_cast<unsigned char>( s.draw( 10 ) ); bool const b = where == k; if ( bad == 6 && b ) lb[k][s.draw( n[k] )] = static_cast<unsigned char>( 10 + s.draw( 246 ) );
        bytes im = header( { 0x803, n[k], 28, 28 } ), la = header( { 0x801, n[k] } ); im.insert( im.end(), px[k].begin(), px[k].end() ); la.insert( la.end(), lb[k].begin(), lb[k].end() ); if ( bad == 3 && b ) im.resize( s.draw( 16 ) ); if ( bad == 4 && b ) la.resize( s.draw( 8 ) ); if ( bad == 5 && b ) im.resize( 16 + 784 * s.draw( n[k] ) + 1 + s.draw( 783 ) );
        put( names[k][0], im ); put( names[k][1], la ); if ( bad == 1 && b ) std::remove( names[k][0] ); if ( bad == 2 && b ) std::remove( names[k][1] );
    }
    if ( bad ) { auto const e = in_child( [&]() { if ( fashion ) ceras::dataset::fashion_mnist::load_data( "data" ); else ceras::dataset::mnist::load_data( "data" ); } ); c.require( e == ending::rejected, kinds[bad], "such files must be rejected, but loading them ", e == ending::done ? "succeeds" : "crashes" ); return; }
    auto const check = [&]( auto const& r )
    {
        auto const one = [&]( auto const& x, auto const& y, ul k ) { c.require( shape_of( x ) == shape_t{ n[k], 28, 28 }, "images", "the images have shape ", str( shape_of( x ) ) ); c.require( of( x ) == px[k], "images", "the pixels differ" ); c.require( shape_of( y ) == shape_t{ n[k], 10 }, "labels", "the labels have shape ", str( shape_of( y ) ) ); bytes w( n[k] * 10, 0 ); for ( ul i = 0; i < n[k]; ++i ) w[i * 10 + lb[k][i]] = 1; c.require( of( y ) == w, "labels", "the labels differ" ); };
        one( std::get<0>( r ), std::get<1>( r ), 0 ); one( std::get<2>( r ), std::get<3>( r ), 1 );
    };
    if ( fashion ) check( ceras::dataset::fashion_mnist::load_data( "data" ) ); else check( ceras::dataset::mnist::load_data( "data" ) );
}
CER_MAIN()
