// Saving, loading and printing tensors.
#include "../lib/cer.hpp"
#include <sstream>
#include <fstream>
using namespace cer;

template<class T> constexpr char const* tname() { return std::is_same_v<T, double> ? "double" : std::is_same_v<T, float> ? "float" : "int"; }
template<class T> static T gen_value( src& s )
{
    if constexpr ( std::is_integral_v<T> ) { switch ( s.draw( 4 ) ) { case 0: return static_cast<T>( s.range( -9, 9 ) ); case 1: return s.coin() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min(); default: return static_cast<T>( s.range( -2000000000, 2000000000 ) ); } }
    else switch ( s.draw( 8 ) )
    {
        case 0: return static_cast<T>( s.range( -9, 9 ) );
        case 1: return s.coin() ? T{ 0 } : -T{ 0 };
        case 2: { T const x[] = { std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), std::numeric_limits<T>::epsilon(), T{ 1 } + std::numeric_limits<T>::epsilon(), T{ 1 } / T{ 3 }, T( 0.1 ), std::numeric_limits<T>::denorm_min(), -std::numeric_limits<T>::min() / 3 }; return x[s.draw( 9 )]; }
        case 3: return static_cast<T>( s.magnitude( 1e-30, 1e30 ) * ( s.coin() ? 1 : -1 ) );
        default: { double const v = s.uniform( -10, 10 ) + s.uniform( -1e-6, 1e-6 ); return static_cast<T>( v ); }
    }
}
template<class T> static ceras::tensor<T> gen_tensor( src& s, shape_t const& sh ) { ceras::tensor<T> t{ sh }; for ( auto& x : t ) x = gen_value<T>( s ); return t; }
template<class T> static void same( ctx& c, ceras::tensor<T> const& got, ceras::tensor<T> const& want, char const* what )
{
    auto const a = got.shape(), b = want.shape(); shape_t const ga( a.begin(), a.end() ), gb( b.begin(), b.end() );
    c.require( ga == gb && got.size() == want.size(), "shape", what, ": shape ", str( ga ), " became ", str( gb ) );
    for ( ul i = 0; i < want.size(); ++i ) if ( !( got.data()[i] == want.data()[i] ) || std::signbit( static_cast<double>( got.data()[i] ) ) != std::signbit( static_cast<double>( want.data()[i] ) ) ) c.fail( "value", what, ": element ", i, " ", want.data()[i], " became ", got.data()[i] );
}
template<class T> static void files( src& s, ctx& c )
{
    // several files, overwritten in random order; each holds what was last saved under its name
    std::vector<ceras::tensor<T>> saved( 3 ); std::vector<bool> has( 3, false ); ul const n = 1 + s.draw( 6 ); c.label( tname<T>() );
    for ( ul k = 0; k < n; ++k )
    {
        ul const f = s.draw( 3 ); std::string const name = "t" + std::to_string( f ) + ( s.coin() ? ".txt" : "" );
        shape_t const sh = gen_shape_wide( s, 1, 5, 6, 120 ); auto const t = gen_tensor<T>( s, sh ); auto const keep = t.deep_copy(); c.desc << tname<T>() << " " << str( to_nd( t ), 10 ) << "; "; c.flush_desc();
        c.nontrivial( t.size() > 1 );
        ceras::save_tensor( name, t ); same( c, t, keep, "saving must not modify the tensor" );
        std::ifstream probe( name ); c.require( probe.good(), "file", "save_tensor did not create ", name );
        auto const u = ceras::load_tensor<T>( name ); same( c, u, keep, "save_tensor and load_tensor" );
        c.require( u.data() != t.data(), "aliasing", "a loaded tensor must not share its elements with the saved one" );
        auto const v = ceras::load_tensor<T>( name ); same( c, v, keep, "loading again" ); c.require( u.data() != v.data(), "aliasing", "two loaded tensors must not share their elements" );
    }
}
PBT_FAMILY( "files", 3000, 30000, 50, "int, float and double tensors of 1-5 dimensions with extreme, tiny, signed-zero and ordinary values are saved to (also existing) files and loaded; non-trivial when there are at least 2 elements" )
{
    switch ( s.draw( 3 ) ) { case 0: return files<double>( s, c ); case 1: return files<float>( s, c ); default: return files<int>( s, c ); }
}
template<class T> static void streams( src& s, ctx& c )
{
    std::stringstream ss; ul const prec = s.coin() ? 6 : 1 + s.draw( 20 ); ss.precision( prec ); if ( s.chance( 1, 4 ) ) ss << std::scientific;
    std::vector<ceras::tensor<T>> ts; ul const n = 1 + s.draw( 4 );
    for ( ul k = 0; k < n; ++k ) { ts.push_back( gen_tensor<T>( s, gen_shape_wide( s, 1, 5, 5, 60 ) ) ); ceras::write_tensor( ss, ts.back() ); c.desc << str( to_nd( ts.back() ), 8 ) << "; "; }
    c.require( static_cast<ul>( ss.precision() ) == prec, "precision", "writing a tensor must leave the precision of the stream at ", prec, " but it is ", ss.precision() );
    c.label( tname<T>() ); c.nontrivial( n > 1 );
    ceras::tensor<T> into;
    for ( ul k = 0; k < n; ++k )
    {
        if ( s.coin() ) { ceras::tensor<T> fresh; ceras::read_tensor( ss, fresh ); same( c, fresh, ts[k], "write_tensor and read_tensor" ); }
        else { ceras::read_tensor( ss, into ); same( c, into, ts[k], "reading into an existing tensor" ); c.label( "into an existing tensor" ); }
    }
}
PBT_FAMILY( "streams", 3000, 30000, 50, "up to four tensors written one after another to a stream of any precision and read back, also into an existing tensor; non-trivial when there is more than one" )
{
    switch ( s.draw( 3 ) ) { case 0: return streams<double>( s, c ); case 1: return streams<float>( s, c ); default: return streams<int>( s, c ); }
}
PBT_FAMILY( "text", 2000, 20000, 50, "hand-made files (shape on the first line, elements on the second, any blanks and any usual number format) load as the tensor they describe; files whose element count disagrees with their shape never load; non-trivial when there are at least 2 elements" )
{
    shape_t const sh = gen_shape( s, 1, 4, 5, 40 ); nd a{ sh }; std::ostringstream o; ul const wrong = s.draw( 3 ); ul n = a.size();
    for ( ul e : sh ) o << std::string( s.draw( 2 ), ' ' ) << e << std::string( 1 + s.draw( 2 ), s.coin() ? ' ' : '\t' );
    o << "\n"; if ( wrong == 1 ) n = a.size() + 1 + s.draw( 3 ); else if ( wrong == 2 ) n = s.draw( a.size() );
    for ( ul i = 0; i < n; ++i )
    {
        double x = s.uniform( -100, 100 ); char b[64]; ul const f = s.draw( 4 ); std::snprintf( b, sizeof b, f == 0 ? "%.17g" : f == 1 ? "%+.17e" : f == 2 ? "%.3f" : "%.0f", x ); x = std::strtod( b, nullptr );
        if ( i < a.size() ) a.v[i] = x; o << std::string( s.draw( 2 ), ' ' ) << b << std::string( 1 + s.draw( 2 ), ' ' );
    }
    if ( s.coin() ) o << "\n";
    { std::ofstream f( "hand.txt" ); f << o.str(); }
    c.desc << str( sh ) << " with " << n << " elements"; c.flush_desc(); c.nontrivial( a.size() > 1 );
    if ( wrong == 0 ) { expect_same( c, to_nd( ceras::load_tensor<double>( "hand.txt" ) ), a, "value", "load_tensor" ); return; }
    c.label( "element count disagrees" );
    c.require( in_child( []() { ceras::load_tensor<double>( "hand.txt" ); } ) == ending::rejected, "mismatch", "a file with ", n, " elements for the shape ", str( sh ), " must be rejected" );
}
template<class T> static void print( src& s, ctx& c )
{
    shape_t const sh = gen_shape_wide( s, 1, 5, 5, 60 ); ceras::tensor<T> t{ sh }; for ( auto& x : t ) x = static_cast<T>( s.real( -1000, 1000 ) ); c.desc << str( to_nd( t ), 10 ); c.nontrivial( t.size() > 1 ); c.label( tname<T>() );
    std::ostringstream o; auto& r = ( o << t ); c.require( &r == &o, "returns", "operator << must return the stream" );
    // every number printed: the extents, then the elements
    std::vector<double> seen; std::string const text = o.str(); char const* p = text.c_str();
    while ( *p ) { char* e; if ( ( *p >= '0' && *p <= '9' ) || ( *p == '-' && p[1] >= '0' && p[1] <= '9' ) ) { seen.push_back( std::strtod( p, &e ) ); p = e; } else ++p; }
    c.require( seen.size() == sh.size() + t.size(), "print", "printing shows ", seen.size(), " numbers instead of ", sh.size(), " extents and ", t.size(), " elements: ", text.substr( 0, 400 ) );
    for ( ul i = 0; i < sh.size(); ++i ) c.require( seen[i] == static_cast<double>( sh[i] ), "print", "printed extent ", i, " is ", seen[i] );
    for ( ul i = 0; i < t.size(); ++i ) c.require( close( seen[sh.size() + i], static_cast<double>( t.data()[i] ), 1e-5, 1e-12 ), "print", "printed element ", i, " is ", seen[sh.size() + i], " instead of ", t.data()[i] );
}
PBT_FAMILY( "print", 2000, 20000, 50, "printing a tensor shows its extents and every element in order; non-trivial when there are at least 2 elements" )
{
    switch ( s.draw( 3 ) ) { case 0: return print<double>( s, c ); case 1: return print<float>( s, c ); default: return print<int>( s, c ); }
}
PBT_FAMILY( "full-disk", 1500, 12000, 40, "the disk fills up at any byte while a tensor is saved, or its directory does not exist: the program stops with a diagnostic, or the file holds every element; non-trivial when the disk is too small" )
{
    shape_t const sh = s.chance( 1, 5 ) ? shape_t{ 2 + s.draw( 9 ), 150 } : gen_shape_wide( s, 1, 4, 6, 120 ); auto const t = gen_tensor<double>( s, sh ); c.desc << str( to_nd( t ), 10 ); auto const size = []( char const* f ) { std::ifstream i( f, std::ios::binary | std::ios::ate ); return static_cast<ul>( i.tellg() ); };
    if ( s.chance( 1, 10 ) ) { c.flush_desc(); c.require( in_child( [&]() { ceras::save_tensor( "no-such-directory/t.txt", t ); } ) == ending::rejected, "directory", "saving a tensor into a directory that does not exist must be rejected" ); return; }
    ceras::save_tensor( "whole", t ); ul const need = size( "whole" ), room = s.chance( 1, 5 ) ? need + s.draw( 20 ) : s.coin() ? need - 1 - s.draw( std::min<ul>( need, 12 ) ) : s.draw( need ); c.desc << " with room for " << room << " of " << need << " bytes"; c.flush_desc(); c.nontrivial( room < need );
    auto const e = in_child( [&]() { full_disk_at( room ); ceras::save_tensor( "full", t ); } ); if ( room < need ) { c.require( e == ending::rejected, "save", "saving a tensor with room for ", room, " of ", need, " bytes ", e == ending::done ? "reports no problem" : "crashes" ); return; }
    c.require( e == ending::done, "enough", "there was room for ", room, " of ", need, " bytes, but saving stops" ); same( c, ceras::load_tensor<double>( "full" ), t, "save_tensor and load_tensor" );
}
CER_MAIN()
