// Saving and restoring all variables of a session.
#include "../lib/net.hpp"
#include <fstream>
#include <cstring>
using namespace cer;

template<class T> constexpr char const* tname() { return std::is_same_v<T, double> ? "double" : "float"; }
template<class T> static double gen_value( src& s )
{
    typedef std::numeric_limits<T> lim; T r;
    switch ( s.draw( 8 ) )
    {
        case 0: r = static_cast<T>( s.range( -9, 9 ) ); break;
        case 1: r = s.coin() ? T{ 0 } : -T{ 0 }; break;
        case 2: { T const x[] = { lim::max(), lim::lowest(), lim::min(), lim::epsilon(), T{ 1 } + lim::epsilon(), T{ 1 } / T{ 3 }, T( 0.1 ), lim::denorm_min(), -lim::min() / 3 }; r = x[s.draw( 9 )]; break; }
        case 3: r = static_cast<T>( s.magnitude( 1e-30, 1e30 ) * ( s.coin() ? 1 : -1 ) ); break;
        default: r = static_cast<T>( s.uniform( -10, 10 ) + s.uniform( -1e-6, 1e-6 ) );
    }
    return static_cast<double>( r );
}
template<class T> static nd gen_values( src& s, shape_t const& sh ) { nd r{ sh }; for ( auto& x : r.v ) x = gen_value<T>( s ); return r; }
static bool exists( std::string const& f ) { std::ifstream i( f ); return i.good(); }

template<class T> struct world
{
    struct slot { var<T> v, alias; nd now; int id; };
    std::vector<slot> slots; std::map<std::string, std::pair<bool, std::map<int, nd>>> files; // name -> (compressed, content)
    void verify( ctx& c, char const* after ) { for ( ul k = 0; k < slots.size(); ++k ) { expect_same( c, to_nd( slots[k].v.data() ), slots[k].now, "value", std::string( after ) + ": variable " + std::to_string( k ) ); expect_same( c, to_nd( slots[k].alias.data() ), slots[k].now, "copy", std::string( after ) + ": a copy of variable " + std::to_string( k ) ); } }
};
template<class T> static void history( src& s, ctx& c )
{
    world<T> w; c.label( tname<T>() ); bool restored_over = false; int version = 0; std::map<std::string, int> saved_at; ul const names = 1 + s.draw( 3 ); c.desc << tname<T>();
    std::string const stem = s.coin() ? "state" : "some file.v1";
    for ( ul step = 0, n = 3 + s.draw( 22 ); step < n; ++step )
    {
        auto& ss = ceras::get_default_session<ceras::tensor<T>>(); ul const op = s.draw( 10 ); std::string const file = stem + std::to_string( s.draw( names ) );
        if ( op < 3 && w.slots.size() < 7 )
        {
            shape_t const sh = gen_shape_wide( s, 1, 4, 5, 60 ); nd const x = gen_values<T>( s, sh ); bool const frozen = s.chance( 1, 3 ); var<T> v{ to_tensor<T>( x ), static_cast<T>( s.chance( 1, 4 ) ? 0.1 : 0 ), static_cast<T>( s.chance( 1, 4 ) ? 0.1 : 0 ), !frozen }; if ( frozen ) c.label( "frozen variable" ); w.slots.push_back( { v, v, x, v.id() } ); c.desc << " new " << str( x, 4 );
        }
        else if ( op < 5 && !w.slots.empty() )
        {
            auto& k = w.slots[s.draw( w.slots.size() )]; bool const other = s.chance( 1, 5 ); k.now = gen_values<T>( s, other ? gen_shape( s, 1, 4, 5, 60 ) : k.now.shape ); ++version;
            if ( !other && s.coin() ) set_data( k.v, k.now ); else k.v.data() = to_tensor<T>( k.now );
            c.desc << " assign v" << ( &k - &w.slots[0] ) << ( other ? " of another shape" : "" );
        }
        else if ( op < 7 )
        {
            ul const how = s.draw( 3 ); bool const z = how < 2; std::map<int, nd> all; for ( auto& k : w.slots ) all[k.id] = k.now;
            if ( how == 0 ) ss.save( file ); else if ( how == 1 ) ss.serialize( file ); else ss.save_original( file );
            w.files[file] = { z, all }; saved_at[file] = version; c.desc << ( z ? " save " : " save_original " ) << file.back(); c.require( exists( file ), "file", "saving did not create ", file );
        }
        else if ( op < 9 )
        {
            auto const f = w.files.find( file ); c.desc << " restore " << file.back(); c.flush_desc();
            if ( f == w.files.end() ) { if ( !exists( file ) && s.chance( 1, 8 ) ) { c.require( in_child( [&]() { ss.restore( file ); } ) == ending::rejected, "missing", "restoring a file that does not exist must be rejected" ); std::remove( ( file + ".tmp" ).c_str() ); c.label( "missing file" ); } continue; }
            auto const& [z, all] = f->second; if ( !z ) ss.restore_original( file ); else if ( s.coin() ) ss.restore( file ); else ss.deserialize( file );
            for ( auto& k : w.slots ) { auto const it = all.find( k.id ); if ( it != all.end() ) k.now = it->second; else c.label( "a variable newer than the file" ); }
            if ( saved_at[file] != version ) restored_over = true; ++version;
        }
        else if ( !w.slots.empty() ) // a session that does not know a variable of the file
        {
            c.desc << " fresh session"; auto const keep = w.slots; fresh_session<T>(); auto& fs = ceras::get_default_session<ceras::tensor<T>>(); ul const known = s.draw( keep.size() + 1 ); w.slots.clear();
            for ( ul k = 0; k < known; ++k ) { fs.remember( keep[k].v ); if ( s.coin() ) fs.remember( keep[k].v ); w.slots.push_back( keep[k] ); }
            for ( auto f = w.files.begin(); f != w.files.end(); )
            {
                bool unknown = false; for ( auto const& [id, x] : f->second.second ) { bool here = false; for ( auto& k : w.slots ) here = here || k.id == id; unknown = unknown || !here; }
                if ( !unknown ) { ++f; continue; }
                if ( s.chance( 1, 4 ) ) { bool const z = f->second.first; c.flush_desc(); c.require( in_child( [&]() { if ( z ) fs.restore( f->first ); else fs.restore_original( f->first ); } ) == ending::rejected, "unknown-variable", "restoring a file with a variable the session does not know must be rejected" ); std::remove( ( f->first + ".tmp" ).c_str() ); c.label( "unknown variable" ); }
                f = w.files.erase( f );
            }
        }
        c.flush_desc(); w.verify( c, "after the last step" ); c.require( !exists( file + ".tmp" ), "temporary", file, ".tmp was left behind" );
    }
    c.nontrivial( restored_over ); for ( ul k = 0; k < names; ++k ) std::remove( ( stem + std::to_string( k ) ).c_str() );
}
PBT_FAMILY( "histories", 3000, 40000, 40, "float and double sessions: up to 25 steps of creating variables (extreme, tiny, signed-zero and ordinary values), assigning them (also other shapes), saving to 1-3 files in either format, restoring any file, replacing the session: every variable and every copy of it holds, bit for bit, what was last assigned or restored, variables newer than the file keep their values, missing files and unknown variables are rejected, no temporary file remains; non-trivial when a file was restored over changed variables" )
{
    if ( s.coin() ) history<double>( s, c ); else history<float>( s, c );
}

// a process trains and saves; another process builds the same network and loads
static nd gen_data( src& s, shape_t const& tail, ul batch ) { shape_t t = tail; t.insert( t.begin(), batch ); return as_float( gen_generic( s, t, -1.5, 1.5 ) ); }
static void dump( char const* file, std::vector<nd> const& v ) { std::ofstream f( file, std::ios::binary ); for ( auto const& x : v ) { ul const d = x.shape.size(); f.write( reinterpret_cast<char const*>( &d ), 8 ); f.write( reinterpret_cast<char const*>( x.shape.data() ), 8 * d ); f.write( reinterpret_cast<char const*>( x.v.data() ), 8 * x.size() ); } }
static std::vector<nd> undump( char const* file ) { std::vector<nd> r; std::ifstream f( file, std::ios::binary ); ul d; while ( f.read( reinterpret_cast<char*>( &d ), 8 ) ) { shape_t sh( d ); f.read( reinterpret_cast<char*>( sh.data() ), 8 * d ); nd x{ sh }; f.read( reinterpret_cast<char*>( x.v.data() ), 8 * x.size() ); r.push_back( x ); } return r; }
PBT_FAMILY( "other-process", 700, 12000, 20, "one process builds a random network, trains it for a few batches, predicts and saves its weights; another builds the same network, perhaps trains it otherwise, loads the weights: every parameter is bit for bit the saved one, predictions are the same, and both continue training alike; non-trivial when the network has parameters" )
{
    pbt::u64 const seed = s.draw( 1ul << 40 ); ul const size = 1 + s.draw( 5 ), outs = 1 + s.draw( 3 ), bs = 1 + s.draw( 5 ), before = s.draw( 3 ), after = s.draw( 3 ), spoil = s.draw( 3 ); bool const by_model = s.coin();
    c.desc << "batch " << bs << " train " << before << " then " << after << " other training " << spoil; auto const sq = []( auto const& out ) { return [=]( auto const& gt ) { return ceras::mean_squared_error( out, gt ); }; };
    std::string text; std::remove( "child" ); std::remove( "weights" ); ul nparams = 0;
    auto const side = [&]( bool writer, std::vector<nd>& seen )
    {
        reset_all(); pbt::src b; b.state = seed; shape_t const tail = gen_input_tail( b ); net g( tail ); g.allow_bn = false; g.allow_dropout = false; ul last = g.grow( b, size ); last = g.finish( b, last, outs ); text = g.text(); nparams = g.params.size();
        std::vector<nd> xs, ys; for ( ul k = 0; k < before + after; ++k ) { xs.push_back( gen_data( b, tail, bs ) ); ys.push_back( gen_data( b, { outs }, bs ) ); } nd const probe = gen_data( b, tail, 3 );
        quiet q; ceras::model m{ g.in, g.nodes[last].ex }; auto cm = m.compile( sq, ceras::SGD( bs, 0.01f ) ); auto& ss = ceras::get_default_session<ceras::tensor<float>>();
        if ( writer ) { for ( ul k = 0; k < before; ++k ) { auto x = to_tensor<float>( xs[k] ), y = to_tensor<float>( ys[k] ); cm.train_on_batch( x, y ); } if ( by_model ) m.save_weights( "weights" ); else ss.save( "weights" ); }
        else { for ( ul k = 0; k < spoil; ++k ) { auto x = to_tensor<float>( gen_data( b, tail, bs ) ), y = to_tensor<float>( gen_data( b, { outs }, bs ) ); cm.train_on_batch( x, y ); } if ( by_model ) m.load_weights( "weights" ); else ss.restore( "weights" ); }
        for ( auto& p : g.params ) seen.push_back( to_nd( p.v.data() ) ); seen.push_back( to_nd( m.predict( to_tensor<float>( probe ) ) ) ); seen.push_back( to_nd( cm.predict( to_tensor<float>( probe ) ) ) );
        for ( ul k = before; k < before + after; ++k ) { auto x = to_tensor<float>( xs[k] ), y = to_tensor<float>( ys[k] ); cm.train_on_batch( x, y ); }
        for ( auto& p : g.params ) seen.push_back( to_nd( p.v.data() ) );
    };
    auto const e = in_child( [&]() { std::vector<nd> seen; side( true, seen ); dump( "child", seen ); } ); c.require( e == ending::done, "writer", "building, training or saving the network ", e == ending::rejected ? "was rejected" : "crashed" );
    std::vector<nd> const want = undump( "child" ); std::vector<nd> got; side( false, got ); c.desc << " " << text; c.flush_desc(); c.nontrivial( nparams > 0 ); for ( auto const& x : want ) for ( double v : x.v ) if ( !std::isfinite( v ) ) c.discard();
    c.require( got.size() == want.size(), "count", "the same network has ", got.size(), " observations instead of ", want.size() );
    for ( ul k = 0; k < got.size(); ++k ) { bool const weight = k < nparams, tail = k >= nparams + 2; if ( tail && after == 0 && want[k].size() == 0 ) continue; if ( weight ) expect_same( c, got[k], want[k], "weights", "loaded parameter " + std::to_string( k ) ); else expect_close( c, got[k], want[k], 1e-6, 1e-7, tail ? "continued" : "prediction", tail ? "parameter " + std::to_string( k - nparams - 2 ) + " after continuing to train" : "prediction with loaded weights" ); }
    c.require( !exists( "weights.tmp" ), "temporary", "weights.tmp was left behind" );
}
PBT_FAMILY( "unreadable", 250, 4000, 15, "saved files cut short, and directories that do not exist, are rejected by restore and save; non-trivial always" )
{
    ul const n = 1 + s.draw( 3 ); std::vector<var<float>> vs; for ( ul k = 0; k < n; ++k ) { nd const x = gen_values<float>( s, gen_shape( s, 1, 3, 5, 60 ) ); c.desc << str( x, 5 ) << " "; vs.emplace_back( to_tensor<float>( x ) ); }
    auto& ss = ceras::get_default_session<ceras::tensor<float>>(); c.nontrivial( true );
    if ( s.chance( 1, 6 ) ) { c.flush_desc(); c.require( in_child( [&]() { ss.save( "no-such-directory/file" ); } ) == ending::rejected, "directory", "saving into a directory that does not exist must be rejected" ); return; }
    bool const z = s.chance( 3, 4 ); if ( z ) ss.save( "cut" ); else ss.save_original( "cut" ); std::string text; { std::ifstream f( "cut", std::ios::binary ); text.assign( ( std::istreambuf_iterator<char>( f ) ), {} ); }
    ul keep = s.draw( text.size() ); if ( !z ) { while ( keep > 0 && ( std::isdigit( static_cast<unsigned char>( text[keep - 1] ) ) || text[keep - 1] == '.' || text[keep - 1] == 'e' || text[keep - 1] == '-' || text[keep - 1] == '+' ) ) --keep; ul tail = 0; for ( ul k = keep; k < text.size(); ++k ) tail += !std::isspace( static_cast<unsigned char>( text[k] ) ); if ( tail == 0 || keep == 0 ) c.discard(); } // a text file: cut between numbers, losing at least one
    text.resize( keep ); { std::ofstream f( "cut", std::ios::binary ); f << text; } c.desc << ( z ? " compressed" : " original" ) << " cut to " << keep << " bytes"; c.flush_desc();
    c.require( in_child( [&]() { if ( z ) ss.restore( "cut" ); else ss.restore_original( "cut" ); } ) == ending::rejected, "truncated", "restoring a file cut to ", keep, " bytes must be rejected" ); std::remove( "cut.tmp" );
}
PBT_FAMILY( "full-disk", 1500, 12000, 40, "the disk fills up at any byte while a session is saved or restored: the program stops with a diagnostic, or everything was written and reads back bit for bit; non-trivial when the disk is too small" )
{
    ul const n = 1 + s.draw( 3 ); std::vector<var<double>> vs; std::vector<nd> xs; for ( ul k = 0; k < n; ++k ) { nd const x = gen_values<double>( s, s.chance( 1, 6 ) ? shape_t{ 2 + s.draw( 9 ), 100 } : gen_shape( s, 1, 3, 5, 60 ) ); c.desc << str( x, 5 ) << " "; vs.emplace_back( to_tensor<double>( x ) ); xs.push_back( x ); }
    auto& ss = ceras::get_default_session<ceras::tensor<double>>(); auto const size = []( char const* f ) { std::ifstream i( f, std::ios::binary | std::ios::ate ); return static_cast<ul>( i.tellg() ); };
    ss.save( "whole" ); ss.save_original( "text" ); ul const packed = size( "whole" ), text = size( "text" ), how = s.draw( 3 ), need = how == 1 ? text : how == 0 ? std::max( text, packed ) : text;
    ul const room = s.chance( 1, 5 ) ? need + s.draw( 20 ) : s.coin() ? need - 1 - s.draw( std::min<ul>( need, 12 ) ) : s.draw( need ); c.desc << ( how == 0 ? "save" : how == 1 ? "save_original" : "restore" ) << " with room for " << room << " of " << need << " bytes"; c.flush_desc(); c.nontrivial( room < need ); c.label( how == 0 ? "save" : how == 1 ? "save_original" : "restore" );
    if ( how < 2 ) { auto const e = in_child( [&]() { full_disk_at( room ); if ( how == 0 ) ss.save( "full" ); else ss.save_original( "full" ); } ); if ( room < need ) c.require( e == ending::rejected, "save", "saving with room for ", room, " of ", need, " bytes ", e == ending::done ? "reports no problem" : "crashes" ); else c.require( e == ending::done, "enough", "there was room for ", room, " of ", need, " bytes, but saving stops" ); std::remove( "full.tmp" ); if ( e != ending::done ) return; }
    else
    {
        auto const e = in_child( [&]() { for ( auto& v : vs ) for ( auto& x : v.data() ) x = 7.5; full_disk_at( room ); ss.restore( "whole" ); for ( ul k = 0; k < n; ++k ) { nd const got = to_nd( vs[k].data() ); for ( ul i = 0; i < got.size(); ++i ) if ( std::memcmp( &got.v[i], &xs[k].v[i], 8 ) != 0 ) _exit( 3 ); } } );
        std::remove( "whole.tmp" ); if ( room >= need ) c.require( e == ending::done, "enough", "there was room for ", room, " of ", need, " bytes, but restoring stops or reads other values" ); else c.require( e == ending::rejected || e == ending::done, "restore", "restoring with room for ", room, " of ", need, " bytes of the temporary file gives other values" ); return;
    }
    for ( auto& v : vs ) for ( auto& x : v.data() ) x = 7.5;
    if ( how == 0 ) ss.restore( "full" ); else ss.restore_original( "full" ); for ( ul k = 0; k < n; ++k ) expect_same( c, to_nd( vs[k].data() ), xs[k], "value", "variable " + std::to_string( k ) );
}
CER_MAIN()
