// The compression of saved sessions: lossless on every input, strict on damaged input.
#include "../lib/cer.hpp"
#include <sstream>
#include <unordered_map>
using namespace cer;

static ul const dms = 1024ul * 1024ul;
static ul width( ul n ) { ul r = 1; while ( n >>= 1 ) ++r; return r; }
// dictionary entries a textbook encoder creates for each prefix of the input; a code is written with every entry
struct counter
{
    std::unordered_map<ul, ul> next; ul size = 257, inserts = 0; long cur = -1;
    bool push( unsigned char b ) // true when an entry was created
    {
        if ( size == dms ) { next.clear(); size = 257; }
        if ( cur < 0 ) { cur = b; return false; }
        ul const key = static_cast<ul>( cur ) * 256 + b; auto const it = next.find( key );
        if ( it != next.end() ) { cur = static_cast<long>( it->second ); return false; }
        next[key] = size >= 256 ? size : 0; ++size; ++inserts; cur = b; return true;
    }
};
// a textbook decoder over the same format: std::nullopt when the stream is damaged
struct decoded { bool ok = false; std::string out; std::vector<ul> suspicious; }; // suspicious: prefix lengths in bytes at which the incomplete last code looks like the end mark
static decoded decode( std::string const& in )
{
    static unsigned char const first = 128; // code k stands for the byte (char)(k-128)
    decoded r; std::vector<std::pair<long, unsigned char>> dict; ul pos = 0, bits = 9; long prev = -1; ul const total = in.size() * 8;
    auto const reset = [&]() { dict.clear(); for ( ul k = 0; k < 256; ++k ) dict.push_back( { -1, static_cast<unsigned char>( k + first ) } ); dict.push_back( { -1, 0 } ); };
    auto const text = [&]( long k ) { std::string s; while ( k >= 0 ) { s.push_back( static_cast<char>( dict[k].second ) ); k = dict[k].first; } std::reverse( s.begin(), s.end() ); return s; };
    reset();
    while ( true )
    {
        if ( dict.size() == dms ) { reset(); bits = 9; }
        if ( width( dict.size() ) > bits ) ++bits;
        if ( pos + bits > total ) return r;
        ul k = 0; for ( ul b = 0; b < bits; ++b ) { ul const at = pos + b; k |= static_cast<ul>( ( static_cast<unsigned char>( in[at / 8] ) >> ( at % 8 ) ) & 1 ) << b; }
        for ( ul cut = pos / 8 + 1; cut * 8 < pos + bits; ++cut ) if ( ( k & ( ( 1ul << ( cut * 8 - pos ) ) - 1 ) ) == 256 ) r.suspicious.push_back( cut );
        pos += bits;
        if ( k == 256 ) { r.ok = true; return r; }
        if ( k > dict.size() || ( k == dict.size() && prev < 0 ) ) return r;
        std::string t;
        if ( k == dict.size() ) { t = text( prev ); dict.push_back( { prev, static_cast<unsigned char>( t[0] ) } ); t.push_back( t[0] ); }
        else { t = text( static_cast<long>( k ) ); if ( prev >= 0 ) dict.push_back( { prev, static_cast<unsigned char>( t[0] ) } ); }
        r.out += t; prev = static_cast<long>( k );
        if ( r.out.size() > ( 64u << 20 ) ) return r;
    }
}
static std::string gen_bytes( src& s, ul n, std::ostream& desc )
{
    std::string r; r.reserve( n ); ul const kind = s.draw( 7 ); ul const alpha = 1 + s.draw( s.coin() ? 4 : 256 ), base = s.draw( 256 );
    desc << n << " bytes of kind " << kind << " alphabet " << alpha;
    src b; b.state = s.draw( 1ul << 40 );
    if ( kind == 0 ) { while ( r.size() < n ) r.push_back( static_cast<char>( base + b.draw( alpha ) ) ); }
    else if ( kind == 1 ) { while ( r.size() < n ) r.append( 1 + b.draw( 300 ), static_cast<char>( base + b.draw( alpha ) ) ); }
    else if ( kind == 2 ) { std::string w; for ( ul i = 0, m = 1 + b.draw( 40 ); i < m; ++i ) w.push_back( static_cast<char>( b.draw( 256 ) ) ); while ( r.size() < n ) r += w; }
    else if ( kind == 3 ) { while ( r.size() < n ) { std::ostringstream o; o.precision( 17 ); o << b.uniform( -10, 10 ) << ( b.chance( 1, 20 ) ? "\n" : " " ); r += o.str(); } }
    else if ( kind == 4 ) { while ( r.size() < n ) r.push_back( static_cast<char>( b.draw( 256 ) ) ); } // random bytes
    else if ( kind == 5 ) { for ( ul i = 0; r.size() < n; ++i ) { r.push_back( static_cast<char>( i ) ); if ( i % 256 == 255 ) r.push_back( static_cast<char>( i / 256 ) ); } } // counting
    else { while ( r.size() < n ) { if ( r.size() > 4 && b.coin() ) { ul const from = b.draw( r.size() ), len = 1 + b.draw( std::min<ul>( 200, r.size() - from ) ); r += r.substr( from, len ); } else r.push_back( static_cast<char>( b.draw( 256 ) ) ); } } // copies of earlier parts
    r.resize( n ); return r;
}
static std::string pack( std::string const& in ) { std::istringstream i( in ); std::ostringstream o; lzw::compress( i, o ); return o.str(); }
static std::string first_difference( std::string const& a, std::string const& b ) { ul k = 0; while ( k < a.size() && k < b.size() && a[k] == b[k] ) ++k; std::ostringstream o; o << a.size() << " bytes instead of " << b.size() << ", first difference at " << k; return o.str(); }
// the decompression runs in this process: a damaged stream aborts and is reported as a crash of the case
static void round_trip( ctx& c, std::string const& in )
{
    std::string const z = pack( in );
    std::istringstream i( z ); std::ostringstream o; int const rc = lzw::decompress( i, o ); std::string const back = o.str();
    c.require( rc == 0, "result", "decompressing a compressed stream returned ", rc );
    c.require( back == in, "round-trip", "decompression gives ", first_difference( back, in ) );
    if ( in.size() < 100000 ) c.require( pack( in ) == z, "determinism", "compressing the same bytes again gives another stream" );
    auto const d = decode( z ); c.require( d.ok && d.out == in, "format", "a textbook decoder of the format reads ", d.ok ? first_difference( d.out, in ) : std::string( "a damaged stream" ) );
}
PBT_FAMILY( "round-trip", 1500, 20000, 25, "byte strings of 0-3000 (now and then 60000) bytes: small and full alphabets, runs, repeated words, printed numbers, counting, copies of earlier parts; compressed, decompressed and decoded by a textbook decoder; non-trivial when longer than one byte" )
{
    ul const n = s.chance( 1, 20 ) ? s.draw( 60000 ) : s.draw( 3000 ); std::string const in = gen_bytes( s, n, c.desc ); c.flush_desc(); c.nontrivial( n > 1 ); round_trip( c, in );
}
// cut so that the encoder has created exactly `target` entries, plus `extra` bytes
static std::string cut_at( src& s, ul target, ul extra, ul kind )
{
    src b; b.state = s.draw( 1ul << 40 ); std::string r; counter k; ul const alpha = kind == 0 ? 256 : kind == 1 ? 100 : 16;
    while ( k.inserts < target ) { unsigned char const x = static_cast<unsigned char>( b.draw( alpha ) + ( kind == 2 ? 200 : 0 ) ); r.push_back( static_cast<char>( x ) ); k.push( x ); }
    for ( ul i = 0; i < extra; ++i ) r.push_back( static_cast<char>( b.draw( alpha ) ) );
    return r;
}
PBT_FAMILY( "code-width", 600, 6000, 20, "inputs that end exactly where the encoder's dictionary is within two entries of a power of two, where codes grow by a bit; non-trivial always" )
{
    ul const p = s.range( 9, s.chance( 1, 8 ) ? 16 : 13 ); ul const target = ( 1ul << p ) - 257 + s.draw( 5 ); ul const t = target >= 2 ? target - 2 : 0, extra = s.draw( 3 ), kind = s.draw( 3 );
    c.desc << t << " entries (2^" << p << "), " << extra << " more bytes, kind " << kind; c.flush_desc(); c.nontrivial( true ); round_trip( c, cut_at( s, t, extra, kind ) );
}
PBT_FAMILY( "full-dictionary", 8, 200, 1, "inputs of 1.5 to 4 MB that end within two entries of filling the dictionary of 2^20 entries once or twice, or continue after it was reset; non-trivial always" )
{
    ul const rounds = s.chance( 1, 10 ) ? 2 : 1; ul const t = rounds * ( dms - 257 ) + s.draw( 5 ) - 2, extra = s.coin() ? s.draw( 3 ) : s.draw( 30000 ), kind = s.draw( 3 );
    c.desc << t << " entries, " << extra << " more bytes, kind " << kind; c.flush_desc(); c.nontrivial( true ); round_trip( c, cut_at( s, t, extra, kind ) );
}
PBT_FAMILY( "damaged", 500, 10000, 10, "compressed streams truncated (preferably where the cut code looks like the end mark), with flipped bits, replaced, inserted or removed bytes, and random bytes: decompression rejects exactly what a textbook decoder rejects, produces the same bytes otherwise, and never crashes or hangs; non-trivial when the stream is rejected" )
{
    std::string z; ul const kind = s.draw( 6 );
    if ( kind == 5 ) { z = gen_bytes( s, s.draw( 60 ), c.desc ); if ( s.coin() && z.size() > 1 ) { ul const first = s.coin() ? 257 : s.draw( 260 ); z[0] = static_cast<char>( first ); z[1] = static_cast<char>( ( z[1] & ~1 ) | ( first >> 8 ) ); } }
    else
    {
        z = pack( gen_bytes( s, s.chance( 1, 3 ) ? s.draw( 40 ) : 1500 + s.draw( 4000 ), c.desc ) );
        if ( kind <= 1 ) { auto const d = decode( z ); if ( !d.suspicious.empty() && s.chance( 2, 3 ) ) { z.resize( d.suspicious[s.draw( d.suspicious.size() )] ); c.label( "cut inside a code that looks like the end mark" ); } else { z.resize( s.draw( z.size() ) ); c.label( "truncated" ); } }
        else if ( kind == 2 ) { for ( ul k = 0, n = 1 + s.draw( 4 ); k < n; ++k ) { ul const i = s.draw( z.size() ); z[i] = static_cast<char>( z[i] ^ ( 1 << s.draw( 8 ) ) ); } }
        else if ( kind == 3 ) { ul const i = s.draw( z.size() ); z.erase( i, 1 + s.draw( 3 ) ); }
        else { ul const i = s.draw( z.size() ); z.insert( i, 1 + s.draw( 3 ), static_cast<char>( s.draw( 256 ) ) ); }
    }
    c.desc << " damage " << kind << ", " << z.size() << " bytes left"; c.flush_desc();
    auto const d = decode( z ); c.nontrivial( !d.ok ); if ( d.ok ) c.label( "still readable" );
    { std::ofstream f( "z", std::ios::binary ); f << z; }
    std::remove( "back" );
    auto const e = in_child( []() { std::ifstream i( "z", std::ios::binary ); std::ostringstream o; int const rc = lzw::decompress( i, o ); if ( rc != 0 ) throw 1; std::ofstream f( "back", std::ios::binary ); f << o.str(); } );
    c.require( e == ending::done || e == ending::rejected, "robust", "decompressing a damaged stream ", e == ending::hung ? "hangs" : "crashes" );
    if ( !d.ok ) c.require( e == ending::rejected, "accepted", "a damaged stream was accepted" );
    else { c.require( e == ending::done, "refused", "a stream that describes ", d.out.size(), " bytes was rejected" ); std::ifstream f( "back", std::ios::binary ); std::string const back( ( std::istreambuf_iterator<char>( f ) ), {} ); c.require( back == d.out, "damaged-value", "the stream describes other bytes: ", first_difference( back, d.out ) ); }
}
CER_MAIN()
