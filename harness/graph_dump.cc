// The description of a computation graph, and the identity of its nodes.
#include "../lib/cer.hpp"
#include <fstream>
using namespace cer;
typedef ceras::tensor<double> ten; typedef ceras::place_holder<ten> holder; typedef ceras::constant<ten> con; typedef ceras::value<double> val;

struct rec { int id; std::string name, kind; shape_t shape; bool trainable = false; std::vector<std::shared_ptr<rec>> args; };
typedef std::shared_ptr<rec> rp;
template<class E> struct built { E e; rp r; };
template<class E> static built<E> node( E const& e, char const* name, std::vector<rp> args ) { auto r = std::make_shared<rec>(); r->id = e.id(); r->name = *name ? std::string{ name } : e.name(); r->kind = "operator"; auto const s = e.shape(); r->shape.assign( s.begin(), s.end() ); r->args = args; return { e, r }; }
struct pool
{
    ul n; std::vector<std::pair<var<double>, rp>> vars; std::vector<std::pair<holder, rp>> holders; std::vector<std::pair<con, rp>> cons;
    template<class E> static rp leaf( E const& e, char const* kind ) { auto r = std::make_shared<rec>(); r->id = e.id(); r->name = r->kind = kind; auto const s = e.shape(); r->shape.assign( s.begin(), s.end() ); return r; }
    void fill( src& s )
    {
        n = 1 + s.draw( 12 );
        for ( ul k = 1 + s.draw( 3 ); k-- > 0; ) { bool const t = s.coin(); var<double> v{ ten{ { n, n } }, s.chance( 1, 3 ) ? 0.1 : 0.0, s.chance( 1, 3 ) ? 0.2 : 0.0, t }; auto r = leaf( v, "Variable" ); r->trainable = t; vars.push_back( { v, r } ); }
        for ( ul k = 1 + s.draw( 2 ); k-- > 0; ) { holder h{ shape_t{ n } }; if ( s.coin() ) h.bind( ten{ { n, n } } ); holders.push_back( { h, leaf( h, "PlaceHolder" ) } ); }
        for ( ul k = 1 + s.draw( 2 ); k-- > 0; ) { con c{ ten{ { n, n } } }; cons.push_back( { c, leaf( c, "Constant" ) } ); }
    }
};
static constexpr unsigned mix( unsigned x ) { x ^= x >> 16; x *= 0x7feb352du; x ^= x >> 15; x *= 0x846ca68bu; x ^= x >> 16; return x; }
// one type of expression for every S; the leaves are chosen at run time, so that parts are shared in every way
template<unsigned S, int D> static auto make( src& s, pool& p )
{
    constexpr unsigned h = mix( S * 2654435761u + 17u * D ) % 16;
    if constexpr ( D == 0 )
    {
        if constexpr ( h < 7 ) { auto const& v = p.vars[s.draw( p.vars.size() )]; return built<var<double>>{ v.first, v.second }; }
        else if constexpr ( h < 12 ) { auto const& v = p.holders[s.draw( p.holders.size() )]; return built<holder>{ v.first, v.second }; }
        else { auto const& v = p.cons[s.draw( p.cons.size() )]; return built<con>{ v.first, v.second }; }
    }
    else if constexpr ( h == 0 ) { auto a = make<2 * S, D - 1>( s, p ); return node( ceras::sin( a.e ), "sin", { a.r } ); }
    else if constexpr ( h == 1 ) { auto a = make<2 * S, D - 1>( s, p ); return node( ceras::relu( a.e ), "relu", { a.r } ); }
    else if constexpr ( h == 2 ) { auto a = make<2 * S, D - 1>( s, p ); return node( ceras::softmax( a.e ), "softmax", { a.r } ); }
    else if constexpr ( h == 3 ) { auto a = make<2 * S, D - 1>( s, p ); return node( ceras::negative( a.e ), "negative", { a.r } ); }
    else if constexpr ( h == 4 ) { auto a = make<2 * S, D - 1>( s, p ); return node( a.e + a.e, "plus", { a.r, a.r } ); } // twice the same operand
    else if constexpr ( h == 5 ) { auto a = make<2 * S, D - 1>( s, p ); auto b = node( ceras::square( a.e ), "", { a.r } ); return node( ceras::elementwise_product( b.e, a.e ), "elementwise_product", { b.r, a.r } ); } // a shared part
    else if constexpr ( h == 6 ) { auto a = make<2 * S, D - 1>( s, p ); return node( ceras::tanh( a.e ), "tanh", { a.r } ); }
    else if constexpr ( h == 7 ) { val v{ 2.0 }; auto a = make<2 * S, D - 1>( s, p ); return node( v * a.e, "", { pool::leaf( v, "Value" ), a.r } ); }
    else
    {
        auto a = make<2 * S, D - 1>( s, p ); auto b = make<2 * S + 1, D - 1>( s, p );
        if constexpr ( h < 11 ) return node( a.e + b.e, "plus", { a.r, b.r } );
        else if constexpr ( h < 13 ) return node( ceras::elementwise_product( a.e, b.e ), "elementwise_product", { a.r, b.r } );
        else if constexpr ( h == 13 ) return node( ceras::atan2( a.e, b.e ), "", { a.r, b.r } );
        else if constexpr ( h == 14 ) return node( ceras::maximum( a.e, b.e ), "maximum", { a.r, b.r } );
        else return node( ceras::minimum( a.e, b.e ), "", { a.r, b.r } );
    }
}
struct graph { std::map<int, std::string> nodes; std::map<std::pair<int, int>, ul> edges; std::string error; };
static graph parse( std::string const& text )
{
    graph g; std::istringstream in( text ); std::string line; bool open = false, closed = false; auto const fail = [&]( std::string const& m ) { if ( g.error.empty() ) g.error = m + ": " + line; };
    while ( std::getline( in, line ) )
    {
        while ( !line.empty() && line.back() == ' ' ) line.pop_back(); if ( line.empty() ) continue; if ( closed ) { fail( "text after the graph" ); break; }
        if ( line == "digraph g {" ) { open = true; continue; } if ( !open ) { fail( "text before the graph" ); break; } if ( line == "}" ) { closed = true; continue; }
        int a, b, at = 0; if ( std::sscanf( line.c_str(), "n%d -> n%d ;%n", &a, &b, &at ) == 2 && at == static_cast<int>( line.size() ) ) { ++g.edges[{ a, b }]; continue; }
        if ( std::sscanf( line.c_str(), "n%d [%n", &a, &at ) == 1 && at > 0 && line.size() > 3 && line.substr( line.size() - 3 ) == "] ;" ) { std::string const attr = line.substr( static_cast<ul>( at ), line.size() - 3 - static_cast<ul>( at ) ); auto const [i, fresh] = g.nodes.insert( { a, attr } ); if ( !fresh && i->second != attr ) fail( "a node described in two ways" ); continue; }
        fail( "an unknown line" ); break;
    }
    if ( !closed && g.error.empty() ) g.error = "the graph is not closed"; return g;
}
static std::string shape_text( shape_t const& s ) { std::string r = "{ "; for ( auto const d : s ) r += std::to_string( static_cast<long>( d ) ) + ", "; return r + "}"; }
static void collect( rp const& r, std::map<int, rp>& nodes, std::map<std::pair<int, int>, ul>& edges ) { if ( !nodes.insert( { r->id, r } ).second ) return; for ( auto const& a : r->args ) { ++edges[{ a->id, r->id }]; collect( a, nodes, edges ); } }
static bool has( std::string const& s, std::string const& part ) { return s.find( part ) != std::string::npos; }
static void check_graph( ctx& c, std::string const& text, rp const& root )
{
    std::map<int, rp> want; std::map<std::pair<int, int>, ul> edges; collect( root, want, edges ); graph const g = parse( text ); c.require( g.error.empty(), "syntax", g.error );
    for ( auto const& [id, r] : want )
    {
        auto const i = g.nodes.find( id ); c.require( i != g.nodes.end(), "node-missing", r->kind, " ", id, " (", r->name, ") is not described" ); std::string const& t = i->second;
        c.require( has( t, "[id:" + std::to_string( id ) + "]" ), "label:id", "the label of node ", id, " is ", t ); if ( !r->name.empty() ) c.require( has( t, "\"" + r->name + " " ), "label:name", "the label of ", r->name, " is ", t ); c.require( has( t, "<shape:" + shape_text( r->shape ) + ">" ), "label:shape", "the label of ", r->name, " with shape ", shape_text( r->shape ), " is ", t );
        bool const v = r->kind == "Variable"; c.require( has( t, "shape=box" ) == v, "label:variable", r->name, " is described as ", t ); if ( v ) c.require( has( t, r->trainable ? ", trainable" : ", non-trainable" ), "label:trainable", "a ", r->trainable ? "trainable" : "frozen", " variable is described as ", t );
    }
    for ( auto const& [id, t] : g.nodes ) c.require( want.count( id ), "node-extra", "node ", id, " is not part of the expression: ", t );
    for ( auto const& [e, n] : edges ) c.require( g.edges.count( e ) && g.edges.at( e ) >= n, "edge-missing", "the edge from ", e.first, " to ", e.second, " occurs ", g.edges.count( e ) ? g.edges.at( e ) : 0, " times instead of ", n );
    for ( auto const& [e, n] : g.edges ) c.require( edges.count( e ), "edge-extra", "there is no operand ", e.first, " of ", e.second );
}
template<unsigned S> static void dump( src& s, ctx& c )
{
    pool p; p.fill( s ); auto const b = make<S, 1 + S % 4>( s, p ); c.desc << "expression " << S << " of " << p.vars.size() << " variables, " << p.holders.size() << " place holders, size " << p.n; c.flush_desc();
    std::map<int, rp> nodes; std::map<std::pair<int, int>, ul> edges; collect( b.r, nodes, edges ); bool shared = false; { std::map<int, ul> used; for ( auto const& [e, n] : edges ) used[e.first] += n; for ( auto const& [i, n] : used ) shared = shared || n > 1; } c.nontrivial( shared && nodes.size() > 3 ); c.label( "up to " + std::to_string( ( nodes.size() / 5 + 1 ) * 5 ) + " nodes" );
    std::string const t = ceras::computation_graph( b.e ); check_graph( c, t, b.r ); c.require( ceras::computation_graph( b.e ) == t, "again", "describing the expression again gives another text" );
    auto const copy = b.e; c.require( copy.id() == b.e.id() && copy.name() == b.e.name() && ceras::computation_graph( copy ) == t, "copy", "a copy of the expression is described in another way" );
    if ( !p.holders.empty() && s.coin() ) { std::remove( "model.dot" ); auto m = ceras::model{ p.holders[0].first, b.e }; m.summary( "model.dot" ); std::ifstream i( "model.dot" ); std::string const f( ( std::istreambuf_iterator<char>( i ) ), {} ); c.require( f == t, "summary", "the summary of a model of the expression is not its graph" ); c.label( "model" ); }
}
template<unsigned... S> static void dump_any( src& s, ctx& c, std::integer_sequence<unsigned, S...> ) { typedef void ( *f_t )( src&, ctx& ); static f_t const f[] = { dump<S + 1>... }; f[s.draw( sizeof...( S ) )]( s, c ); }
PBT_FAMILY( "graphs", 20000, 600000, 40, "60 kinds of expressions of 1-30 operators over shared variables, place holders (bound or not), constants and values: the text is a digraph with exactly the nodes of the expression, labelled with their name, shape and id, variables as boxes saying whether they are trainable, and an edge from every operand to its operator; the same for copies and model summaries; non-trivial when a node is used twice" )
{
    if ( s.chance( 1, 20 ) ) // nothing known about the shape
    {
holder h; auto const e = ceras::sin( h ); auto const re = node( e, "sin", { pool::leaf( h, "PlaceHolder" ) } ); c.label( "unknown shape" );
        c.desc << "an unbound place holder"; c.flush_desc(); check_graph( c, ceras::computation_graph( e ), re.r ); check_graph( c, ceras::computation_graph( h ), re.r->args[0] ); return;
    }
    dump_any( s, c, std::make_integer_sequence<unsigned, 60>() );
}
PBT_FAMILY( "identity", 20000, 400000, 60, "histories of up to 40 creations and copies of variables, place holders, constants, values and operators: every creation has an id of its own, larger than the ones before, every copy, move or assignment the one of its original, whatever is bound or assigned; place holders and variables compare by it; non-trivial when there are copies" )
{
    struct item { int id; std::string kind; }; std::vector<item> all; std::set<int> ids; std::vector<std::pair<holder, ul>> hs; std::vector<std::pair<var<double>, ul>> vs; int last = -1; bool copies = false;
    auto const fresh = [&]( int id, char const* kind ) { c.require( ids.insert( id ).second, "duplicate", "a new ", kind, " has the id ", id, " of another one" ); c.require( id > last, "order", "a new ", kind, " has the id ", id, " after ", last ); last = id; all.push_back( { id, kind } ); return all.size() - 1; };
    for ( ul step = 0, n = 2 + s.draw( 39 ); step < n; ++step )
    {
        ul const op = s.draw( 10 ); c.desc << op;
        if ( op < 2 || hs.empty() ) { holder h = s.coin() ? holder{} : holder{ shape_t{ 2 } }; ul const k = fresh( h.id(), "place holder" ); if ( hs.size() < 6 ) hs.push_back( { h, k } ); }
        else if ( op == 2 || vs.empty() ) { var<double> v{ ten{ { 2, 2 } } }; ul const k = fresh( v.id(), "variable" ); if ( vs.size() < 6 ) vs.push_back( { v, k } ); }
        else if ( op == 3 ) { con k{ ten{ { 2, 2 } } }; fresh( k.id(), "constant" ); val w{ 1.0 }; fresh( w.id(), "value" ); con k2 = k; c.require( k2.id() == k.id(), "copy", "a copy of a constant has another id" ); }
        else if ( op == 4 ) { auto const& v = vs[s.draw( vs.size() )].first; auto e = v + v; fresh( e.id(), "operator" ); auto f = e; c.require( f.id() == e.id(), "copy", "a copy of an operator has another id" ); auto g = ceras::sin( f ); fresh( g.id(), "operator" ); c.require( g.op().id() == e.id(), "operand", "the operand of an operator has another id" ); auto h = std::move( g ); c.require( h.id() == last, "move", "a moved operator has another id" ); }
        else if ( op == 5 && hs.size() < 6 ) { auto const k = hs[s.draw( hs.size() )]; hs.push_back( k ); copies = true; }
        else if ( op == 6 && vs.size() < 6 ) { auto const k = vs[s.draw( vs.size() )]; vs.push_back( k ); copies = true; }
        else if ( op == 7 ) { ul const a = s.draw( hs.size() ), b = s.draw( hs.size() ); auto const t = hs[b]; hs[a] = t; copies = true; }
        else if ( op == 8 ) { auto& h = hs[s.draw( hs.size() )].first; if ( s.coin() ) h.bind( ten{ { 1 + s.draw( 3 ), 2 } } ); else h.reset(); }
        else { auto& v = vs[s.draw( vs.size() )].first; v.data() = ten{ { 2, 2 } }; auto e = ceras::square( v ); fresh( e.id(), "operator" ); ceras::get_default_session<ten>().run( e ); }
        for ( auto const& [h, k] : hs ) c.require( h.id() == all[k].id, "kept", "a place holder has the id ", h.id(), " instead of ", all[k].id ); for ( auto const& [v, k] : vs ) c.require( v.id() == all[k].id, "kept", "a variable has the id ", v.id(), " instead of ", all[k].id );
        for ( auto const& [a, i] : hs ) for ( auto const& [b, j] : hs ) { c.require( ( a == b ) == ( i == j ) && ( a != b ) == ( i != j ), "compare", "equality of place holders" ); c.require( ( a < b ) == ( i < j ) && ( a > b ) == ( i > j ) && ( a <= b ) == ( i <= j ) && ( a >= b ) == ( i >= j ), "compare", "order of place holders" ); }
        for ( auto const& [a, i] : vs ) for ( auto const& [b, j] : vs ) c.require( ( a == b ) == ( i == j ), "compare", "equality of variables" );
    }
    c.nontrivial( copies );
}
CER_MAIN()
