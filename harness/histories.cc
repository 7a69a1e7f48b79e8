// Histories of evaluations over shared variables and place holders: nothing of an earlier evaluation may remain, and nothing computed earlier may change.
#include "../lib/dag.hpp"
using namespace cer;

struct kept { ceras::tensor<double> t; nd copy; };
struct world
{
    dag g; std::vector<ul> roots; std::vector<any_expr> ex; std::vector<kept> results; bool phase = true;
};
static void add_root( src& s, world& w ) { if ( s.coin() ) w.g.join( s, 3 ); ul const r = w.g.nodes.size() - 1; w.roots.push_back( r ); w.ex.push_back( w.g.nodes[r].ex ); }
static void verify_kept( ctx& c, world& w ) { for ( ul k = 0; k < w.results.size(); ++k ) expect_same( c, to_nd( w.results[k].t ), w.results[k].copy, "kept-result", "a result returned earlier (number " + std::to_string( k ) + ")" ); }
static void verify_leaves( ctx& c, world& w )
{
    for ( ul k = 0; k < w.g.vars.size(); ++k ) expect_same( c, to_nd( w.g.vars[k].data() ), w.g.now.vars[k], "variable-data", "variable " + std::to_string( k ) );
    for ( ul k = 0; k < w.g.inputs.size(); ++k ) expect_same( c, to_nd( w.g.inputs[k].forward() ), w.g.now.inputs[k], "place-holder-data", "place holder " + std::to_string( k ) );
}
// a variable, place holder or constant by itself hands out its own tensor, which is shared by design; identity of it is it
static bool leaf_like( world& w, ul root ) { while ( w.g.nodes[root].text.find( "=identity(" ) != std::string::npos ) root = w.g.nodes[root].args[0]; return w.g.nodes[root].args.empty(); }
static void run_root( src& s, ctx& c, world& w, ul k, bool backward, bool scribble )
{
    ul const root = w.roots[k]; auto const need = w.g.needed( root ); nd const want = w.g.value( root, w.g.now, need ); auto t = run_raw<double>( w.ex[k] ); nd const y = to_nd( t );
    expect_close( c, y, want, 1e-8, 1e-9, "value", "expression " + std::to_string( k ) );
    if ( backward )
    {
        std::vector<nd> before; for ( auto& v : w.g.vars ) before.push_back( to_nd( v.gradient() ) );
        nd const up = gen_upstream( s, y.shape ); auto u = to_tensor<double>( up ); w.ex[k].backward( u ); expect_same( c, to_nd( u ), up, "upstream", "the incoming gradient" ); expect_same( c, to_nd( t ), y, "value-after-backward", "the value after backpropagation" );
        for ( ul n = 0, i = 0; n < w.g.nodes.size(); ++n )
        {
            if ( w.g.nodes[n].text.find( "=v(" ) == std::string::npos ) continue; ul const v = i++;
            if ( n > root || !need[n] ) { expect_same( c, to_nd( w.g.vars[v].gradient() ), before[v], "foreign-gradient", "the gradient of variable " + std::to_string( v ) + ", which the expression does not contain" ); continue; }
            if ( !w.phase ) continue; // gradients accumulate outside training
            ref_t const f = [&]( std::vector<nd> const& x ) { dag::env e = w.g.now; e.vars = x; return w.g.value( root, e, need ); };
            expect_grad( c, to_nd( w.g.vars[v].gradient() ), numeric_vjp( f, w.g.now.vars, v, up ), 2e-5, 2e-5, "gradient", "variable " + std::to_string( v ), false );
        }
    }
    if ( scribble ) t.reset( 1e6 ); else if ( !leaf_like( w, root ) ) w.results.push_back( { t, y } );
}
PBT_FAMILY( "histories", 5000, 100000, 40, "histories of up to 25 steps over 1-4 expressions sharing variables, place holders and subexpressions: assigning variables, binding batches of other sizes, evaluating, backpropagating, switching the learning phase, overwriting a returned tensor, building further expressions on top; every value and gradient, and every tensor returned earlier, is compared after each step; non-trivial when data changed between two evaluations of one expression" )
{
    world w; w.g.leaves( s, s.chance( 3, 4 ) ); w.g.grow( s, 2 + s.draw( 6 ) ); add_root( s, w ); std::vector<int> seen( 8, -1 ); int version = 0; bool changed = false;
    c.desc << "batch " << w.g.batch << " "; for ( auto const& n : w.g.nodes ) c.desc << n.text << " "; c.desc << "::";
    for ( ul step = 0, n = 3 + s.draw( 23 ); step < n; ++step )
    {
        ul const op = s.draw( 12 );
        if ( op == 0 ) { ul const k = s.draw( w.g.vars.size() ); w.g.now.vars[k] = gen_generic( s, w.g.now.vars[k].shape, -3, 3 ); if ( s.coin() ) set_data( w.g.vars[k], w.g.now.vars[k] ); else w.g.vars[k].data() = to_tensor<double>( w.g.now.vars[k] ); c.desc << " assign v" << k; ++version; }
        else if ( op <= 2 && !w.g.inputs.empty() )
        {
            if ( s.coin() ) w.g.batch = 1 + s.draw( 6 ); c.desc << " bind batch " << w.g.batch; ++version;
            for ( ul k = 0; k < w.g.inputs.size(); ++k ) { shape_t full = w.g.input_tail[k]; full.insert( full.begin(), w.g.batch ); w.g.now.inputs[k] = gen_generic( s, full, -3, 3 ); auto const t = to_tensor<double>( w.g.now.inputs[k] ); if ( s.coin() ) w.g.inputs[k].bind( t ); else ceras::bind( w.g.inputs[k], t ); w.results.push_back( { t, w.g.now.inputs[k] } ); } // what was bound earlier stays as it is, too
        }
        else if ( op == 3 ) { w.phase = !w.phase; ceras::learning_phase = w.phase ? 1 : 0; c.desc << ( w.phase ? " train" : " predict" ); }
        else if ( op == 4 && w.roots.size() < 4 ) { ul const from = w.g.nodes.size(); w.g.grow( s, 1 + s.draw( 4 ) ); add_root( s, w ); c.desc << " build"; for ( ul k = from; k < w.g.nodes.size(); ++k ) c.desc << " " << w.g.nodes[k].text; }
        else if ( op == 5 ) { auto& e = w.ex[s.draw( w.ex.size() )]; any_expr copy = e; e = copy; c.desc << " copy"; } // an expression is a value: copying it changes nothing
        else { ul const k = s.draw( w.roots.size() ); bool const b = s.chance( 2, 3 ), over = s.chance( 1, 5 ) && !leaf_like( w, w.roots[k] ); c.desc << ( b ? " run+backward e" : " run e" ) << k << ( over ? " overwrite" : "" ); c.flush_desc(); changed = changed || ( seen[k] >= 0 && seen[k] != version ); seen[k] = version; run_root( s, c, w, k, b, over ); }
        c.flush_desc(); verify_kept( c, w ); verify_leaves( c, w );
    }
    ceras::learning_phase = 1; c.nontrivial( changed );
}
PBT_FAMILY( "two-copies", 3000, 60000, 60, "the same expression built twice, and an expression and its copy, give the same values and gradients whatever is evaluated in between; non-trivial always" )
{
    world w; w.g.leaves( s, s.coin() ); w.g.grow( s, 2 + s.draw( 8 ) ); if ( s.coin() ) w.g.join( s, 3 ); ul const r = w.g.nodes.size() - 1; any_expr a = w.g.nodes[r].ex, b = w.g.nodes[r].ex; c.desc << "batch " << w.g.batch << " " << w.g.text( r ); c.flush_desc(); c.nontrivial();
    nd const ya = run<double>( a ); nd const up = gen_upstream( s, ya.shape ); auto u = to_tensor<double>( up ); a.backward( u ); std::vector<nd> ga; for ( auto& v : w.g.vars ) ga.push_back( to_nd( v.gradient() ) );
    for ( ul k = s.draw( 3 ); k-- > 0; ) { any_expr o = w.g.nodes[s.draw( w.g.nodes.size() )].ex; nd const y = run<double>( o ); if ( s.coin() ) { auto g = to_tensor<double>( gen_upstream( s, y.shape ) ); o.backward( g ); } }
    nd const yb = run<double>( b ); expect_same( c, yb, ya, "copy:value", "the copy's value" ); u = to_tensor<double>( up ); b.backward( u ); auto const need = w.g.needed( r );
    for ( ul n = 0, i = 0; n < w.g.nodes.size(); ++n ) { if ( w.g.nodes[n].text.find( "=v(" ) == std::string::npos ) continue; ul const v = i++; if ( need[n] ) expect_same( c, to_nd( w.g.vars[v].gradient() ), ga[v], "copy:gradient", "the copy's gradient" ); }
}
// two expressions built by one factory over variables of different sizes, evaluated together and in any order, against expressions of their own factories
template<class MK> static void factory_case( src& s, ctx& c, std::string const& name, MK const& mk, shape_t const& sa, shape_t const& sb )
{
    c.label( name ); c.desc << name << " of " << str( sa ) << " and " << str( sb ); c.flush_desc(); c.nontrivial( sa != sb ); nd const x = gen_generic( s, sa, -3, 3 ), y = gen_generic( s, sb, -3, 3 ); var<double> a{ to_tensor<double>( x ) }, b{ to_tensor<double>( y ) };
    auto own_a = mk()( a ); auto own_b = mk()( b ); nd const wa = run<double>( own_a ), ua = gen_upstream( s, wa.shape ); auto t = to_tensor<double>( ua ); own_a.backward( t ); nd const ga = to_nd( a.gradient() );
    nd const wb = run<double>( own_b ), ub = gen_upstream( s, wb.shape ); t = to_tensor<double>( ub ); own_b.backward( t ); nd const gb = to_nd( b.gradient() );
    auto const f = mk(); auto ea = f( a ); auto eb = f( b ); auto both = ceras::sum_reduce( ea ) + 2.0 * ceras::sum_reduce( eb );
    auto const one = [&]( auto& e, var<double>& v, nd const& w, nd const& u, nd const& g, char const* which ) { expect_same( c, run<double>( e ), w, name + ":value", std::string( "value of the " ) + which ); auto k = to_tensor<double>( u ); e.backward( k ); expect_same( c, to_nd( v.gradient() ), g, name + ":gradient", std::string( "gradient of the " ) + which ); };
    for ( ul k = 0, n = 2 + s.draw( 5 ); k < n; ++k )
    {
        switch ( s.draw( 4 ) )
        {
            case 0: one( ea, a, wa, ua, ga, "first" ); break;
            case 1: one( eb, b, wb, ub, gb, "second" ); break;
            case 2: { nd const ya = run<double>( ea ), yb = run<double>( eb ); expect_same( c, ya, wa, name + ":value", "value of the first" ); expect_same( c, yb, wb, name + ":value", "value of the second" ); auto k1 = to_tensor<double>( ua ); ea.backward( k1 ); expect_same( c, to_nd( a.gradient() ), ga, name + ":gradient", "gradient of the first after evaluating the second" ); break; }
            default:
            {
                expect_close( c, run<double>( both ), nd{ { 1 }, sum( wa ) + 2 * sum( wb ) }, 1e-9, 1e-9, name + ":both", "value of both in one expression" ); var<double> a2{ to_tensor<double>( x ) }, b2{ to_tensor<double>( y ) }; auto k1 = to_tensor<double>( nd{ { 1 }, 1. } ); both.backward( k1 ); nd const g1 = to_nd( a.gradient() ), g2 = to_nd( b.gradient() );
                auto ra = mk()( a2 ); nd const va = run<double>( ra ); auto o = to_tensor<double>( nd{ va.shape, 1. } ); ra.backward( o ); auto rb = mk()( b2 ); nd const vb = run<double>( rb ); o = to_tensor<double>( nd{ vb.shape, 2. } ); rb.backward( o );
                expect_close( c, g1, to_nd( a2.gradient() ), 1e-9, 1e-9, name + ":both", "gradient of the first in one expression" ); expect_close( c, g2, to_nd( b2.gradient() ), 1e-9, 1e-9, name + ":both", "gradient of the second in one expression" ); break;
            }
        }
    }
}
PBT_FAMILY( "factories", 4000, 80000, 80, "two expressions made by one operator factory (pooling, padding, cropping, repeating, flipping, reducing, reshaping, clipping, activations, broadcasting) over variables of different sizes behave like those of separate factories, in any order of evaluation; non-trivial when the sizes differ" )
{
    ul const k = s.draw( 22 ); bool const image = k < 6; auto const sh = [&]() { return image ? shape_t{ 1 + s.draw( 3 ), 2 + s.draw( 5 ), 2 + s.draw( 5 ), 1 + s.draw( 3 ) } : gen_shape( s, 2, 3, 5, 40 ); }; shape_t const sa = sh(), sb = s.chance( 1, 6 ) ? sa : sh();
#define FAC( name, e ) return factory_case( s, c, name, [=]() { return e; }, sa, sb )
    switch ( k )
    {
        case 0: FAC( "max_pooling_2d", ceras::max_pooling_2d( 2 ) );
        case 1: FAC( "average_pooling_2d", ceras::average_pooling_2d( 2 ) );
        case 2: FAC( "up_sampling_2d", ceras::up_sampling_2d( 2 ) );
        case 3: FAC( "zero_padding_2d", ceras::zero_padding_2d( { 1, 2 } ) );
        case 4: if ( std::min( std::min( sa[1], sa[2] ), std::min( sb[1], sb[2] ) ) < 3 ) c.discard(); FAC( "cropping_2d", ceras::cropping_2d( { 1 } ) );
        case 5: FAC( "zero_padding_2d of 4", ceras::zero_padding_2d( { 1, 3, 2, 1 } ) );
        case 6: FAC( "repeat", ceras::repeat( 2, 0 ) );
        case 7: FAC( "repeat last axis", ceras::repeat( 3 ) );
        case 8: FAC( "flip", ceras::flip( 0 ) );
        case 9: FAC( "reduce_max", ceras::reduce_max( 0 ) );
        case 10: FAC( "reduce_min", ceras::reduce_min() );
        case 11: FAC( "reduce_sum", ceras::reduce_sum( 1 ) );
        case 12: FAC( "argmax", ceras::argmax( 1 ) );
        case 13: FAC( "expand_dims", ceras::expand_dims( 1 ) );
        case 14: FAC( "clip", ceras::clip( -1.0, 1.0 ) );
        case 15: FAC( "leaky_relu", ceras::leaky_relu( 0.3 ) );
        case 16: FAC( "elu", ceras::elu( 1.5 ) );
        case 17: FAC( "prelu", ceras::prelu( 0.4 ) );
        case 18: FAC( "heaviside_step", ceras::heaviside_step( 2.0 ) );
        case 19: FAC( "softmax", []( auto const& x ) { return ceras::softmax( x ); } );
        case 20: FAC( "squeeze", ceras::squeeze() );
        default: FAC( "argmin", ceras::argmin( 0 ) );
    }
}
CER_MAIN()
