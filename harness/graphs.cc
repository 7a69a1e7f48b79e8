// Whole expressions: random compositions of operators, their values and the gradients of every variable.
#include "../lib/dag.hpp"
using namespace cer;

static void check_gradients( src& s, ctx& c, dag& g, ul root, any_expr& ex, std::string const& what )
{
    auto const need = g.needed( root ); nd const y = run<double>( ex ); nd const want = g.value( root, g.now, need );
    expect_close( c, y, want, 1e-8, 1e-9, "value", what );
    nd const up = gen_upstream( s, y.shape ); auto t = to_tensor<double>( up ); ex.backward( t ); expect_same( c, to_nd( t ), up, "upstream", what + ": the incoming gradient must not change" );
    for ( ul k = 0, v = 0; k < g.nodes.size(); ++k )
    {
        if ( g.nodes[k].text.find( "=v(" ) == std::string::npos ) continue;
        ul const i = v++; expect_same( c, to_nd( g.vars[i].data() ), g.now.vars[i], "purity", what + ": variable " + std::to_string( i ) );
        if ( !need[k] ) continue;
        ref_t const f = [&]( std::vector<nd> const& x ) { dag::env e = g.now; e.vars = x; return g.value( root, e, need ); };
        auto const w = numeric_vjp( f, g.now.vars, i, up ); expect_grad( c, to_nd( g.vars[i].gradient() ), w, 2e-5, 2e-5, "gradient", what + " variable " + std::to_string( i ), false );
    }
}
static std::string build( src& s, ctx& c, dag& g, bool inputs, ul steps, ul& root )
{
    g.leaves( s, inputs ); g.grow( s, steps ); if ( s.chance( 2, 3 ) ) g.join( s, 4 ); root = g.nodes.size() - 1; std::string const t = g.text( root ); c.desc << "batch " << g.batch << " " << t; c.flush_desc();
    for ( auto const& o : g.used_ops ) c.label( o ); return t;
}
PBT_FAMILY( "variables", 6000, 120000, 60, "random expressions of up to 25 operators over 1-3 variables and constants, sharing subexpressions freely: value and the gradient of every variable; non-trivial when a subexpression or variable is used at least twice" )
{
    dag g; ul root; build( s, c, g, false, 2 + s.draw( 11 ), root ); auto const need = g.needed( root ); std::vector<int> uses( g.nodes.size(), 0 ); bool shared = false; for ( ul k = 0; k <= root; ++k ) if ( need[k] ) for ( ul a : g.nodes[k].args ) shared = ++uses[a] > 1 || shared; c.nontrivial( shared );
    any_expr ex = g.nodes[root].ex; check_gradients( s, c, g, root, ex, "expression" ); if ( s.chance( 1, 3 ) ) check_gradients( s, c, g, root, ex, "second run" );
}
PBT_FAMILY( "inputs", 6000, 120000, 60, "random expressions over variables, constants and place holders bound to a batch; non-trivial when place holder and variable both reach the result" )
{
    dag g; ul root; build( s, c, g, true, 3 + s.draw( 11 ), root ); auto const need = g.needed( root ); bool v = false, i = false; for ( ul k = 0; k <= root; ++k ) if ( need[k] ) { v = v || g.nodes[k].text.find( "=v(" ) != std::string::npos; i = i || g.nodes[k].text.find( "=in(" ) != std::string::npos; } c.nontrivial( v && i );
    any_expr ex = g.nodes[root].ex; check_gradients( s, c, g, root, ex, "expression" );
}
PBT_FAMILY( "perceptron", 2500, 50000, 40, "2-4 fully connected layers with shared weights or skip connections, applied to batches of several sizes; non-trivial when weights are shared or skipped" )
{
    dag g; g.batch = 1 + s.draw( 5 ); ul const in = 1 + s.draw( 5 ), hidden = 1 + s.draw( 6 ), layers = 2 + s.draw( 3 ); ul const x = g.add_input( { in }, gen_generic( s, { g.batch, in }, -2, 2 ) ); ul const w0 = g.add_var( gen_generic( s, { in, hidden }, -1, 1 ) ), b0 = g.add_var( gen_generic( s, { hidden }, -1, 1 ) );
    auto const dense = [&]( ul h, ul w, ul b ) { any_expr p = g.nodes[h].ex, q = g.nodes[w].ex; ul const m = g.binary( h, w, p * q, { g.nodes[w].tail[1] }, true, 10, []( nd const& u, nd const& v ) { return matmul( u, v ); }, "matmul", "matmul" ); any_expr r = g.nodes[m].ex, t = g.nodes[b].ex; return g.binary( m, b, r + t, g.nodes[m].tail, true, 10, []( nd const& u, nd const& v ) { return bzip( u, v, []( double i, double j ) { return i + j; } ); }, "plus", "+" ); };
    ul h = dense( x, w0, b0 ); h = g.elementwise( s, g.tame( h ) ); ul const w1 = g.add_var( gen_generic( s, { hidden, hidden }, -0.7, 0.7 ) ), b1 = g.add_var( gen_generic( s, { hidden }, -1, 1 ) ); bool shared = false;
    for ( ul k = 1; k < layers; ++k )
    {
        ul w = w1, b = b1; if ( s.coin() ) { w = g.add_var( gen_generic( s, { hidden, hidden }, -0.7, 0.7 ) ); b = g.add_var( gen_generic( s, { hidden }, -1, 1 ) ); } else shared = shared || k > 1;
        ul const before = h; h = dense( h, w, b ); h = g.elementwise( s, g.tame( h ) ); h = g.tame( h );
        if ( s.coin() ) { any_expr p = g.nodes[h].ex, q = g.nodes[before].ex; h = g.binary( h, before, p + q, g.nodes[h].tail, true, g.nodes[h].bound + g.nodes[before].bound, []( nd const& u, nd const& v ) { return zip( u, v, []( double i, double j ) { return i + j; } ); }, "plus", "+" ); shared = true; }
    }
    ul const root = g.nodes.size() - 1; c.desc << "batch " << g.batch << " " << g.text( root ); c.flush_desc(); c.nontrivial( shared ); any_expr ex = g.nodes[root].ex; check_gradients( s, c, g, root, ex, "perceptron" );
    for ( ul r = s.draw( 3 ); r-- > 0; ) { g.batch = 1 + s.draw( 6 ); g.now.inputs[0] = gen_generic( s, { g.batch, in }, -2, 2 ); g.inputs[0].bind( to_tensor<double>( g.now.inputs[0] ) ); c.desc << " then batch " << g.batch; c.flush_desc(); check_gradients( s, c, g, root, ex, "perceptron with another batch" ); }
}
PBT_FAMILY( "values", 3000, 40000, 60, "expressions in which one or two value objects are operands of +, -, * and elementwise_product with 2-4 variables of different shapes, on either side, several times, and assigned other numbers between runs: the sum of all the results and the gradient of every variable; non-trivial when the shapes differ" )
{
    ul const n = 2 + s.draw( 3 ); ceras::value<double> v{ s.uniform( -3, 3 ) }, w{ s.uniform( -3, 3 ) }; std::vector<var<double>> vars; std::vector<nd> data; shape_t sh = gen_shape( s, 1, 3, 4, 24 ); bool differ = false;
    for ( ul k = 0; k < n; ++k ) { if ( k && s.chance( 2, 3 ) ) { shape_t const old = sh; if ( s.coin() ) std::reverse( sh.begin(), sh.end() ); else if ( s.coin() ) sh = { prod( sh ) }; else sh = gen_shape( s, 1, 3, 4, 24 ); differ = differ || sh != old; } nd const x = gen_generic( s, sh, -3, 3 ); data.push_back( x ); vars.emplace_back( to_tensor<double>( x ) ); }
    c.nontrivial( differ ); std::vector<ul> how; std::vector<bool> which; any_expr total; std::vector<ul> wide;
    for ( ul k = 0; k < n; ++k )
    {
        ul const h = s.draw( 7 ); bool const b = s.chance( 1, 3 ); how.push_back( h ); which.push_back( b ); auto const& a = b ? w : v; auto const& x = vars[k]; any_expr e;
        switch ( h ) { case 0: e = any_expr::of( a + x ); break; case 1: e = any_expr::of( x + a ); break; case 2: e = any_expr::of( a - x ); break; case 3: e = any_expr::of( x - a ); break; case 4: e = any_expr::of( ceras::elementwise_product( a, x ) ); break; case 5: e = any_expr::of( ceras::elementwise_product( x, a ) ); break; default: e = any_expr::of( a * x ); break; }
        c.desc << ( b ? "w" : "v" ) << " op" << h << " " << str( data[k].shape ) << " "; any_expr sum = any_expr::of( ceras::sum_reduce( any_expr::of( ceras::square( e ) ) ) ); if ( k == 0 ) total = sum; else { any_expr const t = total; total = any_expr::of( t + sum ); }
    }
    c.flush_desc();
    for ( ul r = 0, runs = 1 + s.draw( 3 ); r < runs; ++r )
    {
        if ( r ) for ( ul k = 0; k < n; ++k ) if ( s.coin() ) { data[k] = gen_generic( s, data[k].shape, -3, 3 ); set_data( vars[k], data[k] ); }
        double want = 0; std::vector<nd> grads; double const up = s.uniform( -2, 2 );
        for ( ul k = 0; k < n; ++k ) { double const a = which[k] ? w.data() : v.data(); nd g{ data[k].shape }; for ( ul i = 0; i < g.size(); ++i ) { double const x = data[k].v[i]; double const y = how[k] < 2 ? x + a : how[k] == 2 ? a - x : how[k] == 3 ? x - a : a * x, d = how[k] < 2 || how[k] == 3 ? 1 : how[k] == 2 ? -1 : a; want += y * y; g.v[i] = 2 * y * d * up; } grads.push_back( g ); }
        nd const y = run<double>( total ); expect_close( c, y, nd{ y.shape, std::vector<double>( y.size(), want ) }, 1e-9, 1e-9, "values:value", "the sum of the squares" ); nd g{ y.shape, std::vector<double>( y.size(), up ) }; auto t = to_tensor<double>( g ); total.backward( t );
        for ( ul k = 0; k < n; ++k ) expect_close( c, to_nd( vars[k].gradient() ), grads[k], 1e-8, 1e-8, "values:gradient", "the gradient of variable " + std::to_string( k ) );
    }
}
CER_MAIN()
