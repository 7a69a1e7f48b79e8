// Regularized and frozen variables in random expressions.
#include "../lib/dag.hpp"
using namespace cer;

struct trait { double l1 = 0, l2 = 0; bool train = true; };
static trait gen_trait( src& s ) { trait t; switch ( s.draw( 5 ) ) { case 0: break; case 1: t.l1 = s.uniform( 0.01, 2 ); break; case 2: t.l2 = s.uniform( 0.01, 2 ); break; default: t.l1 = s.uniform( 0.01, 2 ); t.l2 = s.uniform( 0.01, 2 ); } t.train = !s.chance( 1, 4 ); return t; }
static void set_trait( src& s, var<double>& v, trait const& t )
{
    var<double> copy = v; var<double>& w = s.coin() ? copy : v; // all copies of a variable are the same variable
    w.l1_regularizer() = t.l1; w.l2_regularizer() = t.l2; if ( s.coin() ) w.trainable( t.train ); else w.trainable() = t.train;
}
static std::string show( trait const& t ) { std::ostringstream o; o << "[l1 " << t.l1 << " l2 " << t.l2 << ( t.train ? "" : " frozen" ) << "]"; return o.str(); }
// interval of the penalty's derivative
static void penalty( trait const& t, double x, double& lo, double& hi ) { double const q = 2 * t.l2 * x; lo = hi = q; if ( x > 0 ) { lo += t.l1; hi += t.l1; } else if ( x < 0 ) { lo -= t.l1; hi -= t.l1; } else { lo -= t.l1; hi += t.l1; } }
static void compare( ctx& c, nd const& got, vjp_result const& d, nd const& x, trait const& t, double factor, double offset_sign, nd const* base, std::string const& tag, std::string const& what )
{
    // got = base + offset_sign*factor*(derivative + penalty)
    for ( ul i = 0; i < x.size(); ++i )
    {
        if ( i < d.skip.size() && d.skip[i] ) continue;
        if ( !d.smooth[i] ) continue;
        double lo, hi; penalty( t, x.v[i], lo, hi ); double const g = ( got.v[i] - ( base ? base->v[i] : 0 ) ) / ( factor * offset_sign ), tol = 3e-5 * ( 1 + std::fabs( d.g.v[i] ) ) + d.slack[i];
        if ( !( g >= d.g.v[i] + lo - tol && g <= d.g.v[i] + hi + tol ) ) c.fail( tag, what, ": element ", i, " (value ", x.v[i], ") gives ", g, " but the derivative is ", d.g.v[i], " plus a penalty of ", lo, "; traits ", show( t ) );
    }
}
PBT_FAMILY( "expressions", 5000, 100000, 50, "random expressions over 1-3 variables with l1/l2 coefficients and trainable flags, set before or after building and through any copy, evaluated and backpropagated several times, with an optimizer's steps in between: gradient = derivative + l1*sign + 2*l2*value exactly once; frozen variables get none and do not move; non-trivial when a regularized variable is used on at least two paths or one is frozen" )
{
    dag g; g.leaves( s, s.coin() ); std::vector<trait> t( g.vars.size() ); bool const early = s.coin(); auto const traits = [&]() { for ( ul k = 0; k < t.size(); ++k ) { t[k] = gen_trait( s ); set_trait( s, g.vars[k], t[k] ); c.desc << " v" << k << show( t[k] ); } };
    bool zeros = false; for ( ul k = 0; k < g.vars.size(); ++k ) if ( s.chance( 1, 6 ) ) { zeros = true; g.now.vars[k].v[s.draw( g.now.vars[k].size() )] = 0; set_data( g.vars[k], g.now.vars[k] ); }
    if ( early ) traits(); g.grow( s, 2 + s.draw( 8 ) ); g.join( s, 4 ); if ( !early ) traits(); ul const root = g.nodes.size() - 1; auto const need = g.needed( root ); any_expr ex = g.nodes[root].ex; c.desc << " batch " << g.batch << " " << g.text( root );
    // elements of value zero (where the l1 norm has its kink) only go with operators which have no kink of their own
    if ( zeros ) for ( ul n = 0; n <= root; ++n ) if ( need[n] ) for ( char const* op : { "abs(", "relu", "clip(", "maximum(", "minimum(", "reduce_max", "reduce_min", "max_pool", "elu(", "hard_", "shrink", "hypot(" } ) if ( g.nodes[n].text.find( op ) != std::string::npos ) c.discard();
    std::vector<ul> node_of; for ( ul n = 0; n < g.nodes.size(); ++n ) if ( g.nodes[n].text.find( "=v(" ) != std::string::npos ) node_of.push_back( n );
    std::vector<ul> uses( g.vars.size(), 0 ); for ( ul n = 0; n <= root; ++n ) if ( need[n] ) for ( ul a : g.nodes[n].args ) for ( ul k = 0; k < node_of.size(); ++k ) uses[k] += a == node_of[k];
    bool hit = false; for ( ul k = 0; k < t.size(); ++k ) hit = hit || ( need[node_of[k]] && ( !t[k].train || ( uses[k] > 1 && ( t[k].l1 > 0 || t[k].l2 > 0 ) ) ) ); c.nontrivial( hit );
    ceras::sgd<any_expr, double> opt{ ex, 1, 0.01 };
    for ( ul step = 0, n = 1 + s.draw( 4 ); step < n; ++step )
    {
        if ( step && s.chance( 1, 3 ) ) { ul const k = s.draw( t.size() ); t[k] = gen_trait( s ); set_trait( s, g.vars[k], t[k] ); c.desc << " then v" << k << show( t[k] ); }
        nd const y = run<double>( ex ); expect_close( c, y, g.value( root, g.now, need ), 1e-8, 1e-9, "value", "the loss" ); bool const optimize = s.coin(); c.desc << ( optimize ? " step" : " backward" ); c.flush_desc();
        std::vector<nd> const old = g.now.vars; nd up{ { 1 }, 1. }; ref_t const f = [&]( std::vector<nd> const& x ) { dag::env e = g.now; e.vars = x; return g.value( root, e, need ); };
        if ( optimize ) ceras::get_default_session<ceras::tensor<double>>().run( opt ); else { up = gen_upstream( s, y.shape ); auto u = to_tensor<double>( up ); ex.backward( u ); }
        for ( ul k = 0; k < t.size(); ++k )
        {
            std::string const what = "variable " + std::to_string( k ); nd const x = to_nd( g.vars[k].data() );
            if ( !t[k].train || !need[node_of[k]] ) { expect_same( c, x, old[k], t[k].train ? "foreign" : "frozen", what ); if ( !t[k].train ) { if ( !optimize && need[node_of[k]] ) expect_close( c, to_nd( g.vars[k].gradient() ), nd{ x.shape }, 0, 0, "frozen-gradient", what + " is not trainable, its gradient" ); } continue; }
            auto const d = numeric_vjp( f, old, k, up );
            if ( optimize ) compare( c, x, d, old[k], t[k], 0.01, -1, &old[k], "step", what + " after a step of rate 0.01" );
            else { expect_same( c, x, old[k], "data", what ); compare( c, to_nd( g.vars[k].gradient() ), d, old[k], t[k], 1, 1, nullptr, "gradient", what ); }
        }
        for ( ul k = 0; k < t.size(); ++k ) g.now.vars[k] = to_nd( g.vars[k].data() );
    }
}
// the flag set for all variables of an expression at once
PBT_FAMILY( "make-trainable", 3000, 60000, 80, "make_trainable on expressions and trainable() on models, switched several times, with variables given their flag and coefficients in the constructor and a variable outside the expression: steps move exactly the trainable variables; non-trivial when the flag changed" )
{
    ul const n = 1 + s.draw( 4 ); shape_t const sh{ n, n }; double const l1 = s.coin() ? 0 : 0.25, l2 = s.coin() ? 0 : 0.125; bool const ctor = s.coin(); c.desc << "extent " << n << " l1 " << l1 << " l2 " << l2 << " initially " << ctor;
    std::vector<var<double>> v; for ( ul k = 0; k < 3; ++k ) v.emplace_back( to_tensor<double>( gen_generic( s, sh, -1, 1 ) ), l1, l2, k == 0 ? ctor : true ); std::vector<bool> train{ ctor, true, true };
    ceras::place_holder<ceras::tensor<double>> x{ shape_t{ n } }; nd const data = gen_generic( s, { 2, n }, -1, 1 ); x.bind( to_tensor<double>( data ) );
    auto ex = ceras::tanh( x * v[0] ) * v[1]; auto other = ceras::square( v[2] ); auto m = ceras::model{ x, ex }; auto loss = ceras::sum_reduce( ceras::square( ex ) ) + ceras::sum_reduce( other ); ceras::adagrad<decltype( loss ), double> opt{ loss, 1, 0.1 }; bool changed = false;
    auto cm = m.compile( []( auto const& out ) { return [=]( auto const& gt ) { return ceras::sum_reduce( ceras::square( out - gt ) ); }; }, ceras::SGD( 1UL, 0.1 ) );
    for ( ul step = 0, k = 2 + s.draw( 5 ); step < k; ++step )
    {
        if ( s.chance( 2, 3 ) )
        {
            bool const t = s.coin(); changed = changed || t != train[0];
            switch ( s.draw( 5 ) )
            {
                case 4: cm.trainable( t ); train[0] = train[1] = t; c.desc << " compiled model:" << t; break;
                case 0: ceras::make_trainable( ex, t ); train[0] = train[1] = t; c.desc << " expression:" << t; break;
                case 1: m.trainable( t ); train[0] = train[1] = t; c.desc << " model:" << t; break;
                case 2: ceras::make_trainable( other, t ); train[2] = t; c.desc << " other:" << t; break;
                default: ceras::make_trainable( v[1], t ); train[1] = t; c.desc << " variable:" << t; break;
            }
            c.flush_desc();
        }
        for ( ul j = 0; j < 3; ++j ) c.require( v[j].trainable() == train[j], "flag", "trainable() of variable ", j, " is ", v[j].trainable() );
        std::vector<nd> old; for ( auto& w : v ) old.push_back( to_nd( w.data() ) ); run<double>( loss ); ceras::get_default_session<ceras::tensor<double>>().run( opt );
        for ( ul j = 0; j < 3; ++j ) { nd const y = to_nd( v[j].data() ); if ( !train[j] ) expect_same( c, y, old[j], "frozen", "variable " + std::to_string( j ) ); else { bool moved = false; for ( ul i = 0; i < y.size(); ++i ) moved = moved || y.v[i] != old[j].v[i]; c.require( moved, "moves", "variable ", j, " is trainable but did not move" ); } }
    }
    c.nontrivial( changed );
}
CER_MAIN()
