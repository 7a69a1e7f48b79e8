// Optimizers, step by step against reference implementations in double precision.
#include "../lib/cer.hpp"
using namespace cer;

enum kind { k_gd, k_sgd, k_adagrad, k_rmsprop, k_adadelta, k_adam };
static char const* const kind_name[] = { "gradient_descent", "sgd", "adagrad", "rmsprop", "adadelta", "adam" };
struct conf { int k; ul bs; double lr, p1, p2, decay; bool nesterov; int bare = 0; }; // bare: 1 leaves out everything after the learning rate, 2 the learning rate too
// the reference: per variable two moments; `lr` is the learning rate of this step
struct moments { nd m, v; };
struct reference
{
    conf f; ul it = 0; double lr_compound, lr0; std::vector<moments> ms;
    reference( conf const& c, ul n ) : f( c ), ms( n ) { lr0 = ( c.k == k_adadelta ? 1. : c.lr ) / static_cast<double>( c.bs ); lr_compound = lr0; }
    // the two usual readings of "decay"
    double rate( int reading ) const { return reading == 0 ? lr_compound : lr0 / ( 1 + f.decay * static_cast<double>( it ) ); }
    void begin() { lr_compound /= 1 + f.decay * static_cast<double>( it ); }
    nd delta( ul k, nd const& g, int reading, bool commit )
    {
        moments s = ms[k]; if ( s.m.v.empty() ) s.m = s.v = nd{ g.shape }; nd d{ g.shape }; double const lr = rate( reading ), eps = 1e-8;
        for ( ul i = 0; i < g.size(); ++i )
        {
            double const x = g.v[i]; double& m = s.m.v[i]; double& v = s.v.v[i];
            switch ( f.k )
            {
                case k_gd: d.v[i] = -lr * x; break;
                case k_sgd: m = std::max( 0., f.p1 ) * m - lr * x; d.v[i] = f.nesterov ? std::max( 0., f.p1 ) * m - lr * x : m; break;
                case k_adagrad: m += x * x; d.v[i] = -lr * x / ( eps + std::sqrt( m ) ); break;
                case k_rmsprop: m = it == 0 ? x * x : f.p1 * m + ( 1 - f.p1 ) * x * x; d.v[i] = -lr * x / ( eps + std::sqrt( m ) ); break;
                case k_adadelta: { m = f.p1 * m + ( 1 - f.p1 ) * x * x; double const u = lr * x * std::sqrt( ( v + eps ) / ( m + eps ) ); d.v[i] = -u; v = f.p1 * v + ( 1 - f.p1 ) * u * u; break; }
                default:
                {
                    m = f.p1 * m + ( 1 - f.p1 ) * x; v = f.p2 * v + ( 1 - f.p2 ) * x * x; double const t = static_cast<double>( it + 1 );
                    d.v[i] = it < 2 ? -lr * x : -lr * std::sqrt( 1 - std::pow( f.p2, t ) ) / ( 1 - std::pow( f.p1, t ) ) * m / ( eps + std::sqrt( v ) ); break;
                }
            }
        }
        if ( commit ) ms[k] = s;
        return d;
    }
};
static conf gen_conf( src& s, ctx& c )
{
    conf f; f.k = static_cast<int>( s.draw( 6 ) ); f.bs = s.coin() ? 1 : 1 + s.draw( 64 ); f.lr = s.chance( 1, 3 ) ? 0.1 : s.uniform( 1e-3, 0.5 ); f.nesterov = f.k == k_sgd && s.coin();
    f.p1 = f.k == k_sgd ? ( s.chance( 1, 4 ) ? 0. : s.chance( 1, 12 ) ? -0.4 : s.uniform( 0.05, 0.98 ) ) : s.uniform( 0.3, 0.98 ); f.p2 = s.uniform( 0.5, 0.999 ); f.decay = ( f.k == k_sgd || f.k == k_adagrad || f.k == k_rmsprop ) && s.coin() ? s.uniform( 1e-3, 0.3 ) : 0.;
    if ( s.chance( 1, 4 ) ) { f.bare = 1 + static_cast<int>( s.draw( 2 ) ); f.p1 = f.k == k_sgd ? 0. : 0.9; f.p2 = 0.999; f.decay = 0; f.nesterov = false; if ( f.bare == 2 ) f.lr = f.k == k_gd ? 1e-3 : 0.1; c.label( "default options" ); }
    c.label( kind_name[f.k] ); c.desc << " " << kind_name[f.k] << "(batch size " << f.bs << ", rate " << f.lr << ", " << f.p1 << ", " << f.p2 << ", decay " << f.decay << ( f.nesterov ? ", nesterov)" : ")" ) << ( f.bare == 0 ? "" : f.bare == 1 ? " by default" : " all by default" ); return f;
}
// a step function of the optimizer, made through the class or through the interface for models
template<class T, class L> static std::function<void()> make( src& s, conf const& f, L& loss )
{
    T const lr = static_cast<T>( f.lr ), p1 = static_cast<T>( f.p1 ), p2 = static_cast<T>( f.p2 ), de = static_cast<T>( f.decay ); std::size_t const bs = f.bs; bool const direct = s.coin();
    auto const step = []( auto o ) { auto p = std::make_shared<decltype( o )>( o ); return std::function<void()>{ [p]() { ceras::get_default_session<ceras::tensor<T>>().run( *p ); } }; };
    if ( f.bare == 2 ) switch ( f.k )
    {
        case k_gd: return step( ceras::gradient_descent<L, T>{ loss, bs } );
        case k_sgd: return step( ceras::sgd<L, T>{ loss, bs } );
        case k_adagrad: return step( ceras::adagrad<L, T>{ loss, bs } );
        case k_rmsprop: return step( ceras::rmsprop<L, T>{ loss, bs } );
        case k_adadelta: return step( ceras::adadelta<L, T>{ loss, bs } );
        default: return step( ceras::adam<L, T>{ loss, bs } );
    }
    if ( f.bare == 1 ) switch ( f.k )
    {
        case k_gd: return step( ceras::gradient_descent<L, T>{ loss, bs, lr } );
        case k_sgd: return direct ? step( ceras::sgd<L, T>{ loss, bs, lr } ) : step( ceras::SGD( bs, lr )( loss ) );
        case k_adagrad: return direct ? step( ceras::adagrad<L, T>{ loss, bs, lr } ) : step( ceras::Adagrad( bs, lr )( loss ) );
        case k_rmsprop: return direct ? step( ceras::rmsprop<L, T>{ loss, bs, lr } ) : step( ceras::RMSprop( bs, lr )( loss ) );
        case k_adadelta: return step( ceras::adadelta<L, T>{ loss, bs } );
        default: return direct ? step( ceras::adam<L, T>{ loss, bs, lr } ) : step( ceras::Adam( bs, lr )( loss ) );
    }
    switch ( f.k )
    {
        case k_gd: return step( ceras::gradient_descent<L, T>{ loss, bs, lr } );
        case k_sgd: return direct ? step( ceras::sgd<L, T>{ loss, bs, lr, p1, de, f.nesterov } ) : step( ceras::SGD( bs, lr, p1, de, f.nesterov )( loss ) );
        case k_adagrad: return direct ? step( ceras::adagrad<L, T>{ loss, bs, lr, de } ) : step( ceras::Adagrad( bs, lr, de )( loss ) );
        case k_rmsprop: return direct ? step( ceras::rmsprop<L, T>{ loss, bs, lr, p1, de } ) : step( ceras::RMSprop( bs, lr, p1, de )( loss ) );
        case k_adadelta: return direct ? step( ceras::adadelta<L, T>{ loss, bs, p1 } ) : step( ceras::Adadelta( bs, p1 )( loss ) );
        default: return direct ? step( ceras::adam<L, T>{ loss, bs, lr, p1, p2 } ) : step( ceras::Adam( bs, lr, p1, p2 )( loss ) );
    }
}
template<class T> static void history( src& s, ctx& c )
{
    double const rt = sizeof( T ) == 4 ? 2e-4 : 1e-10, at = sizeof( T ) == 4 ? 1e-6 : 1e-13;
    std::vector<var<T>> vs; std::vector<ceras::place_holder<ceras::tensor<T>>> q( 2 ), l( 2 ); std::vector<bool> train( 3, true );
    for ( ul k = 0; k < 3; ++k ) { vs.emplace_back( to_tensor<T>( gen_generic( s, gen_shape_wide( s, 1, 3, 5, 60 ), -2, 2 ) ) ); c.desc << " " << str( to_nd( vs[k].data() ).shape ); }
    // loss = sum( q0*v0*v0 + l0*v0 ) + sum( q1*v1*v1 + l1*v1 ); the third variable is not part of it
    auto loss = ceras::sum_reduce( ceras::hadamard_product( q[0], ceras::square( vs[0] ) ) + ceras::hadamard_product( l[0], vs[0] ) ) + ceras::sum_reduce( ceras::hadamard_product( ceras::hadamard_product( q[1], vs[1] ), vs[1] ) + ceras::hadamard_product( l[1], vs[1] ) );
    typedef decltype( loss ) L;
    conf f = gen_conf( s, c ); reference ref( f, 3 ); auto step = make<T, L>( s, f, loss ); bool alive[2] = { true, true }; ul moved = 0; auto& ss = ceras::get_default_session<ceras::tensor<T>>();
    for ( ul t = 0, n = 1 + s.draw( 10 ); t < n; ++t )
    {
        switch ( s.draw( 14 ) )
        {
            case 0: case 1: if ( ref.it > 0 ) { ul const k = s.draw( 3 ); train[k] = !train[k]; vs[k].trainable( train[k] ); c.desc << ( train[k] ? " unfreeze " : " freeze " ) << k; } break;
            case 2: { ul const k = s.draw( 3 ); nd const d = gen_generic( s, to_nd( vs[k].data() ).shape, -2, 2 ); set_data( vs[k], d ); c.desc << " assign " << k; break; }
            case 3: if ( ref.it > 0 && s.coin() ) { for ( ul k = 0; k < 3; ++k ) { train[k] = true; vs[k].trainable( true ); } f = gen_conf( s, c ); ref = reference( f, 3 ); step = make<T, L>( s, f, loss ); alive[0] = alive[1] = true; } break;
            default: break;
        }
        std::vector<nd> x, g; nd qv[2], lv[2];
        for ( ul k = 0; k < 3; ++k ) x.push_back( to_nd( vs[k].data() ) );
        for ( ul k = 0; k < 2; ++k )
        {
            qv[k] = gen_generic( s, x[k].shape, -1, 1 ); lv[k] = gen_generic( s, x[k].shape, -1, 1 ); bool const none = s.chance( 1, 10 );
            for ( ul i = 0; i < x[k].size(); ++i ) if ( none || s.chance( 1, 10 ) ) qv[k].v[i] = lv[k].v[i] = 0; // a gradient of exactly zero
            for ( ul i = 0; i < x[k].size(); ++i ) { double const gi = 2 * qv[k].v[i] * x[k].v[i] + lv[k].v[i]; if ( gi != 0 && std::fabs( gi ) < 0.05 ) lv[k].v[i] += gi < 0 ? -0.2 : 0.2; }
            if ( sizeof( T ) == 4 ) { qv[k] = as_float( qv[k] ); lv[k] = as_float( lv[k] ); }
            q[k].bind( to_tensor<T>( qv[k] ) ); l[k].bind( to_tensor<T>( lv[k] ) ); g.push_back( zip( zip( qv[k], x[k], []( double a, double b ) { return 2 * a * b; } ), lv[k], []( double a, double b ) { return a + b; } ) );
        }
        g.push_back( nd{ x[2].shape } );
        if ( s.chance( 1, 6 ) ) { ceras::learning_phase = 0; ss.run( loss ); ceras::learning_phase = 1; c.desc << " evaluate"; }
        if ( s.chance( 1, 6 ) ) { ss.run( loss ); c.desc << " run"; } // the gradient of a run that is not followed by a step does not count
        c.desc << " step"; c.flush_desc(); double const value = to_nd( ss.run( loss ) ).v[0]; double want = 0; for ( ul k = 0; k < 2; ++k ) for ( ul i = 0; i < x[k].size(); ++i ) want += qv[k].v[i] * x[k].v[i] * x[k].v[i] + lv[k].v[i] * x[k].v[i];
        c.require( close( value, want, rt, 1e-4 * static_cast<double>( x[0].size() + x[1].size() ) * ( sizeof( T ) == 4 ? 1 : 1e-6 ) ), "loss", "the loss is ", value, " but must be ", want );
        ref.begin(); step();
        bool ok[2] = { alive[0], alive[1] }; std::string why;
        for ( ul k = 0; k < 3; ++k )
        {
            nd const y = to_nd( vs[k].data() ); bool const live = train[k];
            if ( !live ) { expect_same( c, y, x[k], "frozen", std::string( kind_name[f.k] ) + ": a variable that is not trainable" ); continue; }
            if ( k == 2 ) { expect_close( c, y, x[k], 0, 0, "foreign", std::string( kind_name[f.k] ) + ": a variable the loss does not depend on" ); ref.delta( k, g[k], 0, true ); continue; }
            expect_same( c, to_nd( vs[k].gradient() ), nd{ x[k].shape }, "gradient-cleared", std::string( kind_name[f.k] ) + ": the gradient after the step" );
            for ( int reading = 0; reading < 2; ++reading )
            {
                nd const d = ref.delta( k, g[k], reading, false );
                for ( ul i = 0; i < d.size(); ++i ) if ( !close( y.v[i] - x[k].v[i], d.v[i], rt, at * ( 1 + std::fabs( x[k].v[i] ) ) ) ) { if ( ok[reading] && why.empty() ) { std::ostringstream o; o.precision( 10 ); o << "variable " << k << " element " << i << " moved by " << y.v[i] - x[k].v[i] << " but must move by " << d.v[i] << " (value " << x[k].v[i] << ", gradient " << g[k].v[i] << ", step " << ref.it << ")"; why = o.str(); } ok[reading] = false; }
            }
        }
        for ( ul k = 0; k < 2; ++k ) if ( train[k] ) { int const reading = ok[0] ? 0 : 1; ref.delta( k, g[k], reading, true ); ++moved; }
        alive[0] = ok[0]; alive[1] = ok[1]; c.require( ok[0] || ok[1], "update", kind_name[f.k], ": ", why ); ++ref.it;
    }
    c.nontrivial( moved > 2 );
}
PBT_FAMILY( "update-double", 9000, 200000, 100, "histories of up to 10 optimizer steps (gradient descent, sgd with momentum, decay and nesterov, adagrad, rmsprop, adadelta, adam; batch sizes 1-64) on a quadratic loss with known gradient over two variables, with other evaluations, frozen variables, assignments and changes of the optimizer in between, double; every element's movement against the published update rule; non-trivial when more than one step moved both variables" ) { history<double>( s, c ); }
PBT_FAMILY( "update-float", 5000, 100000, 100, "as update-double, in float; non-trivial by the same rule" ) { history<float>( s, c ); }
CER_MAIN()
