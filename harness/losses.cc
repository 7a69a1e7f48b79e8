// Loss functions: values, gradients of both sides, and the interfaces used by models.
#include "../lib/cer.hpp"
using namespace cer;
typedef ceras::tensor<double> tn;
typedef ceras::place_holder<tn> holder;

struct loss_case { expr_if e; ref_t f; std::vector<var<double>*> vars; std::string name; bool mean = false; double batch = 1; shape_t shape; };

// compares value, declared shape and gradients; a gradient which is right but for the recorded scale of means is a known finding
static void check( src& s, ctx& c, loss_case const& k, opts o )
{
    std::vector<nd> x; for ( auto* v : k.vars ) x.push_back( to_nd( v->data() ) );
    c.label( k.name ); o.name = k.name; o.gradient = false; o.rerun = true; check_erased<double>( s, c, k.e, k.vars, k.f, o );
    nd const up = gen_upstream( s, { 1 } ); k.e.run(); expect_same( c, k.e.back( up ), up, k.name + ":upstream", k.name + ": the incoming gradient must not change" );
    std::string known;
    for ( ul i = 0; i < x.size(); ++i )
    {
        auto const want = numeric_vjp( k.f, x, i, up ); nd const g = to_nd( k.vars[i]->gradient() );
        try { expect_grad( c, g, want, o.gtol, o.gatol, k.name + ":gradient", k.name + " operand " + std::to_string( i ), o.kinks ); }
        catch ( pbt::failure const& )
        {
            if ( !k.mean ) throw;
            // the mean over all elements is backpropagated as if it were divided by the first extent only
            double const r = static_cast<double>( prod( k.shape ) ) / k.batch; auto w = want;
            for ( auto& v : w.g.v ) v *= r; for ( auto& v : w.slack ) v *= r; for ( ul j = 0; j < w.lo.size(); ++j ) { w.lo[j] *= r; w.hi[j] *= r; if ( w.lo[j] > w.hi[j] ) std::swap( w.lo[j], w.hi[j] ); }
            expect_grad( c, g, w, o.gtol, o.gatol * std::max( 1., r ), k.name + ":gradient", k.name + " operand " + std::to_string( i ), o.kinks );
            known = k.name + " of tensors of shape " + str( k.shape ) + " has the gradient of the mean over the first extent";
        }
    }
    if ( !known.empty() ) c.finding( "mean-gradient-scale", known );
}
static nd one( double x ) { return nd{ { 1 }, std::vector<double>{ x } }; }
static ref_t summed( std::function<double( double, double )> f, bool mean, double sign = 1 )
{
    return [=]( std::vector<nd> const& v ) { long double t = 0; for ( ul i = 0; i < v[0].size(); ++i ) t += f( v[0].v[i], v[1].v[i] ); return one( sign * static_cast<double>( mean ? t / v[0].size() : t ) ); };
}
PBT_FAMILY( "regression", 4000, 40000, 100, "squared, absolute, mean squared, mean absolute, mean squared logarithmic and hinge loss of two variables; non-trivial when there are at least 2 elements" )
{
    shape_t const sh = gen_shape_wide( s, 1, 4, 5, 100 ); ul const k = s.draw( 8 ); loss_case l; l.shape = sh; l.batch = sh.size() == 1 ? 1. : static_cast<double>( sh[0] ); opts o; o.gtol = 1e-5; o.gatol = 1e-6;
    nd x = gen_generic( s, sh, -4, 4 ), y = gen_generic( s, sh, -4, 4 ); if ( k == 6 ) { x = gen_generic( s, sh, 0.05, 9 ); y = gen_generic( s, sh, 0.05, 9 ); } if ( s.chance( 1, 8 ) ) y.v[s.draw( y.size() )] = x.v[0];
    var<double> a{ to_tensor<double>( x ) }, b{ to_tensor<double>( y ) }; l.vars = { &a, &b }; c.nontrivial( x.size() > 1 );
    auto const sq = []( double p, double q ) { return ( p - q ) * ( p - q ); }; auto const ab = []( double p, double q ) { return std::fabs( p - q ); };
    auto go = [&]( auto ex, std::string const& n, ref_t f, bool mean ) { l.e = erase<double>( ex ); l.f = f; l.name = n; l.mean = mean; check( s, c, l, o ); };
    switch ( k )
    {
        case 0: return go( ceras::squared_loss( a, b ), "squared_loss", summed( sq, false ), false );
        case 1: return go( ceras::mean_squared_error( a, b ), "mean_squared_error", summed( sq, true ), true );
        case 2: return go( ceras::mse( a, b ), "mse", summed( sq, true ), true );
        case 3: return go( ceras::abs_loss( a, b ), "abs_loss", summed( ab, false ), false );
        case 4: return go( ceras::mean_absolute_error( a, b ), "mean_absolute_error", summed( ab, true ), true );
        case 5: return go( ceras::mae( a, b ), "mae", summed( ab, true ), true );
        case 6: return go( ceras::mean_squared_logarithmic_error( a, b ), "mean_squared_logarithmic_error", summed( []( double p, double q ) { double const d = std::log1p( std::max( p, 1e-8 ) ) - std::log1p( std::max( q, 1e-8 ) ); return d * d; }, false ), false );
        default: return go( ceras::hinge_loss( a, b ), "hinge_loss", summed( []( double p, double q ) { return std::max( 0., 1 - p * q ); }, true ), true );
    }
}
PBT_FAMILY( "entropy", 4000, 40000, 100, "cross_entropy of probabilities and binary_cross_entropy_loss, value and gradients; non-trivial when there are at least 2 elements" )
{
    shape_t const sh = gen_shape_wide( s, 1, 4, 5, 100 ); loss_case l; l.shape = sh; l.batch = sh.size() == 1 ? 1. : static_cast<double>( sh[0] ); opts o; o.gtol = 1e-5; o.gatol = 1e-6; o.ftol = 1e-7;
    nd const x = s.coin() ? map( gen_generic( s, sh, 0, 1 ), []( double v ) { return v > 0.5 ? 1. : 0.; } ) : gen_generic( s, sh, 0, 1 ), y = gen_generic( s, sh, 0.02, 0.98 ); var<double> a{ to_tensor<double>( x ) }, b{ to_tensor<double>( y ) }; l.vars = { &a, &b }; c.nontrivial( x.size() > 1 );
    auto go = [&]( auto ex, std::string const& n, ref_t f, bool mean ) { l.e = erase<double>( ex ); l.f = f; l.name = n; l.mean = mean; check( s, c, l, o ); };
    if ( s.coin() ) return go( ceras::cross_entropy( a, b ), "cross_entropy", summed( []( double p, double q ) { return p * std::log( q ); }, false, -1 ), false );
    return go( ceras::binary_cross_entropy_loss( a, b ), "binary_cross_entropy_loss", summed( []( double p, double q ) { return -( p * std::log( q ) + ( 1 - p ) * std::log( 1 - q ) ); }, true ), true );
}
static nd softmax_rows( nd const& x )
{
    nd r = x; ul const n = x.shape.back();
    for ( ul i = 0; i < x.size(); i += n ) { double m = x.v[i]; for ( ul j = 0; j < n; ++j ) m = std::max( m, x.v[i + j] ); long double t = 0; for ( ul j = 0; j < n; ++j ) t += r.v[i + j] = std::exp( x.v[i + j] - m ); for ( ul j = 0; j < n; ++j ) r.v[i + j] = static_cast<double>( r.v[i + j] / t ); }
    return r;
}
template<class T> static void xent( src& s, ctx& c )
{
    shape_t sh = gen_shape_wide( s, 1, 3, 5, 100 ); sh.back() = std::max<ul>( 2, sh.back() ); if ( sh.size() == 1 ) sh.insert( sh.begin(), 1 + s.draw( 5 ) ); ul const n = sh.back(); bool const large = s.chance( 1, 4 ); double const ls = s.coin() ? 0. : static_cast<double>( static_cast<T>( s.uniform( 0.01, 0.4 ) ) );
    nd truth{ sh }; for ( ul i = 0; i < truth.size(); i += n ) truth.v[i + s.draw( n )] = 1; nd x = gen_generic( s, sh, -4, 4 ); if ( large ) { double const f = s.magnitude( 60, 3000 ), o = s.coin() ? s.uniform( -5000, 5000 ) : 0; for ( auto& v : x.v ) v = v * f + o; } if ( std::is_same_v<T, float> ) x = as_float( x );
    double const batch = static_cast<double>( sh[0] ), tol = std::is_same_v<T, float> ? 1e-4 : 1e-6; c.desc << "cross_entropy_loss smoothing " << ls << " truth " << str( truth, 12 ) << " prediction " << str( x, 12 ); c.flush_desc(); c.label( large ? "large logits" : "usual logits" ); if ( ls > 0 ) c.label( "label smoothing" ); c.nontrivial( x.size() > n );
    ceras::place_holder<ceras::tensor<T>> ph; auto& ss = ceras::get_default_session<ceras::tensor<T>>(); ss.bind( ph, to_tensor<T>( truth ) ); var<T> b{ to_tensor<T>( x ) }; nd const sm = softmax_rows( x );
    long double t = 0; nd v = truth; for ( ul i = 0; i < x.size(); ++i ) { v.v[i] = truth.v[i] > 0.5 ? 1 - ls : ls / static_cast<double>( n - 1 ); t -= v.v[i] * std::log( std::max( 1e-8, sm.v[i] ) ); }
    double const want = static_cast<double>( t ) / batch; bool wrong_scale = false;
    auto const one_run = [&]( auto ex, char const* name )
    {
        nd const y = cer::run<T>( ex ); expect_close( c, y, one( want ), tol * ( large ? 10 : 1 ), tol, "cross_entropy_loss:value", name );
        auto const d = ex.shape(); c.require( shape_t( d.begin(), d.end() ) == y.shape, "cross_entropy_loss:declared-shape", name, ": declared shape is ", str( shape_t( d.begin(), d.end() ) ), " but the value has shape ", str( y.shape ) );
        nd const up = std::is_same_v<T, float> ? as_float( gen_upstream( s, { 1 } ) ) : gen_upstream( s, { 1 } ); auto u = to_tensor<T>( up ); ex.backward( u ); nd const g = to_nd( b.gradient() );
        nd right{ sh }; for ( ul i = 0; i < right.size(); ++i ) right.v[i] = up.v[0] * ( sm.v[i] - v.v[i] ) / batch;
        bool ok = true; for ( ul i = 0; i < right.size(); ++i ) ok = ok && close( g.v[i], right.v[i], tol, tol );
        if ( !ok ) { for ( auto& e : right.v ) e *= batch; expect_close( c, g, right, tol, tol, "cross_entropy_loss:gradient", name ); wrong_scale = true; }
        expect_same( c, to_nd( b.data() ), x, "cross_entropy_loss:purity", "the prediction" ); expect_same( c, to_nd( ph.forward() ), truth, "cross_entropy_loss:purity", "the ground truth" );
    };
    T const f = static_cast<T>( ls );
    switch ( s.draw( 4 ) )
    {
        case 0: if ( ls == 0 ) { one_run( ceras::cross_entropy_loss( ph, b ), "cross_entropy_loss" ); break; } [[fallthrough]];
        case 1: one_run( ceras::cross_entropy_loss( ph, b, f ), "cross_entropy_loss" ); break;
        case 2: one_run( ceras::CategoricalCrossEntropy( f )( b )( ph ), "CategoricalCrossEntropy" ); break;
        default: one_run( ceras::CategoricalCrossentropy( f )( b )( ph ), "CategoricalCrossentropy" ); break;
    }
    if ( wrong_scale ) c.finding( "cross-entropy-gradient-scale", "the gradient of cross_entropy_loss for a batch of ", sh[0], " is the one of the sum over the batch while the value is the mean" );
}
PBT_FAMILY( "cross-entropy-loss", 4000, 40000, 100, "cross_entropy_loss and CategoricalCrossentropy of one-hot labels and logits up to +-17000, with and without label smoothing, float and double; non-trivial when there are at least 2 rows" )
{
    if ( s.coin() ) return xent<float>( s, c ); return xent<double>( s, c );
}
PBT_FAMILY( "interfaces", 3000, 30000, 100, "MSE, MeanSquaredError, MAE, MeanAbsoluteError, Hinge, BinaryCrossentropy and BinaryCrossEntropy applied to an output and a place holder equal the plain losses and their gradients, also when the place holder is bound again; non-trivial when there are at least 2 elements" )
{
    ul const k = s.draw( 7 ); shape_t sh = gen_shape( s, 1, 4, 5, 60 ); holder ph; auto& ss = ceras::get_default_session<tn>(); bool const bce = k >= 5; nd const x = bce ? gen_generic( s, sh, 0.05, 0.95 ) : gen_generic( s, sh, -3, 3 ); var<double> a{ to_tensor<double>( x ) }; ss.bind( ph, to_tensor<double>( x ) ); c.nontrivial( x.size() > 1 ); c.desc << "interface " << k << " " << str( x, 8 );
    auto const go = [&]( auto ex, auto plain, char const* name )
    {
        c.label( name );
        for ( ul r = 0; r < 2; ++r )
        {
            nd const t = bce ? gen_generic( s, sh, 0, 1 ) : gen_generic( s, sh, -3, 3 ); ph.bind( to_tensor<double>( t ) ); nd const up = gen_upstream( s, { 1 } ); auto u = to_tensor<double>( up );
            nd const w = cer::run<double>( plain ); plain.backward( u ); nd const wg = to_nd( a.gradient() ); nd const y = cer::run<double>( ex ); ex.backward( u );
            expect_same( c, y, w, std::string( name ), name ); expect_same( c, to_nd( a.gradient() ), wg, std::string( name ) + ":gradient", name ); expect_same( c, to_nd( ph.forward() ), t, "purity", "ground truth" );
            double want = 0; for ( ul i = 0; i < x.size(); ++i ) { double const d = t.v[i] - x.v[i]; want += k < 2 ? d * d : k < 4 ? std::fabs( d ) : k == 4 ? std::max( 0., 1 - t.v[i] * x.v[i] ) : -( t.v[i] * std::log( x.v[i] ) + ( 1 - t.v[i] ) * std::log( 1 - x.v[i] ) ); }
            expect_close( c, y, one( want / static_cast<double>( x.size() ) ), 1e-7, 1e-10, std::string( name ) + ":value", name );
        }
    };
    switch ( k )
    {
        case 0: return go( ceras::MSE()( a )( ph ), ceras::mse( ph, a ), "MSE" );
        case 1: return go( ceras::MeanSquaredError()( a )( ph ), ceras::mean_squared_error( ph, a ), "MeanSquaredError" );
        case 2: return go( ceras::MAE()( a )( ph ), ceras::mae( ph, a ), "MAE" );
        case 3: return go( ceras::MeanAbsoluteError()( a )( ph ), ceras::mean_absolute_error( ph, a ), "MeanAbsoluteError" );
        case 4: return go( ceras::Hinge()( a )( ph ), ceras::hinge_loss( ph, a ), "Hinge" );
        case 5: return go( ceras::BinaryCrossentropy()( a )( ph ), ceras::binary_cross_entropy_loss( ph, a ), "BinaryCrossentropy" );
        default: return go( ceras::BinaryCrossEntropy()( a )( ph ), ceras::binary_cross_entropy_loss( ph, a ), "BinaryCrossEntropy" );
    }
}

// float and double, over wide magnitudes, by formula
template<class T> static void wide( src& s, ctx& c )
{
    typedef long double ld; double const eps = std::numeric_limits<T>::epsilon(); shape_t const sh = gen_shape_wide( s, 1, 4, 5, 100 ); ul const k = s.draw( 6 ); bool const mean = k == 1 || k == 3 || k == 5; nd x{ sh }, y{ sh }; double const n = static_cast<double>( prod( sh ) ), batch = sh.size() == 1 ? 1. : static_cast<double>( sh[0] ), top = s.coin() ? 1e6 : 10, up = static_cast<double>( static_cast<T>( ( s.coin() ? 1 : -1 ) * s.magnitude( 1e-3, 1e3 ) ) );
    auto const one_value = [&] { return static_cast<double>( static_cast<T>( ( s.coin() ? 1 : -1 ) * s.magnitude( 1e-4, top ) ) ); }; for ( auto& v : x.v ) v = one_value(); for ( auto& v : y.v ) v = one_value();
    if ( k == 5 ) for ( auto& v : x.v ) v = v < 0 ? -1 : 1;
    for ( ul i = 0; i < x.size(); ++i ) { if ( s.chance( 1, 4 ) && k != 5 ) y.v[i] = static_cast<double>( static_cast<T>( x.v[i] * ( 1 + s.magnitude( 1e-4, 1e-1 ) ) ) ); if ( x.v[i] == y.v[i] ) y.v[i] = x.v[i] * 2; }
    static char const* const names[] = { "squared_loss", "mean_squared_error", "abs_loss", "mean_absolute_error", "mean_squared_logarithmic_error", "hinge_loss" }; char const* const name = names[k]; c.label( name ); c.label( std::is_same_v<T, float> ? "float" : "double" ); c.desc << name << ( std::is_same_v<T, float> ? " float " : " double " ) << str( x, 16 ) << " and " << str( y, 16 ) << " upstream " << up; c.flush_desc(); c.nontrivial( x.size() > 1 );
    ld total = 0, size = 0; std::vector<ld> gx( x.size() ), gy( x.size() ), sx( x.size() ), sy( x.size() );
    for ( ul i = 0; i < x.size(); ++i )
    {
        ld const p = x.v[i], q = y.v[i], d = p - q;
        if ( k < 2 ) { total += d * d; size += d * d; gx[i] = 2 * d; gy[i] = -2 * d; sx[i] = sy[i] = std::fabs( d ); }
        else if ( k < 4 ) { total += std::fabs( d ); size += std::fabs( d ); gx[i] = d > 0 ? 1 : -1; gy[i] = -gx[i]; sx[i] = sy[i] = 1; }
        else if ( k == 4 ) { ld const a = std::max( p, 1e-8L ), b = std::max( q, 1e-8L ), l = std::log1p( a ) - std::log1p( b ); total += l * l; ld const w = std::fabs( l ) * ( 1 + std::log1p( a ) + std::log1p( b ) ) + eps; size += w; gx[i] = p > 1e-8L ? 2 * l / ( 1 + a ) : 0; gy[i] = q > 1e-8L ? -2 * l / ( 1 + b ) : 0; sx[i] = p > 1e-8L ? ( 1 + std::log1p( a ) + std::log1p( b ) ) / ( 1 + a ) : 0; sy[i] = q > 1e-8L ? ( 1 + std::log1p( a ) + std::log1p( b ) ) / ( 1 + b ) : 0; }
        else { ld const h = 1 - p * q; total += std::max( 0.0L, h ); size += std::max( 0.0L, h ) + 1; gx[i] = h > 0 ? -q : 0; gy[i] = h > 0 ? -p : 0; sx[i] = std::fabs( q ); sy[i] = std::fabs( p ); if ( std::fabs( h ) < 1e-5 ) { c.discard(); return; } }
    }
    var<T> a{ to_tensor<T>( x ) }, b{ to_tensor<T>( y ) }; bool wrong = false;
    auto const go = [&]( auto ex )
    {
        nd const v = cer::run<T>( ex ); c.require( v.size() == 1, "wide:shape", name, " gives ", v.size(), " values" ); ld const want = mean ? total / n : total, room = ( 16 + 2 * n ) * eps * ( mean ? size / n : size );
        c.require( std::fabs( v.v[0] - want ) <= room, "wide:value", name, " is ", v.v[0], " instead of ", static_cast<double>( want ) );
        nd const u{ v.shape, { up } }; auto ut = to_tensor<T>( u ); ex.backward( ut ); nd const da = to_nd( a.gradient() ), db = to_nd( b.gradient() );
        auto const fits = [&]( double scale ) { for ( ul i = 0; i < x.size(); ++i ) if ( !( std::fabs( da.v[i] - gx[i] * up * scale ) <= 32 * eps * ( std::fabs( gx[i] ) + sx[i] ) * std::fabs( up * scale ) ) || !( std::fabs( db.v[i] - gy[i] * up * scale ) <= 32 * eps * ( std::fabs( gy[i] ) + sy[i] ) * std::fabs( up * scale ) ) ) return i; return x.size(); };
        ul const i = fits( mean ? 1 / n : 1 ); if ( i == x.size() ) return; if ( mean && fits( 1 / batch ) == x.size() ) { wrong = true; return; }
        c.fail( "wide:gradient", name, " at ( ", x.v[i], ", ", y.v[i], " ) gives the gradients ", da.v[i], " and ", db.v[i], " instead of ", static_cast<double>( gx[i] * up * ( mean ? 1 / n : 1 ) ), " and ", static_cast<double>( gy[i] * up * ( mean ? 1 / n : 1 ) ) );
    };
    switch ( k ) { case 0: go( ceras::squared_loss( a, b ) ); break; case 1: go( ceras::mse( a, b ) ); break; case 2: go( ceras::abs_loss( a, b ) ); break; case 3: go( ceras::mae( a, b ) ); break; case 4: go( ceras::mean_squared_logarithmic_error( a, b ) ); break; default: go( ceras::hinge_loss( a, b ) ); }
    expect_same( c, to_nd( a.data() ), x, "wide:purity", "the left operand" ); expect_same( c, to_nd( b.data() ), y, "wide:purity", "the right operand" );
    if ( wrong ) c.finding( "mean-gradient-scale", name, " of tensors of shape ", str( sh ), " has the gradient of the mean over the first extent" );
}
PBT_FAMILY( "wide-regression", 3000, 40000, 100, "the regression losses and hinge loss of float or double variables from 0.0001 to 1000000 in magnitude, nearly equal ones among them: value and both gradients by formula in long double, up to rounding; non-trivial when there are at least 2 elements" ) { if ( s.coin() ) wide<float>( s, c ); else wide<double>( s, c ); }
CER_MAIN()
