// Operators which rearrange, copy or select elements without computing.
#include "../lib/cer.hpp"
using namespace cer;

template<class Ex> static void go( src& s, ctx& c, Ex ex, var<double>& a, ref_t const& f, std::string const& name )
{
    c.label( name ); opts o; o.name = name; o.ftol = o.fatol = 0; check_erased<double>( s, c, erase<double>( ex ), { &a }, f, o );
}
// value at index i of the result = value of the input at from( i ), or 0 when from() says so
static nd pull( shape_t const& out, nd const& x, std::function<bool( shape_t const&, shape_t& )> const& from )
{
    nd r{ out }; ul k = 0; shape_t j; each( out, [&]( shape_t const& i ) { r.v[k++] = from( i, j ) ? x.at( j ) : 0.; } ); return r;
}
static shape_t regroup( src& s, ul total ) // a random factorisation
{
    shape_t r; ul const d = s.range( 1, 4 );
    for ( ul i = 0; i + 1 < d; ++i ) { std::vector<ul> f; for ( ul k = 1; k <= total; ++k ) if ( total % k == 0 ) f.push_back( k ); ul const e = s.pick( f ); r.push_back( e ); total /= e; }
    r.push_back( total ); return r;
}

PBT_FAMILY( "shape-only", 4500, 45000, 150, "reshape with and without batch dimension, flatten, expand_dims, squeeze, identity; non-trivial when the shape changes and there are at least 2 elements" )
{
    ul const op = s.draw( 7 ); shape_t sh = gen_shape_wide( s, op == 2 ? 2 : 1, 4, 5, 120 );
    if ( op >= 4 && op <= 5 ) for ( auto& e : sh ) if ( s.chance( 1, 3 ) ) e = 1;
    nd const x = gen_nd( s, sh, -9, 9 ); var<double> a{ to_tensor<double>( x ) };
    auto const as = [&]( shape_t const& t ) { c.nontrivial( t != sh && x.size() >= 2 ); c.desc << " -> " << str( t ); return [t]( std::vector<nd> const& v ) { return v[0].reshaped( t ); }; };
    if ( op == 0 )
    {
        ul const batch = s.coin() ? sh[0] : 1; shape_t t = regroup( s, x.size() / batch ), full = t; full.insert( full.begin(), batch );
        c.desc << "reshape " << str( t );
        auto f = as( full ); if ( s.coin() ) return go( s, c, ceras::reshape( t )( a ), a, f, "reshape" ); return go( s, c, ceras::reshape( t, true )( a ), a, f, "reshape" );
    }
    if ( op == 1 ) { shape_t t = regroup( s, x.size() ); auto f = as( t ); return go( s, c, ceras::reshape( t, false )( a ), a, f, "reshape without batch" ); }
    if ( op == 2 ) { auto f = as( { sh[0], x.size() / sh[0] } ); return go( s, c, ceras::flatten( a ), a, f, "flatten" ); }
    if ( op == 3 )
    {
        long axis = s.range( -1, sh.size() ); shape_t t = sh; t.insert( axis == -1 ? t.end() : t.begin() + axis, 1 ); c.desc << "expand_dims " << axis;
        auto f = as( t ); if ( axis == -1 && s.coin() ) return go( s, c, ceras::expand_dims()( a ), a, f, "expand_dims" ); return go( s, c, ceras::expand_dims( axis )( a ), a, f, "expand_dims" );
    }
    if ( op == 4 )
    {
        shape_t t; for ( ul e : sh ) if ( e != 1 ) t.push_back( e ); if ( t.empty() ) t.push_back( 1 );
        auto f = as( t ); if ( s.coin() ) return go( s, c, ceras::squeeze()( a ), a, f, "squeeze" ); return go( s, c, ceras::squeeze( -1 )( a ), a, f, "squeeze" );
    }
    if ( op == 5 )
    {
        std::vector<ul> ones; for ( ul i = 0; i < sh.size(); ++i ) if ( sh[i] == 1 ) ones.push_back( i );
        if ( ones.empty() || sh.size() < 2 ) c.discard();
        ul const axis = s.pick( ones ); shape_t t = sh; t.erase( t.begin() + axis ); c.desc << "squeeze " << axis;
        auto f = as( t ); return go( s, c, ceras::squeeze( axis )( a ), a, f, "squeeze axis" );
    }
    c.nontrivial( x.size() >= 2 ); return go( s, c, ceras::identity( a ), a, []( std::vector<nd> const& v ) { return v[0]; }, "identity" );
}
PBT_FAMILY( "copying", 4500, 45000, 150, "repeat along an axis, broadcast to a larger shape, flip along an axis, transpose; non-trivial when elements actually move or multiply" )
{
    ul const op = s.draw( 4 );
    if ( op == 0 )
    {
        shape_t const sh = gen_shape( s, 1, 4, 4, 60 ); ul const n = s.range( 1, 4 ); ul axis = s.draw( sh.size() + 1 ); bool const dflt = axis == sh.size(); if ( dflt ) axis = sh.size() - 1;
        nd const x = gen_nd( s, sh, -9, 9 ); var<double> a{ to_tensor<double>( x ) }; c.nontrivial( n > 1 && x.size() > 1 ); c.desc << "repeat " << n << " axis " << ( dflt ? -1L : static_cast<long>( axis ) );
        ref_t f = [=]( std::vector<nd> const& v ) { shape_t t = sh; t[axis] *= n; return pull( t, v[0], [=]( shape_t const& i, shape_t& j ) { j = i; j[axis] /= n; return true; } ); };
        if ( dflt ) return go( s, c, ceras::repeat( n )( a ), a, f, "repeat default axis" );
        return go( s, c, ceras::repeat( n, axis )( a ), a, f, "repeat axis" );
    }
    if ( op == 1 )
    {
        shape_t const big = gen_shape( s, 1, 4, 5, 100 ); ul const drop = s.draw( big.size() + 1 ); shape_t sh( big.begin() + drop, big.end() ); sh.insert( sh.begin(), s.draw( drop + 1 ), 1 ); if ( sh.empty() ) sh = { 1 };
        nd const x = gen_nd( s, sh, -9, 9 ); var<double> a{ to_tensor<double>( x ) }; c.nontrivial( prod( big ) > x.size() && x.size() > 1 ); c.desc << "broadcast " << str( sh ) << " to " << str( big );
        return go( s, c, ceras::broadcast( big )( a ), a, [=]( std::vector<nd> const& v ) { nd r{ big }; ul k = 0; each( big, [&]( shape_t const& i ) { r.v[k++] = bget( v[0], i ); } ); return r; }, "broadcast" );
    }
    if ( op == 2 )
    {
        shape_t const sh = gen_shape_wide( s, 1, 4, 5, 120 ); long const given = s.range( -1, static_cast<long>( sh.size() ) - 1 ); ul const axis = given < 0 ? sh.size() - 1 : given;
        nd const x = gen_nd( s, sh, -9, 9 ); var<double> a{ to_tensor<double>( x ) }; c.nontrivial( sh[axis] > 1 ); c.desc << "flip " << given;
        return go( s, c, ceras::flip( given )( a ), a, [=]( std::vector<nd> const& v ) { return pull( sh, v[0], [=]( shape_t const& i, shape_t& j ) { j = i; j[axis] = sh[axis] - 1 - i[axis]; return true; } ); }, "flip " + std::to_string( sh.size() ) + "d axis " + std::to_string( axis ) );
    }
    shape_t const sh = { 1 + s.draw( 7 ), 1 + s.draw( 7 ) }; nd const x = gen_nd( s, sh, -9, 9 ); var<double> a{ to_tensor<double>( x ) }; c.nontrivial( sh[0] > 1 && sh[1] > 1 );
    go( s, c, ceras::transpose( a ), a, [=]( std::vector<nd> const& v ) { return pull( { sh[1], sh[0] }, v[0], []( shape_t const& i, shape_t& j ) { j = { i[1], i[0] }; return true; } ); }, "transpose" );
}
PBT_FAMILY( "concatenate", 3000, 30000, 150, "concatenate of two expressions along a given or the default last axis; non-trivial when neither operand is a single element" )
{
    shape_t sa = gen_shape( s, 1, 4, 4, 60 ), sb = sa; ul axis = s.draw( sa.size() + 1 ); bool const dflt = axis == sa.size(); if ( dflt ) axis = sa.size() - 1;
    sb[axis] = 1 + s.draw( 4 ); nd const x = gen_nd( s, sa, -9, 9 ), y = gen_nd( s, sb, -9, 9 ); var<double> a{ to_tensor<double>( x ) }, b{ to_tensor<double>( y ) };
    c.nontrivial( x.size() > 1 && y.size() > 1 ); c.desc << "concatenate axis " << ( dflt ? -1L : static_cast<long>( axis ) );
    ref_t f = [=]( std::vector<nd> const& v )
    {
        shape_t t = sa; t[axis] += sb[axis]; nd r{ t }; ul k = 0;
        each( t, [&]( shape_t const& i ) { shape_t j = i; if ( i[axis] < sa[axis] ) r.v[k++] = v[0].at( j ); else { j[axis] -= sa[axis]; r.v[k++] = v[1].at( j ); } } ); return r;
    };
    auto const two = [&]( auto ex, std::string const& name ) { c.label( name ); opts o; o.name = name; o.ftol = o.fatol = 0; check_erased<double>( s, c, erase<double>( ex ), { &a, &b }, f, o ); };
    if ( dflt )
        switch ( s.draw( 4 ) )
        {
            case 0: return two( ceras::concatenate( a, b )(), "concatenate(l,r)()" );
            case 1: return two( ceras::concat( a, b ), "concat(l,r)" );
            case 2: return two( ceras::concat()( a, b ), "concat()(l,r)" );
            default: return two( ceras::concatenate()( a, b ), "concatenate()(l,r)" );
        }
    switch ( s.draw( 3 ) )
    {
        case 0: return two( ceras::concatenate( a, b )( axis ), "concatenate(l,r)(axis)" );
        case 1: return two( ceras::concat( axis )( a, b ), "concat(axis)(l,r)" );
        default: return two( ceras::concatenate( axis )( a, b ), "concatenate(axis)(l,r)" );
    }
}
static std::vector<ul> gen_pad( src& s, ul mx, ul& t, ul& b, ul& l, ul& r )
{
    switch ( s.draw( 3 ) )
    {
        case 0: t = b = l = r = s.range( 1, mx ); return { t };
        case 1: t = b = s.range( 1, mx ); l = r = s.range( 1, mx ); return { t, l };
        default: t = s.range( 1, mx ); b = s.range( 1, mx ); l = s.range( 1, mx ); r = s.range( 1, mx ); return { t, b, l, r };
    }
}
PBT_FAMILY( "padding-cropping", 3000, 30000, 150, "zero_padding_2d and cropping_2d with 1, 2 or 4 amounts; non-trivial when there are at least 2 batches, channels or rows" )
{
    ul t, b, l, r; auto const amounts = gen_pad( s, 3, t, b, l, r ); bool const crop = s.coin();
    shape_t sh = { 1 + s.draw( 3 ), 1 + s.draw( 4 ), 1 + s.draw( 4 ), 1 + s.draw( 3 ) }; if ( crop ) { sh[1] += t + b; sh[2] += l + r; }
    nd const x = gen_nd( s, sh, -9, 9 ); var<double> a{ to_tensor<double>( x ) }; c.nontrivial( sh[0] > 1 || sh[1] > 1 || sh[3] > 1 ); c.desc << ( crop ? "cropping_2d" : "zero_padding_2d" ); for ( ul v : amounts ) c.desc << " " << v;
    if ( crop ) return go( s, c, ceras::cropping_2d( amounts )( a ), a, [=]( std::vector<nd> const& v ) { return pull( { sh[0], sh[1] - t - b, sh[2] - l - r, sh[3] }, v[0], [=]( shape_t const& i, shape_t& j ) { j = { i[0], i[1] + t, i[2] + l, i[3] }; return true; } ); }, "cropping_2d " + std::to_string( amounts.size() ) );
    go( s, c, ceras::zero_padding_2d( amounts )( a ), a, [=]( std::vector<nd> const& v )
        { return pull( { sh[0], sh[1] + t + b, sh[2] + l + r, sh[3] }, v[0], [=]( shape_t const& i, shape_t& j ) { j = { i[0], i[1] - t, i[2] - l, i[3] }; return i[1] >= t && i[1] < t + sh[1] && i[2] >= l && i[2] < l + sh[2]; } ); }, "zero_padding_2d " + std::to_string( amounts.size() ) );
}
PBT_FAMILY( "sliding", 800, 8000, 50, "sliding_2d shifts every channel by one amount of at most the given pixels while training and is the identity otherwise; non-trivial when some channel moves" )
{
    ul const p = s.range( 1, 3 ); shape_t const sh = { 1 + s.draw( 3 ), 2 + s.draw( 4 ), 2 + s.draw( 4 ), 1 + s.draw( 3 ) };
    nd x = gen_generic( s, sh, 1, 9 ); var<double> a{ to_tensor<double>( x ) }; auto ex = ceras::sliding_2d( p )( a ); c.desc << "sliding_2d " << p << " " << str( x, 12 );
    ceras::random_generator.seed( s.draw( 1u << 30 ) );
    ceras::learning_phase = 0; expect_same( c, run<double>( ex ), x, "sliding:identity", "sliding_2d while predicting" );
    ceras::learning_phase = 1;
    for ( int round = 0; round < 2; ++round )
    {
        nd const y = run<double>( ex ); c.require( y.shape == sh, "sliding:shape", "shape ", str( y.shape ) ); auto const ds = ex.shape(); c.require( shape_t( ds.begin(), ds.end() ) == sh, "sliding:declared-shape", "declared shape" );
        nd const up = gen_upstream( s, sh ); auto ut = to_tensor<double>( up ); ex.backward( ut ); nd const g = to_nd( a.gradient() );
        for ( ul ch = 0; ch < sh[3]; ++ch )
        {
            bool found = false; long const P = static_cast<long>( p );
            for ( long dr = -P; dr <= P && !found; ++dr ) for ( long dc = -P; dc <= P && !found; ++dc )
            {
                bool ok = true;
                each( sh, [&]( shape_t const& i )
                {
                    if ( i[3] != ch || !ok ) return;
                    long const r = static_cast<long>( i[1] ) - dr, q = static_cast<long>( i[2] ) - dc;
                    bool const in = r >= 0 && r < static_cast<long>( sh[1] ) && q >= 0 && q < static_cast<long>( sh[2] );
                    if ( y.at( i ) != ( in ? x.at( { i[0], ul( r ), ul( q ), ch } ) : 0. ) ) ok = false;
                    long const r2 = static_cast<long>( i[1] ) + dr, q2 = static_cast<long>( i[2] ) + dc;
                    bool const in2 = r2 >= 0 && r2 < static_cast<long>( sh[1] ) && q2 >= 0 && q2 < static_cast<long>( sh[2] );
                    if ( g.at( i ) != ( in2 ? up.at( { i[0], ul( r2 ), ul( q2 ), ch } ) : 0. ) ) ok = false;
                } );
                if ( ok ) { found = true; c.nontrivial( dr || dc ); }
            }
            c.require( found, "sliding:shift", "channel ", ch, " is not shifted by one amount of at most ", p, " pixels, or its gradient is not shifted back: value ", str( y ), " gradient ", str( g ), " upstream ", str( up ) );
        }
    }
    expect_same( c, to_nd( a.data() ), x, "sliding:purity", "operand" );
}
PBT_FAMILY( "filled", 900, 9000, 50, "ones_like and zeros_like have the shape of their operand and no gradient; non-trivial when there are at least 2 elements" )
{
    nd const x = gen_nd( s, gen_shape( s, 1, 4, 5, 60 ), -9, 9 ); var<double> a{ to_tensor<double>( x ) }; c.nontrivial( x.size() > 1 );
    if ( s.coin() ) return go( s, c, ceras::ones_like( a ), a, []( std::vector<nd> const& v ) { return nd{ v[0].shape, 1. }; }, "ones_like" );
    go( s, c, ceras::zeros_like( a ), a, []( std::vector<nd> const& v ) { return nd{ v[0].shape, 0. }; }, "zeros_like" );
}
CER_MAIN()
