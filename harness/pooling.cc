// max_pooling_2d, average_pooling_2d, up_sampling_2d.
#include "../lib/cer.hpp"
using namespace cer;

static nd blocks( nd const& x, ul k, std::function<double( std::vector<double> const& )> f )
{
    shape_t const& sh = x.shape; nd r{ { sh[0], sh[1] / k, sh[2] / k, sh[3] } }; ul n = 0;
    each( r.shape, [&]( shape_t const& i ) { std::vector<double> e; for ( ul a = 0; a < k; ++a ) for ( ul b = 0; b < k; ++b ) e.push_back( x.at( { i[0], i[1] * k + a, i[2] * k + b, i[3] } ) ); r.v[n++] = f( e ); } );
    return r;
}
static double vmax( std::vector<double> const& e ) { return *std::max_element( e.begin(), e.end() ); }
static double vavg( std::vector<double> const& e ) { long double t = 0; for ( double v : e ) t += v; return static_cast<double>( t / e.size() ); }
static nd upsample( nd const& x, ul k )
{
    shape_t const& sh = x.shape; nd r{ { sh[0], sh[1] * k, sh[2] * k, sh[3] } }; ul n = 0; each( r.shape, [&]( shape_t const& i ) { r.v[n++] = x.at( { i[0], i[1] / k, i[2] / k, i[3] } ); } ); return r;
}
static nd values( src& s, shape_t const& sh )
{
    switch ( s.draw( 4 ) )
    {
        case 0: { nd r{ sh }; for ( auto& v : r.v ) v = static_cast<double>( s.range( -2, 2 ) ); return r; } // ties
        case 1: return gen_nd( s, sh, -9, -1 ); // all negative
        default: return gen_separated( s, sh, s.uniform( -30, 0 ), 0.3 );
    }
}
PBT_FAMILY( "pooling", 2400, 30000, 60, "pooling and up-sampling of a 4D tensor evaluated on two inputs in a row, extents divisible by the stride or not; non-trivial when there are several blocks" )
{
    ul const op = s.draw( 3 ), k = s.range( 2, 4 );
    shape_t sh = { 1 + s.draw( 3 ), 0, 0, 1 + s.draw( 3 ) };
    if ( op == 2 ) { sh[1] = 1 + s.draw( 4 ); sh[2] = 1 + s.draw( 4 ); }
    else { if ( k == 4 ) sh[0] = sh[3] = 1 + s.draw( 2 ); sh[1] = k * ( 1 + s.draw( 7 - k > 3 ? 3 : 2 ) ); sh[2] = k * ( 1 + s.draw( 2 ) ); if ( prod( sh ) > 160 ) sh[0] = sh[3] = 1; if ( s.coin() ) std::swap( sh[1], sh[2] ); if ( s.chance( 1, 3 ) ) { sh[1] += s.draw( k ); sh[2] += s.draw( k ); c.label( "not divisible" ); } }
    static char const* const names[] = { "max_pooling_2d", "average_pooling_2d", "up_sampling_2d" };
    std::string name = names[op]; c.desc << name << " " << k;
    c.nontrivial( op == 2 ? prod( sh ) > 1 : ( sh[1] / k ) * ( sh[2] / k ) * sh[0] * sh[3] > 1 );
    nd const x = values( s, sh ); var<double> a{ to_tensor<double>( x ) }; opts o; o.name = name;
    auto const go = [&]( auto ex, ref_t const& f )
    {
        c.label( name ); auto e = erase<double>( ex ); check_erased<double>( s, c, e, { &a }, f, o );
        set_data( a, values( s, sh ) ); o.name = name + " (second input)"; check_erased<double>( s, c, e, { &a }, f, o );
        if ( op != 0 ) return;
        // every upstream gradient goes to exactly one element of its block, and that element is a maximum
        nd const cur = to_nd( a.data() ), up = gen_upstream( s, { sh[0], sh[1] / k, sh[2] / k, sh[3] } ); e.run(); e.back( up ); nd const g = to_nd( a.gradient() );
        nd seen{ up.shape };
        each( sh, [&]( shape_t const& i )
        {
            double const v = g.at( i ); if ( v == 0 ) return;
            shape_t const b = { i[0], i[1] / k, i[2] / k, i[3] };
            c.require( b[1] < up.shape[1] && b[2] < up.shape[2], "max_pooling_2d:receiver", "an element outside of every block received a gradient" );
            c.require( v == up.at( b ), "max_pooling_2d:receiver", "element ", str( i ), " received ", v, " instead of ", up.at( b ) ); seen.at( b ) += 1;
            for ( ul p = 0; p < k; ++p ) for ( ul q = 0; q < k; ++q ) c.require( cur.at( i ) >= cur.at( { i[0], b[1] * k + p, b[2] * k + q, i[3] } ), "max_pooling_2d:receiver", "the gradient went to an element which is not the maximum" );
        } );
        for ( double v : seen.v ) c.require( v == 1, "max_pooling_2d:receiver", v, " elements of one block received its gradient" );
    };
    if ( op == 0 ) go( ceras::max_pooling_2d( k )( a ), [k]( std::vector<nd> const& v ) { return blocks( v[0], k, vmax ); } );
    else if ( op == 1 ) go( ceras::average_pooling_2d( k )( a ), [k]( std::vector<nd> const& v ) { return blocks( v[0], k, vavg ); } );
    else { ref_t f = [k]( std::vector<nd> const& v ) { return upsample( v[0], k ); }; if ( s.coin() ) go( ceras::up_sampling_2d( k )( a ), f ); else { name = "upsampling_2d"; go( ceras::upsampling_2d( k )( a ), f ); } }
}
PBT_FAMILY( "pooling-composition", 800, 10000, 40, "up-sampling followed by pooling with the same stride is the identity; two poolings of one input do not interfere; non-trivial when there is more than one element" )
{
    ul const k = s.range( 2, 3 ); shape_t const sh = { 1 + s.draw( 2 ), 1 + s.draw( 3 ), 1 + s.draw( 2 ), 1 + s.draw( 2 ) }; nd const x = gen_separated( s, sh, -5, 0.3 ); c.nontrivial( x.size() > 1 );
    var<double> a{ to_tensor<double>( x ) }; opts o; o.kinks = false;
    if ( s.coin() )
    { // pooling layers from one factory, and a sum of both kinds
        shape_t const big = { sh[0], sh[1] * k, sh[2] * k, sh[3] }; nd const y = gen_separated( s, big, -9, 0.2 ), z = gen_separated( s, big, -9, 0.2 ); var<double> b{ to_tensor<double>( y ) }, d{ to_tensor<double>( z ) };
        o.name = "two operators of one pooling factory"; c.label( o.name );
        if ( s.coin() ) { auto pool = ceras::max_pooling_2d( k ); auto ex = pool( b ) + pool( d ) * 2.0; check_erased<double>( s, c, erase<double>( ex ), { &b, &d }, [k]( std::vector<nd> const& v ) { return zip( blocks( v[0], k, vmax ), blocks( v[1], k, vmax ), []( double p, double q ) { return p + 2 * q; } ); }, o ); }
        else { auto pool = ceras::average_pooling_2d( k ); auto mp = ceras::max_pooling_2d( k ); auto ex = pool( b ) + mp( d ) + pool( d ) * 2.0; check_erased<double>( s, c, erase<double>( ex ), { &b, &d }, [k]( std::vector<nd> const& v ) { nd r = zip( blocks( v[0], k, vavg ), blocks( v[1], k, vmax ), []( double p, double q ) { return p + q; } ); return zip( r, blocks( v[1], k, vavg ), []( double p, double q ) { return p + 2 * q; } ); }, o ); }
        return;
    }
    ref_t const id = []( std::vector<nd> const& v ) { return v[0]; };
    if ( s.coin() ) { o.name = "average of up-sampled"; c.label( o.name ); auto ex = ceras::average_pooling_2d( k )( ceras::up_sampling_2d( k )( a ) ); check_erased<double>( s, c, erase<double>( ex ), { &a }, id, o ); }
    else { o.name = "max of up-sampled"; c.label( o.name ); auto ex = ceras::max_pooling_2d( k )( ceras::up_sampling_2d( k )( a ) ); check_erased<double>( s, c, erase<double>( ex ), { &a }, id, o ); }
}
CER_MAIN()
