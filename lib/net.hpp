// Random networks of layers, with a reference evaluator in double precision and handles on every parameter.
#pragma once
#include "dag.hpp"

namespace cer
{
    typedef any_of<float> layer_expr;
    struct conv_geo { ul kr, kc, pr = 0, pc = 0, sr = 1, sc = 1, dr = 1, dc = 1; ul er() const { return dr * ( kr - 1 ) + 1; } ul ec() const { return dc * ( kc - 1 ) + 1; } };
    // cross-correlation of x [B,R,C,CH] with w [N,kr,kc,CH]
    inline nd conv_ref( nd const& x, nd const& w, conv_geo const& g )
    {
        ul const R = ( x.shape[1] + 2 * g.pr - g.er() ) / g.sr + 1, C = ( x.shape[2] + 2 * g.pc - g.ec() ) / g.sc + 1, CH = x.shape[3], N = w.shape[0]; nd r{ { x.shape[0], R, C, N } }; ul k = 0;
        for ( ul b = 0; b < x.shape[0]; ++b ) for ( ul i = 0; i < R; ++i ) for ( ul j = 0; j < C; ++j ) for ( ul n = 0; n < N; ++n )
        {
            double s = 0;
            for ( ul p = 0; p < g.kr; ++p ) for ( ul q = 0; q < g.kc; ++q )
            {
                long const a = static_cast<long>( i * g.sr + p * g.dr ) - static_cast<long>( g.pr ), d = static_cast<long>( j * g.sc + q * g.dc ) - static_cast<long>( g.pc );
                if ( a < 0 || d < 0 || a >= static_cast<long>( x.shape[1] ) || d >= static_cast<long>( x.shape[2] ) ) continue;
                for ( ul ch = 0; ch < CH; ++ch ) s += x.v[( ( b * x.shape[1] + a ) * x.shape[2] + d ) * CH + ch] * w.v[( ( n * g.kr + p ) * g.kc + q ) * CH + ch];
            }
            r.v[k++] = s;
        }
        return r;
    }
    // every input element adds a scaled copy of the kernel to the output at its strided position
    inline nd conv_transpose_ref( nd const& x, nd const& w, conv_geo const& g, bool same )
    {
        long const offr = same ? static_cast<long>( g.kr - 1 ) / 2 : 0, offc = same ? static_cast<long>( g.kc - 1 ) / 2 : 0; ul const B = x.shape[0], R = x.shape[1], C = x.shape[2], CH = x.shape[3], N = w.shape[0];
        nd r{ { B, same ? R * g.sr : ( R - 1 ) * g.sr + g.kr, same ? C * g.sc : ( C - 1 ) * g.sc + g.kc, N } };
        for ( ul b = 0; b < B; ++b ) for ( ul i = 0; i < R; ++i ) for ( ul j = 0; j < C; ++j ) for ( ul ch = 0; ch < CH; ++ch ) for ( ul n = 0; n < N; ++n ) for ( ul p = 0; p < g.kr; ++p ) for ( ul q = 0; q < g.kc; ++q )
        {
            long const a = static_cast<long>( i * g.sr + p ) - offr, d = static_cast<long>( j * g.sc + q ) - offc;
            if ( a < 0 || d < 0 || a >= static_cast<long>( r.shape[1] ) || d >= static_cast<long>( r.shape[2] ) ) continue;
            r.at( { b, ul( a ), ul( d ), n } ) += x.at( { b, i, j, ch } ) * w.at( { n, p, q, ch } );
        }
        return r;
    }
    struct bn_state { bool trained = false; std::vector<double> mean, var; };
    inline void bn_stats( nd const& x, std::vector<double>& mean, std::vector<double>& var )
    {
        ul const ch = x.shape.back(), n = x.size() / ch; mean.assign( ch, 0 ); var.assign( ch, 0 );
        for ( ul i = 0; i < x.size(); ++i ) mean[i % ch] += x.v[i] / static_cast<double>( n );
        for ( ul i = 0; i < x.size(); ++i ) var[i % ch] += ( x.v[i] - mean[i % ch] ) * ( x.v[i] - mean[i % ch] ) / static_cast<double>( n );
    }
    struct net
    {
        struct env { nd input; std::vector<nd> p; bool train = true; };
        typedef std::function<nd( env const&, std::vector<nd> const& )> eval_t;
        struct node { layer_expr ex; shape_t tail; std::vector<ul> args; eval_t f; std::string text; std::shared_ptr<bn_state> bn; double momentum = 0; };
        struct param { var<float> v; shape_t shape; double l1, l2; bool train; bool zero, one; std::string text; };
        ceras::place_holder<ceras::tensor<float>> in; std::vector<node> nodes; std::vector<param> params; bool random = false, normalized = false; std::set<std::string> used; std::string problem; std::set<int> known;
        bool regularize = true, allow_bn = false, allow_dropout = false, allow_pool = true;
        explicit net( shape_t const& tail ) : in( ceras::Input( tail ) )
        {
            for ( auto const& [id, v] : ceras::get_default_session<ceras::tensor<float>>().variables_ ) known.insert( id );
            node n; n.ex = layer_expr::of( in ); n.tail = tail; n.f = []( env const& e, std::vector<nd> const& ) { return e.input; }; n.text = "Input" + cer::str( tail ); nodes.push_back( n );
        }
        // the variables created since the last call, in the order of their creation
        std::vector<var<float>> created()
        {
            std::map<int, var<float>> fresh; for ( auto const& [id, v] : ceras::get_default_session<ceras::tensor<float>>().variables_ ) if ( known.insert( id ).second ) fresh.emplace( id, v );
            std::vector<var<float>> r; for ( auto& [id, v] : fresh ) r.push_back( v ); return r;
        }
        ul push( node n, char const* op ) { n.text = "n" + std::to_string( nodes.size() ) + "=" + n.text; used.insert( op ); nodes.push_back( std::move( n ) ); return nodes.size() - 1; }
        template<class F> ul unary( ul a, layer_expr ex, shape_t const& tail, F const& f, std::string const& text, char const* op )
        {
            node n; n.ex = ex; n.tail = tail; n.args = { a }; n.f = [a, f]( env const& e, std::vector<nd> const& v ) { return f( e, v[a] ); }; n.text = text + "(n" + std::to_string( a ) + ")"; return push( n, op );
        }
        template<class F> ul binary( ul a, ul b, layer_expr ex, shape_t const& tail, F const& f, std::string const& text, char const* op )
        {
            node n; n.ex = ex; n.tail = tail; n.args = { a, b }; n.f = [a, b, f]( env const&, std::vector<nd> const& v ) { return f( v[a], v[b] ); }; n.text = text + "(n" + std::to_string( a ) + ",n" + std::to_string( b ) + ")"; return push( n, op );
        }
        template<class F> ul el( ul a, layer_expr ex, F const& f, char const* op ) { return unary( a, ex, nodes[a].tail, [f]( env const&, nd const& x ) { return map( x, f ); }, op, op ); }
        // a kernel and a bias variable made by a layer; returns the index of the first of them
        ul take( shape_t const& ks, shape_t const& bs, double kl1, double kl2, double bl1, double bl2, bool use_bias, std::string const& text, bool gamma = false )
        {
            auto vs = created(); if ( vs.size() != 2 ) { problem = text + " must create 2 variables but created " + std::to_string( vs.size() ); return 0; }
            shape_t s0; { nd const d = to_nd( vs[0].data() ); s0 = d.shape; } if ( s0 != ks && ks != bs ) std::swap( vs[0], vs[1] );
            if ( ks == bs && is_zero( vs[0] ) && !is_zero( vs[1] ) ) std::swap( vs[0], vs[1] ); // whatever the order of creation: biases and offsets start at zero
            params.push_back( { vs[0], ks, kl1, kl2, true, false, gamma, text + " kernel" } ); params.push_back( { vs[1], bs, bl1, bl2, use_bias, true, false, text + " bias" } ); return params.size() - 2;
        }
        static bool is_zero( var<float>& v ) { nd const d = to_nd( v.data() ); for ( double x : d.v ) if ( x != 0 ) return false; return true; }
        static double coefficient( src& s, bool on ) { return on && s.chance( 1, 4 ) ? 0.0625 * static_cast<double>( 1 + s.draw( 16 ) ) : 0.; }
        ul dense( src& s, ul a, ul out )
        {
            bool const bias = !s.chance( 1, 4 ); float const k1 = coefficient( s, regularize ), k2 = coefficient( s, regularize ), b1 = coefficient( s, regularize ), b2 = coefficient( s, regularize ); ul const n = nodes[a].tail[0];
            std::ostringstream o; o << "Dense[" << out << ( bias ? "" : " no bias" ) << " " << k1 << "," << k2 << "," << b1 << "," << b2 << "]";
            layer_expr ex = layer_expr::of( k1 == 0 && k2 == 0 && b1 == 0 && b2 == 0 ? ( bias ? ceras::Dense( out )( nodes[a].ex ) : ceras::Dense( out, false )( nodes[a].ex ) ) : ceras::Dense( out, bias, k1, k2, b1, b2 )( nodes[a].ex ) );
            ul const p = take( { n, out }, { 1, out }, k1, k2, b1, b2, bias, o.str() );
            return unary( a, ex, { out }, [p]( env const& e, nd const& x ) { nd r = matmul( x, e.p[p] ); for ( ul i = 0; i < r.size(); ++i ) r.v[i] += e.p[p + 1].v[i % r.shape[1]]; return r; }, o.str(), "Dense" );
        }
        static nd add_bias( nd r, nd const& b ) { for ( ul i = 0; i < r.size(); ++i ) r.v[i] += b.v[i % b.size()]; return r; }
        ul conv2d( src& s, ul a, bool transposed )
        {
            shape_t const t = nodes[a].tail; conv_geo g; bool const same = s.coin(), square = s.chance( 1, 3 );
            auto const pick = [&]( ul n, ul& k, ul& st, ul& di, ul& pad )
            {
                k = transposed && same ? 1 + 2 * s.draw( 2 ) : 1 + s.draw( std::min<ul>( 3, transposed || same ? 3 : n ) ); st = 1 + s.draw( 2 ); di = 1; pad = 0; if ( transposed ) return;
                if ( !same ) { if ( 2 * ( k - 1 ) + 1 <= n && s.chance( 1, 4 ) ) di = 2; return; }
                if ( s.chance( 1, 4 ) ) di = 2; ul const ext = di * ( k - 1 ) + 1; if ( ( ext > st ? ext - st : 0 ) % 2 ) st = ext % 2 ? 1 : 2; pad = ext > st ? ( ext - st ) / 2 : 0; if ( n + 2 * pad < ext ) { k = 1; di = 1; st = 1; pad = 0; }
            };
            if ( square && t[0] == t[1] ) { pick( t[0], g.kr, g.sr, g.dr, g.pr ); g.kc = g.kr; g.sc = g.sr; g.dc = g.dr; g.pc = g.pr; } else { pick( t[0], g.kr, g.sr, g.dr, g.pr ); pick( t[1], g.kc, g.sc, g.dc, g.pc ); }
            bool const one = square && t[0] == t[1]; ul const oc = 1 + s.draw( 3 ); bool const bias = !s.chance( 1, 4 ); float const k1 = coefficient( s, regularize ), k2 = coefficient( s, regularize ), b1 = coefficient( s, regularize ), b2 = coefficient( s, regularize );
            std::vector<ul> const ks = one ? std::vector<ul>{ g.kr } : std::vector<ul>{ g.kr, g.kc }, st = one ? std::vector<ul>{ g.sr } : std::vector<ul>{ g.sr, g.sc }, di = one ? std::vector<ul>{ g.dr } : std::vector<ul>{ g.dr, g.dc }; std::string const pad = same ? "same" : "valid";
            std::ostringstream o; o << ( transposed ? "Conv2DTranspose[" : "Conv2D[" ) << oc << " kernel " << g.kr << "x" << g.kc << " " << pad << " stride " << g.sr << "x" << g.sc << " dilation " << g.dr << "x" << g.dc << ( bias ? "" : " no bias" ) << " " << k1 << "," << k2 << "," << b1 << "," << b2 << "]";
            layer_expr ex = transposed ? layer_expr::of( ceras::Conv2DTranspose( oc, ks, pad, st, di, bias, k1, k2, b1, b2 )( nodes[a].ex ) ) : layer_expr::of( ceras::Conv2D( oc, ks, pad, st, di, bias, k1, k2, b1, b2 )( nodes[a].ex ) );
            ul const p = take( { oc, g.kr, g.kc, t[2] }, { 1, 1, oc }, k1, k2, b1, b2, bias, o.str() ); nd const probe{ { 1, t[0], t[1], t[2] } }; nd const w{ { oc, g.kr, g.kc, t[2] } };
            shape_t tail = transposed ? conv_transpose_ref( probe, w, g, same ).shape : conv_ref( probe, w, g ).shape; tail.erase( tail.begin() );
            if ( transposed ) return unary( a, ex, tail, [p, g, same]( env const& e, nd const& x ) { return add_bias( conv_transpose_ref( x, e.p[p], g, same ), e.p[p + 1] ); }, o.str(), "Conv2DTranspose" );
            return unary( a, ex, tail, [p, g]( env const& e, nd const& x ) { return add_bias( conv_ref( x, e.p[p], g ), e.p[p + 1] ); }, o.str(), "Conv2D" );
        }
        ul conv1d( src& s, ul a )
        {
            shape_t const t = nodes[a].tail; conv_geo g; g.kc = 1; bool const same = s.coin(); g.kr = 1 + s.draw( std::min<ul>( 3, same ? 3 : t[0] ) ); g.sr = 1 + s.draw( 2 ); if ( same ) { if ( ( g.kr > g.sr ? g.kr - g.sr : 0 ) % 2 ) g.sr = g.kr % 2 ? 1 : 2; g.pr = g.kr > g.sr ? ( g.kr - g.sr ) / 2 : 0; if ( t[0] + 2 * g.pr < g.kr ) { g.kr = 1; g.sr = 1; g.pr = 0; } } else if ( 2 * ( g.kr - 1 ) + 1 <= t[0] && s.chance( 1, 4 ) ) g.dr = 2;
            ul const oc = 1 + s.draw( 3 ); bool const bias = !s.chance( 1, 4 ); float const k1 = coefficient( s, regularize ), k2 = coefficient( s, regularize ), b1 = coefficient( s, regularize ), b2 = coefficient( s, regularize );
            std::ostringstream o; o << "Conv1D[" << oc << " kernel " << g.kr << ( same ? " same" : " valid" ) << " stride " << g.sr << " dilation " << g.dr << ( bias ? "" : " no bias" ) << " " << k1 << "," << k2 << "," << b1 << "," << b2 << "]";
            layer_expr ex = layer_expr::of( ceras::Conv1D( oc, g.kr, g.sr, same ? "same" : "valid", g.dr, bias, k1, k2, b1, b2 )( nodes[a].ex ) ); ul const p = take( { oc, g.kr, 1, t[1] }, { 1, 1, oc }, k1, k2, b1, b2, bias, o.str() );
            ul const n = ( t[0] + 2 * g.pr - g.er() ) / g.sr + 1;
            return unary( a, ex, { n, oc }, [p, g]( env const& e, nd const& x ) { nd r = add_bias( conv_ref( x.reshaped( { x.shape[0], x.shape[1], 1, x.shape[2] } ), e.p[p], g ), e.p[p + 1] ); return r.reshaped( { r.shape[0], r.shape[1], r.shape[3] } ); }, o.str(), "Conv1D" );
        }
        ul batch_normalization( src& s, ul a )
        {
            float const k1 = coefficient( s, regularize ), k2 = coefficient( s, regularize ), b1 = coefficient( s, regularize ), b2 = coefficient( s, regularize ), mom = 0.5f + 0.0625f * static_cast<float>( s.draw( 7 ) ); ul const ch = nodes[a].tail.back(); std::ostringstream o; o << "BatchNormalization[" << mom << " " << k1 << "," << k2 << "," << b1 << "," << b2 << "]";
            layer_expr ex = layer_expr::of( ceras::BatchNormalization( mom, k1, k2, b1, b2 )( nodes[a].ex ) ); auto st = std::make_shared<bn_state>(); st->mean.assign( ch, 0 ); st->var.assign( ch, 0 ); normalized = true;
            auto vs = created(); if ( vs.size() != 2 ) { problem = o.str() + " must create 2 variables"; return a; }
            if ( to_nd( vs[0].data() ).v[0] == 0 ) std::swap( vs[0], vs[1] ); ul const p = params.size(); params.push_back( { vs[0], { ch }, k1, k2, true, false, true, o.str() + " gamma" } ); params.push_back( { vs[1], { ch }, b1, b2, true, true, false, o.str() + " beta" } );
            ul const r = unary( a, ex, nodes[a].tail, [p, st, ch]( env const& e, nd const& x )
            {
                std::vector<double> m = st->mean, v = st->var; nd y = x; if ( e.train ) bn_stats( x, m, v );
                if ( e.train || st->trained ) for ( ul i = 0; i < y.size(); ++i ) y.v[i] = ( x.v[i] - m[i % ch] ) / std::sqrt( v[i % ch] + 1e-8 );
                for ( ul i = 0; i < y.size(); ++i ) y.v[i] = y.v[i] * e.p[p].v[i % ch] + e.p[p + 1].v[i % ch];
                return y;
            }, o.str(), "BatchNormalization" );
            nodes[r].bn = st; nodes[r].momentum = mom; return r;
        }
        ul activation( src& s, ul a )
        {
            layer_expr x = nodes[a].ex;
            switch ( s.draw( 8 ) )
            {
                case 0: return el( a, layer_expr::of( ceras::ReLU( x ) ), []( double v ) { return v > 0 ? v : 0; }, "ReLU" );
                case 1: return el( a, layer_expr::of( ceras::LeakyReLU( 0.25f )( x ) ), []( double v ) { return v > 0 ? v : 0.25 * v; }, "LeakyReLU" );
                case 2: return el( a, layer_expr::of( ceras::ELU( 0.5f )( x ) ), []( double v ) { return v > 0 ? v : 0.5 * std::expm1( v ); }, "ELU" );
                case 3: return el( a, layer_expr::of( ceras::sigmoid( x ) ), []( double v ) { return 1 / ( 1 + std::exp( -v ) ); }, "sigmoid" );
                case 4: return el( a, layer_expr::of( ceras::softplus( x ) ), []( double v ) { return std::max( v, 0. ) + std::log1p( std::exp( -std::fabs( v ) ) ); }, "softplus" );
                case 5: return unary( a, layer_expr::of( ceras::Softmax()( x ) ), nodes[a].tail, []( env const&, nd const& v ) { nd r = v; ul const n = v.shape.back(); for ( ul i = 0; i < v.size(); i += n ) { double m = v.v[i], z = 0; for ( ul k = 0; k < n; ++k ) m = std::max( m, v.v[i + k] ); for ( ul k = 0; k < n; ++k ) z += r.v[i + k] = std::exp( v.v[i + k] - m ); for ( ul k = 0; k < n; ++k ) r.v[i + k] /= z; } return r; }, "Softmax", "Softmax" );
                default: return el( a, layer_expr::of( ceras::tanh( x ) ), []( double v ) { return std::tanh( v ); }, "tanh" );
            }
        }
        ul merge( src& s, ul a, ul b )
        {
            layer_expr x = nodes[a].ex, y = nodes[b].ex; shape_t t = nodes[a].tail;
            switch ( s.draw( 4 ) )
            {
                case 0: return binary( a, b, layer_expr::of( ceras::Add()( x, y ) ), t, []( nd const& u, nd const& v ) { return zip( u, v, []( double i, double j ) { return i + j; } ); }, "Add", "Add" );
                case 1: return binary( a, b, layer_expr::of( ceras::Subtract()( x, y ) ), t, []( nd const& u, nd const& v ) { return zip( u, v, []( double i, double j ) { return i - j; } ); }, "Subtract", "Subtract" );
                case 2: return binary( a, b, layer_expr::of( ceras::Multiply()( x, y ) ), t, []( nd const& u, nd const& v ) { return zip( u, v, []( double i, double j ) { return i * j; } ); }, "Multiply", "Multiply" );
                default: return concatenate( a, b );
            }
        }
        ul concatenate( ul a, ul b )
        {
            shape_t t = nodes[a].tail; t.back() += nodes[b].tail.back();
            return binary( a, b, layer_expr::of( ceras::Concatenate()( nodes[a].ex, nodes[b].ex ) ), t, []( nd const& u, nd const& v ) { ul const n = u.shape.back(), m = v.shape.back(); shape_t sh = u.shape; sh.back() += m; nd r{ sh }; for ( ul i = 0; i < u.size() / n; ++i ) { for ( ul k = 0; k < n; ++k ) r.v[i * ( n + m ) + k] = u.v[i * n + k]; for ( ul k = 0; k < m; ++k ) r.v[i * ( n + m ) + n + k] = v.v[i * m + k]; } return r; }, "Concatenate", "Concatenate" );
        }
        ul flatten( ul a ) { ul const n = prod( nodes[a].tail ); return unary( a, layer_expr::of( ceras::Flatten()( nodes[a].ex ) ), { n }, []( env const&, nd const& v ) { return v.reshaped( { v.shape[0], v.size() / v.shape[0] } ); }, "Flatten", "Flatten" ); }
        ul reshape( src& s, ul a )
        {
            shape_t u; ul total = prod( nodes[a].tail ); while ( total > 1 && u.size() < 2 && s.chance( 2, 3 ) ) { std::vector<ul> f; for ( ul k = 1; k <= total; ++k ) if ( total % k == 0 ) f.push_back( k ); ul const e = s.pick( f ); u.push_back( e ); total /= e; } u.push_back( total );
            return unary( a, layer_expr::of( ceras::Reshape( u )( nodes[a].ex ) ), u, [u]( env const&, nd const& v ) { shape_t o = u; o.insert( o.begin(), v.shape[0] ); return v.reshaped( o ); }, "Reshape" + cer::str( u ), "Reshape" );
        }
        ul pool( src& s, ul a )
        {
            shape_t t = nodes[a].tail; layer_expr x = nodes[a].ex; bool const even = t[0] % 2 == 0 && t[1] % 2 == 0; ul const kind = even ? s.draw( 3 ) : 2;
            if ( kind == 2 )
            {
                if ( prod( t ) > 24 ) return activation( s, a ); t[0] *= 2; t[1] *= 2;
                return unary( a, layer_expr::of( ceras::UpSampling2D( 2 )( x ) ), t, []( env const&, nd const& v ) { nd r{ { v.shape[0], v.shape[1] * 2, v.shape[2] * 2, v.shape[3] } }; ul k = 0; each( r.shape, [&]( shape_t const& i ) { r.v[k++] = v.at( { i[0], i[1] / 2, i[2] / 2, i[3] } ); } ); return r; }, "UpSampling2D", "UpSampling2D" );
            }
            t[0] /= 2; t[1] /= 2; bool const mx = kind == 0;
            auto const f = [mx]( env const&, nd const& v ) { nd r{ { v.shape[0], v.shape[1] / 2, v.shape[2] / 2, v.shape[3] } }; ul k = 0; each( r.shape, [&]( shape_t const& i ) { double q[4]; for ( ul j = 0; j < 4; ++j ) q[j] = v.at( { i[0], 2 * i[1] + j / 2, 2 * i[2] + j % 2, i[3] } ); r.v[k++] = mx ? *std::max_element( q, q + 4 ) : ( q[0] + q[1] + q[2] + q[3] ) / 4; } ); return r; };
            if ( mx ) return unary( a, layer_expr::of( ceras::MaxPooling2D( 2 )( x ) ), t, f, "MaxPooling2D", "MaxPooling2D" );
            return unary( a, layer_expr::of( ceras::AveragePooling2D( 2 )( x ) ), t, f, "AveragePooling2D", "AveragePooling2D" );
        }
        ul dropout( src& s, ul a )
        {
            float const p = 0.125f * static_cast<float>( 1 + s.draw( 6 ) ); random = true; return unary( a, layer_expr::of( ceras::Dropout( p )( nodes[a].ex ) ), nodes[a].tail, []( env const&, nd const& v ) { return v; }, "Dropout", "Dropout" );
        }
        ul grow( src& s, ul steps )
        {
            ul last = nodes.size() - 1;
            for ( ul k = 0; k < steps; ++k )
            {
                ul const a = s.chance( 3, 4 ) ? last : s.draw( nodes.size() ); shape_t const t = nodes[a].tail; ul const kind = s.draw( 10 );
                if ( prod( t ) > 60 ) last = t.size() == 1 ? dense( s, a, 2 + s.draw( 4 ) ) : flatten( a );
                else if ( kind < 4 ) { if ( t.size() == 1 ) last = t[0] < 2 ? reshape( s, a ) : dense( s, a, 1 + s.draw( 6 ) ); else if ( t.size() == 2 ) last = conv1d( s, a ); else if ( t.size() == 3 ) last = conv2d( s, a, s.chance( 1, 4 ) ); else last = flatten( a ); }
                else if ( kind < 6 ) last = activation( s, a );
                else if ( kind == 6 ) { std::vector<ul> same, cat; for ( ul b = 0; b < nodes.size(); ++b ) { shape_t u = nodes[b].tail; if ( u == t ) same.push_back( b ); if ( u.size() == t.size() ) { u.back() = t.back(); if ( u == t ) cat.push_back( b ); } } if ( s.coin() ) last = merge( s, a, s.pick( same ) ); else last = concatenate( a, s.pick( cat ) ); }
                else if ( kind == 7 ) last = t.size() == 3 && allow_pool ? pool( s, a ) : s.coin() ? reshape( s, a ) : activation( s, a );
                else if ( kind == 8 && allow_bn ) last = batch_normalization( s, a );
                else if ( kind == 9 && allow_dropout ) last = dropout( s, a );
                else last = s.chance( 1, 3 ) && t.size() > 1 ? flatten( a ) : activation( s, a );
            }
            return last;
        }
        ul finish( src& s, ul a, ul out ) { if ( nodes[a].tail.size() != 1 ) a = flatten( a ); return dense( s, a, out ); }
        std::vector<bool> needed( ul root ) const { std::vector<bool> r( nodes.size(), false ); r[root] = true; for ( ul k = root + 1; k-- > 0; ) if ( r[k] ) for ( ul a : nodes[k].args ) r[a] = true; return r; }
        std::vector<nd> values( ul root, env const& e ) const { auto const need = needed( root ); std::vector<nd> v( nodes.size() ); for ( ul k = 0; k <= root; ++k ) if ( need[k] ) v[k] = nodes[k].f( e, v ); return v; }
        nd value( ul root, env const& e ) const { return values( root, e )[root]; }
        // what a training evaluation does to the running averages; returns the smallest variance any normalization divides by
        double observe( ul root, env const& e )
        {
            double least = 1e9; auto const need = needed( root ); auto const v = values( root, e );
            for ( ul k = 0; k <= root; ++k ) if ( need[k] && nodes[k].bn )
            {
                auto& st = *nodes[k].bn; std::vector<double> m, q; bn_stats( v[nodes[k].args[0]], m, q ); st.trained = true; for ( double x : q ) least = std::min( least, x );
                for ( ul i = 0; i < m.size(); ++i ) { st.mean[i] = nodes[k].momentum * st.mean[i] + ( 1 - nodes[k].momentum ) * m[i]; st.var[i] = nodes[k].momentum * st.var[i] + ( 1 - nodes[k].momentum ) * q[i]; }
            }
            return least;
        }
        env now( nd const& input, bool train ) const { env e; e.input = input; e.train = train; for ( auto const& p : params ) e.p.push_back( to_nd( p.v.data() ) ); return e; }
        std::string text() const { std::string t; for ( auto const& n : nodes ) t += ( t.empty() ? "" : " " ) + n.text; return t; }
        shape_t shape( ul k, ul batch ) const { shape_t r = nodes[k].tail; r.insert( r.begin(), batch ); return r; }
    };
    inline shape_t gen_input_tail( src& s ) { switch ( s.draw( 4 ) ) { case 0: case 1: return { 2 + s.draw( 4 ) }; case 2: return { 2 + s.draw( 5 ), 1 + s.draw( 3 ) }; default: return { 2 + s.draw( 4 ), 2 + s.draw( 4 ), 1 + s.draw( 2 ) }; } }
    struct quiet // progress bars
    {
        std::streambuf* a; std::streambuf* b;
        quiet() : a( std::cout.rdbuf( nullptr ) ), b( std::cerr.rdbuf( nullptr ) ) { if ( std::getenv( "LOUD" ) ) { std::cout.rdbuf( a ); std::cerr.rdbuf( b ); } }
        ~quiet() { std::cout.rdbuf( a ); std::cerr.rdbuf( b ); }
    };
}
