// Tensor handles, shared storage and shape functions.
#include "../lib/cer.hpp"
using namespace cer;
typedef ceras::tensor<double> tn;

static shape_t regroup( src& s, ul total ) { shape_t r; ul const d = s.range( 1, 5 ); for ( ul i = 0; i + 1 < d; ++i ) { std::vector<ul> f; for ( ul k = 1; k <= total; ++k ) if ( total % k == 0 ) f.push_back( k ); ul const e = s.pick( f ); r.push_back( e ); total /= e; } r.push_back( total ); return r; }

struct model { shape_t shape; std::shared_ptr<std::vector<double>> buf; nd value() const { return nd{ shape, *buf }; } };
struct world
{
    std::vector<tn> t; std::vector<model> m; src& s; ctx& c; double next = 1;
    world( src& s_, ctx& c_ ) : s( s_ ), c( c_ ) {}
    ul any() { return s.draw( t.size() ); }
    void add( tn const& x, model const& y ) { t.push_back( x ); m.push_back( y ); }
    model fresh( shape_t const& sh, std::vector<double> const& v ) { return { sh, std::make_shared<std::vector<double>>( v ) }; }
    model fresh( nd const& a ) { return fresh( a.shape, a.v ); }
    bool shared( ul i ) { return m[i].buf.use_count() > 1; }
    void check( std::string const& what )
    {
        for ( ul i = 0; i < t.size(); ++i )
        {
            nd const w = m[i].value(); tn const& x = t[i];
            c.require( x.size() == w.size() && x.ndim() == w.dim() && ceras::size( x ) == w.size() && ceras::ndim( x ) == w.dim() && !x.empty() && !ceras::empty( x ), "size", "after ", what, ": tensor ", i, " has size ", x.size(), " and ", x.ndim(), " dimensions instead of ", str( w.shape ) );
            auto const sh2 = ceras::shape( x ); c.require( shape_t( sh2.begin(), sh2.end() ) == w.shape, "shape", "after ", what, ": tensor ", i, " has shape ", str( shape_t( sh2.begin(), sh2.end() ) ), " instead of ", str( w.shape ) );
            expect_same( c, to_nd( x ), w, "content", "after " + what + ": tensor " + std::to_string( i ) );
        }
        // two handles share storage exactly when the model says so
        for ( ul i = 0; i < t.size(); ++i ) for ( ul j = i + 1; j < t.size(); ++j ) c.require( ( t[i].data() == t[j].data() ) == ( m[i].buf == m[j].buf ), "aliasing", "after ", what, ": tensors ", i, " and ", j, m[i].buf == m[j].buf ? " must share their elements" : " must not share their elements" );
    }
    void step()
    {
        ul const op = t.size() < 2 ? s.draw( 2 ) : s.chance( 1, 6 ) ? s.pick( std::vector<ul>{ 11, 12, 20, 20 } ) : s.draw( 31 ); std::string what; double const k = s.real( -3, 3 ); ul const i = t.empty() ? 0 : any();
        switch ( op )
        {
            case 0: { shape_t const sh = gen_shape( s, 1, 5, 4, 40 ); nd a{ sh }; for ( auto& v : a.v ) v = next++; add( to_tensor<double>( a ), fresh( a ) ); what = "new " + str( sh ); break; }
            case 1: { shape_t const sh = gen_shape( s, 1, 5, 4, 40 ); nd a{ sh, k }; add( s.coin() ? tn{ sh, k } : tn( sh, k ), fresh( a ) ); what = "new filled " + str( sh ); break; }
            case 2: { tn x{ t[i] }; add( x, m[i] ); what = "copy constructor"; break; }
            case 3: { ul const j = any(); if ( i != j ) { t[j] = t[i]; m[j] = m[i]; } what = "copy assignment"; break; }
            case 4: { tn x{ t[i] }; tn y{ std::move( x ) }; add( y, m[i] ); what = "move constructor"; break; }
            case 5: { ul const j = any(); tn x{ t[i] }; t[j] = std::move( x ); if ( i != j ) m[j] = m[i]; what = "move assignment"; break; }
            case 6: case 7: { ul const how = s.draw( 4 ); add( how == 0 ? t[i].deep_copy() : how == 1 ? t[i].copy() : how == 2 ? ceras::deep_copy( t[i] ) : ceras::copy( t[i] ), fresh( m[i].value() ) ); what = "deep copy " + std::to_string( how ); c.label( "deep copy" ); break; }
            case 8: { ul const j = any(); if ( i == j || m[i].buf == m[j].buf || ( m[i].value().size() != m[j].value().size() && shared( j ) ) ) return; t[j].deep_copy( t[i] ); *m[j].buf = *m[i].buf; m[j].shape = m[i].shape; what = "deep_copy(other)"; break; }
            case 9: { ul const p = s.draw( t[i].size() ); t[i][p] = k; ( *m[i].buf )[p] = k; what = "element write"; if ( shared( i ) ) { c.label( "write through a shared handle" ); c.nontrivial(); } break; }
            case 10: { t[i].reset( k ); for ( auto& v : *m[i].buf ) v = k; what = "reset"; break; }
            case 11: case 12: // with a number, which may be an element of a tensor
            {
                ul const f = s.draw( 5 ), j = any(), p = s.draw( t[j].size() ); bool const element = s.coin(); double const x = element ? ( *m[j].buf )[p] : k; std::vector<double> r = *m[i].buf;
                for ( auto& v : r ) v = f == 0 ? v + x : f == 1 ? v - x : f == 2 ? v * x : f == 3 ? v / x : x; for ( double v : r ) if ( !( std::fabs( v ) < 1e9 ) ) return;
                if ( element ) switch ( f ) { case 0: t[i] += t[j][p]; break; case 1: t[i] -= t[j][p]; break; case 2: t[i] *= t[j][p]; break; case 3: t[i] /= t[j][p]; break; default: t[i].reset( t[j][p] ); }
                else switch ( f ) { case 0: t[i] += k; break; case 1: t[i] -= k; break; case 2: t[i] *= k; break; case 3: t[i] /= k; break; default: t[i].reset( k ); }
                *m[i].buf = r; what = std::string( 1, "+-*/:"[f] ) + "= " + ( element ? "an element of " + std::to_string( j ) : "a number" ); if ( shared( i ) ) c.nontrivial(); if ( element && m[i].buf == m[j].buf ) c.label( "with an element of itself" ); break;
            }
            case 13: { t[i].map( [k]( double& v ) { v = v + k; } ); for ( auto& v : *m[i].buf ) v = v + k; what = "map"; break; }
            case 14: { shape_t const sh = regroup( s, t[i].size() ); tn const& r = t[i].reshape( sh ); c.require( &r == &t[i], "returns", "reshape must return the tensor" ); m[i].shape = sh; what = "reshape " + str( sh ); c.label( "reshape" ); break; }
            case 15: { shape_t sh = regroup( s, t[i].size() ); shape_t q = sh; q.back() = static_cast<ul>( -1 ); t[i].reshape( q ); m[i].shape = sh; what = "reshape with -1 " + str( sh ); break; }
            case 16: { shape_t const sh = regroup( s, t[i].size() ); tn x = ceras::reshape( static_cast<tn const&>( t[i] ), sh ); add( x, { sh, m[i].buf } ); what = "reshape(t)"; break; }
            case 17: { shape_t const sh = regroup( s, t[i].size() ); t[i].resize( sh ); m[i].shape = sh; what = "resize to the same size"; break; }
            case 18: { if ( shared( i ) ) return; shape_t const sh = gen_shape( s, 1, 4, 4, 40 ); t[i].resize( sh ); for ( ul p = 0; p < t[i].size(); ++p ) t[i][p] = next; m[i].shape = sh; m[i].buf->assign( prod( sh ), next++ ); what = "resize " + str( sh ); break; }
            case 19: { ul const how = s.draw( 3 ); tn x = how == 0 ? t[i] + k : how == 1 ? t[i] * k : -t[i]; add( x, fresh( map( m[i].value(), [=]( double v ) { return how == 0 ? v + k : how == 1 ? v * k : -v; } ) ) ); what = "arithmetic"; break; }
            case 20: // with a tensor, which may share its elements
            {
                std::vector<ul> js; for ( ul j = 0; j < t.size(); ++j ) if ( m[j].shape == m[i].shape ) js.push_back( j ); ul const j = s.pick( js ), f = s.draw( 4 ); auto const a = *m[i].buf, b = *m[j].buf; std::vector<double> r = a;
                for ( ul p = 0; p < a.size(); ++p ) { r[p] = f == 0 ? a[p] + b[p] : f == 1 ? a[p] - b[p] : f == 2 ? a[p] * b[p] : a[p] / b[p]; if ( !( std::fabs( r[p] ) < 1e9 ) ) return; }
                switch ( f ) { case 0: t[i] += t[j]; break; case 1: t[i] -= t[j]; break; case 2: t[i] *= t[j]; break; default: t[i] /= t[j]; }
                *m[i].buf = r; what = std::string( 1, "+-*/"[f] ) + "= tensor " + std::to_string( j ); if ( shared( i ) ) c.nontrivial(); break;
            }
            case 21: { shape_t sh; for ( ul e : m[i].shape ) if ( e > 1 ) sh.push_back( e ); if ( sh.empty() ) sh = { 1 }; add( ceras::squeeze( t[i] ), { sh, m[i].buf } ); what = "squeeze"; break; }
            case 22: { if ( s.chance( 1, 3 ) ) { add( t[i].as_type<double>(), fresh( m[i].value() ) ); what = "as_type of the same type"; break; } auto f = t[i].as_type<float>(); auto f2 = f.as_type<float>(); c.require( f2.data() != f.data(), "aliasing", "as_type of the same type shares the elements" ); auto g = f2.as_type<double>(); nd a = map( m[i].value(), []( double v ) { return static_cast<double>( static_cast<float>( v ) ); } ); add( g, fresh( a ) ); what = "as_type"; break; }
            case 23: { ul const n = s.range( 1, 3 ); if ( t[i].size() * n > 200 ) return; nd a = m[i].value(), r; r.shape = a.shape; r.shape.insert( r.shape.begin(), n ); for ( ul p = 0; p < n; ++p ) r.v.insert( r.v.end(), a.v.begin(), a.v.end() ); add( ceras::repeat( t[i], n ), fresh( r ) ); what = "repeat"; break; }
            case 24: { if ( m[i].shape.size() > 4 ) return; long const axis = s.range( -1, static_cast<long>( m[i].shape.size() ) - 1 ); ul const ax = axis < 0 ? m[i].shape.size() - 1 : axis; nd a = m[i].value(), r{ a.shape }; each( a.shape, [&]( shape_t const& x ) { shape_t y = x; y[ax] = a.shape[ax] - 1 - x[ax]; r.at( x ) = a.at( y ); } ); if ( axis == -1 && s.coin() ) add( ceras::flip( t[i] ), fresh( r ) ); else add( ceras::flip( t[i], axis ), fresh( r ) ); what = "flip " + std::to_string( axis ); break; }
            case 25: { shape_t const sh = regroup( s, t[i].size() ); std::vector<ul> ones; for ( ul p = 0; p < m[i].shape.size(); ++p ) if ( m[i].shape[p] == 1 ) ones.push_back( p ); if ( ones.empty() || m[i].shape.size() == 1 ) return; ul const ax = s.pick( ones ); shape_t q = m[i].shape; q.erase( q.begin() + ax ); add( ceras::squeeze( t[i], static_cast<int>( ax ) ), { q, m[i].buf } ); what = "squeeze axis"; break; }
            case 26: { if ( t[i].size() != 1 ) return; c.require( t[i].as_scalar() == ( *m[i].buf )[0], "as_scalar", "as_scalar" ); what = "as_scalar"; break; }
            case 27: { ul p = 0; double x = next; next += 50; for ( auto& v : t[i] ) { v = x + p; ++p; } c.require( p == t[i].size(), "iteration", "visited ", p ); for ( ul q = 0; q < p; ++q ) ( *m[i].buf )[q] = x + q; what = "write by iteration"; break; }
            case 28: { std::vector<double> r( t[i].rbegin(), t[i].rend() ), f( ceras::begin( t[i] ), ceras::end( t[i] ) ), cr( t[i].crbegin(), t[i].crend() ); std::vector<double> w = *m[i].buf; c.require( f == w && std::vector<double>( t[i].cbegin(), t[i].cend() ) == w, "iteration", "forward iteration" ); std::reverse( w.begin(), w.end() ); c.require( r == w && cr == w, "iteration", "reverse iteration" ); c.require( std::vector<double>( ceras::rbegin( t[i] ), ceras::rend( t[i] ) ) == w, "iteration", "reverse iteration" ); what = "iteration"; break; }
            case 29: { ul const j = any(); std::swap( t[i], t[j] ); std::swap( m[i], m[j] ); what = "swap"; break; }
            default: { if ( t.size() < 3 ) return; t.erase( t.begin() + i ); m.erase( m.begin() + i ); what = "destroy"; break; }
        }
        if ( c.desc.tellp() < 1500 ) c.desc << what << " on " << i << "; "; c.flush_desc();
        check( what + " on " + std::to_string( i ) );
    }
};
PBT_FAMILY( "history", 6000, 60000, 100, "a history of creations, copies, moves, deep copies, reshapes, writes, arithmetic and destructions of tensor handles against a model of shared buffers, all handles compared after every step; non-trivial when a handle sharing its storage is written to" )
{
    world w{ s, c }; ul const n = 6 + s.draw( 40 ); for ( ul i = 0; i < n; ++i ) { w.step(); if ( w.t.size() > 9 ) { w.t.erase( w.t.begin() ); w.m.erase( w.m.begin() ); } }
}
static nd concat_ref( nd const& a, nd const& b, ul axis )
{
    shape_t t = a.shape; t[axis] += b.shape[axis]; nd r{ t }; ul k = 0;
    each( t, [&]( shape_t const& i ) { shape_t j = i; if ( i[axis] < a.shape[axis] ) r.v[k++] = a.at( j ); else { j[axis] -= a.shape[axis]; r.v[k++] = b.at( j ); } } ); return r;
}
PBT_FAMILY( "concatenate", 3000, 30000, 100, "concatenate two tensors along an axis; a tensor with fewer dimensions is repeated over the leading dimensions of the other; non-trivial when both have at least 2 elements" )
{
    shape_t sa = gen_shape( s, 1, 4, 4, 60 ), sb = sa; ul axis = s.draw( sa.size() ); sb[axis] = 1 + s.draw( 4 ); ul const drop = s.chance( 1, 3 ) ? s.draw( axis + 1 ) : 0; // the leading dimensions before the axis may be missing in one
    shape_t full = sb; bool const left = s.coin(); sb.erase( sb.begin(), sb.begin() + drop ); nd const x = gen_nd( s, sa, -9, 9 ), y = gen_nd( s, sb, -9, 9 ); auto a = to_tensor<double>( x ), b = to_tensor<double>( y );
    c.nontrivial( x.size() > 1 && y.size() > 1 ); if ( drop ) c.label( "different dimensions" ); c.desc << str( sa ) << str( sb ) << " axis " << axis;
    nd yf{ full }; ul k = 0; each( full, [&]( shape_t const& i ) { yf.v[k++] = y.at( shape_t( i.begin() + drop, i.end() ) ); } );
    tn r = left ? ( axis == 0 && s.coin() ? ceras::concatenate( a, b ) : ceras::concatenate( a, b, axis ) ) : ceras::concatenate( b, a, axis );
    expect_same( c, to_nd( r ), left ? concat_ref( x, yf, axis ) : concat_ref( yf, x, axis ), "concatenate", "concatenate" );
    expect_same( c, to_nd( a ), x, "operand", "left" ); expect_same( c, to_nd( b ), y, "operand", "right" );
    if ( !drop && axis == sa.size() - 1 && left ) expect_same( c, to_nd( ceras::concatenate( a, b, static_cast<ul>( -1 ) ) ), concat_ref( x, y, axis ), "concatenate:-1", "concatenate along the last axis" );
}
PBT_FAMILY( "repmat", 1500, 15000, 100, "repmat of a matrix, flip twice, repeat; non-trivial when there is more than one copy" )
{
    shape_t const sh = { 1 + s.draw( 6 ), 1 + s.draw( 6 ) }; ul const p = 1 + s.draw( 4 ), q = 1 + s.draw( 4 ); nd const x = gen_generic( s, sh, -9, 9 ); auto a = to_tensor<double>( x ); c.nontrivial( p * q > 1 ); c.desc << str( sh ) << " x " << p << "," << q;
    nd w{ { sh[0] * p, sh[1] * q } }; ul k = 0; each( w.shape, [&]( shape_t const& i ) { w.v[k++] = x.at( { i[0] % sh[0], i[1] % sh[1] } ); } );
    expect_same( c, to_nd( ceras::repmat( a, p, q ) ), w, "repmat", "repmat" ); expect_same( c, to_nd( a ), x, "operand", "repmat" );
    int const ax = s.draw( 2 ); auto f = ceras::flip( a, ax ); expect_same( c, to_nd( ceras::flip( f, ax ) ), x, "flip", "flip twice" );
}
CER_MAIN()
