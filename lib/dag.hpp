// Random expressions of any topology: type-erased operands, so that every operator is instantiated once and the
// expression is chosen at run time, and a reference evaluator of the same expression on plain arrays.
#pragma once
#include "cer.hpp"

namespace ceras { struct associated {}; } // makes the library find its own operators for the type below
namespace cer
{
    // An expression with its type erased. Copying it copies the expression inside, as building an operator on it does.
    template<class Number> struct any_of : ceras::associated
    {
        typedef ceras::tensor<Number> tensor_type;
        struct base { virtual ~base() {} virtual base* clone() const = 0; virtual tensor_type forward() = 0; virtual void backward( tensor_type const& ) = 0; virtual std::vector<unsigned long> shape() const = 0; virtual int id() const = 0; virtual std::string name() const = 0; };
        template<class E> struct holder : base
        {
            E e; holder( E const& x ) : e( x ) {}
            base* clone() const override { return new holder( e ); }
            tensor_type forward() override { return e.forward(); }
            void backward( tensor_type const& g ) override { e.backward( g ); }
            std::vector<unsigned long> shape() const override { return e.shape(); }
            int id() const override { return e.id(); }
            std::string name() const override { return e.name(); }
        };
        std::unique_ptr<base> p;
        any_of() {}
        any_of( any_of const& o ) : p( o.p ? o.p->clone() : nullptr ) {}
        any_of( any_of&& ) = default;
        any_of& operator=( any_of o ) { p = std::move( o.p ); return *this; }
        template<class E> static any_of of( E const& e ) { any_of a; a.p.reset( new holder<E>( e ) ); return a; }
        tensor_type forward() { return p->forward(); }
        void backward( tensor_type const& g ) { p->backward( g ); }
        std::vector<unsigned long> shape() const { return p->shape(); }
        int id() const { return p->id(); }
        std::string name() const { return p->name(); }
    };
    typedef any_of<double> any_expr;
}
namespace ceras { template<class T> struct is_unary_operator<cer::any_of<T>> : std::true_type {}; }

namespace cer
{
    typedef ceras::place_holder<ceras::tensor<double>> holder_t;
    template<class Number> struct dag_of
    {
        typedef any_of<Number> expr_t; typedef ceras::place_holder<ceras::tensor<Number>> holder_t;
        struct env { std::vector<nd> vars, inputs; };
        typedef std::function<nd( env const&, std::vector<nd> const& )> eval_t;
        struct node
        {
            expr_t ex; shape_t tail; bool batched = false; double bound = 1; ul paths = 1; std::vector<ul> args; eval_t f; std::string text;
            ul dim() const { return tail.size() + batched; }
        };
        std::vector<var<Number>> vars; std::vector<holder_t> inputs; std::vector<shape_t> input_tail; std::vector<node> nodes; env now; ul batch = 1; bool bind_inputs = true; std::set<std::string> used_ops;

        static ceras::tensor<Number> T( nd const& x ) { return to_tensor<Number>( x ); }
        ul push( node n, char const* op ) { n.text = "n" + std::to_string( nodes.size() ) + "=" + n.text; used_ops.insert( op ); nodes.push_back( std::move( n ) ); return nodes.size() - 1; }

        ul add_var( nd const& x )
        {
            ul const k = vars.size(); vars.emplace_back( T( x ) ); now.vars.push_back( x );
            node n; n.ex = expr_t::of( vars[k] ); n.tail = x.shape; n.bound = 3; n.f = [k]( env const& e, std::vector<nd> const& ) { return e.vars[k]; }; n.text = "v" + str( x.shape ); return push( n, "variable" );
        }
        ul add_input( shape_t const& tail, nd const& x )
        {
            ul const k = inputs.size(); inputs.emplace_back( tail ); input_tail.push_back( tail ); now.inputs.push_back( x ); if ( bind_inputs ) { auto& ss = ceras::get_default_session<ceras::tensor<Number>>(); ss.bind( inputs[k], T( x ) ); }
            node n; n.ex = expr_t::of( inputs[k] ); n.tail = tail; n.batched = true; n.bound = 3; n.f = [k]( env const& e, std::vector<nd> const& ) { return e.inputs[k]; }; n.text = "in" + str( tail ); return push( n, "place holder" );
        }
        ul add_constant( nd const& x )
        {
            node n; ceras::constant<ceras::tensor<Number>> c{ T( x ) }; n.ex = expr_t::of( c ); n.tail = x.shape; n.bound = 3; n.f = [x]( env const&, std::vector<nd> const& ) { return x; }; n.text = "c" + str( x.shape ); return push( n, "constant" );
        }
        template<class E, class F> ul unary( ul a, E const& ex, shape_t const& tail, bool batched, double bound, F const& f, std::string const& text, char const* op )
        {
            node n; n.ex = expr_t::of( ex ); n.tail = tail; n.batched = batched; n.bound = bound; n.paths = nodes[a].paths; n.args = { a }; n.f = [a, f]( env const&, std::vector<nd> const& v ) { return f( v[a] ); }; n.text = text + "(n" + std::to_string( a ) + ")"; return push( n, op );
        }
        template<class E, class F> ul binary( ul a, ul b, E const& ex, shape_t const& tail, bool batched, double bound, F const& f, std::string const& text, char const* op )
        {
            node n; n.ex = expr_t::of( ex ); n.tail = tail; n.batched = batched; n.bound = bound; n.paths = nodes[a].paths + nodes[b].paths; n.args = { a, b }; n.f = [a, b, f]( env const&, std::vector<nd> const& v ) { return f( v[a], v[b] ); }; n.text = text + "(n" + std::to_string( a ) + ",n" + std::to_string( b ) + ")"; return push( n, op );
        }
        template<class E, class F> ul el( ul a, E const& ex, double bound, F const& f, char const* op ) { return unary( a, ex, nodes[a].tail, nodes[a].batched, bound, [f]( nd const& x ) { return map( x, f ); }, op, op ); }

        // keeps magnitudes small, so that rounding and truncation errors stay far below the tolerances
        ul tame( ul a ) { if ( nodes[a].bound <= 12 ) return a; expr_t x = nodes[a].ex; double const k = 1 / nodes[a].bound * 4; if ( nodes[a].bound > 40 ) return el( a, x * Number( k ), 4, [k]( double v ) { return v * k; }, "scale" ); return el( a, ceras::tanh( x ), 1, []( double v ) { return std::tanh( v ); }, "tanh" ); }

        ul elementwise( src& s, ul a )
        {
            expr_t x = nodes[a].ex; double const b = nodes[a].bound;
            switch ( s.draw( 30 ) )
            {
                case 0: return el( a, ceras::tanh( x ), 1, []( double v ) { return std::tanh( v ); }, "tanh" );
                case 1: return el( a, ceras::sigmoid( x ), 1, []( double v ) { return 1 / ( 1 + std::exp( -v ) ); }, "sigmoid" );
                case 2: return el( a, ceras::sin( x ), 1, []( double v ) { return std::sin( v ); }, "sin" );
                case 3: return el( a, ceras::cos( x ), 1, []( double v ) { return std::cos( v ); }, "cos" );
                case 4: return el( a, ceras::atan( x ), 1.6, []( double v ) { return std::atan( v ); }, "atan" );
                case 5: return el( a, ceras::softplus( x ), b + 0.7, []( double v ) { return std::max( v, 0. ) + std::log1p( std::exp( -std::fabs( v ) ) ); }, "softplus" );
                case 6: return el( a, ceras::square( x ), b * b, []( double v ) { return v * v; }, "square" );
                case 7: if ( b > 3.1 ) return el( a, ceras::gaussian( x ), 1, []( double v ) { return std::exp( -v * v ); }, "gaussian" ); return el( a, ceras::exp( x ), std::exp( b ), []( double v ) { return std::exp( v ); }, "exp" );
                case 8: { ul const q = el( a, ceras::square( x ), b * b, []( double v ) { return v * v; }, "square" ); expr_t y = nodes[q].ex; ul const r = el( q, y + Number( 1.5 ), b * b + 1.5, []( double v ) { return v + 1.5; }, "+number" ); expr_t z = nodes[r].ex; return el( r, ceras::log( z ), std::log( b * b + 1.5 ), []( double v ) { return std::log( v ); }, "log" ); }
                case 9: { ul const q = el( a, ceras::square( x ), b * b, []( double v ) { return v * v; }, "square" ); expr_t y = nodes[q].ex; ul const r = el( q, Number( 0.5 ) + y, b * b + 0.5, []( double v ) { return v + 0.5; }, "number+" ); expr_t z = nodes[r].ex; return el( r, ceras::sqrt( z ), b + 1, []( double v ) { return std::sqrt( v ); }, "sqrt" ); }
                case 10: return el( a, ceras::abs( x ), b, []( double v ) { return std::fabs( v ); }, "abs" );
                case 11: return el( a, ceras::relu( x ), b, []( double v ) { return v > 0 ? v : 0; }, "relu" );
                case 12: return el( a, ceras::leaky_relu( Number( 0.2 ) )( x ), b, []( double v ) { return v > 0 ? v : 0.2 * v; }, "leaky_relu" );
                case 13: return el( a, ceras::gelu( x ), b, []( double v ) { return 0.5 * v * ( 1 + std::tanh( 0.79788456080286535588 * ( v + 0.044715 * v * v * v ) ) ); }, "gelu" );
                case 14: return el( a, ceras::swish( x ), b, []( double v ) { return v / ( 1 + std::exp( -v ) ); }, "swish" );
                case 15: return el( a, ceras::elu( Number( 1.3 ) )( x ), b + 1.3, []( double v ) { return v > 0 ? v : 1.3 * std::expm1( v ); }, "elu" );
                case 16: return el( a, ceras::negative( x ), b, []( double v ) { return -v; }, "negative" );
                case 17: return el( a, ceras::softsign( x ), 1, []( double v ) { return v / ( 1 + std::fabs( v ) ); }, "softsign" );
                case 18: return el( a, ceras::asinh( x ), 1 + std::log( 1 + 2 * b ), []( double v ) { return std::asinh( v ); }, "asinh" );
                case 19: return el( a, ceras::erf( x ), 1, []( double v ) { return std::erf( v ); }, "erf" );
                case 20: return el( a, ceras::clip( Number( -1.3 ), Number( 2.1 ) )( x ), 2.1, []( double v ) { return std::min( 2.1, std::max( -1.3, v ) ); }, "clip" );
                case 21: { double const k = s.uniform( -2, 2 ); return el( a, x * Number( k ), 2 * b, [k]( double v ) { return v * k; }, "*number" ); }
                case 22: { double const k = s.uniform( -2, 2 ); return el( a, Number( k ) * x, 2 * b, [k]( double v ) { return v * k; }, "number*" ); }
                case 23: { double const k = s.uniform( -2, 2 ); return el( a, Number( k ) - x, 2 + b, [k]( double v ) { return k - v; }, "number-" ); }
                case 24: { double const k = s.uniform( -2, 2 ); return el( a, x - Number( k ), 2 + b, [k]( double v ) { return v - k; }, "-number" ); }
                case 25: return el( a, -x, b, []( double v ) { return -v; }, "unary minus" );
                case 26: { ul const q = el( a, ceras::square( x ), b * b, []( double v ) { return v * v; }, "square" ); expr_t y = nodes[q].ex; ul const r = el( q, y + Number( 1.2 ), b * b + 1.2, []( double v ) { return v + 1.2; }, "+number" ); expr_t z = nodes[r].ex; return el( r, Number( 2 ) / z, 2, []( double v ) { return 2.0 / v; }, "number/" ); }
                case 27: return el( a, ceras::lisht( x ), b, []( double v ) { return v * std::tanh( v ); }, "lisht" );
                case 28: return el( a, ceras::mish( x ), b, []( double v ) { return v * std::tanh( std::log1p( std::exp( v ) ) ); }, "mish" );
                default: { double const k = s.uniform( 0.3, 3 ); return el( a, x / Number( k ), 4 * b, [k]( double v ) { return v / k; }, "/number" ); }
            }
        }
        static nd moved( shape_t const& out, nd const& x, std::function<void( shape_t& )> const& from ) { nd r{ out }; ul k = 0; each( out, [&]( shape_t const& i ) { shape_t j = i; from( j ); r.v[k++] = x.at( j ); } ); return r; }
        ul structural( src& s, ul a )
        {
            expr_t x = nodes[a].ex; double const b = nodes[a].bound; shape_t const t = nodes[a].tail; bool const bt = nodes[a].batched; ul const d = t.size() + bt;
            switch ( s.draw( 14 ) )
            {
                case 0: { ul const ax = bt + s.draw( t.size() ); return unary( a, ceras::flip( static_cast<long>( ax ) )( x ), t, bt, b, [ax]( nd const& v ) { return moved( v.shape, v, [&]( shape_t& j ) { j[ax] = v.shape[ax] - 1 - j[ax]; } ); }, "flip@" + std::to_string( ax ), "flip" ); }
                case 1: { if ( prod( t ) > 20 ) return elementwise( s, a ); ul const ax = bt + s.draw( t.size() ), n = 2 + s.draw( 2 ); shape_t u = t; u[ax - bt] *= n; return unary( a, ceras::repeat( n, ax )( x ), u, bt, b, [ax, n]( nd const& v ) { shape_t o = v.shape; o[ax] *= n; return moved( o, v, [&]( shape_t& j ) { j[ax] /= n; } ); }, "repeat" + std::to_string( n ) + "@" + std::to_string( ax ), "repeat" ); }
                case 2:
                {
                    shape_t u; ul total = prod( t ); while ( total > 1 && u.size() < 2 && s.chance( 2, 3 ) ) { std::vector<ul> f; for ( ul k = 1; k <= total; ++k ) if ( total % k == 0 ) f.push_back( k ); ul const e = s.pick( f ); u.push_back( e ); total /= e; } u.push_back( total );
                    auto const f = [u, bt]( nd const& v ) { shape_t o = u; if ( bt ) o.insert( o.begin(), v.shape[0] ); return v.reshaped( o ); };
                    return bt ? unary( a, ceras::reshape( u )( x ), u, bt, b, f, "reshape" + str( u ), "reshape" ) : unary( a, ceras::reshape( u, false )( x ), u, bt, b, f, "reshape" + str( u ), "reshape" );
                }
                case 3: if ( d < 2 ) return elementwise( s, a ); return unary( a, ceras::flatten( x ), bt ? shape_t{ prod( t ) } : shape_t{ t[0], prod( t ) / t[0] }, bt, b, []( nd const& v ) { return v.reshaped( { v.shape[0], v.size() / v.shape[0] } ); }, "flatten", "flatten" );
                case 4: { if ( d > 3 ) return elementwise( s, a ); ul const ax = bt + s.draw( t.size() + 1 ); shape_t u = t; u.insert( u.begin() + ( ax - bt ), 1 ); return unary( a, ceras::expand_dims( static_cast<long>( ax ) )( x ), u, bt, b, [ax]( nd const& v ) { shape_t o = v.shape; o.insert( o.begin() + ax, 1 ); return v.reshaped( o ); }, "expand_dims@" + std::to_string( ax ), "expand_dims" ); }
                case 5: if ( bt || d != 2 ) return elementwise( s, a ); return unary( a, ceras::transpose( x ), shape_t{ t[1], t[0] }, false, b, []( nd const& v ) { return moved( { v.shape[1], v.shape[0] }, v, []( shape_t& j ) { std::swap( j[0], j[1] ); } ); }, "transpose", "transpose" );
                case 6: return unary( a, ceras::softmax( x ), t, bt, 1, []( nd const& v ) { nd r = v; ul const n = v.shape.back(); for ( ul i = 0; i < v.size(); i += n ) { double m = v.v[i], z = 0; for ( ul k = 0; k < n; ++k ) m = std::max( m, v.v[i + k] ); for ( ul k = 0; k < n; ++k ) z += r.v[i + k] = std::exp( v.v[i + k] - m ); for ( ul k = 0; k < n; ++k ) r.v[i + k] /= z; } return r; }, "softmax", "softmax" );
                case 7: case 8: case 9:
                {
                    if ( d < 2 ) return elementwise( s, a ); ul const ax = s.draw( d ), kind = s.draw( 3 ); shape_t u = t; bool const ub = bt && ax != 0; if ( ax >= static_cast<ul>( bt ) ) u.erase( u.begin() + ( ax - bt ) ); if ( u.empty() ) return elementwise( s, a );
                    ul const n = bt && ax == 0 ? 6 : t[ax - bt];
                    auto const red = [ax, kind]( nd const& v ) { return reduce( v, ax, [kind]( std::vector<double> const& e ) { double r = e[0]; for ( ul k = 1; k < e.size(); ++k ) r = kind == 0 ? r + e[k] : kind == 1 ? std::max( r, e[k] ) : std::min( r, e[k] ); return r; } ); };
                    std::string const at = "@" + std::to_string( ax );
                    if ( kind == 0 ) return unary( a, ceras::reduce_sum( ax )( x ), u, ub, b * n, red, "reduce_sum" + at, "reduce_sum" );
                    if ( kind == 1 ) return unary( a, ceras::reduce_max( ax )( x ), u, ub, b, red, "reduce_max" + at, "reduce_max" );
                    return unary( a, ceras::reduce_min( ax )( x ), u, ub, b, red, "reduce_min" + at, "reduce_min" );
                }
                case 10: return unary( a, ceras::sum_reduce( x ), shape_t{ 1 }, false, b * prod( t ) * ( bt ? 6 : 1 ), []( nd const& v ) { return nd{ { 1 }, sum( v ) }; }, "sum_reduce", "sum_reduce" );
                case 11: return unary( a, ceras::identity( x ), t, bt, b, []( nd const& v ) { return v; }, "identity", "identity" );
                case 12: if ( prod( t ) > 20 ) return elementwise( s, a ); { shape_t u = t; u.back() *= 2; return unary( a, ceras::crelu( x ), u, bt, b, []( nd const& v ) { shape_t o = v.shape; ul const n = o.back(); o.back() *= 2; nd r{ o }; for ( ul i = 0; i < v.size(); ++i ) { r.v[i / n * 2 * n + i % n] = std::max( 0., v.v[i] ); r.v[i / n * 2 * n + n + i % n] = std::max( 0., -v.v[i] ); } return r; }, "crelu", "crelu" ); }
                default: return s.coin() ? unary( a, ceras::ones_like( x ), t, bt, 1, []( nd const& v ) { return nd{ v.shape, 1. }; }, "ones_like", "ones_like" ) : unary( a, ceras::zeros_like( x ), t, bt, 1, []( nd const& v ) { return nd{ v.shape, 0. }; }, "zeros_like", "zeros_like" );
            }
        }
        static bool trailing( shape_t const& small, shape_t const& big ) { return small.size() <= big.size() && std::equal( small.rbegin(), small.rend(), big.rbegin() ); }
        // combines a and b in one of the ways their shapes allow; false when there is none
        bool combine( src& s, ul a, ul b, ul& out )
        {
            node const& p = nodes[a]; node const& q = nodes[b]; expr_t x = p.ex, y = q.ex; bool const bt = p.batched || q.batched, same_kind = p.batched == q.batched, same = same_kind && p.tail == q.tail;
            if ( p.paths + q.paths > 200 ) return false; std::vector<int> ways; double const bp = p.bound, bq = q.bound;
            // plus and minus: numpy broadcasting; the batch extent never meets an extent of an unbatched operand
            bool const numpy = broadcastable( p.tail, q.tail ) && ( same_kind ? !bt || p.dim() == q.dim() : p.batched ? q.dim() < p.dim() : p.dim() < q.dim() ) && prod( broadcast_shape( p.tail, q.tail ) ) <= 60;
            if ( numpy ) { ways.push_back( 0 ); ways.push_back( 1 ); }
            bool const trail = same || ( !q.batched && q.dim() < p.dim() + ( p.batched ? 0 : 1 ) && trailing( q.tail, p.tail ) ) || ( !p.batched && p.dim() < q.dim() + ( q.batched ? 0 : 1 ) && trailing( p.tail, q.tail ) );
            if ( trail ) { ways.push_back( 2 ); ways.push_back( 2 ); ways.push_back( 3 ); }
            if ( same ) { ways.push_back( 4 ); ways.push_back( 5 ); ways.push_back( 6 ); }
            bool const mm = p.dim() == 2 && !q.batched && q.dim() == 2 && p.tail.back() == q.tail[0]; if ( mm ) { ways.push_back( 7 ); ways.push_back( 7 ); ways.push_back( 7 ); }
            std::vector<ul> axes; if ( same_kind && p.dim() == q.dim() && prod( p.tail ) + prod( q.tail ) <= 60 ) for ( ul k = 0; k < p.tail.size(); ++k ) { bool ok = true; for ( ul j = 0; j < p.tail.size(); ++j ) ok = ok && ( j == k || p.tail[j] == q.tail[j] ); if ( ok ) axes.push_back( k ); }
            if ( !axes.empty() ) ways.push_back( 8 );
            if ( ways.empty() ) return false;
            shape_t const bs = broadcast_shape( p.tail, q.tail ); shape_t const ls = p.dim() >= q.dim() ? p.tail : q.tail; shape_t const pt = p.tail, qt = q.tail; bool const pb = p.batched;
            switch ( s.pick( ways ) )
            {
                case 0: out = binary( a, b, x + y, bs, bt, bp + bq, []( nd const& u, nd const& v ) { return bzip( u, v, []( double i, double j ) { return i + j; } ); }, "plus", "+" ); break;
                case 1: out = binary( a, b, x - y, bs, bt, bp + bq, []( nd const& u, nd const& v ) { return bzip( u, v, []( double i, double j ) { return i - j; } ); }, "minus", "-" ); break;
                case 2: out = binary( a, b, ceras::elementwise_product( x, y ), ls, bt, bp * bq, []( nd const& u, nd const& v ) { return bzip( u, v, []( double i, double j ) { return i * j; } ); }, "product", "elementwise_product" ); break;
                case 3:
                {
                    ul const e = el( b, ceras::square( y ), bq * bq, []( double v ) { return v * v; }, "square" ); expr_t y2 = nodes[e].ex; ul const r = el( e, y2 + Number( 1.1 ), bq * bq + 1.1, []( double v ) { return v + 1.1; }, "+number" ); expr_t z = nodes[r].ex;
                    out = binary( a, r, x / z, ls, bt, bp, []( nd const& u, nd const& v ) { return bzip( u, v, []( double i, double j ) { return i / j; } ); }, "divide", "divide" ); break;
                }
                case 4: out = binary( a, b, ceras::maximum( x, y ), ls, bt, std::max( bp, bq ), []( nd const& u, nd const& v ) { return zip( u, v, []( double i, double j ) { return std::max( i, j ); } ); }, "maximum", "maximum" ); break;
                case 5: out = binary( a, b, ceras::minimum( x, y ), ls, bt, std::max( bp, bq ), []( nd const& u, nd const& v ) { return zip( u, v, []( double i, double j ) { return std::min( i, j ); } ); }, "minimum", "minimum" ); break;
                case 6:
                {
                    ul const e = el( a, ceras::square( x ), bp * bp, []( double v ) { return v * v; }, "square" ); expr_t y2 = nodes[e].ex; ul const r = el( e, y2 + Number( 0.8 ), bp * bp + 0.8, []( double v ) { return v + 0.8; }, "+number" ); expr_t z = nodes[r].ex;
                    out = binary( r, b, ceras::hypot( z, y ), ls, bt, bp * bp + 0.8 + bq, []( nd const& u, nd const& v ) { return zip( u, v, []( double i, double j ) { return std::hypot( i, j ); } ); }, "hypot", "hypot" ); break;
                }
                case 7: out = binary( a, b, x * y, pb ? shape_t{ qt[1] } : shape_t{ pt[0], qt[1] }, pb, bp * bq * qt[0], []( nd const& u, nd const& v ) { return matmul( u, v ); }, "matmul", "matmul" ); break;
                default:
                {
                    ul const k = s.pick( axes ), ax = k + bt; shape_t u = pt; u[k] += qt[k];
                    auto const f = [ax]( nd const& u, nd const& v ) { shape_t t = u.shape; t[ax] += v.shape[ax]; nd r{ t }; ul k = 0; each( t, [&]( shape_t const& i ) { shape_t j = i; if ( i[ax] < u.shape[ax] ) r.v[k++] = u.at( j ); else { j[ax] -= u.shape[ax]; r.v[k++] = v.at( j ); } } ); return r; };
                    out = binary( a, b, ceras::concatenate( x, y )( ax ), u, bt, std::max( bp, bq ), f, "concatenate@" + std::to_string( ax ), "concatenate" ); break;
                }
            }
            return true;
        }
        ul choose( src& s ) { ul const n = nodes.size(); return s.chance( 1, 2 ) ? n - 1 - s.draw( std::min<ul>( n, 4 ) ) : s.draw( n ); }
        void grow( src& s, ul steps )
        {
            for ( ul k = 0; k < steps; ++k )
            {
                ul const kind = s.draw( 10 ), a = choose( s ); ul out = 0;
                if ( kind < 3 ) out = elementwise( s, a );
                else if ( kind < 5 ) out = structural( s, a );
                else { bool done = false; for ( int t = 0; t < 4 && !done; ++t ) { ul const b = s.chance( 1, 6 ) ? a : choose( s ); done = combine( s, a, b, out ); } if ( !done ) out = elementwise( s, a ); }
                tame( out );
            }
        }
        // adds up the totals of nodes nothing uses yet, so that one result depends on most of the expression
        void join( src& s, ul most )
        {
            std::vector<int> used( nodes.size(), 0 ); for ( auto const& n : nodes ) for ( ul a : n.args ) used[a] = 1;
            std::vector<ul> open; for ( ul k = 0; k < used.size(); ++k ) if ( !used[k] ) open.push_back( k ); while ( open.size() > most ) open.erase( open.begin() + s.draw( open.size() ) );
            long acc = -1;
            for ( ul k : open )
            {
                expr_t x = nodes[k].ex; ul r = unary( k, ceras::sum_reduce( x ), shape_t{ 1 }, false, nodes[k].bound * prod( nodes[k].tail ) * 6, []( nd const& v ) { return nd{ { 1 }, sum( v ) }; }, "sum_reduce", "sum_reduce" ); r = tame( r );
                if ( acc < 0 ) { acc = r; continue; }
                expr_t p = nodes[acc].ex, q = nodes[r].ex; acc = binary( acc, r, p + q, shape_t{ 1 }, false, nodes[acc].bound + nodes[r].bound, []( nd const& u, nd const& v ) { return zip( u, v, []( double i, double j ) { return i + j; } ); }, "plus", "+" );
            }
        }
        // random leaves: tails over a small family of compatible shapes, so that operands often fit together
        void leaves( src& s, bool with_inputs )
        {
            ul const e0 = 1 + s.draw( 4 ), e1 = 1 + s.draw( 4 ), e2 = 1 + s.draw( 3 ); batch = 1 + s.draw( 5 );
            auto const shp = [&]() -> shape_t { switch ( s.draw( 7 ) ) { case 0: return { e0 }; case 1: return { e1 }; case 2: return { e0, e1 }; case 3: return { e1, e0 }; case 4: return { e2, e0 }; case 5: return { 1, e0 }; default: return { e2, e0, e1 }; } };
            for ( ul k = 0, n = 1 + s.draw( 3 ); k < n; ++k ) add_var( gen_generic( s, shp(), -3, 3 ) );
            if ( with_inputs ) for ( ul k = 0, n = 1 + s.draw( 2 ); k < n; ++k ) { shape_t t = s.coin() ? shape_t{ e0 } : shp(); shape_t full = t; full.insert( full.begin(), batch ); add_input( t, gen_generic( s, full, -3, 3 ) ); }
            if ( s.chance( 1, 3 ) ) add_constant( gen_generic( s, shp(), -3, 3 ) );
        }
        std::vector<bool> needed( ul root ) const
        {
            std::vector<bool> r( nodes.size(), false ); r[root] = true; for ( ul k = root + 1; k-- > 0; ) if ( r[k] ) for ( ul a : nodes[k].args ) r[a] = true; return r;
        }
        nd value( ul root, env const& e, std::vector<bool> const& need ) const
        {
            std::vector<nd> v( nodes.size() ); for ( ul k = 0; k <= root; ++k ) if ( need[k] ) v[k] = nodes[k].f( e, v ); return v[root];
        }
        nd value( ul root ) const { return value( root, now, needed( root ) ); }
        std::string text( ul root ) const { auto const need = needed( root ); std::string t; for ( ul k = 0; k <= root; ++k ) if ( need[k] ) t += ( t.empty() ? "" : " " ) + nodes[k].text; return t; }
        shape_t shape( ul k ) const { shape_t r = nodes[k].tail; if ( nodes[k].batched ) r.insert( r.begin(), batch ); return r; }
        bool reaches( ul root, ul var_node ) const { return needed( root )[var_node]; }
    };
    typedef dag_of<double> dag;
}
