// Views of memory, strided iterators, index ranges, parallel loops.
#include "../lib/cer.hpp"
#include <include/utils/enumerate.hpp>
#include <include/utils/reverse.hpp>
#include <numeric>
using namespace cer;

// reads or writes element `i` through successive operator []
template<ul N, class V> static auto& element( V&& v, shape_t const& i, ul at = 0 )
{
    if constexpr ( N == 1 ) return v[i[at]];
    else { auto&& sub = v[i[at]]; return element<N - 1>( sub, i, at + 1 ); }
}
template<ul N, class Make> static void any_view( src& s, ctx& c, Make const& make, char const* name )
{
    shape_t sh; ul tot = 1; for ( ul k = 0; k < N; ++k ) { sh.push_back( 1 + s.draw( std::max<ul>( 1, std::min<ul>( 6, 300 / tot ) ) ) ); tot *= sh.back(); }
    c.desc << name << " " << str( sh ); c.label( name ); c.nontrivial( tot > 1 );
    ul const margin = s.draw( 4 ); std::vector<double> mem( tot + 2 * margin ); std::iota( mem.begin(), mem.end(), 1.0 );
    auto v = make( mem.data() + margin, sh ); auto const& cv = v; ul k = 0;
    each( sh, [&]( shape_t const& i ) { double const want = mem[margin + k]; c.require( element<N>( v, i ) == want, "read", name, str( sh ), str( i ), " is ", element<N>( v, i ), " instead of element ", k ); c.require( element<N>( cv, i ) == want, "read-const", "constant ", name, str( sh ), str( i ), " is ", element<N>( cv, i ), " instead of element ", k ); ++k; } );
    // writing through the view changes exactly that element
    ul const n = 1 + s.draw( 8 ); auto model = mem;
    for ( ul t = 0; t < n; ++t )
    {
        shape_t i; for ( ul e : sh ) i.push_back( s.draw( e ) ); ul o = 0; for ( ul d = 0; d < N; ++d ) o = o * sh[d] + i[d];
        double const x = -static_cast<double>( t ) - 1; element<N>( v, i ) = x; model[margin + o] = x;
        c.require( mem == model, "write", "writing to ", name, str( sh ), str( i ), " changed other memory" );
    }
}
PBT_FAMILY( "views", 6000, 60000, 200, "reads and writes through view_1d ... view_4d and view<T,1> ... view<T,7> of any extents touch exactly the row-major element; non-trivial when there are at least 2 elements" )
{
    auto arr = []<ul N>( shape_t const& sh, std::integral_constant<ul, N> ) { std::array<unsigned long, N> a; std::copy( sh.begin(), sh.end(), a.begin() ); return a; };
    switch ( s.draw( 11 ) )
    {
        case 0: return any_view<1>( s, c, []( double* p, shape_t const& h ) { return ceras::view_1d<double>{ p, h[0] }; }, "view_1d" );
        case 1: return any_view<2>( s, c, []( double* p, shape_t const& h ) { return ceras::view_2d<double>{ p, h[0], h[1] }; }, "view_2d" );
        case 2: return any_view<3>( s, c, []( double* p, shape_t const& h ) { return ceras::view_3d<double>{ p, h[0], h[1], h[2] }; }, "view_3d" );
        case 3: return any_view<4>( s, c, []( double* p, shape_t const& h ) { return ceras::view_4d<double>{ p, h[0], h[1], h[2], h[3] }; }, "view_4d" );
        case 4: return any_view<2>( s, c, []( double* p, shape_t const& h ) { return ceras::view<double, 2>{ p, h[0], h[1] }; }, "view<T,2>" );
        case 5: return any_view<3>( s, c, []( double* p, shape_t const& h ) { return ceras::view<double, 3>{ p, h[0], h[1], h[2] }; }, "view<T,3>" );
        case 6: return any_view<4>( s, c, [&]( double* p, shape_t const& h ) { return ceras::view<double, 4>{ p, arr( h, std::integral_constant<ul, 4>{} ) }; }, "view<T,4>" );
        case 7: return any_view<5>( s, c, [&]( double* p, shape_t const& h ) { return ceras::view<double, 5>{ p, arr( h, std::integral_constant<ul, 5>{} ) }; }, "view<T,5>" );
        case 8: return any_view<6>( s, c, [&]( double* p, shape_t const& h ) { return ceras::view<double, 6>{ p, arr( h, std::integral_constant<ul, 6>{} ) }; }, "view<T,6>" );
        case 9: return any_view<7>( s, c, [&]( double* p, shape_t const& h ) { return ceras::view<double, 7>{ p, arr( h, std::integral_constant<ul, 7>{} ) }; }, "view<T,7>" );
        default: { // a view with too large an index into its first extent is refused
            shape_t h; for ( int k = 0; k < 5; ++k ) h.push_back( 1 + s.draw( 3 ) ); std::vector<double> mem( prod( h ) ); ul const idx = h[0] + s.draw( 3 );
            auto a = arr( h, std::integral_constant<ul, 5>{} ); c.label( "index out of range" ); c.desc << "view<T,5> " << str( h ) << " index " << idx; c.nontrivial();
            c.require( in_child( [&]() { ceras::view<double, 5> v{ mem.data(), a }; v[idx]; } ) == ending::rejected, "range", "index ", idx, " into ", str( h ), " must be refused" );
        }
    }
}
PBT_FAMILY( "matrix", 3000, 30000, 200, "shape, size, elements, rows and columns of a view_2d over a tensor or over memory, constant or not; non-trivial when there are at least 2 rows and columns" )
{
    ul const r = 1 + s.draw( 9 ), k = 1 + s.draw( 9 ); ceras::tensor<double> t{ { r, k } }; std::iota( t.begin(), t.end(), 0.0 ); c.desc << r << "x" << k; c.nontrivial( r > 1 && k > 1 );
    ceras::matrix_view<double> v{ t, r, k }; auto const& cv = v;
    auto const sh = cv.shape(); c.require( sh.first == r && sh.second == k && cv.size() == r * k && cv.row() == r && cv.col() == k && v.data() == t.data() && cv.data() == t.data(), "shape", "shape of the view" );
    c.require( static_cast<ul>( v.end() - v.begin() ) == r * k && static_cast<ul>( cv.end() - cv.begin() ) == r * k && v.begin() == t.data() && cv.begin() == t.data(), "elements", "begin and end" );
    for ( ul i = 0; i < r; ++i )
    {
        c.require( v[i] == t.data() + i * k && cv[i] == t.data() + i * k, "row", "row ", i, " by its index" );
        c.require( static_cast<ul>( v.row_end( i ) - v.row_begin( i ) ) == k && v.row_begin( i ) == t.data() + i * k, "row", "row ", i );
        c.require( static_cast<ul>( cv.row_end( i ) - cv.row_begin( i ) ) == k && cv.row_begin( i ) == t.data() + i * k, "row", "row ", i, " of a constant view" );
    }
    for ( ul j = 0; j < k; ++j )
    {
        c.require( static_cast<ul>( v.col_end( j ) - v.col_begin( j ) ) == r && static_cast<ul>( cv.col_end( j ) - cv.col_begin( j ) ) == r, "column", "column ", j, " must have ", r, " elements" );
        ul i = 0; for ( auto it = v.col_begin( j ); it != v.col_end( j ); ++it, ++i ) c.require( *it == t[i * k + j], "column", "element ", i, " of column ", j ); c.require( i == r, "column", "column ", j, " visits ", i, " elements" );
        i = 0; for ( auto it = cv.col_begin( j ); it != cv.col_end( j ); ++it, ++i ) c.require( *it == t[i * k + j], "column", "element ", i, " of column ", j, " of a constant view" ); c.require( i == r, "column", "column ", j, " visits ", i, " elements" );
    }
    ul const i = s.draw( r ), j = s.draw( k ); auto it = v.col_begin( j ) + static_cast<long>( i ); *it = -5; c.require( t[i * k + j] == -5, "write", "writing through a column iterator" );
}
PBT_FAMILY( "stride", 5000, 50000, 200, "a random walk of a strided iterator (++ -- += -= + - [] * comparisons, both signs of the stride) against an index model; non-trivial when the step is not 1" )
{
    long const step = s.coin() ? s.range( 1, 7 ) : -s.range( 1, 7 ); ul const n = 2 + s.draw( 20 ); std::vector<double> mem( n * static_cast<ul>( std::labs( step ) ) + 1 ); std::iota( mem.begin(), mem.end(), 0.0 );
    double* const base = step > 0 ? mem.data() : mem.data() + n * static_cast<ul>( -step ); auto const at = [&]( long i ) -> double { return base[i * step]; };
    ceras::stride_iterator<double*> const first{ base, step }; auto it = first; long pos = 0; long const last = static_cast<long>( n ); c.desc << "step " << step << " n " << n << ":"; c.nontrivial( step != 1 );
    for ( ul k = 0, m = 3 + s.draw( 15 ); k < m; ++k )
    {
        long const to = s.range( 0, last ), d = to - pos; ul const op = s.draw( 9 ); c.desc << " " << op << "/" << d;
        if ( op == 0 && pos < last ) { auto& r = ++it; ++pos; c.require( &r == &it, "returns", "++" ); }
        else if ( op == 1 && pos < last ) { auto const old = it++; c.require( *old == at( pos ), "post-increment", "it++ must return the old position" ); ++pos; }
        else if ( op == 2 && pos > 0 ) { --it; --pos; }
        else if ( op == 3 && pos > 0 ) { auto const old = it--; c.require( *old == at( pos ), "post-decrement", "it-- must return the old position" ); --pos; }
        else if ( op == 4 ) { it += d; pos = to; }
        else if ( op == 5 ) { it -= -d; pos = to; }
        else if ( op == 6 ) { it = it + d; pos = to; }
        else if ( op == 7 ) { it = it - ( -d ); pos = to; }
        else { auto const& ci = it; c.require( it[d] == at( to ) && ci[d] == at( to ), "index", "it[", d, "] is ", it[d], " instead of ", at( to ) ); }
        c.require( *it == at( pos ), "position", "*it is ", *it, " instead of ", at( pos ) );
        c.require( it - first == pos && first - it == -pos, "difference", "it - first is ", it - first, " instead of ", pos );
        auto const there = first + to; c.require( ( it == there ) == ( pos == to ) && ( it != there ) == ( pos != to ), "compare", "comparison with the iterator at ", to );
        if ( step > 0 ) c.require( ( it < there ) == ( pos < to ), "order", "order with the iterator at ", to );
    }
    // an algorithm over the strided elements
    double sum = std::accumulate( first, first + last, 0.0 ), want = 0; for ( long i = 0; i < last; ++i ) want += at( i ); c.require( sum == want, "accumulate", "sum of the strided elements is ", sum, " instead of ", want );
}
template<class I> static void ranges( src& s, ctx& c )
{
    I const a = static_cast<I>( s.range( 0, 50 ) ), n = static_cast<I>( s.draw( 60 ) ), b = a + n; c.desc << +a << ".." << +b; c.nontrivial( n > 1 );
    std::vector<I> got, want; for ( I i = a; i != b; ++i ) want.push_back( i );
    for ( auto x : ceras::range( a, b ) ) got.push_back( x ); c.require( got == want, "range", "range( ", a, ", ", b, " ) visits ", got.size(), " values" );
    got.clear(); for ( auto x : ceras::range( n ) ) got.push_back( x ); want.clear(); for ( I i = 0; i != n; ++i ) want.push_back( i ); c.require( got == want, "range", "range( ", n, " ) visits ", got.size(), " values" );
    I const st = static_cast<I>( 1 + s.draw( 5 ) ); I const e = a + st * n; got.clear(); want.clear();
    for ( auto x : ceras::range( a, e, [st]( I x ) { return static_cast<I>( x + st ); } ) ) got.push_back( x ); for ( I i = a; i != e; i += st ) want.push_back( i ); c.require( got == want, "step", "range with step ", st );
    I const over = e + static_cast<I>( s.draw( st ) ); got.clear(); want.clear();
    for ( auto x : ceras::range( a, over, [st]( I x ) { return static_cast<I>( x + st ); }, []( I x, I y ) { return x >= y; } ) ) got.push_back( x ); for ( I i = a; i < over; i += st ) want.push_back( i ); c.require( got == want, "step", "range with step ", st, " and a comparison" );
    auto const r = ceras::range( a, b ); if ( n > 0 ) { I const k = static_cast<I>( s.draw( n ) ); auto it = r.begin() + k; c.require( *it == a + k, "advance", "begin + ", k ); auto const old = it++; c.require( *old == a + k && *it == a + k + 1, "advance", "it++" ); it = r.begin(); it += k; c.require( *it == a + k && it == k + r.begin(), "advance", "it += ", k ); }
}
PBT_FAMILY( "range", 3000, 30000, 200, "range( last ), range( first, last ), with a step and with a comparison visit exactly the indices of a plain loop; non-trivial when there are at least 2" )
{
    switch ( s.draw( 3 ) ) { case 0: return ranges<unsigned long>( s, c ); case 1: return ranges<int>( s, c ); default: return ranges<unsigned int>( s, c ); }
}
PBT_FAMILY( "adaptors", 2000, 20000, 200, "enumerate pairs every element with its index and gives access to it, reverse visits the elements backwards; non-trivial when there are at least 2" )
{
    std::vector<double> v( s.draw( 20 ) ); for ( auto& x : v ) x = s.real( -9, 9 ); auto const keep = v; c.desc << v.size(); c.nontrivial( v.size() > 1 );
    long i = 0; for ( auto [k, x] : ceras::enumerate( v ) ) { c.require( k == i && x == v[static_cast<ul>( i )], "enumerate", "pair ", i, " is ", k ); ++i; } c.require( i == static_cast<long>( v.size() ), "enumerate", "visits ", i, " of ", v.size() );
    std::vector<double> b; for ( auto x : ceras::reverse( v ) ) b.push_back( x ); std::reverse( b.begin(), b.end() ); c.require( b == keep && v == keep, "reverse", "reverse" );
}
template<class I> static void loops( src& s, ctx& c )
{
    ul const size = s.draw( 4 ); I const n = static_cast<I>( size == 0 ? s.draw( 20 ) : size == 1 ? s.draw( 70 ) : size == 2 ? s.draw( 300 ) : s.draw( 3000 ) ); ul const where = s.draw( sizeof( I ) < sizeof( ul ) ? 3 : 2 );
    I const a = where == 0 ? I{ 0 } : where == 1 ? static_cast<I>( s.draw( 300 ) ) : static_cast<I>( std::numeric_limits<I>::max() - n - s.draw( s.coin() ? 3 : 30 ) ), b = static_cast<I>( a + n ); ul const base = where == 2 ? static_cast<ul>( a ) : 0, top = static_cast<ul>( b ) - base; // at the end of the type as well
    ul const how = s.draw( where == 2 ? 2 : 3 ); ul const threshold = s.draw( s.coin() ? 12 : 64 ); c.desc << +a << ".." << +b << " threshold " << threshold << " how " << how; c.flush_desc(); c.nontrivial( n > 8 ); c.label( where == 0 ? "from zero" : where == 1 ? "from elsewhere" : "at the end of the type" );
    std::vector<int> hits( top + 64, 0 ); std::atomic<ul> strays{ 0 }; // every index has an element of its own
    auto const f = [&]( I i ) { ul const k = static_cast<ul>( i ) - base; if ( k < hits.size() ) ++hits[k]; else ++strays; };
    if ( how == 0 ) ceras::parallel( f, a, b ); else if ( how == 1 ) ceras::parallel( f, a, b, threshold ); else { ceras::parallel( f, b ); }
    c.require( strays == 0, "parallel", strays.load(), " calls with indices outside the loop" );
    for ( ul i = 0; i < hits.size(); ++i ) { int const want = i < top && ( how == 2 || i + base >= static_cast<ul>( a ) ) ? 1 : 0; c.require( hits[i] == want, "parallel", "index ", i + base, " ran ", hits[i], " times instead of ", want ); }
}
PBT_FAMILY( "parallel", 1500, 15000, 50, "parallel loops over [first, last) of unsigned short, int and long with any threshold run every index exactly once and no other; non-trivial when they may be split (more than 8 indices)" )
{
    switch ( s.draw( 3 ) ) { case 0: return loops<unsigned long>( s, c ); case 1: return loops<unsigned int>( s, c ); default: return loops<unsigned short>( s, c ); }
}
PBT_FAMILY( "for_each", 1500, 15000, 50, "for_each over two to four sequences calls the function once per position with the elements of that position; non-trivial when it may be split (more than 8 elements)" )
{
    ul const n = s.coin() ? s.draw( 40 ) : s.draw( 2000 ); ul const k = s.range( 1, 4 ); std::vector<double> a( n ), b( n ), d( n ), e( n ); for ( ul i = 0; i < n; ++i ) { a[i] = static_cast<double>( i ); b[i] = 0; d[i] = 2.0 * static_cast<double>( i ); e[i] = 1; }
    c.desc << k << " sequences of " << n; c.nontrivial( n > 8 );
    std::vector<double> want( n ); for ( ul i = 0; i < n; ++i ) want[i] = k == 1 ? a[i] + 1 : k == 2 ? a[i] + 1 : k == 3 ? a[i] * d[i] : a[i] * d[i] + e[i];
    auto const a0 = a, d0 = d, e0 = e;
    if ( k == 1 ) { ceras::for_each( a.begin(), a.end(), []( double& x ) { x += 1; } ); c.require( a == want, "for_each", "one sequence" ); return; }
    if ( k == 2 ) ceras::for_each( a.begin(), a.end(), b.begin(), []( double x, double& y ) { y += x + 1; } );
    if ( k == 3 ) ceras::for_each( a.cbegin(), a.cend(), d.begin(), b.data(), []( double x, double z, double& y ) { y += x * z; } );
    if ( k == 4 ) ceras::for_each( a.data(), a.data() + n, d.begin(), e.begin(), b.begin(), []( double x, double z, double w, double& y ) { y += x * z + w; } );
    c.require( b == want && a == a0 && d == d0 && e == e0, "for_each", k, " sequences" );
}
CER_MAIN()
