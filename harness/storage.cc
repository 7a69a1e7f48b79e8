// Memory of tensors: values, sharing, reuse of released blocks, small buffers, and running out of memory.
#include <cstdlib>
#include <cstdio>
#include <new>
// every block remembers its size: a release with another size is an error; one allocation of a given size can be made to fail
static thread_local unsigned long fail_size = 0; static thread_local int fail_times = 1; static long fails = 0;
// blocks allocated while `tracking` are counted until they are released, and so are live blocks by size
static thread_local bool tracking = false; static long tracked = 0; static constexpr unsigned long sizes = 1 << 17; static long live[sizes];
struct track { bool old = tracking; track() { tracking = true; } ~track() { tracking = old; } };
static void* take( unsigned long n )
{
    if ( n == fail_size && n != 0 ) { if ( --fail_times <= 0 ) fail_size = 0; ++fails; throw std::bad_alloc{}; }
    unsigned char* p = static_cast<unsigned char*>( std::malloc( n + 16 ) ); if ( !p ) throw std::bad_alloc{};
    if ( tracking ) ++tracked; if ( n < sizes ) ++live[n]; reinterpret_cast<unsigned long*>( p )[1] = tracking; *reinterpret_cast<unsigned long*>( p ) = n; return p + 16;
}
static void give( void* q, unsigned long n, bool sized )
{
    if ( !q ) return; unsigned char* p = static_cast<unsigned char*>( q ) - 16; unsigned long const had = *reinterpret_cast<unsigned long*>( p );
    if ( sized && had != n ) { std::fprintf( stderr, "a block of %lu bytes was released as a block of %lu bytes\n", had, n ); std::abort(); }
    if ( reinterpret_cast<unsigned long*>( p )[1] ) --tracked; if ( had < sizes ) --live[had];
    std::free( p );
}
void* operator new( std::size_t n ) { return take( n ); }
void* operator new[]( std::size_t n ) { return take( n ); }
void operator delete( void* p ) noexcept { give( p, 0, false ); }
void operator delete[]( void* p ) noexcept { give( p, 0, false ); }
void operator delete( void* p, std::size_t n ) noexcept { give( p, n, true ); }
void operator delete[]( void* p, std::size_t n ) noexcept { give( p, n, true ); }
void* operator new( std::size_t n, std::nothrow_t const& ) noexcept { try { return take( n ); } catch ( ... ) { return nullptr; } }
void* operator new[]( std::size_t n, std::nothrow_t const& ) noexcept { try { return take( n ); } catch ( ... ) { return nullptr; } }
void operator delete( void* p, std::nothrow_t const& ) noexcept { give( p, 0, false ); }
void operator delete[]( void* p, std::nothrow_t const& ) noexcept { give( p, 0, false ); }

#include "../lib/cer.hpp"
using namespace cer;

// ---- ceras::vector ------------------------------------------------------------------------------------------------------
static std::map<void*, ul> blocks; static std::string block_error;
template<class T> struct counting
{
    typedef T value_type;
    T* allocate( ul n ) { T* p = static_cast<T*>( std::malloc( sizeof( T ) * n ) ); blocks[p] = n; return p; }
    void deallocate( T* p, ul n ) { auto const i = blocks.find( p ); if ( i == blocks.end() ) { block_error = "released a block that is not allocated"; return; } if ( i->second != n ) block_error = "released a block with another size"; blocks.erase( i ); std::free( p ); }
    bool operator==( counting const& ) const { return true; }
};
template<class V> static void vector_history( src& s, ctx& c, bool counted )
{
    typedef typename V::value_type T; blocks.clear(); block_error.clear(); bool moved = false; tracked = 0; bool const cached = !counted && std::is_same_v<T, float>;
    {
        std::vector<std::unique_ptr<V>> v( 4 ); std::vector<std::vector<T>> m( 4 );
        for ( ul k = 0; k < 4; ++k ) v[k] = std::make_unique<V>();
        for ( ul step = 0, n = 2 + s.draw( 25 ); step < n; ++step )
        {
            ul const a = s.draw( 4 ), b = s.draw( 4 ), len = s.chance( 1, 10 ) ? s.draw( 200 ) : s.draw( 9 ); T const x = static_cast<T>( s.range( -50, 50 ) );
            switch ( s.draw( 9 ) )
            {
                case 0: c.desc << " v" << a << "=vector(" << len << "," << x << ")"; c.flush_desc(); { track t; v[a].reset(); v[a] = std::make_unique<V>( len, x ); } m[a].assign( len, x ); break;
                case 1: c.desc << " v" << a << "=v" << b; c.flush_desc(); { track t; *v[a] = *v[b]; } m[a] = m[b]; break;
                case 2: if ( a == b ) break; c.desc << " v" << a << "=move(v" << b << ")"; c.flush_desc(); moved = moved || ( !m[a].empty() && !m[b].empty() ); { track t; *v[a] = std::move( *v[b] ); } m[a] = m[b]; m[b].assign( v[b]->data(), v[b]->data() + v[b]->size() ); break; // a moved-from vector is valid
                case 3: c.desc << " v" << a << "(v" << b << ")"; c.flush_desc(); { track t; auto n2 = std::make_unique<V>( *v[b] ); v[a] = std::move( n2 ); } { auto const t = m[b]; m[a] = t; } break;
                case 4: if ( a == b ) break; c.desc << " v" << a << "(move(v" << b << "))"; c.flush_desc(); { track t; auto n2 = std::make_unique<V>( std::move( *v[b] ) ); v[a] = std::move( n2 ); } m[a] = m[b]; m[b].assign( v[b]->data(), v[b]->data() + v[b]->size() ); break;
                case 5: { c.desc << " v" << a << ".resize(" << len << ")"; c.flush_desc(); bool const same = v[a]->size() == len; { track t; v[a]->resize( len ); } c.require( v[a]->size() == len, "size", "resize to ", len, " gives ", v[a]->size() ); if ( !same ) { std::fill_n( v[a]->data(), len, x ); m[a].assign( len, x ); } break; }
                case 6: c.desc << " v" << a << ".clear"; c.flush_desc(); { track t; v[a]->clear(); } m[a].clear(); break;
                case 7: { c.desc << " v" << a << "={1,2,3}"; c.flush_desc(); track t; V w{ static_cast<T>( 1 ), static_cast<T>( 2 ), static_cast<T>( 3 ) }; *v[a] = w; tracking = false; m[a] = { static_cast<T>( 1 ), static_cast<T>( 2 ), static_cast<T>( 3 ) }; break; }
                default: if ( m[a].empty() ) break; { ul const i = s.draw( m[a].size() ); c.desc << " v" << a << "[" << i << "]=" << x; v[a]->data()[i] = x; m[a][i] = x; } break;
            }
            c.flush_desc();
            for ( ul k = 0; k < 4; ++k )
            {
                c.require( v[k]->size() == m[k].size() && v[k]->empty() == m[k].empty(), "size", "vector ", k, " has ", v[k]->size(), " elements instead of ", m[k].size() );
                V const& cv = *v[k]; for ( ul i = 0; i < m[k].size(); ++i ) c.require( cv.data()[i] == m[k][i], "element", "element ", i, " of vector ", k, " is ", cv.data()[i], " instead of ", m[k][i] );
                for ( ul j = 0; j < k; ++j ) c.require( v[k]->empty() || v[j]->data() != v[k]->data(), "aliasing", "vectors ", j, " and ", k, " share their elements" );
            }
        }
    }
    c.nontrivial( moved ); if ( !cached ) c.require( tracked == 0, "leak", tracked, " blocks were never released" ); if ( !counted ) return;
    c.require( block_error.empty(), "release", block_error ); c.require( blocks.empty(), "leak", blocks.size(), " blocks were never released" );
}
PBT_FAMILY( "vectors", 4000, 60000, 40, "4 vectors over a counting allocator, over small buffers of 32 bytes and over the tensors' own cache, histories of up to 26 constructions, copies, moves, resizes, clears and writes against std::vector: contents, independence, and every block released exactly once with its size; non-trivial when a non-empty vector is moved into a non-empty one" )
{
    switch ( s.draw( 3 ) ) { case 0: c.label( "counting" ); return vector_history<ceras::vector<int, counting<int>>>( s, c, true ); case 1: c.label( "buffered" ); return vector_history<ceras::vector<double, ceras::buffered_allocator<double, 32>>>( s, c, false ); default: c.label( "cached" ); return vector_history<ceras::vector<float, ceras::cached_allocator<float>>>( s, c, false ); }
}
// ---- tensors ------------------------------------------------------------------------------------------------------------
template<class T, class A> static void tensor_history( src& s, ctx& c, bool faults )
{
    typedef ceras::tensor<T, A> ten; struct slot { std::unique_ptr<ten> t; std::shared_ptr<std::vector<T>> m; shape_t sh; }; constexpr bool zeroed = std::is_same_v<A, ceras::cached_allocator<T>>; tracked = 0; std::vector<slot> v; bool reused = false; std::set<ul> dropped;
    auto const fresh_shape = [&]() { if ( s.chance( 1, 12 ) ) { shape_t r( 1 + s.draw( 70 ), 1 ); r[s.draw( r.size() )] = 1 + s.draw( 4 ); r.back() = 1 + s.draw( 3 ); c.label( r.size() > 32 ? "more than 32 dimensions" : "up to 32 dimensions" ); return r; } return gen_shape_wide( s, 1, 4, 5, 60 ); };
    auto const fill = [&]( slot& x ) { x.m = std::make_shared<std::vector<T>>( x.t->size() ); for ( ul i = 0; i < x.t->size(); ++i ) x.t->data()[i] = ( *x.m )[i] = static_cast<T>( s.range( -100, 100 ) ); };
    for ( ul step = 0, n = 3 + s.draw( 28 ); step < n; ++step )
    {
        ul const op = s.draw( 12 ); ul const a = v.empty() ? 0 : s.draw( v.size() ), b = v.empty() ? 0 : s.draw( v.size() );
        if ( op < 3 || v.empty() )
        {
            shape_t const sh = fresh_shape(); ul const size = prod( sh ); slot x; x.sh = sh; reused = reused || dropped.count( size ); bool const fail = faults && s.chance( 1, 2 ) && size * sizeof( T ) > 600; // large enough not to be the size of anything else
            c.desc << " new" << str( sh ) << ( fail ? " with the allocation failing" : "" ); c.flush_desc(); if ( fail ) { ten{ shape_t{ 1 } }; dropped.clear(); /* something is kept */ fail_times = 1; fail_size = size * sizeof( T ); long const before = fails; { track t; x.t = std::make_unique<ten>( sh ); } fail_size = 0; if ( fails > before ) c.label( "recovered from a failing allocation" ); } else { track t; x.t = std::make_unique<ten>( sh ); }
            c.require( x.t->size() == size, "size", "a new tensor of shape ", str( sh ), " has ", x.t->size(), " elements" ); for ( ul i = 0; i < size; ++i ) c.require( x.t->data()[i] == T{ 0 }, "zero", "element ", i, " of a new tensor is ", x.t->data()[i] );
            fill( x ); if ( v.size() < 8 ) v.push_back( std::move( x ) ); else { dropped.insert( v[a].m->size() ); v[a] = std::move( x ); }
        }
        else if ( op < 5 ) { c.desc << " drop t" << a; c.flush_desc(); if ( v[a].m.use_count() == 1 ) dropped.insert( v[a].m->size() ); v.erase( v.begin() + static_cast<long>( a ) ); }
        else if ( op == 5 && v.size() < 8 ) { c.desc << " copy t" << a; c.flush_desc(); slot x; { track t; x.t = std::make_unique<ten>( *v[a].t ); } x.m = v[a].m; x.sh = v[a].sh; v.push_back( std::move( x ) ); }
        else if ( op == 6 && v.size() < 8 ) { c.desc << " deep copy t" << a; c.flush_desc(); slot x; { track t; x.t = std::make_unique<ten>( v[a].t->deep_copy() ); } x.m = std::make_shared<std::vector<T>>( *v[a].m ); x.sh = v[a].sh; v.push_back( std::move( x ) ); }
        else if ( op == 7 ) { c.desc << " t" << a << "=t" << b; c.flush_desc(); if ( s.coin() ) { track t; *v[a].t = *v[b].t; } else { track t; ten k = *v[b].t; *v[a].t = std::move( k ); } v[a].m = v[b].m; v[a].sh = v[b].sh; }
        else if ( op == 8 )
        {
            if ( v[a].m.use_count() > 1 ) continue; shape_t const sh = fresh_shape(); c.desc << " resize t" << a << str( sh ); c.flush_desc(); bool const same = prod( sh ) == v[a].m->size(); if ( !same ) dropped.insert( v[a].m->size() ); 
            if ( faults && !same && prod( sh ) * sizeof( T ) > 600 && s.coin() ) // neither attempt finds memory
            {
                ten{ shape_t{ 1 } }; dropped.clear(); fail_times = 2; fail_size = prod( sh ) * sizeof( T ); bool thrown = false; try { v[a].t->resize( sh ); } catch ( std::bad_alloc const& ) { thrown = true; } fail_size = 0; fail_times = 1;
                if ( thrown ) { c.label( "a resize without memory" ); c.desc << " fails"; c.flush_desc(); if ( s.coin() ) { v.erase( v.begin() + static_cast<long>( a ) ); continue; } c.desc << ", again"; c.flush_desc(); v[a].t->resize( sh ); }
            }
            else { track t; v[a].t->resize( sh ); }
            v[a].sh = sh;
            if ( !same && zeroed ) for ( ul i = 0; i < v[a].t->size(); ++i ) { T const y = v[a].t->data()[i]; c.require( y == T{ 0 } || ( i < v[a].m->size() && y == ( *v[a].m )[i] ), "zero", "element ", i, " of a tensor resized to another size is ", +y ); }
            if ( !same ) fill( v[a] );
        }
        else if ( op == 9 && v.size() < 8 ) { if ( v[a].sh != v[b].sh ) continue; c.desc << " t" << a << "+t" << b; c.flush_desc(); slot x; { track t; x.t = std::make_unique<ten>( *v[a].t + *v[b].t ); } x.m = std::make_shared<std::vector<T>>( *v[a].m ); for ( ul i = 0; i < x.m->size(); ++i ) ( *x.m )[i] = ( *v[a].m )[i] + ( *v[b].m )[i]; x.sh = v[a].sh; v.push_back( std::move( x ) ); }
        else { ul const i = s.draw( v[a].m->size() ); T const x = static_cast<T>( s.range( -100, 100 ) ); c.desc << " t" << a << "[" << i << "]=" << +x; ( *v[a].t )[i] = x; ( *v[a].m )[i] = x; }
        c.flush_desc();
        for ( ul k = 0; k < v.size(); ++k )
        {
            auto const& t = *v[k].t; auto const sh = t.shape(); c.require( shape_t( sh.begin(), sh.end() ) == v[k].sh && t.ndim() == v[k].sh.size(), "shape", "tensor ", k, " has shape ", str( shape_t( sh.begin(), sh.end() ) ), " instead of ", str( v[k].sh ) ); c.require( t.size() == v[k].m->size(), "size", "tensor ", k, " has ", t.size(), " elements instead of ", v[k].m->size() );
            for ( ul i = 0; i < t.size(); ++i ) c.require( t[i] == ( *v[k].m )[i], "element", "element ", i, " of tensor ", k, " is ", +t[i], " instead of ", +( *v[k].m )[i] );
        }
    }
    v.clear(); if ( !zeroed ) c.require( tracked == 0, "leak", tracked, " blocks were never released" );
    c.nontrivial( reused );
}
PBT_FAMILY( "tensors", 4000, 60000, 40, "up to 8 tensors of char, int, float or double, of 1-4 and now and then up to 70 dimensions, histories of up to 30 creations, releases, copies, deep copies, assignments, resizes, sums and writes, with allocations failing once or for good while released memory is kept: new tensors hold zeros, every tensor keeps its shape and elements, tensors share elements exactly when one is a copy of the other; non-trivial when memory of a released tensor is needed again" )
{
    switch ( s.draw( 4 ) ) { case 0: c.label( "char" ); return tensor_history<signed char, ceras::cached_allocator<signed char>>( s, c, true ); case 1: c.label( "int" ); return tensor_history<int, ceras::cached_allocator<int>>( s, c, true ); case 2: c.label( "float" ); return tensor_history<float, ceras::cached_allocator<float>>( s, c, true ); default: c.label( "double" ); return tensor_history<double, ceras::cached_allocator<double>>( s, c, true ); }
}
PBT_FAMILY( "other-allocators", 2000, 30000, 40, "the same histories on tensors using small inline buffers of 32 or 256 bytes, and the standard allocator; non-trivial when memory of a released tensor is needed again" )
{
    switch ( s.draw( 3 ) ) { case 0: c.label( "32 bytes" ); return tensor_history<double, ceras::buffered_allocator<double, 32>>( s, c, false ); case 1: c.label( "256 bytes" ); return tensor_history<int, ceras::buffered_allocator<int, 256>>( s, c, false ); default: c.label( "standard" ); return tensor_history<float, std::allocator<float>>( s, c, false ); }
}
template<ul B> static void buffered( src& s, ctx& c )
{
    typedef std::vector<ul, ceras::buffered_allocator<ul, B>> V; std::vector<std::unique_ptr<V>> v( 3 ); std::vector<std::vector<ul>> m( 3 ); tracked = 0; for ( auto& p : v ) p = std::make_unique<V>(); bool grown = false;
    for ( ul step = 0, n = 2 + s.draw( 25 ); step < n; ++step )
    {
        ul const a = s.draw( 3 ), b = s.draw( 3 ), len = s.draw( s.coin() ? 8 : 80 ), x = s.draw( 1000 );
        switch ( s.draw( 6 ) )
        {
            case 0: c.desc << " resize v" << a << " " << len; c.flush_desc(); grown = grown || ( m[a].size() * 8 <= B && len * 8 > B ); { track t; v[a]->resize( len ); } m[a].resize( len ); break;
            case 1: c.desc << " push v" << a; c.flush_desc(); { track t; v[a]->push_back( x ); } m[a].push_back( x ); break;
            case 2: c.desc << " v" << a << "=v" << b; c.flush_desc(); { track t; *v[a] = *v[b]; } m[a] = m[b]; break;
            case 3: { c.desc << " v" << a << "(v" << b << ")"; c.flush_desc(); { track t; auto k = std::make_unique<V>( *v[b] ); v[a] = std::move( k ); } auto const t = m[b]; m[a] = t; break; }
            case 4: { c.desc << " assign v" << a << " " << len; c.flush_desc(); std::vector<ul> q( len ); for ( auto& e : q ) e = s.draw( 100 ); { track t; v[a]->assign( q.begin(), q.end() ); } m[a] = q; break; }
            default: if ( m[a].empty() ) break; { ul const i = s.draw( m[a].size() ); ( *v[a] )[i] = x; m[a][i] = x; }
        }
        for ( ul k = 0; k < 3; ++k ) { c.require( v[k]->size() == m[k].size(), "size", "vector ", k, " has ", v[k]->size(), " elements instead of ", m[k].size() ); for ( ul i = 0; i < m[k].size(); ++i ) c.require( ( *v[k] )[i] == m[k][i], "element", "element ", i, " of vector ", k, " is ", ( *v[k] )[i], " instead of ", m[k][i] ); }
    }
    v.clear(); c.require( tracked == 0, "leak", tracked, " blocks were never released" ); c.nontrivial( grown );
}
PBT_FAMILY( "shapes", 2000, 30000, 40, "std::vector over inline buffers of 64 or 256 bytes, as tensors keep their shapes: resizing, appending, copying, assigning across the size of the buffer, against std::vector; every block released with its size; non-trivial when one outgrows the buffer" )
{
    if ( s.coin() ) buffered<64>( s, c ); else buffered<256>( s, c );
}
// ---- memory kept for later --------------------------------------------------------------------------------------------------
template<class T> static void kept( src& s, ctx& c )
{
    typedef ceras::tensor<T, ceras::cached_allocator<T>> ten; std::vector<ul> ns; for ( ul k = 0, n = 1 + s.draw( 8 ); k < n; ++k ) ns.push_back( 700 / sizeof( T ) + s.draw( 12 ) * 16 );
    auto const empty_cache = [&] { std::unique_ptr<ten> t; fail_times = 1; fail_size = sizeof( T ) * ( 3000 + s.draw( 100 ) ); ul const n = fail_size / sizeof( T ); t = std::make_unique<ten>( shape_t{ n } ); bool const failed = fail_size == 0; fail_size = 0; return failed; };
    { ten{ shape_t{ 1 } }; } if ( !empty_cache() ) return; std::map<ul, long> before, wanted, most; for ( ul n : ns ) before[n] = live[n * sizeof( T )];
    c.desc << "tensors of"; for ( ul n : ns ) c.desc << " " << n; c.flush_desc(); for ( ul n : ns ) ++wanted[n]; bool const shared = wanted.size() < ns.size(); c.nontrivial( shared ); ul const rounds = 2 + s.draw( 3 );
    for ( ul r = 0; r < rounds; ++r ) // as many tensors as before need no more memory than before, in whatever order they come and go
    {
        std::vector<std::unique_ptr<ten>> v; auto order = ns; for ( ul k = order.size(); k > 1; --k ) std::swap( order[k - 1], order[s.draw( k )] );
        for ( ul n : order ) { v.push_back( std::make_unique<ten>( shape_t{ n } ) ); for ( ul i = 0; i < n; ++i ) v.back()->data()[i] = static_cast<T>( i % 100 ); }
        for ( auto const& [n, k] : wanted ) c.require( live[n * sizeof( T )] - before[n] == k, "blocks", k, " tensors of ", n, " elements use ", live[n * sizeof( T )] - before[n], " blocks in round ", r );
        while ( !v.empty() ) v.erase( v.begin() + static_cast<long>( s.draw( v.size() ) ) );
    }
    ul kept_blocks = 0; for ( auto const& [n, k] : wanted ) kept_blocks += static_cast<ul>( live[n * sizeof( T )] - before[n] ); c.label( kept_blocks ? "memory is kept" : "no memory is kept" );
    if ( !empty_cache() ) return; // a failing allocation releases what is kept
    for ( auto const& [n, k] : wanted ) c.require( live[n * sizeof( T )] == before[n], "leak", live[n * sizeof( T )] - before[n], " of ", k, " blocks of ", n, " elements are not given back when memory is short" );
}
PBT_FAMILY( "kept-memory", 2000, 20000, 40, "several rounds of creating and releasing tensors of the same sizes in random orders: no round needs more blocks than there are tensors, and when an allocation fails everything kept is given back; non-trivial when two tensors have one size" )
{
    switch ( s.draw( 3 ) ) { case 0: return kept<int>( s, c ); case 1: return kept<float>( s, c ); default: return kept<double>( s, c ); }
}
CER_MAIN()
