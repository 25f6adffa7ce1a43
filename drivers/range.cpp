// R01: core::range / core::indices / core::as
//@ .*: native=3000 budget=90
#include "vc.hpp"
#include "core/range.hpp"
#include "core/shims.hpp"
#include <vector>
#include <initializer_list>
using core::range; using core::indices;

// ---- [first, last), step 1
template< typename T > void plain()
{
    T a = vc_any<T>(), b = vc_any<T>();
    vc_assume( a <= b );
    auto r = range( a, b );
    vc_cover("any range");
    auto it = r.begin(); auto e = r.end();
    vc_same( *it, a, "starts at first" ); vc_same( *e, b, "ends at last" );
    vc_assert( ( it != e ) == ( a < b ), "empty iff first == last" );
    vc_assert( ( it == e ) == !( it != e ), "== is the opposite of !=" );
    // any point of the traversal
    T c = vc_any<T>();
    vc_assume( a <= c ); vc_assume( c < b );
    auto at = range( c, b ).begin(); auto old = at;
    vc_cover("inside the range");
    vc_same( *at, c, "iterator shows its value" ); vc_same( *at.operator->(), c, "-> shows its value" );
    vc_assert( at != e, "before last: not at the end" );
    auto & ref = ++at;
    vc_assert( &ref == &at, "++ returns the iterator" );
    vc_same( *at, T( c + 1 ), "++ moves to the next value" );
    vc_assert( ( at != e ) == ( T( c + 1 ) < b ), "ends exactly at last" );
    vc_same( *old++, c, "post-increment shows the old value" ); vc_same( *old, T( c + 1 ), "post-increment moves to the next value" );
}
VC_HARNESS( plain_int ) { plain<int32_t>(); }
VC_HARNESS( plain_i64 ) { plain<int64_t>(); }
VC_HARNESS( plain_u32 ) { plain<uint32_t>(); }
VC_HARNESS( plain_u64 ) { plain<uint64_t>(); }
VC_HARNESS( plain_mixed )
{
    int32_t a = vc_any<int32_t>(); int64_t b = vc_any<int64_t>();
    vc_assume( a <= b );
    vc_cover("any range");
    auto r = range( a, b );
    vc_same( *r.begin(), int64_t( a ), "first in the common type" ); vc_same( *r.end(), b, "last in the common type" );
    vc_assert( ( r.begin() != r.end() ) == ( a < b ), "empty iff first == last" );
}

// ---- [first, last), step
template< typename T > void stepped()
{
    T a = vc_any<T>(), b = vc_any<T>(), s = vc_any<T>();
    vc_assume( s > 0 );
    auto r = range( a, b, s );
    vc_cover("any range");
    auto e = r.end();
    auto it = r.begin();
    vc_same( *it, a, "starts at first" );
    vc_assert( ( it != e ) == ( a < b ), "not at the end iff before last" );
    vc_assert( ( it == e ) == !( it != e ), "== is the opposite of !=" );
    auto & ref = ++it;
    vc_assert( &ref == &it, "++ returns the iterator" );
    vc_same( *it, T( a + s ), "first step" );
    vc_assert( ( it != e ) == ( T( a + s ) < b ), "not at the end iff before last" );
    auto old = it++;
    vc_same( *old, T( a + s ), "post-increment shows the old value" ); vc_same( *it, T( a + s + s ), "second step" );
    vc_assert( ( it != e ) == ( T( a + s + s ) < b ), "not at the end iff before last" );
    // the value k steps on, any k: the iterator's own state is arbitrary here
    vc_generalize( &it, sizeof it );
    vc_assert( ( it != e ) == ( *it < b ), "anywhere: not at the end iff before last" );
    vc_assert( ( it == e ) == !( it != e ), "anywhere: == is the opposite of !=" );
}
// from any state whatsoever two further steps are the same size, so all steps are the first one
template< typename T > void even()
{
    auto r = range( T( 1 ), T( 9 ), T( 2 ) );
    auto it = r.begin();
    if ( vc_is_native() )
    {
        T a = static_cast<T>( vc_in<int32_t>( -50, 50 ) ), s = static_cast<T>( vc_in<int32_t>( 1, 9 ) );
        it = range( a, T( a + 5 * s ), s ).begin(); int n = vc_in<int32_t>( 0, 100 );
        for ( int i = 0; i < n; ++i ) ++it;
    }
    else vc_havoc( &it, sizeof it );
    ++it; T x = *it; ++it; T y = *it; it++; T z = *it;
    vc_cover("any iterator state");
    vc_same( T( z - y ), T( y - x ), "equal steps" );
}
VC_HARNESS( step_int ) { stepped<int32_t>(); }
VC_HARNESS( step_i64 ) { stepped<int64_t>(); }
VC_HARNESS( step_u32 ) { stepped<uint32_t>(); }
VC_HARNESS( step_real ) { stepped<real>(); }
VC_HARNESS( even_int ) { even<int32_t>(); }
VC_HARNESS( even_i64 ) { even<int64_t>(); }
VC_HARNESS( even_u32 ) { even<uint32_t>(); }
VC_HARNESS( even_real ) { even<real>(); }
// floating-point ranges do not accumulate rounding: the k-th value is first + k step, rounded as that expression is
//@ exact_.*: fp=1
template< typename T > void exact()
{
    T a = vc_any<T>(), s = vc_any<T>(), b = vc_any<T>();
    vc_cover("any start and step");
    auto it = range( a, b, s ).begin(); auto jt = range( a ).step( s ).begin();
    vc_bits( *it, a, "starts at first" );
    for ( int k = 1; k <= 7; ++k )
    {
        ++it; vc_bits( *it, T( a + T( k ) * s ), "k-th value is first + k step, once rounded" );
        jt++; vc_bits( *jt, T( a + T( k ) * s ), "k-th value is first + k step, once rounded" );
    }
}
VC_HARNESS( exact_double ) { exact<double>(); }
VC_HARNESS( exact_float ) { exact<float>(); }
VC_HARNESS( step_mixed )
{
    int32_t a = vc_any<int32_t>(), s = vc_any<int32_t>(); int64_t b = vc_any<int64_t>();
    vc_assume( s > 0 );
    vc_cover("any range");
    auto r = range( a, b, s ); auto it = r.begin();
    vc_same( *it, int64_t( a ), "first in the common type" );
    ++it; vc_same( *it, int64_t( a ) + s, "step in the common type" );
    vc_assert( ( it != r.end() ) == ( int64_t( a ) + s < b ), "last in the common type" );
}

// ---- [first, inf)
template< typename T > void infinite()
{
    T a = vc_any<T>(), s = vc_any<T>();
    vc_cover("any start");
    auto r = range( a ); auto it = r.begin();
    vc_same( *it, a, "starts at first" );
    vc_assert( it != r.end(), "never at the end" );
    ++it; vc_same( *it, T( a + 1 ), "steps by one" ); ++it; vc_same( *it, T( a + 2 ), "steps by one" );
    vc_generalize( &it, sizeof it );
    vc_assert( it != r.end() && !( it == r.end() ), "never at the end" );
    auto q = r.step( s ); auto jt = q.begin();
    vc_same( *jt, a, "step(): same start" );
    ++jt; vc_same( *jt, T( a + s ), "step(): new step" ); ++jt; vc_same( *jt, T( a + s + s ), "step(): new step" );
    vc_assert( jt != q.end(), "step(): never at the end" );
    auto kt = r.begin(); ++kt; vc_same( *kt, T( a + 1 ), "the range it was made from keeps its step" );
}
VC_HARNESS( infinite_int ) { infinite<int32_t>(); }
VC_HARNESS( infinite_u32 ) { infinite<uint32_t>(); }
VC_HARNESS( infinite_real ) { infinite<real>(); }

// ---- whole loops, for short ranges anywhere
template< typename T > void loops()
{
    T a = vc_any<T>(), s = vc_any<T>(); int n = vc_choose( 5 );
    vc_assume( s > 0 ); vc_assume( s < 1000 ); vc_assume( a < 1000000 );
    T d = vc_any<T>(); vc_assume( d >= 1 ); vc_assume( d <= s );
    T b = n == 0 ? a : T( a + ( n - 1 ) * s + d );
    if ( std::is_signed_v<T> ) vc_assume( a > T( -1000000 ) );
    vc_cover("any short range");
    int k = 0;
    for ( auto v : range( a, b, s ) ) { vc_assert( k < n, "visits no more than ceil((last-first)/step) values" ); vc_same( v, T( a + k * s ), "k-th value is first + k step" ); ++k; }
    vc_eq_i( k, n, "visits ceil((last-first)/step) values" );
    k = 0;
    for ( auto v : range( a, T( a + n ) ) ) { vc_assert( k < n, "visits no more than last-first values" ); vc_same( v, T( a + k ), "k-th value is first + k" ); ++k; }
    vc_eq_i( k, n, "visits last-first values" );
}
VC_HARNESS( loops_int ) { loops<int32_t>(); }
VC_HARNESS( loops_u32 ) { loops<uint32_t>(); }

// ---- indices
template< int N > void array_indices()
{
    int16_t x[N]; for ( auto & v : x ) v = 0;
    vc_cover("array");
    std::size_t k = 0;
    for ( auto i : indices( x ) ) { vc_assert( i == k && i < N, "indices are 0, 1, .. N-1" ); x[i] = 1; ++k; }
    vc_assert( k == N, "every element has its index" );
}
VC_HARNESS( indices_array_1 ) { array_indices<1>(); }
VC_HARNESS( indices_array_4 ) { array_indices<4>(); }
struct sized { std::size_t n; std::size_t size() const { return n; } };
VC_HARNESS( indices_container )
{
    std::size_t n = vc_any<uint64_t>(); sized c{ n };
    vc_cover("any size");
    auto r = indices( c );
    vc_assert( *r.begin() == 0, "indices start at 0" ); vc_assert( *r.end() == n, "indices end at size()" );
    vc_assert( ( r.begin() != r.end() ) == ( n != 0 ), "no indices iff empty" );
}
VC_HARNESS( indices_list )
{
    vc_cover("list");
    auto r = indices( std::initializer_list<int>{ 7, 8, 9 } );
    std::size_t k = 0;
    for ( auto i : r ) { vc_assert( i == k && i < 3, "indices are 0, 1, 2" ); ++k; }
    vc_assert( k == 3, "every element has its index" );
}

// ---- as
VC_HARNESS( as )
{
    int32_t i = vc_any<int32_t>(); real d = vc_any<real>();
    vc_cover("any value");
    int8_t a = core::as<int8_t>( i ); vc_same( a, static_cast<int8_t>( i ), "as<int8_t>(int)" );
    int64_t b = core::as<int64_t>( i ); vc_same( b, static_cast<int64_t>( i ), "as<int64_t>(int)" );
    uint32_t c = core::as<uint32_t>( i ); vc_same( c, static_cast<uint32_t>( i ), "as<unsigned>(int)" );
    real e = core::as<real>( i ); vc_same( e, static_cast<real>( i ), "as<real>(int)" );
    real f = core::as<real>( d ); vc_same( f, d, "as<real>(real)" );
    bool g = core::as<bool>( i ); vc_same( g, i != 0, "as<bool>(int)" );
}
