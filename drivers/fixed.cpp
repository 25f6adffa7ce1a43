// F01..F04: num::fixed_point
//@ .*: native=20000 budget=120 nsw=1
//@ real_.*: fp=1 budget=200 timeout=150
//@ as_real_.*: fp=1 budget=200 timeout=100
#include "vc.hpp"
#include "num/fixed-point.hpp"
using num::fixed_point;

template< typename T > constexpr int64_t lo() { return -( int64_t(1) << ( 8*sizeof(T)-1 ) ); }
template< typename T > constexpr int64_t hi() { return ( int64_t(1) << ( 8*sizeof(T)-1 ) ) - 1; }
template< typename X > X rep_any() { return num::from_rep<X>()( vc_any<typename X::rep>() ); }
template< typename X > void fits( int64_t v ) { vc_assume( lo<typename X::rep>() <= v ); vc_assume( v <= hi<typename X::rep>() ); }
template< typename X > void rep_is( X x, int64_t v, char const * name ) { vc_same( static_cast<int64_t>( x.underlying_value() ), v, name ); }

using q8_3  = fixed_point<int8_t ,3>;      using q8_7  = fixed_point<int8_t ,7>;     using q8_0 = fixed_point<int8_t ,0>;
using q16_8 = fixed_point<int16_t,8>;      using q16_3 = fixed_point<int16_t,3>;     using q16_44 = fixed_point<int16_t,4,4>;
using q32_15 = fixed_point<int32_t,15>;    using q32_7 = fixed_point<int32_t,7>;     using q32_0 = fixed_point<int32_t,0>;
using q32_88 = fixed_point<int32_t,8,8>;
#define TYPES  X(q8_3) X(q8_7) X(q8_0) X(q16_8) X(q16_3) X(q16_44) X(q32_15) X(q32_7) X(q32_0) X(q32_88)

// ---- F01 construction from a value: nearest representable, halves away from zero
template< typename Q, typename R > void from_real()
{
    constexpr int F = Q::fractional_digits;
    R x = vc_is_native() ? R( vc_in<double>( -3, 3 ) * ( int64_t(1) << ( vc_in<int32_t>( 0, 1 ) ? Q::integer_digits : 2 ) ) ) : vc_any<R>();
    double y = double( x ) * double( int64_t(1) << F );         // exact: a power of two
    vc_assume( y > double( lo<typename Q::rep>() ) - 0.5 ); vc_assume( y < double( hi<typename Q::rep>() ) + 0.5 );
    vc_cover("in range");
    Q q( x );
    double d = y - q.underlying_value();                        // exact: both are near
    vc_assert( ( -0.5 <= d ) & ( d <= 0.5 ), "nearest representable value" );
    vc_assert( y >= 0 ? d < 0.5 : d > -0.5, "halves away from zero" );
}
#define X(Q) VC_HARNESS( real_double_##Q ) { from_real<Q,double>(); } VC_HARNESS( real_float_##Q ) { from_real<Q,float>(); }
TYPES
#undef X
template< typename Q, typename U > void from_integer( char const * name )
{
    constexpr int F = Q::fractional_digits;
    U n = vc_any<U>();
    int64_t const most = hi<typename Q::rep>() >> F, least = lo<typename Q::rep>() >> F;
    if ( U(-1) < U(0) ) { vc_assume( static_cast<int64_t>( n ) >= least ); vc_assume( static_cast<int64_t>( n ) <= most ); }
    else                vc_assume( static_cast<uint64_t>( n ) <= static_cast<uint64_t>( most ) );
    vc_cover( name );
    Q q( n ); rep_is( q, static_cast<int64_t>( n ) * ( int64_t(1) << F ), name );
    Q p = rep_any<Q>(); p = n; rep_is( p, static_cast<int64_t>( n ) * ( int64_t(1) << F ), "assigned" );
}
#define X(Q) VC_HARNESS( integer_##Q ) { from_integer<Q,int8_t>( "int8_t" ); from_integer<Q,int16_t>( "int16_t" ); from_integer<Q,int32_t>( "int32_t" ); from_integer<Q,int64_t>( "int64_t" ); \
    from_integer<Q,uint8_t>( "uint8_t" ); from_integer<Q,uint16_t>( "uint16_t" ); from_integer<Q,uint32_t>( "uint32_t" ); from_integer<Q,uint64_t>( "uint64_t" ); }
TYPES
#undef X

// ---- F02 sum, difference, sign, order
template< typename Q > void linear()
{
    Q a = rep_any<Q>(), b = rep_any<Q>(); Q const a0 = a, b0 = b;
    int64_t x = a.underlying_value(), y = b.underlying_value();
    vc_cover("any operands");
    vc_same( a == b, x == y, "==" ); vc_same( a != b, x != y, "!=" ); vc_same( a < b, x < y, "<" );
    vc_same( a <= b, x <= y, "<=" ); vc_same( a > b, x > y, ">" ); vc_same( a >= b, x >= y, ">=" );
    rep_is( +a, x, "+a" );
    Q c = a; rep_is( c, x, "copy" ); c = b; rep_is( c, y, "assignment" );
    rep_is( a, x, "operands unchanged" ); rep_is( b, y, "operands unchanged" );
    switch ( vc_choose( 3 ) )
    {
    case 0: fits<Q>( x + y ); vc_cover("sum fits"); rep_is( a + b, x + y, "a + b" ); rep_is( a, x, "operands unchanged" );
        rep_is( a += b, x + y, "a += b" ); rep_is( a, x + y, "a += b" ); rep_is( b, y, "operands unchanged" ); break;
    case 1: fits<Q>( x - y ); vc_cover("difference fits"); rep_is( a - b, x - y, "a - b" ); rep_is( a, x, "operands unchanged" );
        rep_is( a -= b, x - y, "a -= b" ); rep_is( a, x - y, "a -= b" ); rep_is( b, y, "operands unchanged" ); break;
    case 2: fits<Q>( -x ); vc_cover("negation fits"); rep_is( -a, -x, "-a" ); rep_is( a, x, "operands unchanged" ); break;
    }
}
#define X(Q) VC_HARNESS( linear_##Q ) { linear<Q>(); }
TYPES
#undef X

// ---- F03 product and quotient
template< typename Q > void product()
{
    constexpr int F = Q::fractional_digits;
    Q a = rep_any<Q>(), b = rep_any<Q>();
    int64_t x = a.underlying_value(), y = b.underlying_value(), p = ( x * y ) >> F;
    fits<Q>( p ); vc_cover("product fits");
    rep_is( a * b, p, "a * b: exact product, rounded down" ); rep_is( a, x, "operands unchanged" );
    rep_is( a *= b, p, "a *= b" ); rep_is( a, p, "a *= b" ); rep_is( b, y, "operands unchanged" );
}
template< typename Q > void quotient()
{
    constexpr int F = Q::fractional_digits;
    Q a = rep_any<Q>(), b = rep_any<Q>();
    int64_t x = a.underlying_value(), y = b.underlying_value();
    vc_assume( y != 0 );
    int64_t q = ( x * ( int64_t(1) << F ) ) / y;
    fits<Q>( q ); vc_cover("quotient fits");
    rep_is( a / b, q, "a / b: exact quotient, rounded toward zero" ); rep_is( a, x, "operands unchanged" );
    rep_is( a /= b, q, "a /= b" ); rep_is( a, q, "a /= b" ); rep_is( b, y, "operands unchanged" );
}
#define X(Q) VC_HARNESS( product_##Q ) { product<Q>(); } VC_HARNESS( quotient_##Q ) { quotient<Q>(); }
TYPES
#undef X
// mixed with numbers, which convert
VC_HARNESS( mixed_q32_15 )
{
    q32_15 a = rep_any<q32_15>(); int16_t n = vc_any<int16_t>(); int64_t x = a.underlying_value();
    vc_assume( n > -1000 ); vc_assume( n < 1000 ); vc_assume( x > -1000 ); vc_assume( x < 1000 );
    vc_cover("small values");
    rep_is( a + n, x + ( int64_t( n ) << 16 ), "a + n" ); rep_is( n - a, ( int64_t( n ) << 16 ) - x, "n - a" );
    rep_is( n * a, n * x, "n * a" );
    vc_same( a < n, x < ( int64_t( n ) << 16 ), "a < n" ); vc_same( n == a, x == ( int64_t( n ) << 16 ), "n == a" );
}

template< typename Q > struct split;          // the split asked for
template< typename T, int I, int F > struct split< fixed_point<T,I,F> > { enum { i = I, f = F }; };
VC_HARNESS( as_split )
{
    vc_cover( "reached" );
    vc_same( int32_t( split<q8_3>::f ), int32_t( 4 ), "the rest is the fraction" ); vc_same( int32_t( split<q8_7>::f ), int32_t( 0 ), "the rest is the fraction" ); vc_same( int32_t( split<q8_0>::f ), int32_t( 7 ), "the rest is the fraction" );
    vc_same( int32_t( split<q16_8>::f ), int32_t( 7 ), "the rest is the fraction" ); vc_same( int32_t( split<q32_15>::f ), int32_t( 16 ), "the rest is the fraction" ); vc_same( int32_t( split<q32_0>::f ), int32_t( 31 ), "the rest is the fraction" );
    vc_same( int32_t( split<q16_44>::f ), int32_t( 4 ), "the fraction asked for" );
}
// ---- F04 reading the value back
template< typename Q, typename R > void as_real()
{
    constexpr int F = Q::fractional_digits;
    Q a = rep_any<Q>();
    vc_cover("any value");
    double exact = double( a.underlying_value() ) / double( int64_t(1) << F );
    vc_assert( double( a.as_double() ) == exact, "as_double()" );
    vc_same( double( a.template as<double>() ), exact, "as<double>()" );
    vc_same( float( a.template as<float>() ), float( exact ), "as<float>(), once rounded" );
}
template< typename Q > void as_integer()
{
    constexpr int F = Q::fractional_digits;
    Q a = rep_any<Q>(); int64_t x = a.underlying_value(), v = x / ( int64_t(1) << F );
    vc_cover("any value");
    vc_same( static_cast<int64_t>( a.template as<int64_t>() ), v, "as<int64_t>(): rounded toward zero" );
    vc_same( static_cast<int64_t>( a.template as<int32_t>() ), v, "as<int32_t>()" );
    if ( v >= -32768 && v <= 32767 ) { vc_cover("small value"); vc_same( static_cast<int64_t>( a.template as<int16_t>() ), v, "as<int16_t>()" ); }
    rep_is( a.min(), lo<typename Q::rep>(), "min()" ); rep_is( a.max(), hi<typename Q::rep>(), "max()" );
    vc_same( static_cast<int64_t>( num::to_rep<Q>()( a ) ), x, "to_rep" );
    rep_is( num::from_rep<Q>()( a.underlying_value() ), x, "from_rep(rep) has that rep" );
    rep_is( Q( Q::construct, a.underlying_value() ), x, "construct" );
    rep_is( a, x, "reading changes nothing" );
    auto w = num::from_value<Q,int32_t>()( static_cast<int32_t>( x ) );
    vc_same( static_cast<int64_t>( w.underlying_value() ), x, "from_value" );
    vc_assert( Q::digits == 8*int( sizeof(typename Q::rep) )-1, "digits" );
    vc_same( static_cast<int32_t>( Q::integer_digits ), int32_t( split<Q>::i ), "integer_digits" ); vc_same( static_cast<int32_t>( Q::fractional_digits ), int32_t( split<Q>::f ), "fractional_digits" );
}
#define X(Q) VC_HARNESS( as_real_##Q ) { as_real<Q,double>(); } VC_HARNESS( as_integer_##Q ) { as_integer<Q>(); }
TYPES
#undef X
// a value survives the trip through double
template< typename Q > void trip()
{
    Q a = rep_any<Q>();
    vc_cover("any value");
    rep_is( Q( double( a.as_double() ) ), a.underlying_value(), "value -> double -> value" );
}
#define X(Q) VC_HARNESS( real_trip_##Q ) { trip<Q>(); }
TYPES
#undef X
