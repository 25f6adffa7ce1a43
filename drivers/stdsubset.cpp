// T01: the library's own stand-in for the standard library on freestanding targets (include/std, AVR branch).
// The oracle is the standard's specification, stated over the compiler's built-in types and traits.
//@ .*: native=4000
#include "std/cstdint.hpp"
#include "std/limits.hpp"
#include "std/type_traits.hpp"
#include "std/utility.hpp"
#include "std/tuple.hpp"
#include "std/complex.hpp"
#include "vc.hpp"

// ---------------------------------------------------------------- limits

template< typename T > static void limits()
{
    using L = std20::numeric_limits<T>;
    T const v = vc_any<T>(); vc_cover( "any value" );
    constexpr bool neg = T(-1) < T(0);
    vc_assert( L::is_integer, "an integer type" );
    vc_assert( L::is_signed == neg, "signed if it has negative values" );
    vc_assert( L::digits == int( 8 * sizeof(T) ) - ( neg ? 1 : 0 ), "digits: value bits without the sign" );
    vc_assert( L::min() <= v, "no value is below min()" );
    vc_assert( v <= L::max(), "no value is above max()" );
    vc_assert( std20::is_integral<T>::value, "is_integral" );
    vc_assert( std20::is_integral_v<T>, "is_integral_v" );
    vc_assert( std20::is_signed<T>::value == neg, "is_signed" );
    vc_assert( std20::is_signed_v<T> == neg, "is_signed_v" );
}
VC_HARNESS( limits_i8 )  { limits<int8_t>(); }
VC_HARNESS( limits_u8 )  { limits<uint8_t>(); }
VC_HARNESS( limits_i16 ) { limits<int16_t>(); }
VC_HARNESS( limits_u16 ) { limits<uint16_t>(); }
VC_HARNESS( limits_i32 ) { limits<int32_t>(); }
VC_HARNESS( limits_u32 ) { limits<uint32_t>(); }
VC_HARNESS( limits_i64 ) { limits<int64_t>(); }
VC_HARNESS( limits_u64 ) { limits<uint64_t>(); }

VC_HARNESS( limits_real )
{
    vc_cover( "reached" );
    vc_assert( std20::numeric_limits<float>::is_signed,    "float is signed" );
    vc_assert( !std20::numeric_limits<float>::is_integer,  "float is no integer" );
    vc_assert( std20::numeric_limits<double>::is_signed,   "double is signed" );
    vc_assert( !std20::numeric_limits<double>::is_integer, "double is no integer" );
    vc_assert( !std20::is_integral_v<float>,  "float is not integral" );
    vc_assert( !std20::is_integral_v<double>, "double is not integral" );
    vc_assert( std20::is_signed_v<float>,  "float is signed" );
    vc_assert( std20::is_signed_v<double>, "double is signed" );
}

VC_HARNESS( widths )
{
    vc_cover( "reached" );
    vc_assert( sizeof(std20::int8_t) == 1,  "int8_t: 8 bits" );
    vc_assert( sizeof(std20::int16_t) == 2, "int16_t: 16 bits" );
    vc_assert( sizeof(std20::int32_t) == 4, "int32_t: 32 bits" );
    vc_assert( sizeof(std20::int64_t) == 8, "int64_t: 64 bits" );
    vc_assert( std20::int8_t(-1) < 0,  "int8_t is signed" );
    vc_assert( std20::int16_t(-1) < 0, "int16_t is signed" );
    vc_assert( std20::int32_t(-1) < 0, "int32_t is signed" );
    vc_assert( std20::int64_t(-1) < 0, "int64_t is signed" );
}

// ---------------------------------------------------------------- type traits

template< typename T > static void strips()
{
    vc_assert( __is_same( typename std20::remove_reference<T>::type, T ),    "remove_reference: T" );
    vc_assert( __is_same( typename std20::remove_reference<T &>::type, T ),  "remove_reference: T &" );
    vc_assert( __is_same( typename std20::remove_reference<T &&>::type, T ), "remove_reference: T &&" );
    vc_assert( __is_same( std20::remove_reference_t<T const &>, T const ),   "remove_reference_t keeps const" );
    vc_assert( __is_same( std20::remove_reference_t<T &&>, T ),              "remove_reference_t: T &&" );
    vc_assert( __is_same( typename std20::remove_const<T>::type, T ),        "remove_const: T" );
    vc_assert( __is_same( typename std20::remove_const<T const>::type, T ),  "remove_const: T const" );
    vc_assert( __is_same( std20::remove_const_t<T const volatile>, T volatile ), "remove_const_t keeps volatile" );
    vc_assert( __is_same( std20::remove_const_t<T const>, T ),               "remove_const_t" );
    vc_assert( __is_same( std20::remove_const_t<T const &>, T const & ),     "remove_const_t keeps what is referred to" );
    vc_assert( __is_same( typename std20::remove_volatile<T>::type, T ),          "remove_volatile: T" );
    vc_assert( __is_same( typename std20::remove_volatile<T volatile>::type, T ), "remove_volatile: T volatile" );
    vc_assert( __is_same( std20::remove_volatile_t<T const volatile>, T const ),  "remove_volatile_t keeps const" );
    vc_assert( __is_same( std20::remove_volatile_t<T volatile>, T ),         "remove_volatile_t" );
    vc_assert( __is_same( typename std20::remove_cv<T>::type, T ),           "remove_cv: T" );
    vc_assert( __is_same( std20::remove_cv_t<T const>, T ),                  "remove_cv_t: T const" );
    vc_assert( __is_same( std20::remove_cv_t<T volatile>, T ),               "remove_cv_t: T volatile" );
    vc_assert( __is_same( std20::remove_cv_t<T const volatile>, T ),         "remove_cv_t: T const volatile" );
    vc_assert(  std20::is_same<T,T>::value,        "is_same: same" );
    vc_assert(  std20::is_same_v<T,T>,             "is_same_v: same" );
    vc_assert( !std20::is_same<T,T const>::value,  "is_same: other cv" );
    vc_assert( !std20::is_same_v<T,T &>,           "is_same_v: reference" );
    vc_assert( !std20::is_same_v<T volatile,T>,    "is_same_v: volatile" );
    vc_assert( __is_same( typename std20::enable_if<true,T>::type, T ), "enable_if" );
    vc_assert( __is_same( std20::enable_if_t<true,T>, T ), "enable_if_t" );
}

template< typename... > using void_t = void;
template< bool B, typename E = void > struct has_type { static constexpr bool value = false; };
template< bool B > struct has_type< B, void_t< typename std20::enable_if<B,int>::type > > { static constexpr bool value = true; };

struct record { int a; };

VC_HARNESS( traits )
{
    vc_cover( "reached" );
    strips<char>(); strips<int>(); strips<float>(); strips<record>(); strips<int *>(); strips<int const *>();
    vc_assert( !std20::is_same_v<int,unsigned>, "is_same_v: signedness" );
    vc_assert( !std20::is_same_v<int,long>, "is_same_v: int and long" );
    vc_assert( has_type<true>::value, "enable_if has a type when true" );
    vc_assert( !has_type<false>::value, "enable_if has no type when false" );
    vc_assert( __is_same( std20::enable_if_t<true>, void ), "enable_if: void by default" );
    vc_assert( std20::true_type::value, "true_type" );
    vc_assert( !std20::false_type::value, "false_type" );
    using c7 = std20::integral_constant<int,7>;
    vc_assert( c7::value == 7, "integral_constant: value" );
    vc_assert( c7() == 7, "integral_constant converts" );
    vc_assert( c7()() == 7, "integral_constant calls" );
    vc_assert( __is_same( c7::value_type, int ), "integral_constant: value_type" );
    vc_assert( __is_same( c7::type, c7 ), "integral_constant: type" );
}

// ---------------------------------------------------------------- utility

template< typename T > static void list()
{
    T const a = vc_any<T>(), b = vc_any<T>(), c = vc_any<T>(); vc_cover( "any elements" );
    std::initializer_list<T> const l = { a, b, c };
    vc_assert( l.size() == 3, "as many elements as listed" );
    vc_assert( l.end() - l.begin() == 3, "end() is past the last element" );
    vc_same( l.begin()[0], a, "first element" );
    vc_same( l.begin()[1], b, "second element" );
    vc_same( l.begin()[2], c, "third element" );
    vc_assert( std::begin( l ) == l.begin(), "begin( list )" );
    vc_assert( std::end( l ) == l.end(), "end( list )" );
    int n = 0;
    for ( T const & x : l ) { vc_same( x, n == 0 ? a : n == 1 ? b : c, "range-for visits the elements in order" ); ++n; }
    vc_assert( n == 3, "range-for visits each element once" );
    std::initializer_list<T> const e;
    vc_assert( e.size() == 0, "default: empty" );
    vc_assert( e.begin() == e.end(), "default: nothing to visit" );
    std::initializer_list<T> const one = { b };
    vc_assert( one.size() == 1, "one element" );
    vc_same( *one.begin(), b, "the one element" );
}
VC_HARNESS( list_u8 )   { list<uint8_t>(); }
VC_HARNESS( list_i32 )  { list<int32_t>(); }
VC_HARNESS( list_real ) { list<real>(); }

// a list of any length: what the compiler hands over is where its elements are and how many
struct listed_bytes { uint8_t const * at; size_t n; };
VC_HARNESS( list_length )
{
    static uint8_t const data[4] = {};                            // (nothing is read)
    size_t const n = static_cast<uint16_t>( vc_any<uint16_t>() ); vc_assume( n <= 32000 ); vc_cover( "any length" );
    listed_bytes const b = { data, n };
    std::initializer_list<uint8_t> l;
    static_assert( sizeof l == sizeof b, "a pointer and a length" );
    __builtin_memcpy( &l, &b, sizeof l );
    vc_assert( l.size() == n, "as many elements as listed" );
    vc_assert( l.begin() == data, "the first element" );
    vc_assert( l.end() - l.begin() == static_cast<decltype( l.end() - l.begin() )>( n ), "end() is past the last element" );
    vc_assert( std::end( l ) == data + n, "end( list )" );
}

struct moved
{
    int32_t v; int how;
    explicit moved( int32_t x ) : v( x ), how( 0 ) {}
    moved( moved const & o ) : v( o.v ), how( 1 ) {}
    moved( moved && o ) : v( o.v ), how( 2 ) { o.v = 0; }
    moved & operator=( moved const & o ) { v = o.v; how = 1; return *this; }
    moved & operator=( moved && o ) { v = o.v; how = 2; o.v = 0; return *this; }
};

VC_HARNESS( move_swap )
{
    int32_t const x = vc_any<int32_t>(), y = vc_any<int32_t>(); vc_cover( "any values" );
    moved a( x ), b( y );
    vc_assert( &static_cast<moved const &>( std20::move( a ) ) == &a, "move() refers to its argument" );
    vc_assert( a.v == x, "move() alone changes nothing" );
    vc_assert( __is_same( decltype( std20::move( a ) ), moved && ), "move() of an lvalue" );
    vc_assert( __is_same( decltype( std20::move( std20::move( a ) ) ), moved && ), "move() of an rvalue" );
    vc_assert( __is_same( decltype( std20::move( static_cast<moved const &>( a ) ) ), moved const && ), "move() keeps const" );
    std20::swap( a, b );
    vc_assert( a.v == y, "swap: first has the second's value" );
    vc_assert( b.v == x, "swap: second has the first's value" );
    vc_assert( a.how == 2, "swap moves" );
    vc_assert( b.how == 2, "swap moves" );
    moved c( std20::move( a ) );
    vc_assert( c.v == y, "moved-to has the value" );
    vc_assert( c.how == 2, "move() selects the move constructor" );
    std20::swap( c, c );
}

VC_HARNESS( ignored )
{
    vc_cover( "reached" );
    std20::ignore i;
    vc_assert( &( i = 3 ) == &i, "anything can be assigned to ignore" );
    vc_assert( &( i = record{ 4 } ) == &i, "a structure too" );
}

// ---------------------------------------------------------------- complex

using cx = std20::complex<real>;

static void is( cx const & z, real re, real im, char const * n ) { vc_same( z.real(), re, n ); vc_same( z.imag(), im, n ); }

VC_HARNESS( complex_parts )
{
    real const a = vc_any<real>(), b = vc_any<real>(), c = vc_any<real>(), d = vc_any<real>(); vc_cover( "any numbers" );
    is( cx(), 0, 0, "default: zero" );
    is( cx( a ), a, 0, "of a real number" );
    is( cx( a, b ), a, b, "of two parts" );
    cx z( a, b ), w( c, d ), v( z );
    is( v, a, b, "copy" );
    z.real( c ); is( z, c, b, "real( v ) sets the real part only" );
    z.imag( d ); is( z, c, d, "imag( v ) sets the imaginary part only" );
    vc_assert( &( z = a ) == &z, "assignment yields the object" );
    is( z, a, 0, "assigned a real number" );
    vc_assert( &( z = w ) == &z, "assignment yields the object" );
    is( z, c, d, "assigned a complex number" );
    is( w, c, d, "the source of an assignment is unchanged" );
    z = z; is( z, c, d, "assigned to itself" );
    std20::complex<float> const f( 0.5f, -2.0f );
    is( cx( f ), 0.5, -2.0, "converted" );
    vc_assert( &( z = f ) == &z, "assignment of another precision yields the object" );
    is( z, 0.5, -2.0, "assigned one of another precision" );
}

VC_HARNESS( complex_compound_real )
{
    real const a = vc_any<real>(), b = vc_any<real>(), x = vc_any<real>(); vc_cover( "any numbers" );
    cx z( a, b );
    vc_assert( &( z += x ) == &z, "+= yields the object" ); is( z, a + x, b, "+= real" );
    z = cx( a, b ); vc_assert( &( z -= x ) == &z, "-= yields the object" ); is( z, a - x, b, "-= real" );
    z = cx( a, b ); vc_assert( &( z *= x ) == &z, "*= yields the object" ); is( z, a * x, b * x, "*= real" );
    vc_assume( x != 0 );
    z = cx( a, b ); vc_assert( &( z /= x ) == &z, "/= yields the object" ); is( z, a / x, b / x, "/= real" );
}

VC_HARNESS( complex_compound )
{
    real const a = vc_any<real>(), b = vc_any<real>(), c = vc_any<real>(), d = vc_any<real>(); vc_cover( "any numbers" );
    cx const w( c, d );
    cx z( a, b );
    vc_assert( &( z += w ) == &z, "+= yields the object" ); is( z, a + c, b + d, "+=" );
    z = cx( a, b ); vc_assert( &( z -= w ) == &z, "-= yields the object" ); is( z, a - c, b - d, "-=" );
    z = cx( a, b ); vc_assert( &( z *= w ) == &z, "*= yields the object" ); is( z, a * c - b * d, a * d + b * c, "*=" );
    z = cx( a, b ); z *= z; is( z, a * a - b * b, 2 * a * b, "z *= z" );
    z = cx( a, b ); z += z; is( z, 2 * a, 2 * b, "z += z" );
    z = cx( a, b ); z -= z; is( z, 0, 0, "z -= z" );
    is( w, c, d, "the right-hand side is unchanged" );
}

VC_HARNESS( complex_quotient )
{
    real const a = vc_any<real>(), b = vc_any<real>(), c = vc_any<real>(), d = vc_any<real>();
    real const n = c * c + d * d;
    vc_assume( n != 0 ); vc_cover( "nonzero divisor" );
    cx const w( c, d );
    cx z( a, b );
    vc_assert( &( z /= w ) == &z, "/= yields the object" ); is( z, ( a * c + b * d ) / n, ( b * c - a * d ) / n, "/=" );
    z = w; z /= z; is( z, 1, 0, "z /= z" );
    is( cx( a, b ) / w, ( a * c + b * d ) / n, ( b * c - a * d ) / n, "z / w" );
    is( a / w, a * c / n, -a * d / n, "x / z" );
    is( w, c, d, "the divisor is unchanged" );
}

VC_HARNESS( complex_binary )
{
    real const a = vc_any<real>(), b = vc_any<real>(), c = vc_any<real>(), d = vc_any<real>(), x = vc_any<real>(); vc_cover( "any numbers" );
    cx const z( a, b ), w( c, d );
    is( z + w, a + c, b + d, "z + w" );
    is( z - w, a - c, b - d, "z - w" );
    is( z * w, a * c - b * d, a * d + b * c, "z * w" );
    is( z + x, a + x, b, "z + x" );
    is( z - x, a - x, b, "z - x" );
    is( z * x, a * x, b * x, "z * x" );
    is( x + z, x + a, b, "x + z" );
    is( x - z, x - a, -b, "x - z" );
    is( x * z, x * a, x * b, "x * z" );
    is( +z, a, b, "+z" );
    is( -z, -a, -b, "-z" );
    is( z, a, b, "operands are unchanged" ); is( w, c, d, "operands are unchanged" );
    vc_assume( x != 0 );
    is( z / x, a / x, b / x, "z / x" );
}
