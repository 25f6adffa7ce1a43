// Specification vocabulary.  The same driver text is used twice:
//  - compiled by clang to LLVM IR and handed to the verifier (irvc), which gives the vc_* functions
//    their logical meaning (any value / assume / prove), and
//  - compiled natively with -DVC_NATIVE, where vc_any_* are concrete inputs, to replay a
//    counterexample against the real code.
#ifndef VC_HPP
#define VC_HPP

#if !defined(__AVR) || defined(VC_NATIVE)
#include <cstdint>
#include <cstddef>
#else
#include <stdint.h>
#include <stddef.h>
#endif

extern "C" {
int8_t  vc_any_i8();
int16_t vc_any_i16();
int32_t vc_any_i32();
int64_t vc_any_i64();
bool    vc_any_bool();
double  vc_any_double();
float   vc_any_float();
int32_t vc_choose( int32_t n );             // every value of [0,n), one path each
void    vc_assume( bool c );
void    vc_requires( bool c, char const * name );
void    vc_ensures( bool c, char const * name );
void    vc_assert( bool c, char const * name );
void    vc_eq_d( double a, double b, char const * name );
void    vc_eq_f( float a, float b, char const * name );
void    vc_eq_i( int64_t a, int64_t b, char const * name );
void    vc_cover( char const * name );      // this point must be reachable (precondition not vacuous)
void    vc_havoc( void * p, size_t n );      // any bytes at all
void    vc_generalize( void * p, size_t n ); // forget how the values stored here came about: equal values stay equal, inputs stay inputs
bool    vc_is_native();
int32_t vc_loop_visit();                     // loop cuts, see irvc/sym.py: 0 first time here, 1 cut here, 2 back again
void    vc_loop_hint( int64_t v );
void    vc_loop_cut();
void    vc_loop_settle();
void    vc_loop_back();

int32_t vc_ev_count();
int32_t vc_ev_kind( int32_t i );            // 1 read, 2 write, 3 cli, 4 sei
int32_t vc_ev_addr( int32_t i );
int32_t vc_ev_size( int32_t i );
int32_t vc_ev_val( int32_t i );
void    vc_ev_clear();
void    vc_text_same( int32_t i, int32_t j, char const * name );   // what was inserted in vc_out(i) and vc_out(j) is the same text, of the same values
void    vc_mmio_set( int32_t addr, int32_t v );
int32_t vc_mmio_get( int32_t addr );
void    vc_mmio_poll( int32_t addr );       // the device changes this register by itself: every read gives any value (successive reads are recorded as one, the last)
}

#ifdef VC_NATIVE
# include "vc_native.hpp"
# define VC_HARNESS( name ) \
    extern "C" void vc_h_##name(); static vcn::reg vc_reg_##name( #name, &vc_h_##name ); extern "C" void vc_h_##name()
#else
# define VC_HARNESS( name ) extern "C" void vc_h_##name()
#endif

// The mathematical reals of the specifications.  The code under verification is instantiated with double for
// the verifier, and with long double for a native replay, which keeps rounding noise away from the comparison.
#ifdef VC_NATIVE
# ifdef VC_QUAD                             // for code that needs no library functions
typedef __float128 real;
typedef __float128 realf;
# else
typedef long double real;
typedef long double realf;
# endif
#else
typedef double real;
typedef float  realf;
#endif

// a denominator the contract requires to be nonzero (a native replay keeps clear of near misses)
template< typename T > inline void vc_nonzero( T x )
{
#ifdef VC_NATIVE
    vc_assume( x > T(1e-4) || x < T(-1e-4) );
#else
    vc_assume( x != 0 );
#endif
}
template< typename T > inline bool vc_is_zero( T x )
{
#ifdef VC_NATIVE
    if ( x != 0 ) vc_nonzero( x );
#endif
    return x == 0;
}

// contract of a function of the code under verification:
// vc_target_NAME calls it (overload resolution by the compiler), vc_spec_NAME states its result.
#define VC_CONTRACT( NAME, R, PARAMS, ... ) \
    extern "C" R vc_target_##NAME PARAMS { return __VA_ARGS__; } \
    extern "C" R vc_spec_##NAME PARAMS

#define VC_VERIFY( NAME )  VC_HARNESS( contract_##NAME )

// a lemma is proved once, on its own; applying it proves its hypotheses and assumes its conclusions
#define VC_LEMMA( NAME )   extern "C" void vc_lemma_##NAME
#ifdef VC_NATIVE
# define VC_APPLY( NAME, ... )
#else
# define VC_APPLY( NAME, ... )  vc_lemma_##NAME( __VA_ARGS__ )
#endif

template< typename T > struct vc_gen;
template<> struct vc_gen<double>   { static double   any() { return vc_any_double(); } };
#ifdef VC_NATIVE
template<> struct vc_gen<long double> { static long double any() { return vc_any_double(); } };
#ifdef VC_QUAD
template<> struct vc_gen<__float128> { static __float128 any() { return vc_any_double(); } };
inline void vc_same( __float128 a, __float128 b, char const * n ) { vcn::closeq( a, b, n ); }
#endif
inline void vc_same( long double a, long double b, char const * n ) { vcn::close( a, b, n, 1e-6L ); }
#endif
template<> struct vc_gen<float>    { static float    any() { return vc_any_float();  } };
template<> struct vc_gen<int8_t>   { static int8_t   any() { return vc_any_i8();  } };
template<> struct vc_gen<int16_t>  { static int16_t  any() { return vc_any_i16(); } };
template<> struct vc_gen<int32_t>  { static int32_t  any() { return vc_any_i32(); } };
template<> struct vc_gen<int64_t>  { static int64_t  any() { return vc_any_i64(); } };
template<> struct vc_gen<uint8_t>  { static uint8_t  any() { return static_cast<uint8_t >( vc_any_i8()  ); } };
template<> struct vc_gen<uint16_t> { static uint16_t any() { return static_cast<uint16_t>( vc_any_i16() ); } };
template<> struct vc_gen<uint32_t> { static uint32_t any() { return static_cast<uint32_t>( vc_any_i32() ); } };
template<> struct vc_gen<uint64_t> { static uint64_t any() { return static_cast<uint64_t>( vc_any_i64() ); } };
template<> struct vc_gen<bool>     { static bool     any() { return vc_any_bool(); } };

template< typename T > T vc_any() { return vc_gen<T>::any(); }

template< typename T > T vc_in( T lo, T hi )
{
#ifdef VC_NATIVE
    return vcn::in( lo, hi );
#else
    T v = vc_any<T>();
    vc_assume( lo <= v );
    vc_assume( v <= hi );
    return v;
#endif
}

template< typename T > constexpr T vc_pi = T( 3.141592653589793238462643383279502884L );

// x >= 0 over the reals
template< typename T > inline void vc_nonneg( T x, T scale, char const * n )
{
#ifdef VC_NATIVE
    vc_assert( x >= -1e-9L * ( 1 + scale * scale ), n );
#else
    vc_assert( x >= 0, n );
#endif
}
inline void vc_same( double a, double b, char const * n )   { vc_eq_d( a, b, n ); }
inline void vc_same( float a, float b, char const * n )     { vc_eq_f( a, b, n ); }
// the same floating-point number (harnesses with IEEE arithmetic)
template< typename T > inline void vc_bits( T a, T b, char const * n )
{
#ifdef VC_NATIVE
    if ( a == a || b == b ) vc_assert( a == b, n );
#else
    vc_same( a, b, n );
#endif
}
inline void vc_same( int8_t a, int8_t b, char const * n )   { vc_eq_i( a, b, n ); }
inline void vc_same( int16_t a, int16_t b, char const * n ) { vc_eq_i( a, b, n ); }
inline void vc_same( int32_t a, int32_t b, char const * n ) { vc_eq_i( a, b, n ); }
inline void vc_same( int64_t a, int64_t b, char const * n ) { vc_eq_i( a, b, n ); }
inline void vc_same( uint8_t a, uint8_t b, char const * n )   { vc_eq_i( a, b, n ); }
inline void vc_same( uint16_t a, uint16_t b, char const * n ) { vc_eq_i( a, b, n ); }
inline void vc_same( uint32_t a, uint32_t b, char const * n ) { vc_eq_i( a, b, n ); }
inline void vc_same( uint64_t a, uint64_t b, char const * n ) { vc_eq_i( static_cast<int64_t>(a), static_cast<int64_t>(b), n ); }
inline void vc_same( bool a, bool b, char const * n )         { vc_eq_i( a, b, n ); }

#endif
