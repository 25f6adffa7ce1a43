#ifndef MCU_COMMON_HPP
#define MCU_COMMON_HPP
#include "vc.hpp"
#include "mcu/register.hpp"

// Device memory as the program sees it: registers hold what was written last; every access is recorded in order.
enum { ev_read = 1, ev_write = 2, ev_cli = 3, ev_sei = 4 };

template< typename T > T held( int32_t a )
{
    T v = static_cast<uint8_t>( vc_mmio_get( a ) );
    if ( sizeof( T ) == 2 ) v = static_cast<T>( v | static_cast<T>( static_cast<T>( static_cast<uint8_t>( vc_mmio_get( a + 1 ) ) ) << 8 ) );
    return v;
}
template< typename T > T hold( int32_t a, T v )
{
    vc_mmio_set( a, v & 0xff );
    if ( sizeof( T ) == 2 ) vc_mmio_set( a + 1, ( v >> 8 ) & 0xff );
    return v;
}
template< typename T > T hold_any( int32_t a ) { return hold<T>( a, vc_any<T>() ); }     // any content

inline int32_t writes()
{
    int32_t n = 0, k = vc_ev_count();
    for ( int32_t i = 0; i < k; ++i ) if ( vc_ev_kind( i ) == ev_write ) ++n;
    return n;
}
inline void only( int32_t a, int32_t size, char const * name )           // no other register is read or written
{
    int32_t k = vc_ev_count();
    for ( int32_t i = 0; i < k; ++i )
        if ( vc_ev_kind( i ) == ev_write || vc_ev_kind( i ) == ev_read ) { bool in = vc_ev_addr( i ) >= a && vc_ev_addr( i ) + vc_ev_size( i ) <= a + size; vc_assert( in, name ); }
}
inline void begin() { vc_ev_clear(); }
// one write access, of this register, leaving it with that value
template< typename T > void wrote( int32_t a, T v, char const * name )
{
    vc_same( writes(), int32_t( 1 ), "one write access" );
    only( a, sizeof( T ), "no other register is touched" );
    vc_same( held<T>( a ), v, name );
    vc_ev_clear();
}
template< typename T > void untouched( int32_t a, T v, char const * name )
{
    vc_same( writes(), int32_t( 0 ), "nothing is written" );
    only( a, sizeof( T ), "no other register is touched" );
    vc_same( held<T>( a ), v, name );
    vc_ev_clear();
}
template< typename T > constexpr T mask_of( int hi, int lo ) { return static_cast<T>( ( ( uint32_t( 1 ) << ( hi - lo + 1 ) ) - 1 ) << lo ); }
#endif
