// G01 bit fields, G02 lazy writes, G03 atomic access
//@ .*: native=2000 budget=120
#include "mcu_common.hpp"
using namespace mcu;

enum { addr = 0x50 };

// ---- G01
template< typename T, int hi, int lo, typename F = bitfield_t< T, rw_t, addr, hi, lo > > void field_rw()
{
    T const m = mask_of<T>( hi, lo );
    T before = hold_any<T>( addr ), v = vc_any<T>();
    begin();
    vc_same( static_cast<T>( F::read() ), static_cast<T>( ( before & m ) >> lo ), "read() gives the field's value" ); untouched<T>( addr, before, "reading changes nothing" );
    T want = hi == lo ? ( v ? before | m : before & ~m ) : ( before & ~m ) | ( ( v << lo ) & m );
    F::write( v ); wrote<T>( addr, want, "write() changes the field's bits, and no others" );
    vc_same( static_cast<T>( F::read() ), static_cast<T>( ( want & m ) >> lo ), "reads back" ); vc_ev_clear();
    if ( hi == lo )
    {
        hold<T>( addr, before ); F::set();    wrote<T>( addr, before | m, "set() sets the bit, and no other" );
        hold<T>( addr, before ); F::clear();  wrote<T>( addr, before & ~m, "clear() clears the bit, and no other" );
        hold<T>( addr, before ); F::toggle(); wrote<T>( addr, before ^ m, "toggle() inverts the bit, and no other" );
    }
}
template< typename T, int hi, int lo > void fields()
{
    field_rw<T,hi,lo>();
    if constexpr ( lo > 0 ) fields<T,hi,lo-1>();
}
#define X(hi) VC_HARNESS( field8_##hi ) { vc_cover( "any content" ); fields<uint8_t,hi,hi>(); }
X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7)
#undef X
#define X(hi) VC_HARNESS( field16_##hi ) { vc_cover( "any content" ); fields<uint16_t,hi,hi>(); }
X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15)
#undef X

VC_HARNESS( field_names )            // the library's shorter names
{
    vc_cover( "any content" );
    field_rw< uint8_t, 7, 0, register8_t< rw_t, addr > >(); field_rw< uint16_t, 15, 0, register16_t< rw_t, addr > >(); field_rw< uint8_t, 7, 0, mcu::register_t< uint8_t, rw_t, addr > >(); field_rw< uint16_t, 15, 0, mcu::register_t< uint16_t, rw_t, addr > >();
    field_rw< uint8_t, 6, 2, bitfield8_t< rw_t, addr, 6, 2 > >(); field_rw< uint8_t, 5, 5, bitfield8_t< rw_t, addr, 5 > >(); field_rw< uint8_t, 7, 0, bitfield8_t< rw_t, addr, 7, 0 > >();
    field_rw< uint16_t, 12, 3, bitfield16_t< rw_t, addr, 12, 3 > >(); field_rw< uint16_t, 9, 9, bitfield16_t< rw_t, addr, 9 > >(); field_rw< uint16_t, 15, 0, bitfield16_t< rw_t, addr, 15, 0 > >();
    field_rw< uint16_t, 15, 15, bitfield16_t< rw_t, addr, 15 > >(); field_rw< uint8_t, 7, 7, bitfield_t< uint8_t, rw_t, addr, 7 > >();
    uint16_t x = hold_any<uint16_t>( addr ); begin();
    vc_same( static_cast<uint8_t>( register8_t< r_t, addr >::read() ), static_cast<uint8_t>( x ), "a register to read only" ); vc_same( static_cast<uint16_t>( register16_t< r_t, addr >::read() ), x, "a register to read only" ); untouched<uint16_t>( addr, x, "reading changes nothing" );
    register8_t< w_t, addr >::write( uint8_t( x >> 8 ) ); wrote<uint8_t>( addr, uint8_t( x >> 8 ), "a register to write only" ); register16_t< w_t, addr >::write( x ); wrote<uint16_t>( addr, x, "a register to write only" );
}

template< typename T > void policies()
{
    T before = hold_any<T>( addr ), v = vc_any<T>();
    begin();
    T const b4 = mask_of<T>( 4, 4 ), b53 = mask_of<T>( 5, 3 ), all = static_cast<T>( ~T( 0 ) ); constexpr int top = 8 * sizeof( T ) - 1;
    using R = bitfield_t<T,r_t,addr,5,3>; using R1 = bitfield_t<T,r_t,addr,4>; using RA = bitfield_t<T,r_t,addr,top,0>;
    vc_same( static_cast<T>( R::read() ), static_cast<T>( ( before & b53 ) >> 3 ), "read-only field" ); vc_same( static_cast<T>( R1::read() ), static_cast<T>( ( before & b4 ) >> 4 ), "read-only bit" );
    vc_same( static_cast<T>( RA::read() ), before, "read-only register" ); untouched<T>( addr, before, "reading changes nothing" );
    using W = bitfield_t<T,w_t,addr,5,3>; using W1 = bitfield_t<T,w_t,addr,4>; using WA = bitfield_t<T,w_t,addr,top,0>;
    W::write( v ); wrote<T>( addr, ( before & ~b53 ) | ( ( v << 3 ) & b53 ), "write-only field" );
    hold<T>( addr, before ); W1::set(); wrote<T>( addr, before | b4, "write-only bit, set" ); hold<T>( addr, before ); W1::clear(); wrote<T>( addr, before & ~b4, "write-only bit, clear" );
    hold<T>( addr, before ); WA::write( v ); vc_same( vc_ev_count(), int32_t( 1 ), "a whole register is written without reading it" ); wrote<T>( addr, v, "write-only register" );
    using C0 = bitfield_t<T,rc_w0_t,addr,4>; using C1 = bitfield_t<T,rc_w1_t,addr,4>; using S = bitfield_t<T,rs_t,addr,4>; using G = bitfield_t<T,rt_w,addr,4>; using CR = bitfield_t<T,rc_r_t,addr,4>;
    hold<T>( addr, before ); begin();
    vc_same( static_cast<T>( C0::read() ), static_cast<T>( ( before & b4 ) >> 4 ), "read the bit" ); vc_same( static_cast<T>( C1::read() ), static_cast<T>( ( before & b4 ) >> 4 ), "read the bit" );
    vc_same( static_cast<T>( S::read() ), static_cast<T>( ( before & b4 ) >> 4 ), "read the bit" ); vc_same( static_cast<T>( G::read() ), static_cast<T>( ( before & b4 ) >> 4 ), "read the bit" );
    vc_same( static_cast<T>( CR::read() ), static_cast<T>( ( before & b4 ) >> 4 ), "read the bit" ); untouched<T>( addr, before, "reading changes nothing" );
    C0::clear(); wrote<T>( addr, before & ~b4, "cleared by writing 0 to the bit, and to no other" );
    hold<T>( addr, before ); C1::clear(); wrote<T>( addr, before | b4, "cleared by writing 1 to the bit; other bits are written as they are" );
    hold<T>( addr, before ); S::set(); wrote<T>( addr, before | b4, "set by writing 1 to the bit; other bits are written as they are" );
    hold<T>( addr, before ); G::trigger(); wrote<T>( addr, before | b4, "triggered by writing 1 to the bit; other bits are written as they are" );
    (void) all;
}
VC_HARNESS( policies8 ) { vc_cover( "any content" ); policies<uint8_t>(); }
VC_HARNESS( policies16 ) { vc_cover( "any content" ); policies<uint16_t>(); }

enum class e8 : uint8_t {}; enum class e16 : uint16_t {};
VC_HARNESS( field_enumeration )
{
    using A = mcu::register_t<e8,rw_t,addr>; using B = mcu::register_t<e16,rw_t,addr>;
    hold_any<uint16_t>( addr ); uint16_t x = held<uint16_t>( addr ); vc_cover( "any content" ); begin();
    vc_same( static_cast<uint8_t>( A::read() ), static_cast<uint8_t>( x ), "register of a type of one's own" ); vc_same( static_cast<uint16_t>( B::read() ), x, "register of a type of one's own" );
    untouched<uint16_t>( addr, x, "reading changes nothing" );
    uint8_t v = vc_any<uint8_t>(); A::write( e8( v ) ); wrote<uint8_t>( addr, v, "write" );
    uint16_t w = vc_any<uint16_t>(); B::write( e16( w ) ); wrote<uint16_t>( addr, w, "write" );
}
VC_HARNESS( field_mutability )
{
    using M = mcu::Mutability; vc_cover( "all kinds of bit" );
    M const all[] = { M::rw, M::r, M::w, M::rc_w1, M::rc_w0, M::rc_r, M::rs, M::rt_w };
    for ( M m : all )
    {
        bool clears = m == M::rc_w0 || m == M::rc_w1, bits = clears || m == M::rs || m == M::rc_r || m == M::rt_w;
        vc_assert( mcu::can_read( m ) == ( m != M::w ), "all but write-only bits can be read" );
        if ( m != M::rt_w ) vc_assert( mcu::can_write( m ) == ( m != M::r ? m != M::rc_r : false ), "all but bits to read can be written" );
        vc_assert( mcu::can_only_set_or_clear( m ) == ( clears ? true : m == M::rs ), "bits that writing only sets, or only clears" );
        vc_assert( mcu::is_for_bits_only( m ) == bits, "special mutability is of bits" ); vc_assert( mcu::is_clear( m ) == clears, "bits that writing clears" );
    }
    vc_assert( rw_t<uint8_t>::mutability == M::rw, "rw_t" ); vc_assert( r_t<uint8_t>::mutability == M::r, "r_t" ); vc_assert( w_t<uint8_t>::mutability == M::w, "w_t" );
    vc_assert( rc_w1_t<uint8_t>::mutability == M::rc_w1, "rc_w1_t" ); vc_assert( rc_w0_t<uint8_t>::mutability == M::rc_w0, "rc_w0_t" ); vc_assert( rc_r_t<uint8_t>::mutability == M::rc_r, "rc_r_t" );
    vc_assert( rs_t<uint8_t>::mutability == M::rs, "rs_t" ); vc_assert( rt_w<uint8_t>::mutability == M::rt_w, "rt_w" );
}
VC_HARNESS( field_masks )
{
    vc_cover( "all bits" );
    for ( int h = 0; h < 8; ++h ) for ( int l = 0; l <= h; ++l )
    {
        vc_same( rngmask<uint8_t>( h, l ), mask_of<uint8_t>( h, l ), "rngmask" ); vc_same( rngmask_n<uint8_t>( h, l ), static_cast<uint8_t>( ~mask_of<uint8_t>( h, l ) ), "rngmask_n" );
        vc_same( bitmask<uint8_t>( h, l ), static_cast<uint8_t>( ( 1 << h ) | ( 1 << l ) ), "bitmask" ); vc_same( bitmask_n<uint8_t>( h, l ), static_cast<uint8_t>( ~( ( 1 << h ) | ( 1 << l ) ) ), "bitmask_n" );
    }
    for ( int h = 0; h < 16; ++h ) { vc_same( rngmask<uint16_t>( h, 0 ), mask_of<uint16_t>( h, 0 ), "rngmask" ); vc_same( bitmask<uint16_t>( h ), mask_of<uint16_t>( h, h ), "bitmask" );
        vc_same( rngmask_n<uint16_t>( 15, h ), static_cast<uint16_t>( ~mask_of<uint16_t>( 15, h ) ), "rngmask_n" ); }
    vc_same( static_cast<int32_t>( bits<uint8_t>() ), int32_t( 8 ), "bits" ); vc_same( static_cast<int32_t>( bits<uint16_t>() ), int32_t( 16 ), "bits" );
    uint8_t v = vc_any<uint8_t>(); uint16_t w = vc_any<uint16_t>();
    for ( int n = 0; n < 8; ++n ) { vc_same( shl<uint8_t>( v, n ), static_cast<uint8_t>( v << n ), "shl" ); vc_same( shr<uint8_t>( v, n ), static_cast<uint8_t>( v >> n ), "shr" );
        vc_same( shl<uint16_t>( w, n ), static_cast<uint16_t>( w << n ), "shl" ); vc_same( shr<uint16_t>( w, n ), static_cast<uint16_t>( w >> n ), "shr" ); }
}

// ---- G02
template< typename T, int h1, int l1, int h2, int l2, int h3, int l3 > void lazy()
{
    using A = bitfield_t<T,rw_t,addr,h1,l1>; using B = bitfield_t<T,rw_t,addr,h2,l2>; using C = bitfield_t<T,rw_t,addr,h3,l3>;
    T const ma = mask_of<T>( h1, l1 ), mb = mask_of<T>( h2, l2 ), mc = mask_of<T>( h3, l3 );
    T before = hold_any<T>( addr ), a = vc_any<T>(), b = vc_any<T>(), c = vc_any<T>();
    T const fa = ( a << l1 ) & ma, fb = ( b << l2 ) & mb, fc = ( c << l3 ) & mc;
    if ( h1 == l1 ) vc_assume( a <= 1 ); if ( h2 == l2 ) vc_assume( b <= 1 ); if ( h3 == l3 ) vc_assume( c <= 1 );    // a bit is 0 or 1; a field takes the value's low bits
    vc_cover( "any content and values" ); begin();
    A::write_lazy( a ); wrote<T>( addr, ( before & ~ma ) | fa, "a lazy write takes place at the end of its statement" );
    hold<T>( addr, before ); A::write_lazy( a ), B::write_lazy( b ); wrote<T>( addr, ( before & ~( ma | mb ) ) | fa | fb, "two lazy writes combine: each its own field, one access" );
    hold<T>( addr, before ); A::write_lazy( a ), B::write_lazy( b ), C::write_lazy( c ); wrote<T>( addr, ( before & ~( ma | mb | mc ) ) | fa | fb | fc, "three lazy writes combine" );
    hold<T>( addr, before ); A::write_lazy( a ), ( B::write_lazy( b ), C::write_lazy( c ) ); wrote<T>( addr, ( before & ~( ma | mb | mc ) ) | fa | fb | fc, "three lazy writes combine, in any grouping" );
    hold<T>( addr, before ); C::write_lazy( c ), A::write_lazy( a ), B::write_lazy( b ); wrote<T>( addr, ( before & ~( ma | mb | mc ) ) | fa | fb | fc, "three lazy writes combine, in any order" );
    hold<T>( addr, before );
    { auto p = A::write_lazy( a ); p.discard(); }
    untouched<T>( addr, before, "a discarded write does not take place" );
    T then = vc_any<T>();
    { auto p = A::write_lazy( a ); untouched<T>( addr, before, "not before the end of its life" ); hold<T>( addr, then ); }
    wrote<T>( addr, ( then & ~ma ) | fa, "other bits keep the value they have when the write takes place" );
}
VC_HARNESS( lazy_8_bits ) { lazy<uint8_t,7,7,4,4,0,0>(); }
VC_HARNESS( lazy_8_fields ) { lazy<uint8_t,7,5,4,4,3,0>(); }
VC_HARNESS( lazy_8_adjacent ) { lazy<uint8_t,7,6,5,4,2,1>(); }
VC_HARNESS( lazy_8_reverse ) { lazy<uint8_t,1,0,3,2,7,6>(); }
VC_HARNESS( lazy_16_fields ) { lazy<uint16_t,15,9,8,8,5,2>(); }
VC_HARNESS( lazy_16_reverse ) { lazy<uint16_t,4,0,12,5,15,13>(); }

VC_HARNESS( lazy_bit_overflow )
{
    using A = bitfield8_t<rw_t,addr,4>; using B = bitfield8_t<rw_t,addr,7,6>;
    uint8_t before = hold_any<uint8_t>( addr ), v = vc_any<uint8_t>(), w = vc_any<uint8_t>(); vc_cover( "any values" ); begin();
    A::write_lazy( v ), B::write_lazy( w );
    vc_same( static_cast<uint8_t>( held<uint8_t>( addr ) & 0xef ), static_cast<uint8_t>( ( before & 0x2f ) | ( ( w << 6 ) & 0xc0 ) ), "a value too large for its bit does not spill into other fields" );
}

// ---- G03
static int32_t last_kind() { return vc_ev_count() ? vc_ev_kind( vc_ev_count() - 1 ) : 0; }
struct wide                                             // an object larger than a byte that knows when it is copied
{
    uint16_t v;
    wide( uint16_t x = 0 ) : v( x ) {}
    wide( wide const & o ) : v( o.v ) { vc_same( last_kind(), int32_t( ev_cli ), "copied with interrupts off" ); }
    wide & operator=( wide const & o ) { vc_same( last_kind(), int32_t( ev_cli ), "assigned with interrupts off" ); v = o.v; return *this; }
};
static void guarded( char const * name ) { vc_same( vc_ev_count(), int32_t( 2 ), name ); vc_same( vc_ev_kind( 0 ), int32_t( ev_cli ), name ); vc_same( vc_ev_kind( 1 ), int32_t( ev_sei ), name ); vc_ev_clear(); }
VC_HARNESS( atomic_objects )
{
    wide a( vc_any<uint16_t>() ), b; vc_cover( "any value" ); begin();
    uint16_t r = atomic( a ).v; vc_same( r, a.v, "the value" ); guarded( "interrupts off before, on after" );
    wide & c = b; uint16_t x = vc_any<uint16_t>();
    atomic( c, x ); vc_same( b.v, x, "the value" ); guarded( "interrupts off before, on after" );
    uint16_t p = vc_any<uint16_t>(), q = vc_any<uint16_t>(); uint32_t w = vc_any<uint32_t>(), z = vc_any<uint32_t>();
    vc_same( atomic( p ), p, "the value" ); guarded( "16 bits" ); atomic( p, q ); vc_same( p, q, "the value" ); guarded( "16 bits" );
    vc_same( atomic( w ), w, "the value" ); guarded( "32 bits" ); atomic( w, z ); vc_same( w, z, "the value" ); guarded( "32 bits" );
    uint8_t s = vc_any<uint8_t>(), t = vc_any<uint8_t>();
    vc_same( atomic( s ), s, "a byte" ); vc_same( vc_ev_count(), int32_t( 0 ), "a byte is read plainly" ); atomic( s, t ); vc_same( s, t, "a byte" ); vc_same( vc_ev_count(), int32_t( 0 ), "a byte is written plainly" );
    bool f = vc_any<bool>(), g = vc_any<bool>(); vc_same( atomic( f ), f, "a byte" ); atomic( f, g ); vc_same( f, g, "a byte" ); vc_same( vc_ev_count(), int32_t( 0 ), "a byte is accessed plainly" );
    uint8_t u = vc_any<uint8_t>(); int k = vc_any<uint8_t>(); atomic( u, k ); vc_same( static_cast<int32_t>( u ), static_cast<int32_t>( k ), "a byte" ); vc_same( vc_ev_count(), int32_t( 0 ), "the object's width counts" );
    uint16_t h = vc_any<uint16_t>(); atomic( h, t ); vc_same( h, static_cast<uint16_t>( t ), "the value" ); guarded( "the object's width counts" );
}
VC_HARNESS( atomic_registers )
{
    uint16_t before = hold_any<uint16_t>( addr ), v = vc_any<uint16_t>(); vc_cover( "any value" ); begin();
    auto & reg = *to_pointer<uint16_t>( addr );
    vc_same( static_cast<uint16_t>( atomic( reg ) ), before, "the register's value" );
    int32_t n = vc_ev_count(); vc_same( vc_ev_kind( 0 ), int32_t( ev_cli ), "interrupts off first" ); vc_same( vc_ev_kind( n - 1 ), int32_t( ev_sei ), "interrupts on last" );
    int32_t reads = 0; for ( int32_t i = 1; i < n - 1; ++i ) { vc_same( vc_ev_kind( i ), int32_t( ev_read ), "read in between" ); reads += vc_ev_size( i ); }
    vc_same( reads, int32_t( 2 ), "read once" ); begin();
    atomic( reg, v ); n = vc_ev_count(); vc_same( held<uint16_t>( addr ), v, "the register is written" );
    vc_same( vc_ev_kind( 0 ), int32_t( ev_cli ), "interrupts off first" ); vc_same( vc_ev_kind( n - 1 ), int32_t( ev_sei ), "interrupts on last" ); vc_same( writes(), int32_t( 1 ), "written once" );
    only( addr, 2, "no other register is touched" );
}
VC_HARNESS( atomic_guard )
{
    hold_any<uint8_t>( addr ); vc_cover( "any value" ); begin();
    { scoped_interrupt_guard g; vc_same( last_kind(), int32_t( ev_cli ), "off on construction" ); bitfield8_t<rw_t,addr,3>::set(); vc_same( last_kind(), int32_t( ev_write ), "in force while the guard lives" ); }
    vc_same( last_kind(), int32_t( ev_sei ), "on again at the end of its life" );
}
