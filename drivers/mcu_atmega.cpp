// G04 peripheral settings, G05 interrupt flags and strobes, G06 two-wire interface, G07 pins, LED, PWM, SREG
//@ .*: native=2000 budget=120
#include "mcu_common.hpp"
#include "mcu/atmega328.hpp"
using namespace mcu::atmega328;
using mcu::atmega328::gpio;

// The oracle is avr-libc's description of the device: register and bit names.
#define REG( r ) static_cast<int32_t>( reinterpret_cast<uintptr_t>( &( r ) ) )

static bool same_kind( int32_t k ) { return k == ev_read || k == ev_write; }

template< typename E > void means( E e, int v ) { vc_same( static_cast<int32_t>( e ), int32_t( v ), "the device's code for the setting" ); }
template< typename E > auto means_switch( int ) -> decltype( E::off, E::on, void() ) { means( E::off, 0 ); means( E::on, 1 ); }
template< typename E > void means_switch( long ) {}

// a setting of type E lives in bits hi..lo of a register: set() changes these and no others, current() reports them
template< typename E > void setting( int32_t addr, int hi, int lo )
{
    means_switch<E>( 0 );
    uint8_t const m = mask_of<uint8_t>( hi, lo );
    uint8_t before = hold_any<uint8_t>( addr ), v = vc_any<uint8_t>();
    vc_assume( v <= static_cast<uint8_t>( m >> lo ) );
    begin();
    vc_same( static_cast<uint8_t>( current( E{} ) ), static_cast<uint8_t>( ( before & m ) >> lo ), "current() reports the setting" );
    untouched<uint8_t>( addr, before, "reporting changes nothing" );
    set( E( v ) ); wrote<uint8_t>( addr, ( before & ~m ) | ( v << lo ), "set() changes the setting and nothing else" );
    vc_same( static_cast<uint8_t>( current( E{} ) ), v, "current() reports what was set" );
}
// a setting that fills a register
template< typename E > struct by_name { static auto get() { return current( E{} ); } static void put( E e ) { set( e ); } };
template<> struct by_name<mem::eeprom::data>    { static auto get() { return mem::eeprom::current( mem::eeprom::data{} ); }    static void put( mem::eeprom::data e ) { mem::eeprom::set( e ); } };
template<> struct by_name<mem::eeprom::address> { static auto get() { return mem::eeprom::current( mem::eeprom::address{} ); } static void put( mem::eeprom::address e ) { mem::eeprom::set( e ); } };
template< typename E, typename T > void value( int32_t addr )
{
    using N = by_name<E>;
    T before = hold_any<T>( addr ), v = vc_any<T>();
    begin();
    vc_same( static_cast<T>( N::get() ), before, "current() reports the value" ); untouched<T>( addr, before, "reporting changes nothing" );
    N::put( E( v ) ); vc_same( vc_ev_count(), int32_t( 1 ), "written, not read" ); wrote<T>( addr, v, "set() sets the value" );
    vc_same( static_cast<T>( N::get() ), v, "current() reports what was set" );
}
template< typename G, typename S > void on_off( int32_t addr, int bit, G get, S put )
{
    uint8_t const m = mask_of<uint8_t>( bit, bit );
    uint8_t before = hold_any<uint8_t>( addr ); bool on = vc_any<bool>();
    begin();
    vc_same( static_cast<uint8_t>( get() ), static_cast<uint8_t>( before & m ? 1 : 0 ), "reports the bit" ); untouched<uint8_t>( addr, before, "reporting changes nothing" );
    put( on ); wrote<uint8_t>( addr, on ? before | m : before & ~m, "changes the bit and no other" );
}

// ---- G04
VC_HARNESS( settings_eeprom )
{
    vc_cover( "any content" );
    setting<mem::eeprom::program::mode>( REG( EECR ), EEPM1, EEPM0 ); setting<mem::eeprom::enable::read>( REG( EECR ), EERE, EERE );
    setting<mem::eeprom::enable::write>( REG( EECR ), EEPE, EEPE ); setting<mem::eeprom::enable::master_write>( REG( EECR ), EEMPE, EEMPE );
    setting<mem::eeprom::interrupt::on_ready>( REG( EECR ), EERIE, EERIE );
    value<mem::eeprom::data,uint8_t>( REG( EEDR ) ); value<mem::eeprom::address,uint16_t>( REG( EEAR ) );
    using M = mem::eeprom::program::mode; means( M::erase_write, 0 ); means( M::erase_only, 1 ); means( M::write_only, 2 );
}
template< mcu::address_t a > void gp_register( int32_t addr )
{
    using R = mem::gpio<a>; using W = typename R::whole; using B3 = typename R::template bit<3>;
    uint8_t before = hold_any<uint8_t>( addr ), v = vc_any<uint8_t>(); begin();
    vc_same( static_cast<uint8_t>( W::read() ), before, "read" ); W::write( v ); wrote<uint8_t>( addr, v, "write" );
    B3::set(); wrote<uint8_t>( addr, v | 8, "one bit" ); B3::clear(); wrote<uint8_t>( addr, v & ~8, "one bit" );
}
VC_HARNESS( settings_general_purpose ) { vc_cover( "any content" ); gp_register<mem::r0>( REG( GPIOR0 ) ); gp_register<mem::r1>( REG( GPIOR1 ) ); gp_register<mem::r2>( REG( GPIOR2 ) ); }
template< eint i > void sense( int hi, int lo )
{
    uint8_t const m = mask_of<uint8_t>( hi, lo ); int32_t const addr = REG( EICRA );
    uint8_t before = hold_any<uint8_t>( addr ), v = vc_any<uint8_t>(); vc_assume( v <= 3 ); begin();
    vc_same( static_cast<uint8_t>( ei::interrupt_sense<i>() ), static_cast<uint8_t>( ( before & m ) >> lo ), "reports the sense" ); untouched<uint8_t>( addr, before, "reporting changes nothing" );
    ei::interrupt_sense<i>( ei::sense( v ) ); wrote<uint8_t>( addr, ( before & ~m ) | ( v << lo ), "changes the sense and nothing else" );
}
VC_HARNESS( settings_external_interrupt )
{
    vc_cover( "any content" );
    sense<eint::int0>( ISC01, ISC00 ); sense<eint::int1>( ISC11, ISC10 );
    using S = ei::sense; means( S::low, 0 ); means( S::change, 1 ); means( S::falling_edge, 2 ); means( S::rising_edge, 3 );
    on_off( REG( EIMSK ), INT0, []{ return ei::enabled_external_int0(); }, []( bool b ){ ei::enable_external_int0( b ); } );
    on_off( REG( EIMSK ), INT1, []{ return ei::enabled_external_int1(); }, []( bool b ){ ei::enable_external_int1( b ); } );
    on_off( REG( PCICR ), PCIE0, []{ return ei::enabled_pin_change_int0(); }, []( bool b ){ ei::enable_pin_change_int0( b ); } );
    on_off( REG( PCICR ), PCIE1, []{ return ei::enabled_pin_change_int1(); }, []( bool b ){ ei::enable_pin_change_int1( b ); } );
    on_off( REG( PCICR ), PCIE2, []{ return ei::enabled_pin_change_int2(); }, []( bool b ){ ei::enable_pin_change_int2( b ); } );
    uint8_t a = hold_any<uint8_t>( REG( PCMSK0 ) ), b = hold_any<uint8_t>( REG( PCMSK1 ) ), c = hold_any<uint8_t>( REG( PCMSK2 ) ), v = vc_any<uint8_t>(); begin();
    vc_same( ei::pin_change_interrupt_mask0(), a, "mask 0" ); vc_same( ei::pin_change_interrupt_mask1(), b, "mask 1" ); vc_same( ei::pin_change_interrupt_mask2(), c, "mask 2" ); begin();
    ei::pin_change_interrupt_mask0( v ); wrote<uint8_t>( REG( PCMSK0 ), v, "mask 0" ); ei::pin_change_interrupt_mask1( v ); wrote<uint8_t>( REG( PCMSK1 ), v, "mask 1" );
    ei::pin_change_interrupt_mask2( v ); wrote<uint8_t>( REG( PCMSK2 ), v, "mask 2" );
    using B = ei::pcmsk<ei::pcmsk1>::bit<PCINT9>; B::clear(); wrote<uint8_t>( REG( PCMSK1 ), v & ~( 1 << PCINT9 ), "mask 1, one bit" );
}
// the waveform is spread over two registers; what is set together is written together
template< typename E, typename C > void waveform( int32_t a, int32_t b, uint8_t ma, uint8_t mb, int lob, uint8_t top, int cs2, int cs0 )
{
    uint8_t xa = hold_any<uint8_t>( a ), xb = hold_any<uint8_t>( b ), v = vc_any<uint8_t>(), c = vc_any<uint8_t>(); vc_assume( v <= top ); vc_assume( c <= 7 ); begin();
    vc_same( static_cast<uint8_t>( current( E{} ) ), static_cast<uint8_t>( ( xa & ma ) | ( ( ( xb & mb ) >> lob ) << 2 ) ), "current() reports the waveform of both registers" );
    vc_same( writes(), int32_t( 0 ), "reporting changes nothing" ); begin();
    set( E( v ) );
    vc_same( held<uint8_t>( a ), static_cast<uint8_t>( ( xa & ~ma ) | ( v & ma ) ), "low bits of the waveform and nothing else" );
    vc_same( held<uint8_t>( b ), static_cast<uint8_t>( ( xb & ~mb ) | ( ( v >> 2 ) << lob ) ), "high bits of the waveform and nothing else" );
    vc_same( writes(), int32_t( 2 ), "each register is written once" );
    vc_same( static_cast<uint8_t>( current( E{} ) ), v, "current() reports what was set" );
    hold<uint8_t>( a, xa ); hold<uint8_t>( b, xb ); begin();
    set( E( v ) ), set( C( c ) );
    uint8_t const mc = mask_of<uint8_t>( cs2, cs0 );
    vc_same( held<uint8_t>( a ), static_cast<uint8_t>( ( xa & ~ma ) | ( v & ma ) ), "low bits of the waveform and nothing else" );
    vc_same( held<uint8_t>( b ), static_cast<uint8_t>( ( xb & ~mb & ~mc ) | ( ( v >> 2 ) << lob ) | ( c << cs0 ) ), "waveform and clock together, and nothing else" );
    vc_same( writes(), int32_t( 2 ), "each register is written once" );
    int32_t k = vc_ev_count();
    for ( int32_t i = 0; i < k; ++i ) if ( same_kind( vc_ev_kind( i ) ) ) { bool in = vc_ev_addr( i ) == a || vc_ev_addr( i ) == b; vc_assert( in, "no other register is touched" ); }
    begin();
}
VC_HARNESS( settings_timer0 )
{
    vc_cover( "any content" );
    setting<tc0::input::clock>( REG( TCCR0B ), CS02, CS00 ); setting<tc0::output::a::mode>( REG( TCCR0A ), COM0A1, COM0A0 ); setting<tc0::output::b::mode>( REG( TCCR0A ), COM0B1, COM0B0 );
    setting<tc0::enable::interrupt::on::match_a>( REG( TIMSK0 ), OCIE0A, OCIE0A ); setting<tc0::enable::interrupt::on::match_b>( REG( TIMSK0 ), OCIE0B, OCIE0B ); setting<tc0::enable::interrupt::on::overflow>( REG( TIMSK0 ), TOIE0, TOIE0 );
    using C = tc0::input::clock; means( C::none, 0 ); means( C::x1, 1 ); means( C::x8, 2 ); means( C::x64, 3 ); means( C::x256, 4 ); means( C::x1024, 5 ); means( C::ext1_falling_adge, 6 ); means( C::ext1_rising_adge, 7 );
    using A = tc0::output::a::mode; means( A::none, 0 ); means( A::toggle, 1 ); means( A::clear, 2 ); means( A::set, 3 );
    using B = tc0::output::b::mode; means( B::none, 0 ); means( B::toggle, 1 ); means( B::clear, 2 ); means( B::set, 3 );
    using W = tc0::output::waveform; means( W::normal, 0 ); means( W::pwm_phase_correct, 1 ); means( W::ctc, 2 ); means( W::ctc_ocr0a, 2 ); means( W::fast_pwm, 3 ); means( W::pwm_phase_correct_ocr0a, 5 ); means( W::fast_pwm_ocr0a, 7 );
}
VC_HARNESS( settings_timer0_waveform ) { vc_cover( "any content" ); waveform<tc0::output::waveform,tc0::input::clock>( REG( TCCR0A ), REG( TCCR0B ), 1 << WGM01 | 1 << WGM00, 1 << WGM02, WGM02, 7, CS02, CS00 ); }
VC_HARNESS( settings_timer0_values ) { vc_cover( "any content" ); value<tc0::value::timer,uint8_t>( REG( TCNT0 ) ); value<tc0::value::compare::a,uint8_t>( REG( OCR0A ) ); value<tc0::value::compare::b,uint8_t>( REG( OCR0B ) ); }
VC_HARNESS( settings_timer1 )
{
    vc_cover( "any content" );
    setting<tc1::input::clock>( REG( TCCR1B ), CS12, CS10 ); setting<tc1::input::capture::edge>( REG( TCCR1B ), ICES1, ICES1 );
    setting<tc1::output::a::mode>( REG( TCCR1A ), COM1A1, COM1A0 ); setting<tc1::output::b::mode>( REG( TCCR1A ), COM1B1, COM1B0 );
    setting<tc1::enable::interrupt::on::capture>( REG( TIMSK1 ), ICIE1, ICIE1 ); setting<tc1::enable::interrupt::on::match_a>( REG( TIMSK1 ), OCIE1A, OCIE1A );
    setting<tc1::enable::interrupt::on::match_b>( REG( TIMSK1 ), OCIE1B, OCIE1B ); setting<tc1::enable::interrupt::on::overflow>( REG( TIMSK1 ), TOIE1, TOIE1 );
    on_off( REG( TCCR1B ), ICNC1, []{ return tc1::enable::capture::input_capture_noise_canceler(); }, []( bool b ){ tc1::enable::capture::input_capture_noise_canceler( b ); } );
    using C = tc1::input::clock; means( C::none, 0 ); means( C::x1, 1 ); means( C::x8, 2 ); means( C::x64, 3 ); means( C::x256, 4 ); means( C::x1024, 5 ); means( C::ext1_falling_adge, 6 ); means( C::ext1_rising_adge, 7 );
    using A = tc1::output::a::mode; means( A::none, 0 ); means( A::toggle, 1 ); means( A::clear, 2 ); means( A::set, 3 );
    using B = tc1::output::b::mode; means( B::none, 0 ); means( B::toggle, 1 ); means( B::clear, 2 ); means( B::set, 3 );
    using G = tc1::input::capture::edge; means( G::falling, 0 ); means( G::rising, 1 );
    using W = tc1::output::waveform; means( W::normal, 0 ); means( W::pwm_phase_correct_8bit, 1 ); means( W::pwm_phase_correct_9bit, 2 ); means( W::pwm_phase_correct_10bit, 3 ); means( W::ctc_ocr1a, 4 );
    means( W::fast_pwm_phase_correct_8bit, 5 ); means( W::fast_pwm_phase_correct_9bit, 6 ); means( W::fast_pwm_phase_correct_10bit, 7 ); means( W::pwm_phase_frequency_correct_icr1, 8 ); means( W::pwm_phase_frequency_correct_ocr1a, 9 );
    means( W::pwm_phase_correct_icr1, 10 ); means( W::pwm_phase_correct_ocr1a, 11 ); means( W::ctc_icr1, 12 ); means( W::fast_pwm_icr1, 14 ); means( W::fast_pwm_ocr1a, 15 );
}
VC_HARNESS( settings_timer1_waveform ) { vc_cover( "any content" ); waveform<tc1::output::waveform,tc1::input::clock>( REG( TCCR1A ), REG( TCCR1B ), 1 << WGM11 | 1 << WGM10, 1 << WGM13 | 1 << WGM12, WGM12, 15, CS12, CS10 ); }
VC_HARNESS( settings_timer1_values ) { vc_cover( "any content" ); value<tc1::value::timer,uint16_t>( REG( TCNT1 ) ); value<tc1::value::compare::a,uint16_t>( REG( OCR1A ) ); value<tc1::value::compare::b,uint16_t>( REG( OCR1B ) ); }
VC_HARNESS( settings_timer1_registers )
{
    vc_cover( "any content" );
    uint16_t icr = hold_any<uint16_t>( REG( ICR1 ) ), v = vc_any<uint16_t>(); begin();
    vc_same( static_cast<uint16_t>( tc1::reg::icr1::whole::read() ), icr, "input capture" ); vc_same( static_cast<uint8_t>( tc1::reg::icr1::lo::read() ), static_cast<uint8_t>( icr ), "input capture, low byte" );
    vc_same( static_cast<uint8_t>( tc1::reg::icr1::hi::read() ), static_cast<uint8_t>( icr >> 8 ), "input capture, high byte" ); begin();
    tc1::reg::icr1::whole::write( v ); wrote<uint16_t>( REG( ICR1 ), v, "input capture (top value)" );
    hold<uint16_t>( REG( TCNT1 ), v ); hold<uint16_t>( REG( OCR1A ), icr ); hold<uint16_t>( REG( OCR1B ), v );
    vc_same( static_cast<uint8_t>( tc1::reg::tcnt1::lo::read() ), static_cast<uint8_t>( v ), "low byte" ); vc_same( static_cast<uint8_t>( tc1::reg::tcnt1::hi::read() ), static_cast<uint8_t>( v >> 8 ), "high byte" );
    vc_same( static_cast<uint8_t>( tc1::reg::ocr1a::lo::read() ), static_cast<uint8_t>( icr ), "low byte" ); vc_same( static_cast<uint8_t>( tc1::reg::ocr1a::hi::read() ), static_cast<uint8_t>( icr >> 8 ), "high byte" );
    vc_same( static_cast<uint8_t>( tc1::reg::ocr1b::lo::read() ), static_cast<uint8_t>( v ), "low byte" ); vc_same( static_cast<uint8_t>( tc1::reg::ocr1b::hi::read() ), static_cast<uint8_t>( v >> 8 ), "high byte" );
}
VC_HARNESS( settings_prescaler )
{
    vc_cover( "any content" );
    setting<tcp::synchronization>( REG( GTCCR ), TSM, TSM ); setting<tcp::reset::prescaler::tc2>( REG( GTCCR ), PSRASY, PSRASY ); setting<tcp::reset::prescaler::tc01>( REG( GTCCR ), PSRSYNC, PSRSYNC );
}
VC_HARNESS( settings_twi )
{
    vc_cover( "any content" );
    value<twi::control::rate,uint8_t>( REG( TWBR ) ); value<twi::protocol::data,uint8_t>( REG( TWDR ) ); setting<twi::control::prescale::factor>( REG( TWSR ), TWPS1, TWPS0 );
    setting<twi::protocol::address>( REG( TWAR ), TWA6, TWA0 ); setting<twi::enable::general_call>( REG( TWAR ), TWGCE, TWGCE );
    setting<twi::enable::interface>( REG( TWCR ), TWEN, TWEN ); setting<twi::enable::interrupt>( REG( TWCR ), TWIE, TWIE );
    using F = twi::control::prescale::factor; means( F::x1, 0 ); means( F::x4, 1 ); means( F::x16, 2 ); means( F::x64, 3 );
    using S = twi::protocol::status; means( S::S_transmitted, 0x08 >> 3 ); means( S::RS_transmitted, 0x10 >> 3 ); means( S::SLAW_transmitted_ACK, 0x18 >> 3 ); means( S::SLAW_transmitted_NACK, 0x20 >> 3 );
    means( S::Data_transmitted_ACK, 0x28 >> 3 ); means( S::Data_transmitted_NACK, 0x30 >> 3 ); means( S::Arbitration_lost, 0x38 >> 3 );
    uint8_t s = hold_any<uint8_t>( REG( TWSR ) ); begin();
    vc_same( static_cast<uint8_t>( current( S{} ) ), static_cast<uint8_t>( s >> 3 ), "the status code" ); untouched<uint8_t>( REG( TWSR ), s, "reporting changes nothing" );
    uint8_t c = hold_any<uint8_t>( REG( TWCR ) ); begin();
    vc_same( static_cast<uint8_t>( current( twi::protocol::start{} ) ), static_cast<uint8_t>( c >> TWSTA & 1 ), "start" ); vc_same( static_cast<uint8_t>( current( twi::protocol::stop{} ) ), static_cast<uint8_t>( c >> TWSTO & 1 ), "stop" );
    vc_same( static_cast<uint8_t>( current( twi::protocol::ack{} ) ), static_cast<uint8_t>( c >> TWEA & 1 ), "acknowledge" ); vc_same( static_cast<uint8_t>( current( twi::protocol::wcoll{} ) ), static_cast<uint8_t>( c >> TWWC & 1 ), "write collision" );
    untouched<uint8_t>( REG( TWCR ), c, "reporting changes nothing" );
    set( twi::protocol::start{} ); wrote<uint8_t>( REG( TWCR ), c | 1 << TWSTA, "start" ); hold<uint8_t>( REG( TWCR ), c );
    set( twi::protocol::stop{} ); wrote<uint8_t>( REG( TWCR ), c | 1 << TWSTO, "stop" ); hold<uint8_t>( REG( TWCR ), c );
    set( twi::protocol::ack{} ); wrote<uint8_t>( REG( TWCR ), c | 1 << TWEA, "acknowledge" );
}
VC_HARNESS( settings_comparator )
{
    vc_cover( "any content" );
    setting<ac::input::select::bandgap_ref>( REG( ACSR ), ACBG, ACBG ); setting<ac::output::interrupt::on>( REG( ACSR ), ACIS1, ACIS0 ); setting<ac::enable::interrupt>( REG( ACSR ), ACIE, ACIE );
    setting<ac::enable::input::capture>( REG( ACSR ), ACIC, ACIC ); setting<ac::disable::analog::comparator>( REG( ACSR ), ACD, ACD );
    using O = ac::output::interrupt::on; means( O::toggle, 0 ); means( O::falling_edge, 2 ); means( O::rising_edge, 3 );
    uint8_t c = hold_any<uint8_t>( REG( ACSR ) ); begin();
    vc_same( static_cast<uint8_t>( current( ac::output::state{} ) ), static_cast<uint8_t>( c >> ACO & 1 ), "the comparator's output" ); untouched<uint8_t>( REG( ACSR ), c, "reporting changes nothing" );
    uint8_t d = hold_any<uint8_t>( REG( DIDR1 ) ), v = vc_any<uint8_t>(); vc_assume( v <= 3 ); begin();
    ac::reg::didr1::write( v ); wrote<uint8_t>( REG( DIDR1 ), ( d & ~3 ) | v, "digital inputs disabled" );
}
VC_HARNESS( settings_adc )
{
    vc_cover( "any content" );
    setting<adc::conversion::adjustment>( REG( ADMUX ), ADLAR, ADLAR ); setting<adc::input::reference>( REG( ADMUX ), REFS1, REFS0 ); setting<adc::input::channel>( REG( ADMUX ), MUX3, MUX0 );
    setting<adc::enable::adc>( REG( ADCSRA ), ADEN, ADEN ); setting<adc::enable::interrupt>( REG( ADCSRA ), ADIE, ADIE ); setting<adc::enable::auto_trigger>( REG( ADCSRA ), ADATE, ADATE );
    setting<adc::enable::comparator>( REG( ADCSRB ), ACME, ACME ); setting<adc::trigger::on>( REG( ADCSRB ), ADTS2, ADTS0 ); setting<adc::prescale::factor>( REG( ADCSRA ), ADPS2, ADPS0 );
    using A = adc::conversion::adjustment; means( A::right, 0 ); means( A::left, 1 );
    using R = adc::input::reference; means( R::aref, 0 ); means( R::avcc, 1 ); means( R::intern_1v1, 3 );
    using C = adc::input::channel; means( C::ch0, 0 ); means( C::ch1, 1 ); means( C::ch2, 2 ); means( C::ch3, 3 ); means( C::ch4, 4 ); means( C::ch5, 5 ); means( C::ch6, 6 ); means( C::ch7, 7 ); means( C::ch8, 8 ); means( C::internal_1v1, 14 ); means( C::gnd, 15 );
    using T = adc::trigger::on; means( T::free_run, 0 ); means( T::ac, 1 ); means( T::ei0, 2 ); means( T::tc0_match_a, 3 ); means( T::tc0_overflow, 4 ); means( T::tc1_match_b, 5 ); means( T::tc1_overflow, 6 ); means( T::tc1_capture_event, 7 );
    using P = adc::prescale::factor; means( P::x02, 0 ); means( P::x2, 1 ); means( P::x4, 2 ); means( P::x8, 3 ); means( P::x16, 4 ); means( P::x32, 5 ); means( P::x64, 6 ); means( P::x128, 7 );
    uint8_t d = hold_any<uint8_t>( REG( DIDR0 ) ), v = vc_any<uint8_t>(); vc_assume( v <= 63 ); begin();
    adc::reg::didr0::write( v ); wrote<uint8_t>( REG( DIDR0 ), ( d & ~63 ) | v, "digital inputs disabled" );
}
VC_HARNESS( settings_adc_conversion )
{
    vc_cover( "any content" );
    uint8_t a = hold_any<uint8_t>( REG( ADCSRA ) ); begin();
    adc::conversion::start(); wrote<uint8_t>( REG( ADCSRA ), a | 1 << ADSC, "starts a conversion" );
    uint16_t r = hold_any<uint16_t>( REG( ADC ) ); begin();
    vc_same( static_cast<uint16_t>( adc::conversion::result() ), r, "the result" ); vc_same( static_cast<uint8_t>( adc::conversion::lsb() ), static_cast<uint8_t>( r ), "its low byte" );
    vc_same( static_cast<uint8_t>( adc::conversion::msb() ), static_cast<uint8_t>( r >> 8 ), "its high byte" ); untouched<uint16_t>( REG( ADC ), r, "reading changes nothing" );
    vc_same( static_cast<int32_t>( adc::conversion::result_min ), int32_t( 0 ), "least result" ); vc_same( static_cast<int32_t>( adc::conversion::result_max ), int32_t( 1023 ), "largest result" );
    // typical initialisation: several settings of one register in a single statement
    uint8_t m = hold_any<uint8_t>( REG( ADMUX ) ), c = vc_any<uint8_t>(); vc_assume( c <= 15 ); begin();
    set( adc::input::reference::avcc ), set( adc::input::channel( c ) ), set( adc::conversion::adjustment::left );
    wrote<uint8_t>( REG( ADMUX ), ( m & 0x10 ) | 1 << REFS0 | 1 << ADLAR | c, "settings of one register are written together" );
    hold<uint8_t>( REG( ADCSRA ), a ); uint8_t f = vc_any<uint8_t>(); vc_assume( f <= 7 );
    set( adc::enable::adc::on ), set( adc::enable::interrupt::on ), set( adc::prescale::factor( f ) ), adc::conversion::start();
    wrote<uint8_t>( REG( ADCSRA ), ( a & ( 1 << ADATE | 1 << ADIF ) ) | 1 << ADEN | 1 << ADIE | 1 << ADSC | f, "settings of one register are written together" );
}

// every register and register bit by its name
template< typename R, typename T > void reg_whole_read( int32_t addr )
{
    T before = hold_any<T>( addr ); begin();
    vc_same( static_cast<T>( R::read() ), before, "the register of that name" ); vc_same( static_cast<int32_t>( sizeof( R::read() ) ), static_cast<int32_t>( sizeof( T ) ), "in its width" ); untouched<T>( addr, before, "reading changes nothing" );
}
template< typename R, typename T > void reg_whole( int32_t addr )
{
    reg_whole_read<R,T>( addr ); T v = vc_any<T>();
    R::write( v ); vc_same( vc_ev_count(), int32_t( 1 ), "written, not read" ); wrote<T>( addr, v, "the register of that name" );
}
template< typename F > void reg_bits_read( int32_t addr, int hi, int lo )
{
    uint8_t before = hold_any<uint8_t>( addr ); begin();
    vc_same( static_cast<uint8_t>( F::read() ), static_cast<uint8_t>( ( before & mask_of<uint8_t>( hi, lo ) ) >> lo ), "the bits of that name" ); untouched<uint8_t>( addr, before, "reading changes nothing" );
}
template< typename F > void reg_bits( int32_t addr, int hi, int lo )
{
    reg_bits_read<F>( addr, hi, lo ); uint8_t const m = mask_of<uint8_t>( hi, lo );
    uint8_t before = hold_any<uint8_t>( addr ), v = vc_any<uint8_t>(); vc_assume( v <= static_cast<uint8_t>( m >> lo ) ); begin();
    F::write( v ); wrote<uint8_t>( addr, ( before & ~m ) | ( v << lo ), "the bits of that name and no others" );
}
VC_HARNESS( registers_addresses )
{
    vc_cover( "registers without functions of their own" );
    struct { int32_t given, real; } const r[] = {
        { clock::reg::osccal_addr, REG( OSCCAL ) }, { clock::reg::clkpr_addr, REG( CLKPR ) }, { power::reg::smcr_addr, REG( SMCR ) }, { power::reg::mcusr_addr, REG( MCUSR ) }, { power::reg::prr_addr, REG( PRR ) },
        { mcu::atmega328::reset::reg::mcucr_addr, REG( MCUCR ) }, { mcu::atmega328::reset::reg::wdtcsr_addr, REG( WDTCSR ) }, { tc0::reg::gtccr_addr, REG( GTCCR ) }, { tcp::reg::gtccr_addr, REG( GTCCR ) },
        { tc2::reg::tccr2a_addr, REG( TCCR2A ) }, { tc2::reg::tccr2b_addr, REG( TCCR2B ) }, { tc2::reg::tcnt2_addr, REG( TCNT2 ) }, { tc2::reg::ocr2a_addr, REG( OCR2A ) }, { tc2::reg::ocr2b_addr, REG( OCR2B ) },
        { tc2::reg::timsk2_addr, REG( TIMSK2 ) }, { tc2::reg::tifr2_addr, REG( TIFR2 ) }, { tc2::reg::assr_addr, REG( ASSR ) }, { tc2::reg::gtccr_addr, REG( GTCCR ) } };
    for ( auto const & x : r ) vc_same( x.given, x.real, "the register's address" );
    vc_same( static_cast<int32_t>( core::gpreg_base ), int32_t( 0 ), "registers start at 0" );
}
VC_HARNESS( registers_core )
{
    vc_cover( "any content" );
    reg_whole<core::gpwr::r0,uint8_t>( 0x00 ); reg_whole<core::gpwr::r1,uint8_t>( 0x01 ); reg_whole<core::gpwr::r2,uint8_t>( 0x02 ); reg_whole<core::gpwr::r3,uint8_t>( 0x03 );
    reg_whole<core::gpwr::r4,uint8_t>( 0x04 ); reg_whole<core::gpwr::r5,uint8_t>( 0x05 ); reg_whole<core::gpwr::r6,uint8_t>( 0x06 ); reg_whole<core::gpwr::r7,uint8_t>( 0x07 );
    reg_whole<core::gpwr::r8,uint8_t>( 0x08 ); reg_whole<core::gpwr::r9,uint8_t>( 0x09 ); reg_whole<core::gpwr::r10,uint8_t>( 0x0a ); reg_whole<core::gpwr::r11,uint8_t>( 0x0b );
    reg_whole<core::gpwr::r12,uint8_t>( 0x0c ); reg_whole<core::gpwr::r13,uint8_t>( 0x0d ); reg_whole<core::gpwr::r14,uint8_t>( 0x0e ); reg_whole<core::gpwr::r15,uint8_t>( 0x0f );
    reg_whole<core::gpwr::r16,uint8_t>( 0x10 ); reg_whole<core::gpwr::r17,uint8_t>( 0x11 ); reg_whole<core::gpwr::r18,uint8_t>( 0x12 ); reg_whole<core::gpwr::r19,uint8_t>( 0x13 );
    reg_whole<core::gpwr::r20,uint8_t>( 0x14 ); reg_whole<core::gpwr::r21,uint8_t>( 0x15 ); reg_whole<core::gpwr::r22,uint8_t>( 0x16 ); reg_whole<core::gpwr::r23,uint8_t>( 0x17 );
    reg_whole<core::gpwr::r24,uint8_t>( 0x18 ); reg_whole<core::gpwr::r25,uint8_t>( 0x19 ); reg_whole<core::gpwr::r26,uint8_t>( 0x1a ); reg_whole<core::gpwr::r27,uint8_t>( 0x1b );
    reg_whole<core::gpwr::r28,uint8_t>( 0x1c ); reg_whole<core::gpwr::r29,uint8_t>( 0x1d ); reg_whole<core::gpwr::r30,uint8_t>( 0x1e ); reg_whole<core::gpwr::r31,uint8_t>( 0x1f );
    reg_whole<core::gpwr::x,uint16_t>( 0x1a ); reg_whole<core::gpwr::y,uint16_t>( 0x1c ); reg_whole<core::gpwr::z,uint16_t>( 0x1e ); reg_whole<core::sp::whole,uint16_t>( REG( SP ) );
    reg_whole<core::sp::lo,uint8_t>( REG( SPL ) ); reg_whole<core::sp::hi,uint8_t>( REG( SPH ) );
}
// Addresses of registers the library names but has no registers for yet.  One that is gone is none of this property's
// business: then the name found is the one out here.
namespace mcu { namespace atmega328 {
constexpr address_t assr_addr = 0;
constexpr address_t clkpr_addr = 0;
constexpr address_t gtccr_addr = 0;
constexpr address_t mcucr_addr = 0;
constexpr address_t mcusr_addr = 0;
constexpr address_t ocr2a_addr = 0;
constexpr address_t ocr2b_addr = 0;
constexpr address_t osccal_addr = 0;
constexpr address_t prr_addr = 0;
constexpr address_t smcr_addr = 0;
constexpr address_t tccr2a_addr = 0;
constexpr address_t tccr2b_addr = 0;
constexpr address_t tcnt2_addr = 0;
constexpr address_t tifr2_addr = 0;
constexpr address_t timsk2_addr = 0;
constexpr address_t wdtcsr_addr = 0;
namespace clock { namespace reg {
    inline address_t vc_osccal() { return osccal_addr; }
    inline address_t vc_clkpr() { return clkpr_addr; }
} }
namespace power { namespace reg {
    inline address_t vc_smcr() { return smcr_addr; }
    inline address_t vc_mcusr() { return mcusr_addr; }
    inline address_t vc_prr() { return prr_addr; }
} }
namespace reset { namespace reg {
    inline address_t vc_mcucr() { return mcucr_addr; }
    inline address_t vc_wdtcsr() { return wdtcsr_addr; }
} }
namespace tc2 { namespace reg {
    inline address_t vc_tccr2a() { return tccr2a_addr; }
    inline address_t vc_tccr2b() { return tccr2b_addr; }
    inline address_t vc_tcnt2() { return tcnt2_addr; }
    inline address_t vc_ocr2a() { return ocr2a_addr; }
    inline address_t vc_ocr2b() { return ocr2b_addr; }
    inline address_t vc_timsk2() { return timsk2_addr; }
    inline address_t vc_tifr2() { return tifr2_addr; }
    inline address_t vc_assr() { return assr_addr; }
    inline address_t vc_gtccr() { return gtccr_addr; }
} }
} }
static void address_is( int32_t a, int32_t r, char const * n ) { if ( a ) vc_same( a, r, n ); }
VC_HARNESS( registers_unused )
{
    vc_cover( "reached" );
    address_is( clock::reg::vc_osccal(), REG( OSCCAL ), "address of OSCCAL" );
    address_is( clock::reg::vc_clkpr(), REG( CLKPR ), "address of CLKPR" );
    address_is( power::reg::vc_smcr(), REG( SMCR ), "address of SMCR" );
    address_is( power::reg::vc_mcusr(), REG( MCUSR ), "address of MCUSR" );
    address_is( power::reg::vc_prr(), REG( PRR ), "address of PRR" );
    address_is( reset::reg::vc_mcucr(), REG( MCUCR ), "address of MCUCR" );
    address_is( reset::reg::vc_wdtcsr(), REG( WDTCSR ), "address of WDTCSR" );
    address_is( tc2::reg::vc_tccr2a(), REG( TCCR2A ), "address of TCCR2A" );
    address_is( tc2::reg::vc_tccr2b(), REG( TCCR2B ), "address of TCCR2B" );
    address_is( tc2::reg::vc_tcnt2(), REG( TCNT2 ), "address of TCNT2" );
    address_is( tc2::reg::vc_ocr2a(), REG( OCR2A ), "address of OCR2A" );
    address_is( tc2::reg::vc_ocr2b(), REG( OCR2B ), "address of OCR2B" );
    address_is( tc2::reg::vc_timsk2(), REG( TIMSK2 ), "address of TIMSK2" );
    address_is( tc2::reg::vc_tifr2(), REG( TIFR2 ), "address of TIFR2" );
    address_is( tc2::reg::vc_assr(), REG( ASSR ), "address of ASSR" );
    address_is( tc2::reg::vc_gtccr(), REG( GTCCR ), "address of GTCCR" );
    vc_assert( true, "stated" );
}
VC_HARNESS( registers_mem )
{
    vc_cover( "any content" );
    reg_whole<mem::reg::eecr::whole,uint8_t>( REG( EECR ) ); reg_bits<mem::reg::eecr::eepm>( REG( EECR ), EEPM1, EEPM0 ); reg_bits<mem::reg::eecr::eerie>( REG( EECR ), EERIE, EERIE );
    reg_bits<mem::reg::eecr::eempe>( REG( EECR ), EEMPE, EEMPE ); reg_bits<mem::reg::eecr::eepe>( REG( EECR ), EEPE, EEPE ); reg_bits<mem::reg::eecr::eere>( REG( EECR ), EERE, EERE );
}
VC_HARNESS( registers_ei )
{
    vc_cover( "any content" );
    reg_whole<ei::eicra::whole,uint8_t>( REG( EICRA ) ); reg_bits<ei::eicra::ics1>( REG( EICRA ), ISC11, ISC10 ); reg_bits<ei::eicra::ics0>( REG( EICRA ), ISC01, ISC00 );
}
VC_HARNESS( registers_tc0 )
{
    vc_cover( "any content" );
    reg_whole<tc0::reg::tccr0a::whole,uint8_t>( REG( TCCR0A ) ); reg_bits<tc0::reg::tccr0a::com0a>( REG( TCCR0A ), COM0A1, COM0A0 ); reg_bits<tc0::reg::tccr0a::com0b>( REG( TCCR0A ), COM0B1, COM0B0 );
    reg_bits<tc0::reg::tccr0a::wgm0>( REG( TCCR0A ), WGM01, WGM00 ); reg_whole<tc0::reg::tccr0b::whole,uint8_t>( REG( TCCR0B ) ); reg_bits<tc0::reg::tccr0b::foc0a>( REG( TCCR0B ), FOC0A, FOC0A );
    reg_bits<tc0::reg::tccr0b::foc0b>( REG( TCCR0B ), FOC0B, FOC0B ); reg_bits<tc0::reg::tccr0b::wgm02>( REG( TCCR0B ), WGM02, WGM02 ); reg_bits<tc0::reg::tccr0b::cs0>( REG( TCCR0B ), CS02, CS00 );
    reg_whole<tc0::reg::timsk0::whole,uint8_t>( REG( TIMSK0 ) ); reg_bits<tc0::reg::timsk0::ocie0b>( REG( TIMSK0 ), OCIE0B, OCIE0B ); reg_bits<tc0::reg::timsk0::ocie0a>( REG( TIMSK0 ), OCIE0A, OCIE0A );
    reg_bits<tc0::reg::timsk0::toie0>( REG( TIMSK0 ), TOIE0, TOIE0 ); reg_whole<tc0::reg::tcnt0::whole,uint8_t>( REG( TCNT0 ) ); reg_whole<tc0::reg::ocr0a::whole,uint8_t>( REG( OCR0A ) );
    reg_whole<tc0::reg::ocr0b::whole,uint8_t>( REG( OCR0B ) ); reg_whole<tc0::reg::tifr0::whole,uint8_t>( REG( TIFR0 ) ); reg_bits_read<tc0::reg::tifr0::ocf0b>( REG( TIFR0 ), OCF0B, OCF0B );
    reg_bits_read<tc0::reg::tifr0::ocf0a>( REG( TIFR0 ), OCF0A, OCF0A ); reg_bits_read<tc0::reg::tifr0::tov0>( REG( TIFR0 ), TOV0, TOV0 );
}
VC_HARNESS( registers_tc1 )
{
    vc_cover( "any content" );
    reg_whole<tc1::reg::tccr1a::whole,uint8_t>( REG( TCCR1A ) ); reg_bits<tc1::reg::tccr1a::com1a>( REG( TCCR1A ), COM1A1, COM1A0 ); reg_bits<tc1::reg::tccr1a::com1b>( REG( TCCR1A ), COM1B1, COM1B0 );
    reg_bits<tc1::reg::tccr1a::wgm1>( REG( TCCR1A ), WGM11, WGM10 ); reg_whole<tc1::reg::tccr1b::whole,uint8_t>( REG( TCCR1B ) ); reg_bits<tc1::reg::tccr1b::icnc1>( REG( TCCR1B ), ICNC1, ICNC1 );
    reg_bits<tc1::reg::tccr1b::ices1>( REG( TCCR1B ), ICES1, ICES1 ); reg_bits<tc1::reg::tccr1b::wgm1>( REG( TCCR1B ), WGM13, WGM12 ); reg_bits<tc1::reg::tccr1b::cs1>( REG( TCCR1B ), CS12, CS10 );
    reg_whole<tc1::reg::tccr1c::whole,uint8_t>( REG( TCCR1C ) ); reg_bits<tc1::reg::tccr1c::foc1a>( REG( TCCR1C ), FOC1A, FOC1A ); reg_bits<tc1::reg::tccr1c::foc1b>( REG( TCCR1C ), FOC1B, FOC1B );
    reg_whole<tc1::reg::tcnt1::whole,uint16_t>( REG( TCNT1 ) ); reg_whole<tc1::reg::tcnt1::lo,uint8_t>( REG( TCNT1L ) ); reg_whole<tc1::reg::tcnt1::hi,uint8_t>( REG( TCNT1H ) );
    reg_whole<tc1::reg::icr1::whole,uint16_t>( REG( ICR1 ) ); reg_whole<tc1::reg::icr1::lo,uint8_t>( REG( ICR1L ) ); reg_whole<tc1::reg::icr1::hi,uint8_t>( REG( ICR1H ) );
    reg_whole<tc1::reg::ocr1a::whole,uint16_t>( REG( OCR1A ) ); reg_whole<tc1::reg::ocr1a::lo,uint8_t>( REG( OCR1AL ) ); reg_whole<tc1::reg::ocr1a::hi,uint8_t>( REG( OCR1AH ) );
    reg_whole<tc1::reg::ocr1b::whole,uint16_t>( REG( OCR1B ) ); reg_whole<tc1::reg::ocr1b::lo,uint8_t>( REG( OCR1BL ) ); reg_whole<tc1::reg::ocr1b::hi,uint8_t>( REG( OCR1BH ) );
    reg_whole<tc1::reg::timsk1::whole,uint8_t>( REG( TIMSK1 ) ); reg_bits<tc1::reg::timsk1::icie1>( REG( TIMSK1 ), ICIE1, ICIE1 ); reg_bits<tc1::reg::timsk1::ocie1b>( REG( TIMSK1 ), OCIE1B, OCIE1B );
    reg_bits<tc1::reg::timsk1::ocie1a>( REG( TIMSK1 ), OCIE1A, OCIE1A ); reg_bits<tc1::reg::timsk1::toie1>( REG( TIMSK1 ), TOIE1, TOIE1 );
    reg_bits_read<tc1::reg::tifr1::icf1>( REG( TIFR1 ), ICF1, ICF1 ); reg_bits_read<tc1::reg::tifr1::ocf1b>( REG( TIFR1 ), OCF1B, OCF1B );
    reg_bits_read<tc1::reg::tifr1::ocf1a>( REG( TIFR1 ), OCF1A, OCF1A ); reg_bits_read<tc1::reg::tifr1::tov1>( REG( TIFR1 ), TOV1, TOV1 );
}
VC_HARNESS( registers_tcp )
{
    vc_cover( "any content" );
    reg_whole<tcp::reg::gtccr::whole,uint8_t>( REG( GTCCR ) ); reg_bits<tcp::reg::gtccr::tsm>( REG( GTCCR ), TSM, TSM ); reg_bits<tcp::reg::gtccr::psrasy>( REG( GTCCR ), PSRASY, PSRASY );
    reg_bits<tcp::reg::gtccr::psrsync>( REG( GTCCR ), PSRSYNC, PSRSYNC );
}
VC_HARNESS( registers_twi )
{
    vc_cover( "any content" );
    reg_whole<twi::reg::twsr::whole,uint8_t>( REG( TWSR ) ); reg_bits_read<twi::reg::twsr::tws>( REG( TWSR ), TWS7, TWS3 ); reg_bits<twi::reg::twsr::twps>( REG( TWSR ), TWPS1, TWPS0 );
    reg_whole<twi::reg::twar::whole,uint8_t>( REG( TWAR ) ); reg_bits<twi::reg::twar::twa>( REG( TWAR ), TWA6, TWA0 ); reg_bits<twi::reg::twar::twgce>( REG( TWAR ), TWGCE, TWGCE );
    reg_whole<twi::reg::twcr::whole,uint8_t>( REG( TWCR ) ); reg_bits_read<twi::reg::twcr::twintc>( REG( TWCR ), TWINT, TWINT ); reg_bits<twi::reg::twcr::twint>( REG( TWCR ), TWINT, TWINT );
    reg_bits<twi::reg::twcr::twea>( REG( TWCR ), TWEA, TWEA ); reg_bits<twi::reg::twcr::twsta>( REG( TWCR ), TWSTA, TWSTA ); reg_bits<twi::reg::twcr::twsto>( REG( TWCR ), TWSTO, TWSTO );
    reg_bits<twi::reg::twcr::twwc>( REG( TWCR ), TWWC, TWWC ); reg_bits<twi::reg::twcr::twen>( REG( TWCR ), TWEN, TWEN ); reg_bits<twi::reg::twcr::twie>( REG( TWCR ), TWIE, TWIE );
    reg_whole<twi::reg::twamr::whole,uint8_t>( REG( TWAMR ) ); reg_bits<twi::reg::twamr::twam>( REG( TWAMR ), TWAM6, TWAM0 );
}
VC_HARNESS( registers_ac )
{
    vc_cover( "any content" );
    reg_whole<ac::reg::acsr::whole,uint8_t>( REG( ACSR ) ); reg_bits<ac::reg::acsr::acd>( REG( ACSR ), ACD, ACD ); reg_bits<ac::reg::acsr::acbg>( REG( ACSR ), ACBG, ACBG );
    reg_bits_read<ac::reg::acsr::aco>( REG( ACSR ), ACO, ACO ); reg_bits_read<ac::reg::acsr::aci>( REG( ACSR ), ACI, ACI ); reg_bits<ac::reg::acsr::acie>( REG( ACSR ), ACIE, ACIE );
    reg_bits<ac::reg::acsr::acic>( REG( ACSR ), ACIC, ACIC ); reg_bits<ac::reg::acsr::acis>( REG( ACSR ), ACIS1, ACIS0 ); reg_bits<ac::reg::didr1>( REG( DIDR1 ), AIN1D, AIN0D );
}
VC_HARNESS( registers_adc )
{
    vc_cover( "any content" );
    reg_whole_read<adc::reg::adc::whole,uint16_t>( REG( ADC ) ); reg_whole_read<adc::reg::adc::adchl,uint16_t>( REG( ADC ) ); reg_whole_read<adc::reg::adc::adcl,uint8_t>( REG( ADCL ) );
    reg_whole_read<adc::reg::adc::adch,uint8_t>( REG( ADCH ) ); reg_whole<adc::reg::admux::whole,uint8_t>( REG( ADMUX ) ); reg_bits<adc::reg::admux::refs>( REG( ADMUX ), REFS1, REFS0 );
    reg_bits<adc::reg::admux::adlar>( REG( ADMUX ), ADLAR, ADLAR ); reg_bits<adc::reg::admux::mux>( REG( ADMUX ), MUX3, MUX0 ); reg_whole<adc::reg::adcsra::whole,uint8_t>( REG( ADCSRA ) );
    reg_bits<adc::reg::adcsra::aden>( REG( ADCSRA ), ADEN, ADEN ); reg_bits<adc::reg::adcsra::adsc>( REG( ADCSRA ), ADSC, ADSC ); reg_bits<adc::reg::adcsra::adate>( REG( ADCSRA ), ADATE, ADATE );
    reg_bits_read<adc::reg::adcsra::adif>( REG( ADCSRA ), ADIF, ADIF ); reg_bits<adc::reg::adcsra::adie>( REG( ADCSRA ), ADIE, ADIE ); reg_bits<adc::reg::adcsra::adps>( REG( ADCSRA ), ADPS2, ADPS0 );
    reg_whole<adc::reg::adcsrb::whole,uint8_t>( REG( ADCSRB ) ); reg_bits<adc::reg::adcsrb::acme>( REG( ADCSRB ), ACME, ACME ); reg_bits<adc::reg::adcsrb::adts>( REG( ADCSRB ), ADTS2, ADTS0 );
    reg_bits<adc::reg::didr0>( REG( DIDR0 ), ADC5D, ADC0D );
}

// ---- G05
// A flag is cleared by writing one to it. In a register of nothing but such flags, writing one to any other would clear that too.
template< typename G, typename C > void flag( int32_t addr, int bit, uint8_t others, G get, C clr )
{
    uint8_t before = hold_any<uint8_t>( addr ); begin();
    vc_same( static_cast<uint8_t>( get() ), static_cast<uint8_t>( before >> bit & 1 ), "reports the flag" ); untouched<uint8_t>( addr, before, "reporting changes nothing" );
    clr();
    vc_same( writes(), int32_t( 1 ), "one write access" ); only( addr, 1, "no other register is touched" );
    uint8_t w = held<uint8_t>( addr );
    vc_same( static_cast<uint8_t>( w >> bit & 1 ), uint8_t( 1 ), "the flag is written 1, which clears it" );
    vc_same( static_cast<uint8_t>( w & others ), uint8_t( 0 ), "no other flag is cleared" );
    begin();
}
// a flag among settings: these keep their value
template< typename G, typename C > void mixed_flag( int32_t addr, int bit, G get, C clr )
{
    uint8_t before = hold_any<uint8_t>( addr ); begin();
    vc_same( static_cast<uint8_t>( get() ), static_cast<uint8_t>( before >> bit & 1 ), "reports the flag" ); untouched<uint8_t>( addr, before, "reporting changes nothing" );
    clr(); wrote<uint8_t>( addr, before | 1 << bit, "the flag is written 1, which clears it; the settings around it stay" );
}
#define FLAG( r, b, others, ns, f ) flag( REG( r ), b, ( others ) & ~( 1 << b ), []{ return current( ns::f{} ); }, []{ clear( ns::f{} ); } )
VC_HARNESS( flags_timer0 )
{
    vc_cover( "any content" ); uint8_t const all = 1 << OCF0B | 1 << OCF0A | 1 << TOV0;
    FLAG( TIFR0, OCF0A, all, tc0::interrupt::compare::flag, a ); FLAG( TIFR0, OCF0B, all, tc0::interrupt::compare::flag, b ); FLAG( TIFR0, TOV0, all, tc0::interrupt::overflow, flag );
}
VC_HARNESS( flags_timer1 )
{
    vc_cover( "any content" ); uint8_t const all = 1 << ICF1 | 1 << OCF1B | 1 << OCF1A | 1 << TOV1;
    FLAG( TIFR1, OCF1A, all, tc1::interrupt::compare::flag, a ); FLAG( TIFR1, OCF1B, all, tc1::interrupt::compare::flag, b ); FLAG( TIFR1, TOV1, all, tc1::interrupt::overflow, flag ); FLAG( TIFR1, ICF1, all, tc1::interrupt::capture, flag );
}
VC_HARNESS( flags_external )
{
    vc_cover( "any content" );
    flag( REG( EIFR ), INTF0, 1 << INTF1, []{ return ei::external_int0_flag(); }, []{ ei::clear_external_int0_flag(); } );
    flag( REG( EIFR ), INTF1, 1 << INTF0, []{ return ei::external_int1_flag(); }, []{ ei::clear_external_int1_flag(); } );
}
VC_HARNESS( flags_pin_change )
{
    vc_cover( "any content" );
    flag( REG( PCIFR ), PCIF0, 1 << PCIF1 | 1 << PCIF2, []{ return ei::pin_change_int0_flag(); }, []{ ei::clear_pin_change_int0_flag(); } );
    flag( REG( PCIFR ), PCIF1, 1 << PCIF0 | 1 << PCIF2, []{ return ei::pin_change_int1_flag(); }, []{ ei::clear_pin_change_int1_flag(); } );
    flag( REG( PCIFR ), PCIF2, 1 << PCIF0 | 1 << PCIF1, []{ return ei::pin_change_int2_flag(); }, []{ ei::clear_pin_change_int2_flag(); } );
}
VC_HARNESS( flags_mixed )
{
    vc_cover( "any content" );
    mixed_flag( REG( ADCSRA ), ADIF, []{ return current( adc::interrupt::flag{} ); }, []{ clear( adc::interrupt::flag{} ); } );
    mixed_flag( REG( ACSR ), ACI, []{ return current( ac::interrupt::flag{} ); }, []{ clear( ac::interrupt::flag{} ); } );
    mixed_flag( REG( TWCR ), TWINT, []{ return current( twi::interrupt::flag{} ); }, []{ clear( twi::interrupt::flag{} ); } );
    uint8_t c = hold_any<uint8_t>( REG( TWCR ) ); begin(); set( twi::interrupt::flag{} ); wrote<uint8_t>( REG( TWCR ), c | 1 << TWINT, "the flag is written 1" );
}
template< typename S > void strobe( int32_t addr, int bit, S put )
{
    uint8_t before = hold_any<uint8_t>( addr ); begin(); put(); wrote<uint8_t>( addr, before | 1 << bit, "forces a compare of this output; the settings around it stay" );
}
VC_HARNESS( force_compare_timer0 ) { vc_cover( "any content" ); strobe( REG( TCCR0B ), FOC0A, []{ set( tc0::control::compare::force::a{} ); } ); strobe( REG( TCCR0B ), FOC0B, []{ set( tc0::control::compare::force::b{} ); } ); }
VC_HARNESS( force_compare_timer1 ) { vc_cover( "any content" ); strobe( REG( TCCR1C ), FOC1A, []{ set( tc1::control::compare::force::a{} ); } ); strobe( REG( TCCR1C ), FOC1B, []{ set( tc1::control::compare::force::b{} ); } ); }

// ---- G06
static int32_t next;                                            // position in the record of accesses
static bool answered( uint8_t expected )                        // the device's answer at this point of the protocol: waited for, then its status is read
{
    vc_same( vc_ev_kind( next ), int32_t( ev_read ), "waits for the device" ); vc_same( vc_ev_addr( next ), REG( TWCR ), "waits for the device" );
    bool done = ( vc_ev_val( next++ ) & ( 1 << TWINT ) ) != 0; vc_assert( done, "waits until the device is done" );
    vc_same( vc_ev_kind( next ), int32_t( ev_read ), "reads the status" ); vc_same( vc_ev_addr( next ), REG( TWSR ), "reads the status" );
    return ( vc_ev_val( next++ ) & 0xf8 ) == expected;
}
static void sent( int32_t addr, uint8_t v, char const * name )
{
    vc_same( vc_ev_kind( next ), int32_t( ev_write ), name ); vc_same( vc_ev_addr( next ), addr, name ); vc_same( static_cast<uint8_t>( vc_ev_val( next ) ), v, name ); ++next;
}
static void end( bool got, bool error, char const * name ) { vc_same( got, error, name ); vc_same( vc_ev_count(), next, "nothing more is sent" ); }
VC_HARNESS( twi_write )
{
    uint8_t to = vc_any<uint8_t>(), byte = vc_any<uint8_t>();
    vc_mmio_poll( REG( TWCR ) ); vc_mmio_poll( REG( TWSR ) ); next = 0; begin();
    bool e = twi::sync::write( to, byte );
    sent( REG( TWCR ), 1 << TWINT | 1 << TWSTA | 1 << TWEN, "start condition" );
    if ( !answered( 0x08 ) ) { vc_cover( "no start" ); end( e, true, "no start: an error" ); return; }
    sent( REG( TWDR ), to, "the address" ); sent( REG( TWCR ), 1 << TWINT | 1 << TWEN, "the address" );
    if ( !answered( 0x18 ) ) { vc_cover( "address not acknowledged" ); end( e, true, "address not acknowledged: an error" ); return; }
    sent( REG( TWDR ), byte, "the byte" ); sent( REG( TWCR ), 1 << TWINT | 1 << TWEN, "the byte" );
    if ( !answered( 0x28 ) ) { vc_cover( "byte not acknowledged" ); end( e, true, "byte not acknowledged: an error" ); return; }
    sent( REG( TWCR ), 1 << TWINT | 1 << TWSTO | 1 << TWEN, "stop condition" );
    vc_cover( "all well" ); end( e, false, "no error" );
}
template< typename I > void twi_begin( I init, uint8_t rate, uint8_t scale )
{
    uint8_t d = hold_any<uint8_t>( REG( DDRC ) ), p = hold_any<uint8_t>( REG( PORTC ) ), i = hold_any<uint8_t>( REG( PINC ) ), s = hold_any<uint8_t>( REG( TWSR ) ), c = hold_any<uint8_t>( REG( TWCR ) );
    hold_any<uint8_t>( REG( TWBR ) ); (void) s; (void) c;
    begin(); init();
    vc_same( held<uint8_t>( REG( PORTC ) ), static_cast<uint8_t>( p | 1 << PC4 | 1 << PC5 ), "pull-ups on for SDA and SCL, other pins as they are" );
    vc_same( held<uint8_t>( REG( DDRC ) ), d, "pin directions as they are" );
    for ( int32_t k = vc_ev_count(), n = 0; n < k; ++n ) { bool w = vc_ev_kind( n ) == ev_write && vc_ev_addr( n ) == REG( PINC ); vc_assert( !w, "no pin is toggled" ); }
    vc_same( held<uint8_t>( REG( TWBR ) ), rate, "bit rate" ); vc_same( static_cast<uint8_t>( held<uint8_t>( REG( TWSR ) ) & 3 ), scale, "prescaler" );
    vc_same( static_cast<uint8_t>( held<uint8_t>( REG( TWCR ) ) >> TWEN & 1 ), uint8_t( 1 ), "interface enabled" ); (void) i;
}
VC_HARNESS( twi_init )
{
    uint8_t r = vc_any<uint8_t>(), f = vc_any<uint8_t>(); vc_assume( f <= 3 ); vc_cover( "any content" );
    twi_begin( []{ twi::sync::init(); }, 0x0c, 0 );
    twi_begin( [=]{ twi::sync::init( twi::control::rate( r ) ); }, r, 0 );
    twi_begin( [=]{ twi::sync::detail_x::init( twi::control::rate( r ), twi::control::prescale::factor( f ) ); }, r, f );
}

VC_HARNESS( twi_steps )
{
    namespace x = twi::sync::detail_x;
    uint8_t c = hold_any<uint8_t>( REG( TWCR ) ), a = hold_any<uint8_t>( REG( TWAR ) ), b = vc_any<uint8_t>(); hold_any<uint8_t>( REG( TWDR ) ); vc_cover( "any content" ); begin();
    x::start(); wrote<uint8_t>( REG( TWCR ), c | 1 << TWINT | 1 << TWSTA, "start condition, in one access" ); hold<uint8_t>( REG( TWCR ), c );
    x::stop(); wrote<uint8_t>( REG( TWCR ), c | 1 << TWSTO, "stop condition" ); hold<uint8_t>( REG( TWCR ), c );
    x::ack(); wrote<uint8_t>( REG( TWCR ), c | 1 << TWEA, "acknowledge" ); hold<uint8_t>( REG( TWCR ), c );
    uint8_t n = vc_any<uint8_t>(); vc_assume( n <= 127 ); x::address( n ); wrote<uint8_t>( REG( TWAR ), ( a & 1 ) | n << 1, "slave address" );
    x::data( b );
    vc_same( held<uint8_t>( REG( TWDR ) ), b, "the byte" ); vc_same( held<uint8_t>( REG( TWCR ) ), static_cast<uint8_t>( c | 1 << TWINT ), "the flag is cleared, which sends it" ); vc_same( writes(), int32_t( 2 ), "two accesses" );
    vc_same( vc_ev_addr( 0 ), REG( TWDR ), "data before the flag" );
}
VC_HARNESS( twi_expect )
{
    uint8_t s = vc_any<uint8_t>(); vc_assume( s <= 31 );
    vc_mmio_poll( REG( TWCR ) ); vc_mmio_poll( REG( TWSR ) ); next = 0; begin();
    bool e = twi::sync::detail_x::expect( twi::protocol::status( s ) );
    vc_cover( "answered" );
    bool ok = answered( static_cast<uint8_t>( s << 3 ) ); vc_same( e, !ok, "an error unless the device answers so" ); vc_same( writes(), int32_t( 0 ), "nothing is sent" );
}

// ---- G07
template< port id, uint8_t pin > void pin_of( int32_t in, int32_t dir, int32_t out )
{
    using P = typename gpio<id>::template p<pin>; uint8_t const m = 1 << pin;
    uint8_t i = hold_any<uint8_t>( in ), d = hold_any<uint8_t>( dir ), o = hold_any<uint8_t>( out ), v = vc_any<uint8_t>(); begin();
    vc_same( static_cast<uint8_t>( P::inp::read() ), static_cast<uint8_t>( i >> pin & 1 ), "the pin's level" ); untouched<uint8_t>( in, i, "reading changes nothing" );
    P::dir::set(); wrote<uint8_t>( dir, d | m, "an output pin" ); P::dir::clear(); wrote<uint8_t>( dir, d & ~m, "an input pin" );
    P::out::set(); wrote<uint8_t>( out, o | m, "pin high, the others as they are" ); P::out::clear(); wrote<uint8_t>( out, o & ~m, "pin low, the others as they are" );
    hold<uint8_t>( out, o ); P::out::write( v ); wrote<uint8_t>( out, v ? o | m : o & ~m, "pin high or low, the others as they are" );
    hold<uint8_t>( out, o ); P::out::toggle(); wrote<uint8_t>( out, o ^ m, "pin inverted, the others as they are" );
    using L = led<id,pin>; hold<uint8_t>( out, o ); hold<uint8_t>( dir, d );
    L::enable(); wrote<uint8_t>( dir, d | m, "LED enabled" ); L::on(); wrote<uint8_t>( out, o | m, "LED on" ); L::off(); wrote<uint8_t>( out, o & ~m, "LED off" );
    hold<uint8_t>( out, o ); L::toggle(); wrote<uint8_t>( out, o ^ m, "LED toggled" );
}
template< port id > void pins( int32_t in, int32_t dir, int32_t out )
{
    vc_cover( "any content" );
    pin_of<id,0>( in, dir, out ); pin_of<id,1>( in, dir, out ); pin_of<id,2>( in, dir, out ); pin_of<id,3>( in, dir, out );
    pin_of<id,4>( in, dir, out ); pin_of<id,5>( in, dir, out ); pin_of<id,6>( in, dir, out ); pin_of<id,7>( in, dir, out );
    using G = gpio<id>; uint8_t i = hold_any<uint8_t>( in ), d = hold_any<uint8_t>( dir ), o = hold_any<uint8_t>( out ), v = vc_any<uint8_t>(); begin();
    vc_same( static_cast<uint8_t>( G::pin::read() ), i, "the levels" ); vc_same( static_cast<uint8_t>( G::ddr::read() ), d, "the directions" ); vc_same( static_cast<uint8_t>( G::port::read() ), o, "the outputs" );
    vc_same( writes(), int32_t( 0 ), "reading changes nothing" ); begin();
    G::ddr::write( v ); wrote<uint8_t>( dir, v, "the directions" ); G::port::write( v ); wrote<uint8_t>( out, v, "the outputs" );
}
VC_HARNESS( pins_b ) { pins<port::B>( REG( PINB ), REG( DDRB ), REG( PORTB ) ); }
VC_HARNESS( pins_c ) { pins<port::C>( REG( PINC ), REG( DDRC ), REG( PORTC ) ); }
VC_HARNESS( pins_d ) { pins<port::D>( REG( PIND ), REG( DDRD ), REG( PORTD ) ); }
VC_HARNESS( pwm )
{
    uint8_t d = hold_any<uint8_t>( REG( DDRB ) ), a = hold_any<uint8_t>( REG( TCCR1A ) ), b = hold_any<uint8_t>( REG( TCCR1B ) ); uint16_t v = vc_any<uint16_t>();
    vc_cover( "any content" ); begin();
    tc1_pwm_on_a_pb1::init();
    vc_same( held<uint8_t>( REG( DDRB ) ), static_cast<uint8_t>( d | 1 << 1 ), "PB1 is an output, the others as they are" );
    vc_same( held<uint8_t>( REG( TCCR1A ) ), static_cast<uint8_t>( ( a & ~( 3 << COM1A0 | 3 << WGM10 ) ) | 1 << COM1A1 | 3 << WGM10 ), "output A non-inverting, fast 10-bit PWM; other settings as they are" );
    vc_same( held<uint8_t>( REG( TCCR1B ) ), static_cast<uint8_t>( ( b & ~( 3 << WGM12 | 7 << CS10 ) ) | 1 << WGM12 | 1 << CS10 ), "fast 10-bit PWM, no prescaling; other settings as they are" );
    for ( int32_t k = vc_ev_count(), n = 0; n < k; ++n ) if ( vc_ev_kind( n ) == ev_write ) { int32_t r = vc_ev_addr( n ); bool in = r == REG( DDRB ) || r == REG( TCCR1A ) || r == REG( TCCR1B ); vc_assert( in, "no other register is written" ); }
    begin();
    tc1_pwm_on_a_pb1::write( v );
    int32_t n = vc_ev_count(); vc_same( held<uint16_t>( REG( OCR1A ) ), v, "the compare value" ); only( REG( OCR1A ), 2, "no other register is touched" );
    vc_same( vc_ev_kind( 0 ), int32_t( ev_cli ), "with interrupts off" ); vc_same( vc_ev_kind( n - 1 ), int32_t( ev_sei ), "interrupts on again" ); vc_same( writes(), int32_t( 1 ), "written once" );
    vc_same( static_cast<int32_t>( tc1_pwm_on_a_pb1::value_min ), int32_t( 3 ), "least value of the 10-bit PWM" ); vc_same( static_cast<int32_t>( tc1_pwm_on_a_pb1::value_max ), int32_t( 1023 ), "largest value of the 10-bit PWM" );
}
VC_HARNESS( status_register )
{
    uint8_t s = hold_any<uint8_t>( REG( SREG ) ), t = vc_any<uint8_t>(), u = vc_any<uint8_t>(); vc_cover( "any content" ); begin();
    {
        core::scoped_sreg outer; hold<uint8_t>( REG( SREG ), t );
        { core::scoped_sreg inner; hold<uint8_t>( REG( SREG ), u ); }
        vc_same( held<uint8_t>( REG( SREG ) ), t, "restored at the end of the scope" );
    }
    vc_same( held<uint8_t>( REG( SREG ) ), s, "restored at the end of the scope" ); only( REG( SREG ), 1, "no other register is touched" ); begin();
    #define B( n, b ) vc_same( static_cast<uint8_t>( core::sreg::n::read() ), static_cast<uint8_t>( s >> b & 1 ), "the status bit" ); core::sreg::n::set(); wrote<uint8_t>( REG( SREG ), s | 1 << b, "the status bit and no other" ); hold<uint8_t>( REG( SREG ), s )
    B( I, 7 ); B( T, 6 ); B( H, 5 ); B( S, 4 ); B( V, 3 ); B( N, 2 ); B( Z, 1 ); B( C, 0 );
    #undef B
    uint16_t p = hold_any<uint16_t>( REG( SP ) ); vc_same( static_cast<uint16_t>( core::sp::whole::read() ), p, "stack pointer" );
    vc_same( static_cast<uint8_t>( core::sp::lo::read() ), static_cast<uint8_t>( p ), "stack pointer, low byte" ); vc_same( static_cast<uint8_t>( core::sp::hi::read() ), static_cast<uint8_t>( p >> 8 ), "stack pointer, high byte" );
}
