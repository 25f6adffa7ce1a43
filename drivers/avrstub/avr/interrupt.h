#ifndef VC_AVR_INTERRUPT_H
#define VC_AVR_INTERRUPT_H
extern "C" void vcn_cli();
extern "C" void vcn_sei();
#define cli() vcn_cli()
#define sei() vcn_sei()
#endif
