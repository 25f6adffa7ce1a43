// Native replay of MCU code: the real register definitions of the device, addresses intercepted by vc_native.hpp
#ifndef VC_AVR_IO_H
#define VC_AVR_IO_H
#include <inttypes.h>
#define _AVR_IO_H_
#include "/usr/lib/avr/include/avr/sfr_defs.h"
#define __AVR_ATmega328P__ 1
#include "/usr/lib/avr/include/avr/iom328p.h"
#include "/usr/lib/avr/include/avr/portpins.h"
#include "/usr/lib/avr/include/avr/common.h"
#endif
