#include "/usr/lib/avr/include/avr/sfr_defs.h"
