// The Modbus client with the clock replaced
#include <stdint.h>
uint64_t vp_time(void);
#include "lib/util/rrr_time.h"
#define rrr_time_get_64 vp_time
#include "lib/modbus/rrr_modbus.c"
