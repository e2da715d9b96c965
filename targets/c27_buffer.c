#include "c27_stub.h"
#define load c27_load_buffer
#define init c27_init_buffer
#define unload c27_unload_buffer
#define event_functions c27_ef_buffer
#include "modules/p_buffer.c"
