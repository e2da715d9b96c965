#include "c27_stub.h"
#define load c27_load_incrementer
#define init c27_init_incrementer
#define unload c27_unload_incrementer
#define event_functions c27_ef_incrementer
#include "modules/p_incrementer.c"
