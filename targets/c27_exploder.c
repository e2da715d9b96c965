#include "c27_stub.h"
#define load c27_load_exploder
#define init c27_init_exploder
#define unload c27_unload_exploder
#define event_functions c27_ef_exploder
#include "modules/p_exploder.c"
