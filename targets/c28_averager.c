#define load c28_load_averager
#define init c28_init_averager
#define unload c28_unload_averager
#define event_functions c28_ef_averager
#include "c28_stub.h"
#include "modules/p_averager.c"
