#define load c28_load_cacher
#define init c28_init_cacher
#define unload c28_unload_cacher
#define event_functions c28_ef_cacher
#include "c28_stub.h"
#include "modules/p_cacher.c"
