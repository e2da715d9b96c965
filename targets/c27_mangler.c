#include "c27_stub.h"
#define load c27_load_mangler
#define init c27_init_mangler
#define unload c27_unload_mangler
#define event_functions c27_ef_mangler
#include "modules/p_mangler.c"
