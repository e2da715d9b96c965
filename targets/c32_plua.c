// The processing function of the Lua module
#define config vp_unused_config /* Stray variable in the header */
#include "lib/lua/lua_config.h"
#undef config
#include "modules/p_lua.c"
#include "c32_glue.h"
int g_process(void *lua, int direct, int twice, const char *process, const char *source, const void *msg, const void *addr, int spawn, const char *method, unsigned long long *count) {
	struct rrr_cmodule_config_data c; struct rrr_instance i; struct rrr_instance_module_data mod; struct lua_child_data cd; struct lua_data d;
	static struct rrr_instance_runtime_data td;
	memset(&c, 0, sizeof c); memset(&i, 0, sizeof i); memset(&mod, 0, sizeof mod); memset(&cd, 0, sizeof cd); memset(&d, 0, sizeof d); memset(&td, 0, sizeof td);
	c.process_method = (char *) process; c.source_method = (char *) source;
	i.misc_flags = (direct ? RRR_INSTANCE_MISC_OPTIONS_METHODS_DIRECT_DISPATCH : 0) | (twice ? RRR_INSTANCE_MISC_OPTIONS_METHODS_DOUBLE_DELIVERY : 0);
	mod.instance_name = (char *) "l"; td.init_data.module = &mod; td.init_data.instance = &i;
	d.thread_data = &td; cd.parent_data = &d; cd.lua = lua; cd.cmodule_config_data = &c;
	int r = lua_process_callback(NULL, msg, addr, spawn, method, &cd); *count = cd.processed; return r;
}
