// Access to the Lua state of the library
#include "lib/lua/lua_common.h"
#include "c32_glue.h"
#define LS(p) (((struct rrr_lua *) (p))->L)
void *g_L(void *l) { return LS(l); }
static void rd(lua_State *L, struct gval *v) {
	v->i = 0; v->d = 0; v->s = NULL; v->n = 0;
	switch (lua_type(L, -1)) {
		case LUA_TNIL: v->kind = 0; break;
		case LUA_TBOOLEAN: v->kind = 1; v->i = lua_toboolean(L, -1); break;
		case LUA_TNUMBER: if (lua_isinteger(L, -1)) { v->kind = 2; v->i = lua_tointeger(L, -1); } else { v->kind = 3; v->d = lua_tonumber(L, -1); } break;
		case LUA_TSTRING: v->kind = 4; v->s = lua_tolstring(L, -1, &v->n); break;
		case LUA_TTABLE: v->kind = 5; break;
		default: v->kind = 6; break;
	}
}
void g_global(void *l, const char *name, struct gval *v) { lua_getglobal(LS(l), name); rd(LS(l), v); }
int g_index(void *l, long long i, struct gval *v) { lua_rawgeti(LS(l), -1, i); rd(LS(l), v); return v->kind; }
long long g_rawlen(void *l) { return (long long) lua_rawlen(LS(l), -1); }
void g_field(void *l, const char *name, struct gval *v) { lua_getfield(LS(l), -1, name); rd(LS(l), v); }
void g_pop(void *l, int n) { lua_pop(LS(l), n); }
int g_top(void *l) { return lua_gettop(LS(l)); }
void g_gc(void *l) { lua_gc(LS(l), LUA_GCCOLLECT, 0); }
void g_setglobal(void *l, const char *name) { lua_setglobal(LS(l), name); }
