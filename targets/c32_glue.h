#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void *g_L(void *lua);
/* Reads a global; kinds: 0 nil, 1 boolean, 2 integer, 3 float, 4 string, 5 table, 6 other */
struct gval { int kind; long long i; double d; const char *s; size_t n; };
void g_global(void *lua, const char *name, struct gval *v); /* Leaves the value on the stack */
int g_index(void *lua, long long i, struct gval *v); /* Of the table on the top; leaves the value on the stack */
long long g_rawlen(void *lua);
void g_field(void *lua, const char *name, struct gval *v);
void g_pop(void *lua, int n);
int g_top(void *lua);
void g_gc(void *lua);
int g_process(void *lua, int direct, int twice, const char *process, const char *source, const void *msg, const void *addr, int spawn, const char *method, unsigned long long *count);
void g_setglobal(void *lua, const char *name);
#ifdef __cplusplus
}
#endif
