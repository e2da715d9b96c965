/* Stand-in for jemalloc in instrumented builds: the same calls, served by
 * the (sanitizer) malloc, so that out-of-bounds accesses are visible. */
#ifndef VERIF_JEMALLOC_SHIM_H
#define VERIF_JEMALLOC_SHIM_H
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stddef.h>
#define MALLOCX_ZERO 0x40
#ifdef __cplusplus
extern "C" {
#endif
int vp_alloc_should_fail (void) __attribute__((weak));
void vp_alloc_add (void *p) __attribute__((weak));
void vp_alloc_del (void *p) __attribute__((weak));
#ifdef __cplusplus
}
#endif
static inline void *mallocx (size_t size, int flags) {
	void *p;
	if (vp_alloc_should_fail && vp_alloc_should_fail()) return NULL;
	p = malloc(size);
	if (p && (flags & MALLOCX_ZERO)) memset(p, 0, size);
	if (vp_alloc_add) vp_alloc_add(p);
	return p;
}
static inline void *rallocx (void *ptr, size_t size, int flags) {
	void *p;
	(void) flags;
	if (vp_alloc_should_fail && vp_alloc_should_fail()) return NULL;
	p = realloc(ptr, size);          /* the old block is removed by the free hook */
	if (vp_alloc_add && p) { if (vp_alloc_del) { vp_alloc_del(ptr); } vp_alloc_add(p); }
	return p;
}
static inline int mallctl (const char *n, void *o, size_t *ol, void *w, size_t wl) { (void)n;(void)o;(void)ol;(void)w;(void)wl; return 1; }
static inline void malloc_stats_print (void (*cb)(void *, const char *), void *a, const char *o) { (void)cb;(void)a;(void)o; }
#endif
