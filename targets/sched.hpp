// Schedule perturbation: random pauses before locking and after unlocking a mutex, in threads which ask for it
#pragma once
#include <pthread.h>
#include <dlfcn.h>
#include <sched.h>
#include <time.h>
static __thread uint64_t sched_state = 0; static __thread int sched_rate = 0;
static inline void sched_on(uint64_t seed, int rate) { sched_state = seed * 0x9e3779b97f4a7c15ull + 1; sched_rate = rate; }
static inline void sched_off() { sched_rate = 0; }
static inline void sched_point() {
	if (!sched_rate) return;
	sched_state ^= sched_state << 13; sched_state ^= sched_state >> 7; sched_state ^= sched_state << 17;
	if (sched_state % 1000 >= (uint64_t) sched_rate) return;
	if (sched_state & 0x10000) { struct timespec t = {0, (long) (sched_state >> 20 & 0x3ffff)}; nanosleep(&t, NULL); } else sched_yield();
}
typedef int (*sched_mutex_fn)(pthread_mutex_t *);
static sched_mutex_fn sched_real(const char *n) { return (sched_mutex_fn) dlsym(RTLD_NEXT, n); }
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) { static sched_mutex_fn f; if (!f) f = sched_real("pthread_mutex_lock"); sched_point(); return f(m); }
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) { static sched_mutex_fn f; if (!f) f = sched_real("pthread_mutex_unlock"); int r = f(m); sched_point(); return r; }
