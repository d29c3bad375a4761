// Interposes the pthread primitives of this process to widen races: random short
// delays around lock/unlock/wait/signal.  Only timing changes, never semantics.
#pragma once
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <stdint.h>

static volatile int perturb_level = 0;   // 0 off, else chance in 1/1000 per operation
static thread_local uint64_t perturb_rng = 0;
static uint64_t perturb_seed = 1;
static inline void perturb() {
    if (!perturb_level) return;
    if (!perturb_rng) { static uint64_t c = 0; perturb_rng = (perturb_seed + __atomic_add_fetch(&c, 1, __ATOMIC_RELAXED)) * 0x9E3779B97F4A7C15ull | 1; }
    perturb_rng ^= perturb_rng << 13; perturb_rng ^= perturb_rng >> 7; perturb_rng ^= perturb_rng << 17;
    unsigned r = (unsigned)(perturb_rng >> 32);
    if ((int)(r % 1000) >= perturb_level) return;
    unsigned k = (r >> 12) % 100;
    if (k < 50) sched_yield();
    else { struct timespec ts = {0, (long)(k < 90 ? 20000 : k < 98 ? 150000 : 1500000)}; nanosleep(&ts, nullptr); }
}
template<typename F> static F next_sym(F &cache, const char *n) {
    if (!cache) cache = (F)dlsym(RTLD_NEXT, n);
    return cache;
}
extern "C" {
typedef int (*pml)(pthread_mutex_t *);
int pthread_mutex_lock(pthread_mutex_t *m) { static pml f; next_sym(f, "pthread_mutex_lock"); perturb(); return f(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { static pml f; next_sym(f, "pthread_mutex_unlock"); int r = f(m); perturb(); return r; }
}
