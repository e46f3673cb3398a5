// Schedule perturbation: the driver's own definitions of the pthread calls, reached from the code under test
// too, wait a little (or yield) at the points where another thread can get in between.  They never change
// what the calls do.
#ifndef VF_PERTURB_H
#define VF_PERTURB_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
#include <sched.h>
#include <atomic>
#include <cstdint>
#include <cstdlib>
namespace vf {
    inline std::atomic<int> &perturb_level() { static std::atomic<int> x{0}; return x; }
    inline std::atomic<uint64_t> &perturb_seed() { static std::atomic<uint64_t> x{88172645463325252ull}; return x; }
    inline void jitter(int us) {
        int lv = perturb_level().load(std::memory_order_relaxed);
        if (!lv) return;
        uint64_t x = perturb_seed().fetch_add(0x9E3779B97F4A7C15ull, std::memory_order_relaxed);
        x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31;
        int c = int(x % 100);
        if (c < 60 - 10 * lv) return;
        if (c < 75) { sched_yield(); return; }
        usleep(useconds_t((x >> 8) % uint64_t(us) + 1));
    }
}
extern "C" {
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    typedef int (*fn)(pthread_cond_t *, pthread_mutex_t *);
    static fn real = fn(dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2"));
    if (!real) real = fn(dlsym(RTLD_NEXT, "pthread_cond_wait"));
    vf::jitter(300);
    return real(c, m);
}
int pthread_mutex_lock(pthread_mutex_t *m) {
    typedef int (*fn)(pthread_mutex_t *);
    static fn real = fn(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
    vf::jitter(60);
    return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    typedef int (*fn)(pthread_mutex_t *);
    static fn real = fn(dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
    int r = real(m);
    vf::jitter(60);
    return r;
}
}
#endif
