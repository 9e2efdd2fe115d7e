// Free-running threads: a thread that has just released a mutex sometimes
// pauses, so that others get in between two of its critical sections.
#ifndef VERIF_PERTURB_HPP
#define VERIF_PERTURB_HPP
#include <atomic>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace vf {
    inline std::atomic_bool perturb{false};
    inline void pause_sometimes() {
        if(!perturb.load(std::memory_order_relaxed)) {
            return;
        }
        static thread_local unsigned long x = static_cast<unsigned long>(syscall(SYS_gettid)) * 2654435761UL | 1;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        if(x % 4 == 0) {
            timespec t{0, static_cast<long>(x % 60000)};
            syscall(SYS_nanosleep, &t, nullptr);
        } else if(x % 4 == 1) {
            syscall(SYS_sched_yield);
        }
    }
}
#ifndef __SANITIZE_THREAD__
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
    using fn = int (*)(pthread_mutex_t*);
    static auto real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
    auto r = real(m);
    vf::pause_sometimes();
    return r;
}
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    using fn = int (*)(pthread_rwlock_t*);
    static auto real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "pthread_rwlock_unlock"));
    auto r = real(m);
    vf::pause_sometimes();
    return r;
}
#endif
#ifdef PERTURB_ALLOC
// A container that is changed allocates in the middle of the change.
#include <cstdlib>
#include <new>
void* operator new(size_t n) {
    vf::pause_sometimes();
    return std::malloc(n);
}
void operator delete(void* p) noexcept {
    std::free(p);
}
void operator delete(void* p, size_t) noexcept {
    std::free(p);
}
#endif
#endif
