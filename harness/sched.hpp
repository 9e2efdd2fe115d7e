// Deterministic schedules: managed threads run one at a time; at every mutex
// operation, notification and thread start the script says which one goes on.
// A script is read as loosely as the code needs: a number that names a thread
// which cannot run picks another one.
#ifndef VERIF_SCHED_HPP
#define VERIF_SCHED_HPP
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <dlfcn.h>
#include <map>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace vf {
    inline std::atomic_bool perturb{false};
    inline std::atomic_long pauses{0}, pausing{0};
    inline void pause_sometimes() {
        if(!perturb.load(std::memory_order_relaxed)) {
            return;
        }
        static thread_local unsigned long x = static_cast<unsigned long>(syscall(SYS_gettid)) * 2654435761UL | 1;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        if(x % 4 == 0) {
            timespec t{0, static_cast<long>(x % 60000)};
            pauses++;
            pausing++;
            syscall(SYS_nanosleep, &t, nullptr);
            pausing--;
        } else if(x % 4 == 1) {
            syscall(SYS_sched_yield);
        }
    }
}
namespace vf::sched {
    template<typename F>
    F real(const char* n) {
        return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
    }
    using lock_t = int (*)(pthread_mutex_t*);
    using wait_t = int (*)(pthread_cond_t*, pthread_mutex_t*);
    using sig_t = int (*)(pthread_cond_t*);
    using create_t = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    using join_t = int (*)(pthread_t, void**);
    inline lock_t r_lock() {
        static auto f = real<lock_t>("pthread_mutex_lock");
        return f;
    }
    inline lock_t r_unlock() {
        static auto f = real<lock_t>("pthread_mutex_unlock");
        return f;
    }
    inline wait_t r_wait() {
        static auto f = real<wait_t>("pthread_cond_wait");
        return f;
    }
    inline sig_t r_signal() {
        static auto f = real<sig_t>("pthread_cond_signal");
        return f;
    }
    inline sig_t r_broadcast() {
        static auto f = real<sig_t>("pthread_cond_broadcast");
        return f;
    }
    enum class st { ready, mutex, cond, join, done };
    struct thr {
        st s{st::ready};
        pthread_mutex_t* m{nullptr};
        pthread_cond_t* c{nullptr};
        thr* target{nullptr};
        pthread_t id{};
        std::vector<long> label; // number in the script
        pthread_cond_t go = PTHREAD_COND_INITIALIZER;
    };
    struct state {
        pthread_mutex_t g = PTHREAD_MUTEX_INITIALIZER;
        pthread_cond_t idle = PTHREAD_COND_INITIALIZER;
        std::vector<thr*> all;
        thr* cur{nullptr};
        bool running{false}; // the driver has handed over
        std::map<pthread_mutex_t*, thr*> owner;
        std::vector<long> tok;
        size_t pos{0};
    };
    inline state& S() {
        static auto* s = new state();
        return *s;
    }
    inline thread_local thr* self = nullptr;
    inline thread_local bool inside = false; // the scheduler itself

    inline long next_tok() {
        auto& s = S();
        if(s.pos < s.tok.size()) {
            return s.tok[s.pos++];
        }
        return -1;
    }
    inline bool enabled(const thr* t) {
        auto& s = S();
        switch(t->s) {
            case st::ready:
                return true;
            case st::mutex:
                return s.owner.find(t->m) == s.owner.end();
            case st::join:
                return t->target->s == st::done;
            default:
                return false;
        }
    }
    // g held; gives the processor to some thread, or to the driver.
    inline void pick() {
        auto& s = S();
        for(;;) {
            std::vector<thr*> e;
            for(auto* t : s.all) {
                if(enabled(t)) {
                    e.push_back(t);
                }
            }
            if(e.empty()) {
                s.cur = nullptr;
                s.running = false;
                r_signal()(&s.idle);
                return;
            }
            auto k = next_tok();
            if(k >= 90) {
                // wakes a waiting thread for no reason
                auto i = static_cast<size_t>(k - 91);
                if(i < s.all.size() && s.all[i]->s == st::cond) {
                    s.all[i]->s = st::mutex;
                }
                continue;
            }
            thr* t = nullptr;
            if(k >= 1 && static_cast<size_t>(k) <= s.all.size() && enabled(s.all[static_cast<size_t>(k - 1)])) {
                t = s.all[static_cast<size_t>(k - 1)];
            } else {
                t = e[k < 0 ? 0 : static_cast<size_t>(k) % e.size()];
            }
            if(t->s == st::mutex) {
                s.owner[t->m] = t;
            }
            t->s = st::ready;
            s.cur = t;
            r_signal()(&t->go);
            return;
        }
    }
    // g held
    inline void wait_turn() {
        auto& s = S();
        while(s.cur != self) {
            r_wait()(&self->go, &s.g);
        }
    }
    struct guard {
        guard() {
            inside = true;
            r_lock()(&S().g);
        }
        ~guard() {
            r_unlock()(&S().g);
            inside = false;
        }
    };
    inline void yield() {
        if(self == nullptr || inside) {
            return;
        }
        guard g;
        self->s = st::ready;
        pick();
        wait_turn();
    }
    struct start_arg {
        void* (*f)(void*);
        void* a;
        thr* t;
    };
    inline void* trampoline(void* p) {
        auto a = *static_cast<start_arg*>(p);
        delete static_cast<start_arg*>(p);
        self = a.t;
        {
            guard g;
            wait_turn();
        }
        auto* r = a.f(a.a);
        {
            guard g;
            self->s = st::done;
            pick();
        }
        self = nullptr;
        return r;
    }
    // A thread to be managed (created by the driver, or by a managed thread).
    inline int create(pthread_t* id, const pthread_attr_t* at, void* (*f)(void*), void* arg) {
        static auto r_create = real<create_t>("pthread_create");
        auto* t = new thr();
        {
            guard g;
            S().all.push_back(t);
        }
        auto r = r_create(id, at, trampoline, new start_arg{f, arg, t});
        t->id = *id;
        return r;
    }
    inline bool manage_next = false;
    // The driver hands over; returns when no managed thread can run.
    inline void run(const std::vector<long>& tok) {
        auto& s = S();
        guard g;
        s.tok = tok;
        s.pos = 0;
        s.running = true;
        pick();
        while(s.running) {
            r_wait()(&s.idle, &s.g);
        }
    }
    // Threads that have not ended.
    inline long alive() {
        guard g;
        long n = 0;
        for(auto* t : S().all) {
            n += t->s != st::done;
        }
        return n;
    }
    // A new script (no thread is alive).
    inline void forget() {
        guard g;
        for(auto* t : S().all) {
            delete t;
        }
        S().all.clear();
        S().owner.clear();
    }
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
    using namespace vf::sched;
    if(self == nullptr || inside) {
        return r_lock()(m);
    }
    guard g;
    self->m = m;
    self->s = st::mutex;
    pick();
    wait_turn();
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    using namespace vf::sched;
    if(self == nullptr || inside) {
        static auto f = real<lock_t>("pthread_mutex_trylock");
        return f(m);
    }
    yield();
    guard g;
    return S().owner.emplace(m, self).second ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    using namespace vf::sched;
    if(self == nullptr || inside) {
        auto r = r_unlock()(m);
        if(!inside) {
            vf::pause_sometimes();
        }
        return r;
    }
    guard g;
    auto it = S().owner.find(m);
    if(it != S().owner.end() && it->second == self) {
        S().owner.erase(it);
    }
    self->s = st::ready;
    pick();
    wait_turn();
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    using namespace vf::sched;
    if(self == nullptr || inside) {
        return r_wait()(c, m);
    }
    guard g;
    S().owner.erase(m);
    self->m = m;
    self->c = c;
    self->s = st::cond;
    pick();
    wait_turn();
    return 0;
}
static int wake(pthread_cond_t* c, bool all) {
    using namespace vf::sched;
    guard g;
    std::vector<size_t> w;
    for(size_t i = 0; i < S().all.size(); i++) {
        if(S().all[i]->s == st::cond && S().all[i]->c == c) {
            w.push_back(i);
        }
    }
    if(!all && w.size() > 1) {
        auto k = next_tok();
        auto it = std::find(w.begin(), w.end(), static_cast<size_t>(k - 1));
        auto i = it != w.end() ? *it : w[static_cast<size_t>(k < 0 ? 0 : k) % w.size()];
        w = {i};
    }
    for(auto i : w) {
        S().all[i]->s = st::mutex;
    }
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c) {
    using namespace vf::sched;
    if(inside || self == nullptr) {
        return r_signal()(c);
    }
    return wake(c, false);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    using namespace vf::sched;
    if(inside || self == nullptr) {
        return r_broadcast()(c);
    }
    return wake(c, true);
}
int pthread_create(pthread_t* id, const pthread_attr_t* at, void* (*f)(void*), void* arg) {
    using namespace vf::sched;
    if(self == nullptr && !manage_next) {
        static auto r_create = real<create_t>("pthread_create");
        return r_create(id, at, f, arg);
    }
    return create(id, at, f, arg);
}
int pthread_join(pthread_t id, void** r) {
    using namespace vf::sched;
    static auto r_join = real<join_t>("pthread_join");
    if(self != nullptr && !inside) {
        guard g;
        for(auto* t : S().all) {
            if(t->id == id && t != self) {
                self->target = t;
                self->s = st::join;
                pick();
                wait_turn();
                break;
            }
        }
    }
    return r_join(id, r);
}
}
#endif
