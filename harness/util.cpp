// Conformance driver: blocking queues and the thread pool under scripted
// schedules and free-running threads; bounded sets.
#include "common.hpp"
#include "sched.hpp"
#include "threads.hpp"
#include "util/common/blocking_queue.hpp"
#include "util/common/cache_set.hpp"
#include "util/common/thread_pool.hpp"
#include <list>
#include <optional>
#include <set>
#include <thread>

namespace sc = vf::sched;
static std::mutex em; // free-running threads' events
static bool stress;
static char mode;
static bool deep; // threads are also interrupted where items are copied or compared
static void point() {
    if(stress) {
        vf::pause_sometimes();
    } else if(deep) {
        sc::yield();
    }
}
struct item {
    long v{0};
    item() = default;
    item(long x) : v(x) {}
    item(const item& o) : v(o.v) {
        point();
    }
    item(item&& o) noexcept : v(o.v) {
        point();
    }
    item& operator=(const item& o) {
        point();
        v = o.v;
        return *this;
    }
    item& operator=(item&& o) noexcept {
        point();
        v = o.v;
        return *this;
    }
    bool operator<(const item& o) const {
        point();
        return v < o.v;
    }
    bool operator==(const item& o) const {
        point();
        return v == o.v;
    }
};
struct hasher {
    size_t operator()(const item& x) const {
        point();
        return static_cast<size_t>(x.v) % 3;
    }
};
static std::unique_ptr<cbdc::blocking_queue<item>> fifo;
static std::unique_ptr<cbdc::blocking_priority_queue<item>> prio;
static std::unique_ptr<cbdc::thread_pool> pool;
static std::unique_ptr<cbdc::cache_set<std::string>> cache;
static std::unique_ptr<cbdc::cache_set<item, hasher>> cache2;
static std::list<std::thread> threads;
static long nthreads, next_val;
// blocked tasks
static std::mutex rm;
static std::condition_variable rcv;
static std::set<long> released, blocked;

static void say(const vf::js& j) {
    if(stress) {
        std::unique_lock<std::mutex> l(em);
        vf::emit(j);
        return;
    }
    vf::emit(j);
}
static vf::js ev(const char* n, long t) {
    return vf::js().str("ev", n).num("t", t);
}
static void task(long id, char kind);
static void give(long t, long id, char kind) {
    say(ev("give", t).num("k", id));
    pool->push([i = item(id), kind]() { task(i.v, kind); });
    say(ev("given", t).num("k", id));
}
static void task(long id, char kind) {
    say(vf::js().str("ev", "start").num("k", id));
    sc::yield();
    if(stress) {
        vf::pause_sometimes();
    }
    if(kind == 'b') {
        std::unique_lock<std::mutex> l(rm);
        rcv.wait(l, [&]() { return released.count(id) != 0; });
    } else if(kind == 'n') {
        give(0, id + 100, 'r');
        sc::yield();
    }
    say(vf::js().str("ev", "stop").num("k", id));
}
static void do_op(long t, const std::string& w, long v) {
    if(w == "pop") {
        say(ev("op", t).str("o", "pop").num("v", 0));
        item x;
        auto ok = mode == 'q' ? fifo->pop(x) : prio->pop(x);
        say(ev("ret", t).str("o", "pop").num("v", ok ? x.v : 0));
    } else if(w == "push") {
        say(ev("op", t).str("o", "push").num("v", v));
        auto n = mode == 'q' ? fifo->push(v) : prio->push(v);
        say(ev("ret", t).str("o", "push").num("v", static_cast<long>(n)));
    } else if(w == "clear") {
        say(ev("op", t).str("o", "clear").num("v", 0));
        mode == 'q' ? fifo->clear() : prio->clear();
        say(ev("ret", t).str("o", "clear").num("v", 0));
    } else if(w == "reset") {
        say(ev("op", t).str("o", "reset").num("v", 0));
        mode == 'q' ? fifo->reset() : prio->reset();
        say(ev("ret", t).str("o", "reset").num("v", 0));
    } else if(w == "destroy") {
        say(ev("destroy", t));
        pool.reset();
        say(ev("destroyed", t));
    }
}
struct todo {
    std::string w;
    long v{0};
    char kind{'r'};
};
static void start(const std::vector<todo>& ops) {
    auto t = ++nthreads;
    sc::manage_next = !stress;
    threads.emplace_back([ops, t]() {
        for(const auto& o : ops) {
            if(o.w == "give") {
                give(t, o.v, o.kind);
            } else if(o.w == "rel") {
                std::unique_lock<std::mutex> l(rm);
                released.insert(o.v);
                l.unlock();
                rcv.notify_all();
            } else {
                do_op(t, o.w, o.v);
            }
        }
    });
    sc::manage_next = false;
}
static std::vector<todo> parse(const std::string& s) {
    std::vector<todo> r;
    std::istringstream in(s);
    std::string x;
    while(std::getline(in, x, '+')) {
        todo o;
        auto c = x.find(':');
        o.w = x.substr(0, c);
        if(c != std::string::npos) {
            o.v = atol(x.c_str() + c + 1);
            auto d = x.find(':', c + 1);
            if(d != std::string::npos) {
                o.kind = x[d + 1];
            }
        } else if(o.w == "push") {
            o.v = ++next_val;
        }
        if(o.w == "give" && o.kind == 'b') {
            blocked.insert(o.v);
        }
        r.push_back(o);
    }
    return r;
}
static void go(const std::vector<long>& tok) {
    sc::run(tok);
    say(vf::js().str("ev", "q"));
}
static void stuck() {
    say(vf::js().str("ev", "stuck"));
    _exit(5);
}
static void finish() {
    if(mode == 'q' || mode == 'p') {
        start({{"clear"}});
        go({});
        if(sc::alive() != 0) {
            stuck();
        }
    } else if(mode == 't' && pool) {
        std::vector<todo> r;
        for(auto b : blocked) {
            r.push_back({"rel", b});
        }
        start(r);
        go({});
        start({{"destroy"}});
        go({});
        if(pool || sc::alive() != 0) {
            stuck();
        }
    }
    for(auto& t : threads) {
        t.join();
    }
    threads.clear();
    sc::forget();
    say(vf::js().str("ev", "end"));
}
// Until every thread is blocked (not just pausing).
static void settle() {
    for(int ok = 0; ok < 2;) {
        auto n = vf::pauses.load();
        auto still = vf::pausing == 0;
        vf::quiesce();
        if(still && n == vf::pauses && vf::pausing == 0) {
            ok++;
        } else {
            ok = 0;
            timespec t{0, 100000};
            nanosleep(&t, nullptr);
        }
    }
}
// Free-running producers and takers.
static void queue_stress(long np, long nc, long k) {
    stress = true;
    vf::perturb = true;
    std::vector<std::vector<todo>> prog;
    for(long p = 0; p < np; p++) {
        std::vector<todo> r;
        for(long i = 0; i < k; i++) {
            r.push_back({"push", ++next_val});
        }
        prog.push_back(r);
    }
    for(long c = 0; c < nc; c++) {
        prog.push_back(std::vector<todo>(static_cast<size_t>(np * k / nc + (c < np * k % nc ? 1 : 0) + 1), todo{"pop"}));
    }
    for(auto& p : prog) {
        start(p);
    }
    // every taker is left with one call
    settle();
    say(vf::js().str("ev", "q"));
    do_op(++nthreads, "clear", 0);
    vf::perturb = false;
    settle();
    say(vf::js().str("ev", "q"));
    for(auto& t : threads) {
        t.join();
    }
    threads.clear();
    stress = false;
}
static void pool_stress(long n, long k) {
    stress = true;
    vf::perturb = true;
    for(long t = 0; t < n; t++) {
        std::vector<todo> r;
        for(long i = 0; i < k; i++) {
            r.push_back({"give", 1000 * (t + 1) + i, i % 5 == 4 ? 'n' : 'r'});
        }
        start(r);
    }
    for(auto& t : threads) {
        t.join();
    }
    threads.clear();
    vf::perturb = false;
    settle();
    say(vf::js().str("ev", "q"));
    do_op(++nthreads, "destroy", 0);
    stress = false;
}
static std::string key(long k) {
    return std::string(static_cast<size_t>(k % 40), 'k') + std::to_string(k);
}
static void cache_stress(long n, long k) {
    stress = true;
    vf::perturb = true;
    std::vector<std::thread> ts;
    for(long t = 0; t < n; t++) {
        ts.emplace_back([=]() {
            for(long i = 0; i < k; i++) {
                auto x = (i * (t % 2 == 0 ? 1 : 7)) % k;
                say(ev("cop", t + 1).num("k", x).num("add", 1));
                auto r = cache2->add(item(x));
                say(ev("cret", t + 1).num("r", r ? 1 : 0));
                auto y = (i * 3 + t) % k;
                say(ev("cop", t + 1).num("k", y).num("add", 0));
                r = cache2->contains(item(y));
                say(ev("cret", t + 1).num("r", r ? 1 : 0));
            }
        });
    }
    for(auto& t : ts) {
        t.join();
    }
    vf::perturb = false;
    stress = false;
}

int main(int argc, char** argv) {
    return vf::run(argc, argv, [](const vf::op& o) {
        if(o.name == "reset") {
            // reset q|p|t|c SIZE: queue, priority queue, pool, bounded set
            fifo.reset();
            prio.reset();
            pool.reset();
            cache.reset();
            released.clear();
            blocked.clear();
            nthreads = 0;
            next_val = 0;
            mode = o.a[0][0];
            deep = mode != 'c' && o.i(1) == 1;
            say(vf::js().str("ev", "reset").str("mode", o.a[0]).num("n", o.i(1)));
            if(mode == 'q') {
                fifo = std::make_unique<cbdc::blocking_queue<item>>();
            } else if(mode == 'p') {
                prio = std::make_unique<cbdc::blocking_priority_queue<item>>();
            } else if(mode == 't') {
                pool = std::make_unique<cbdc::thread_pool>();
            } else {
                cache = std::make_unique<cbdc::cache_set<std::string>>(o.u(1));
                cache2 = std::make_unique<cbdc::cache_set<item, hasher>>(o.u(1));
            }
        } else if(o.name == "par") {
            // par TOKENS OPS OPS ...: threads run their operations on this schedule
            std::vector<long> tok;
            std::istringstream in(o.a[0]);
            std::string x;
            while(std::getline(in, x, ',')) {
                if(!x.empty()) {
                    tok.push_back(atol(x.c_str()));
                }
            }
            for(size_t i = 1; i < o.a.size(); i++) {
                start(parse(o.a[i]));
            }
            go(tok);
        } else if(o.name == "stress") {
            if(mode == 't') {
                pool_stress(o.i(0), o.i(1));
            } else if(mode == 'c') {
                cache_stress(o.i(0), o.i(1));
            } else {
                queue_stress(o.i(0), o.i(1), o.i(2));
            }
        } else if(o.name == "add") {
            say(vf::js().str("ev", "add").num("k", o.i(0)).num("r", cache->add(key(o.i(0))) ? 1 : 0));
        } else if(o.name == "has") {
            say(vf::js().str("ev", "has").num("k", o.i(0)).num("r", cache->contains(key(o.i(0))) ? 1 : 0));
        } else if(o.name == "end") {
            finish();
        }
    });
}
