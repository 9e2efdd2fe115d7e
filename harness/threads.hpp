// For drivers of multi-threaded code: every thread of the code under test ends
// up blocked in a gate (or waiting for another one); the driver waits until
// all are asleep before it looks at the gates and releases one of them.
#ifndef VERIF_THREADS_HPP
#define VERIF_THREADS_HPP
#include <condition_variable>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <sched.h>
#include <string>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace vf {
    // Snapshot of all other threads: false if one of them is not asleep.
    inline bool snapshot(std::map<long, std::string>& m) {
        m.clear();
        auto* d = opendir("/proc/self/task");
        if(d == nullptr) {
            return true;
        }
        auto me = syscall(SYS_gettid);
        bool asleep = true;
        // a listing taken while threads come and go may be incomplete
        struct stat sb {};
        auto links = fstat(dirfd(d), &sb) == 0 ? static_cast<long>(sb.st_nlink) - 2 : 0;
        long seen = 0;
        while(auto* e = readdir(d)) {
            long tid = atol(e->d_name);
            seen += tid != 0;
            if(tid == 0 || tid == me) {
                continue;
            }
            char p[64];
            snprintf(p, sizeof(p), "/proc/self/task/%ld/status", tid);
            int fd = open(p, O_RDONLY);
            if(fd < 0) {
                asleep = false;
                continue;
            }
            char b[4096];
            auto n = read(fd, b, sizeof(b) - 1);
            close(fd);
            if(n <= 0) {
                asleep = false;
                continue;
            }
            b[n] = 0;
            auto* st = strstr(b, "State:");
            auto* v = strstr(b, "voluntary_ctxt_switches:");
            if(st == nullptr || v == nullptr || strchr("S", st[7]) == nullptr) {
                asleep = false;
            }
            m[tid] = v != nullptr ? std::string(v) : "";
        }
        closedir(d);
        return asleep && (links <= 0 || seen == links);
    }
    // Waits until no other thread can run without the driver.
    inline void quiesce() {
        std::map<long, std::string> a;
        std::map<long, std::string> b;
        for(int n = 0;; n++) {
            if(snapshot(a) && snapshot(b) && a == b) {
                return;
            }
            if(n > 3) {
                timespec t{0, n > 50 ? 200000 : 20000};
                syscall(SYS_nanosleep, &t, nullptr);
            } else {
                syscall(SYS_sched_yield);
            }
        }
    }

    // Threads that spin with yield() wait for the driver's next step instead.
    struct spin_state {
        std::mutex m;
        std::condition_variable cv;
        unsigned long gen{0};
        unsigned long spins{0};
        bool on{false};
    };
    inline spin_state& spinners() {
        static auto* s = new spin_state();
        return *s;
    }
    inline int park_spinner() {
        auto& s = spinners();
        std::unique_lock<std::mutex> l(s.m);
        if(!s.on) {
            l.unlock();
            return static_cast<int>(syscall(SYS_sched_yield));
        }
        auto g = s.gen;
        s.spins++;
        s.cv.wait(l, [&]() { return s.gen != g || !s.on; });
        return 0;
    }
    inline unsigned long bump_spinners() {
        auto& s = spinners();
        std::unique_lock<std::mutex> l(s.m);
        s.gen++;
        s.cv.notify_all();
        return s.spins;
    }
    inline unsigned long spin_count() {
        auto& s = spinners();
        std::unique_lock<std::mutex> l(s.m);
        return s.spins;
    }
}
#endif
