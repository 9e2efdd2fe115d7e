// Conformance driver: the raft log store and state files of a replica, with
// process and power failures at any point.
#include "common.hpp"
#include "ldb.hpp"
#include "util/raft/log_store.hpp"
#include "util/raft/state_manager.hpp"
#include <filesystem>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

// A process that stops at a chosen call that changes files.
static long calls_left = -1;
static bool watched;
static bool due() {
    return watched && calls_left-- == 0;
}
static void stop_here() {
    if(due()) {
        _exit(9);
    }
}
template<typename F>
static F real(const char* n) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
extern "C" {
int rename(const char* a, const char* b) {
    static auto f = real<int (*)(const char*, const char*)>("rename");
    stop_here();
    return f(a, b);
}
ssize_t write(int fd, const void* b, size_t n) {
    static auto f = real<ssize_t (*)(int, const void*, size_t)>("write");
    stop_here();
    if(due()) {
        // half of it gets to the file
        f(fd, b, n / 2);
        _exit(9);
    }
    return f(fd, b, n);
}
ssize_t writev(int fd, const iovec* v, int n) {
    static auto f = real<ssize_t (*)(int, const iovec*, int)>("writev");
    stop_here();
    return f(fd, v, n);
}
int fclose(FILE* x) {
    static auto f = real<int (*)(FILE*)>("fclose");
    stop_here();
    return f(x);
}
}
static std::string dir;
static std::unique_ptr<cbdc::raft::state_manager> sm;
static nuraft::ptr<nuraft::log_store> ls;
static nuraft::ptr<nuraft::buffer> packed;
static long nent, nend;

static nuraft::ptr<nuraft::log_entry> make(unsigned long term, long len) {
    auto id = ++nent;
    auto b = nuraft::buffer::alloc(static_cast<size_t>(std::max(8L, len)));
    std::memcpy(b->data_begin(), &id, 8);
    for(size_t i = 8; i < b->size(); i++) {
        b->data_begin()[i] = static_cast<unsigned char>(id * 31 + static_cast<long>(i) * 7);
    }
    return nuraft::cs_new<nuraft::log_entry>(term, b);
}
// The entry's number, -1 if it is damaged, 0 for none.
static long number(const nuraft::ptr<nuraft::log_entry>& e) {
    if(!e) {
        return -2;
    }
    if(e->is_buf_null()) {
        return e->get_term() == 0 ? 0 : -1;
    }
    auto& b = e->get_buf();
    if(b.size() < 8) {
        return -1;
    }
    long id{};
    std::memcpy(&id, b.data_begin(), 8);
    for(size_t i = 8; i < b.size(); i++) {
        if(b.data_begin()[i] != static_cast<unsigned char>(id * 31 + static_cast<long>(i) * 7)) {
            return -1;
        }
    }
    return id * 10 + static_cast<long>(e->get_term());
}
static bool losing;
static void dump() {
    if(losing) {
        return;
    }
    auto s = static_cast<long>(ls->start_index()), n = static_cast<long>(ls->next_slot());
    std::vector<long long> at, range, terms, probe;
    if(n >= s && n - s < 1000) {
        for(auto i = s; i < n; i++) {
            at.push_back(number(ls->entry_at(static_cast<uint64_t>(i))));
            terms.push_back(static_cast<long>(ls->term_at(static_cast<uint64_t>(i))));
        }
        bool ok = true;
        for(auto x : at) {
            ok = ok && x > 0;
        }
        if(ok) {
            auto l = ls->log_entries(static_cast<uint64_t>(s), static_cast<uint64_t>(n));
            for(auto& e : *l) {
                range.push_back(number(e));
            }
        }
        for(auto i : {0L, s - 1, n, n + 1}) {
            probe.push_back(number(ls->entry_at(static_cast<uint64_t>(i))));
        }
    }
    vf::emit(vf::js().str("ev", "log").num("start", s).num("next", n).num("last", number(ls->last_entry())).nums("at", at).nums("range", range).nums("terms", terms).nums("none", probe));
}
static std::unique_ptr<cbdc::raft::state_manager> manager() {
    std::vector<cbdc::network::endpoint_t> ep;
    for(long i = 0; i < nend; i++) {
        ep.emplace_back("h" + std::to_string(i + 1), static_cast<unsigned short>(100 + i));
    }
    return std::make_unique<cbdc::raft::state_manager>(1, dir + "/log", dir + "/config", dir + "/state", ep);
}
static void restart() {
    ls.reset();
    sm = manager();
    ls = sm->load_log_store();
    if(!ls) {
        vf::emit(vf::js().str("ev", "open-failed"));
        _exit(5);
    }
}
static void files() {
    auto st = sm->read_state();
    auto cfg = sm->load_config();
    std::vector<long long> srv;
    if(cfg) {
        for(auto& x : cfg->get_servers()) {
            auto& e = x->get_endpoint();
            auto i = x->get_id();
            auto good = e == "h" + std::to_string(i) + ":" + std::to_string(99 + i);
            srv.push_back(good ? i * 1000 + x->m_prio : -1);
        }
    }
    vf::emit(vf::js().str("ev", "files").num("term", st ? static_cast<long>(st->get_term()) : -1).num("vote", st ? st->get_voted_for() : -1).num("cfg", cfg ? static_cast<long>(cfg->get_log_idx()) : -1).nums("srv", srv));
}
// Runs f; k >= 0: in a process that stops at its k-th call that changes a file.
static void save(long k, const std::function<void()>& f) {
    if(k < 0) {
        f();
        return;
    }
    auto pid = fork();
    if(pid == 0) {
        watched = true;
        calls_left = k;
        f();
        _exit(0);
    }
    int st{};
    waitpid(pid, &st, 0);
}

int main(int argc, char** argv) {
    auto r = vf::run(argc, argv, [](const vf::op& o) {
        if(o.name == "reset") {
            // reset ENDPOINTS
            ls.reset();
            if(!dir.empty()) {
                std::filesystem::remove_all(dir);
            }
            char t[] = "/tmp/raftlogXXXXXX";
            dir = mkdtemp(t);
            nent = 0;
            packed.reset();
            nend = o.i(0);
            vf::emit(vf::js().str("ev", "reset").num("n", nend));
            restart();
            dump();
            files();
        } else if(o.name == "append") {
            auto e = make(o.u(0), o.i(1));
            auto i = ls->append(e);
            vf::emit(vf::js().str("ev", "append").num("e", nent * 10 + o.i(0)).num("i", static_cast<long>(i)));
            dump();
        } else if(o.name == "write") {
            auto n = static_cast<long>(ls->next_slot()), s = static_cast<long>(ls->start_index());
            auto i = std::max(s, std::min(n, o.i(0)));
            auto e = make(o.u(1), o.i(2));
            ls->write_at(static_cast<uint64_t>(i), e);
            vf::emit(vf::js().str("ev", "write").num("i", i).num("e", nent * 10 + o.i(1)));
            dump();
        } else if(o.name == "compact") {
            auto i = std::max(o.i(0), static_cast<long>(ls->start_index()) - 1);
            if(i == 0) {
                return;
            }
            auto ok = ls->compact(static_cast<uint64_t>(i));
            vf::emit(vf::js().str("ev", "compact").num("i", i).num("ok", ok ? 1 : 0));
            dump();
        } else if(o.name == "pack") {
            auto n = static_cast<long>(ls->next_slot()), s = static_cast<long>(ls->start_index());
            auto i = std::max(s, std::min(n, o.i(0)));
            auto c = std::min(o.i(1), n - i);
            packed = ls->pack(static_cast<uint64_t>(i), static_cast<int32_t>(c));
            vf::emit(vf::js().str("ev", "pack").num("i", i).num("c", c));
        } else if(o.name == "apply") {
            if(!packed) {
                return;
            }
            auto n = static_cast<long>(ls->next_slot()), s = static_cast<long>(ls->start_index());
            auto i = std::max(s, o.i(0));
            i = n > s ? std::min(i, n) : i;
            packed->pos(0);
            ls->apply_pack(static_cast<uint64_t>(i), *packed);
            vf::emit(vf::js().str("ev", "apply").num("i", i));
            dump();
        } else if(o.name == "flush") {
            auto ok = ls->flush();
            vf::emit(vf::js().str("ev", "flush").num("ok", ok ? 1 : 0));
            dump();
        } else if(o.name == "lose") {
            // the process stops after N more changes (then comes a crash)
            vf::ldb::left() = o.i(0);
            losing = true;
            vf::emit(vf::js().str("ev", "lose"));
        } else if(o.name == "crash") {
            // crash -1: of the process; crash K: of the power, K changes since the last flush survive
            vf::ldb::left() = -1;
            vf::ldb::dead() = false;
            losing = false;
            if(o.i(0) >= 0) {
                for(auto* p : vf::ldb::open()) {
                    p->power_failure(o.u(0));
                }
            }
            vf::emit(vf::js().str("ev", "restart").num("power", o.i(0) >= 0 ? 1 : 0));
            restart();
            dump();
            files();
        } else if(o.name == "state") {
            // state TERM VOTE STOP
            save(o.i(2), [&]() { sm->save_state(nuraft::srv_state(o.u(0), static_cast<int>(o.i(1)))); });
            vf::emit(vf::js().str("ev", "state").num("term", o.i(0)).num("vote", o.i(1)).num("stop", o.i(2) >= 0 ? 1 : 0));
            sm = manager();
            files();
        } else if(o.name == "config") {
            // config INDEX SERVERS STOP
            nuraft::cluster_config c(o.u(0), o.u(0) / 2);
            for(long i = 1; i <= o.i(1); i++) {
                auto x = nuraft::cs_new<nuraft::srv_config>(static_cast<int>(i), "h" + std::to_string(i) + ":" + std::to_string(99 + i));
                x->set_priority(static_cast<int>(i));
                c.get_servers().push_back(x);
            }
            save(o.i(2), [&]() { sm->save_config(c); });
            vf::emit(vf::js().str("ev", "config").num("cfg", o.i(0)).num("n", o.i(1)).num("stop", o.i(2) >= 0 ? 1 : 0));
            sm = manager();
            files();
        } else if(o.name == "threads") {
            // threads N: entries are read while others are appended
            auto from = ls->next_slot();
            std::atomic<bool> done{false}, bad{false};
            auto n = o.i(0);
            std::vector<std::thread> ts;
            for(int t = 0; t < 2; t++) {
                ts.emplace_back([&, t]() {
                    while(!done) {
                        auto e = ls->next_slot();
                        if(e > from) {
                            auto v = number(ls->entry_at(e - 1));
                            auto w = t == 0 ? number(ls->last_entry()) : v;
                            auto l = ls->log_entries(from, e);
                            if(v <= 0 || w <= 0 || l->size() != e - from || number(l->back()) != v) {
                                bad = true;
                            }
                        }
                    }
                });
            }
            std::vector<long long> es;
            for(long i = 0; i < n; i++) {
                auto e = make(3, 20);
                ls->append(e);
                es.push_back(nent * 10 + 3);
            }
            done = true;
            for(auto& t : ts) {
                t.join();
            }
            vf::emit(vf::js().str("ev", "threads").nums("es", es).num("bad", bad ? 1 : 0));
            dump();
        } else if(o.name == "end") {
            ls.reset();
            std::filesystem::remove_all(dir);
            dir.clear();
        }
    });
    return r;
}
