// Conformance driver: remote calls.  Real clients and a real server; the
// script decides what becomes of every message.
#include "common.hpp"
#include "perturb.hpp"
#include "threads.hpp"
#include "util/rpc/format.hpp"
#include "util/rpc/tcp_client.hpp"
#include "util/rpc/tcp_server.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"
#include <deque>
#include <list>
#include <optional>

namespace net = cbdc::network;
namespace rpc = cbdc::rpc;
using cm_t = net::connection_manager;
// A request is the number of the call, padded; a response the number of the
// delivery it answers, or of the one who made it up.
struct payload {
    uint64_t v{};
    std::vector<unsigned char> pad;
};
namespace cbdc {
    auto operator<<(serializer& s, const payload& p) -> serializer& {
        return s << p.v << p.pad;
    }
    auto operator>>(serializer& s, payload& p) -> serializer& {
        return s >> p.v >> p.pad;
    }
}
static payload mk(uint64_t v) {
    return {v, std::vector<unsigned char>(v % 5, static_cast<unsigned char>(v))};
}
static long value(const payload& p) {
    auto q = mk(p.v);
    return q.pad == p.pad ? static_cast<long>(p.v) : -2;
}
using client_t = rpc::tcp_client<payload, payload>;
using req_t = rpc::request<payload>;
using rsp_t = rpc::response<payload>;
using blocking_t = rpc::tcp_server<rpc::blocking_server<payload, payload>>;
using async_t = rpc::tcp_server<rpc::async_server<payload, payload>>;
using raw_t = rpc::tcp_server<rpc::raw_async_server>;

static std::mutex em;
static std::condition_variable cv;
struct client {
    std::unique_ptr<client_t> c;
    cm_t* cm{nullptr};
};
struct msg {
    long c;
    cbdc::buffer b;
};
struct delivery {
    std::function<void(bool)> answer; // for later
};
static std::vector<client> clients;
static std::vector<msg> reqs;
static std::vector<msg> reps;
static std::vector<long> kinds; // of the calls
static std::list<std::thread> threads;
static std::list<std::thread> helpers; // em held
static std::vector<std::unique_ptr<std::atomic_bool>> returned;
static std::atomic<long> running{0};
static std::atomic<long> polling{0}; // odd while a caller polls
static std::map<long, delivery> later;
static std::string mode;
static std::unique_ptr<blocking_t> sb;
static std::unique_ptr<async_t> sa;
static std::unique_ptr<raw_t> sr;
static cm_t* scm;
static long ndel, forged;
static thread_local bool fail_send, early;
static thread_local long cur_del;
static thread_local std::string cur_how;
static constexpr long short_ms = 5;
// free-running
static bool stress;
static std::deque<std::function<void()>> to_server;
static std::vector<std::deque<std::function<void()>>> to_client;

static void say(const vf::js& j) {
    vf::emit(j);
}
static long id_of(uint64_t id) {
    return id < 1000000 ? static_cast<long>(id) : -1;
}
static long client_of(const cm_t* cm) {
    for(size_t i = 0; i < clients.size(); i++) {
        if(clients[i].cm == cm) {
            return static_cast<long>(i) + 1;
        }
    }
    return 0;
}
static void hand(long c, const cbdc::buffer& b) {
    auto& h = clients[static_cast<size_t>(c - 1)].cm->m_handler;
    auto r = h(net::message_t{std::make_shared<cbdc::buffer>(b), 0});
    if(r.has_value()) {
        std::unique_lock<std::mutex> l(em);
        say(vf::js().str("ev", "client-answers"));
    }
}
// A message reaches client c (em held).
static void announce(long c, const cbdc::buffer& b) {
    auto x = b;
    auto r = cbdc::from_buffer<rsp_t>(x);
    say(vf::js().str("ev", "rsp").num("c", c).num("id", r ? id_of(r->m_header.m_request_id) : -1).num("v", r && r->m_payload ? value(r->m_payload.value()) : 0));
}
static void deliver_rsp(long c, const cbdc::buffer& b) {
    {
        std::unique_lock<std::mutex> l(em);
        if(!clients[static_cast<size_t>(c - 1)].c) {
            return;
        }
        announce(c, b);
    }
    hand(c, b);
}
static cbdc::buffer made_up(uint64_t id, bool ok) {
    return cbdc::make_buffer(rsp_t{{id}, ok ? std::optional<payload>(mk(static_cast<uint64_t>(5000 + ++forged))) : std::nullopt});
}
static void reply(long peer, const cbdc::buffer& b) {
    auto x = b;
    auto r = cbdc::from_buffer<rsp_t>(x);
    // a failure has no payload, whatever its type
    reps.push_back({peer, b});
    say(vf::js().str("ev", "rep").num("p", peer).num("id", r ? id_of(r->m_header.m_request_id) : -1).num("v", r ? (r->m_payload ? value(r->m_payload.value()) : 0) : -3));
    if(stress) {
        auto& q = to_client[static_cast<size_t>(peer - 1)];
        auto n = reps.size() % 5 == 0 ? 2 : 1;
        for(auto k = 0; k < n; k++) {
            q.insert(reps.size() % 3 == 0 ? q.begin() : q.end(), [peer, b]() {
                deliver_rsp(peer, b);
            });
        }
    }
}
static void serve(long peer, const cbdc::buffer& b, const std::string& how);
static bool on_send(cm_t& cm, cm_t::kind k, const std::shared_ptr<cbdc::buffer>& b, net::peer_id_t peer) {
    std::unique_lock<std::mutex> l(em);
    if(k == cm_t::kind::peer) {
        reply(static_cast<long>(peer), *b);
        return true;
    }
    auto c = client_of(&cm);
    auto x = *b;
    auto r = cbdc::from_buffer<req_t>(x);
    reqs.push_back({c, *b});
    say(vf::js().str("ev", "sent").num("c", c).num("id", r ? id_of(r->m_header.m_request_id) : -1).num("v", r ? value(r->m_payload) : -3).num("ok", fail_send ? 0 : 1));
    if(fail_send) {
        return false;
    }
    if(stress) {
        auto how = std::string(std::vector<const char*>{"now", "later", "none", "now", "later", "now", "refuse"}[reqs.size() % 7]);
        auto n = reqs.size() % 11 == 0 ? 2 : 1;
        for(auto i = 0; i < n; i++) {
            to_server.insert(reqs.size() % 4 == 0 ? to_server.begin() : to_server.end(), [c, b = *b, how]() {
                serve(c, b, how);
            });
        }
        return true;
    }
    if(early && r) {
        // the response is there before the sender is back
        auto ans = made_up(r->m_header.m_request_id, true);
        polling++;
        l.unlock();
        auto done = std::make_shared<std::atomic_bool>(false);
        running++;
        auto t = std::thread([c, ans, done]() {
            deliver_rsp(c, ans);
            running--;
            *done = true;
        });
        for(int n = 0; n < 400 && !*done; n++) {
            std::this_thread::sleep_for(std::chrono::microseconds(50));
        }
        polling++;
        l.lock();
        helpers.push_back(std::move(t));
    }
    return true;
}
static void thread_op(const std::function<void()>& f) {
    running++;
    threads.emplace_back([f]() {
        f();
        running--;
    });
}
// Call k returns, or its callback is called.
static void ret(long k, const std::optional<payload>& r, bool late) {
    std::unique_lock<std::mutex> l(em);
    say(vf::js().str("ev", "ret").num("k", k).num("v", r ? value(r.value()) : 0).num("late", late ? 1 : 0));
    *returned[static_cast<size_t>(k - 1)] = true;
}
static void make_call(long c, char kind);
static long new_call(long c, char kind) {
    std::unique_lock<std::mutex> l(em);
    kinds.push_back(kind);
    returned.push_back(std::make_unique<std::atomic_bool>(false));
    auto k = static_cast<long>(kinds.size());
    say(vf::js().str("ev", "call").num("k", k).num("c", c).str("kind", std::string(1, kind)));
    return k;
}
static void do_call(long c, char kind, long k) {
    auto& cl = *clients[static_cast<size_t>(c - 1)].c;
    fail_send = kind == 'f' || kind == 'g';
    early = kind == 'e' || kind == 'b';
    if(kind == 'a' || kind == 'g' || kind == 'n' || kind == 'b') {
        auto ok = cl.call(mk(static_cast<uint64_t>(k)), [=](std::optional<payload> r) {
            ret(k, r, false);
            if(kind == 'n') {
                make_call(c, 'a');
            }
        });
        std::unique_lock<std::mutex> l(em);
        say(vf::js().str("ev", "acc").num("k", k).num("ok", ok ? 1 : 0));
    } else {
        auto ms = std::chrono::milliseconds(kind == 't' ? short_ms : kind == 'l' ? 600000 : 0);
        auto t0 = std::chrono::steady_clock::now();
        auto r = kind == 's' ? cl.call(mk(static_cast<uint64_t>(k))) : cl.call(mk(static_cast<uint64_t>(k)), ms);
        ret(k, r, ms.count() != 0 && std::chrono::steady_clock::now() - t0 >= ms);
    }
    fail_send = false;
    early = false;
}
static void make_call(long c, char kind) {
    auto k = new_call(c, kind);
    do_call(c, kind, k);
}
// Result of delivery d: its handler answers (em not held).
static void say_ans(long d, bool ok) {
    std::unique_lock<std::mutex> l(em);
    say(vf::js().str("ev", "ans").num("d", d).num("v", ok ? 1000 + d : 0));
}
static void say_hnd(long v) {
    std::unique_lock<std::mutex> l(em);
    say(vf::js().str("ev", "hnd").num("d", cur_del).num("v", v));
}
static std::optional<payload> result(long d, bool ok) {
    return ok ? std::optional<payload>(mk(static_cast<uint64_t>(1000 + d))) : std::nullopt;
}
// What the handler of an asynchronous server does.
static bool handle_async(const std::function<void(bool)>& answer) {
    auto d = cur_del;
    auto how = cur_how;
    if(how == "refuse") {
        say_ans(d, false);
        return false;
    }
    auto f = [d, answer](bool ok) {
        say_ans(d, ok);
        answer(ok);
    };
    if(how == "later") {
        if(stress) {
            running++;
            std::unique_lock<std::mutex> l(em);
            helpers.emplace_back([f, d]() {
                vf::pause_sometimes();
                f(d % 3 != 0);
                running--;
            });
        } else {
            std::unique_lock<std::mutex> l(em);
            later[d] = {f};
        }
    } else {
        f(how == "now");
    }
    return true;
}
static void serve(long peer, const cbdc::buffer& b, const std::string& how) {
    long d{};
    {
        std::unique_lock<std::mutex> l(em);
        d = ++ndel;
        auto x = b;
        auto r = cbdc::from_buffer<req_t>(x);
        auto good = r.has_value();
        say(vf::js().str("ev", "req").num("d", d).num("p", peer).num("id", r ? id_of(r->m_header.m_request_id) : -1).num("v", good ? value(r->m_payload) : -1));
        // without a handler there is nothing but failure
        if(mode == "n" && good) {
            say(vf::js().str("ev", "ans").num("d", d).num("v", 0));
        }
    }
    cur_del = d;
    cur_how = how;
    auto r = scm->m_handler(net::message_t{std::make_shared<cbdc::buffer>(b), static_cast<size_t>(peer)});
    if(r.has_value()) {
        std::unique_lock<std::mutex> l(em);
        reply(peer, r.value());
    }
}
static void start_server() {
    auto ep = net::endpoint_t{"server", 1};
    bool ok{};
    if(mode == "b" || mode == "n") {
        sb = std::make_unique<blocking_t>(ep);
        if(mode == "b") {
            sb->register_handler_callback([](payload p) -> std::optional<payload> {
                say_hnd(value(p));
                auto yes = cur_how != "none" && cur_how != "refuse";
                say_ans(cur_del, yes);
                return result(cur_del, yes);
            });
        }
        ok = sb->init();
    } else if(mode == "a") {
        sa = std::make_unique<async_t>(ep);
        sa->register_handler_callback([](payload p, async_t::response_callback_type cb) {
            say_hnd(value(p));
            auto d = cur_del;
            return handle_async([cb, d](bool yes) {
                cb(result(d, yes));
            });
        });
        ok = sa->init();
    } else {
        sr = std::make_unique<raw_t>(ep);
        sr->register_handler_callback([](cbdc::buffer b, raw_t::response_callback_type cb) {
            auto x = b;
            auto r = cbdc::from_buffer<req_t>(x);
            say_hnd(r ? value(r->m_payload) : -1);
            auto h = r ? r->m_header : rpc::header{};
            auto d = cur_del;
            return handle_async([cb, d, h](bool yes) {
                if(yes) {
                    cb(cbdc::make_buffer(rsp_t{h, result(d, true)}));
                } else {
                    cb(std::nullopt);
                }
            });
        });
        ok = sr->init();
    }
    if(!ok) {
        say(vf::js().str("ev", "init-failed"));
    }
    scm = cm_t::all().back();
}
static void stop_server() {
    sb.reset();
    sa.reset();
    sr.reset();
    scm = nullptr;
}
static void quiet() {
    if(!threads.empty() || !helpers.empty()) {
        long g{};
        do {
            g = polling;
            vf::quiesce();
        } while(g % 2 != 0 || polling != g);
        if(running == 0) {
            for(auto& t : threads) {
                t.join();
            }
            threads.clear();
            auto h = std::list<std::thread>();
            {
                std::unique_lock<std::mutex> l(em);
                h.swap(helpers);
            }
            for(auto& t : h) {
                t.join();
            }
        }
    }
    std::unique_lock<std::mutex> l(em);
    say(vf::js().str("ev", "q"));
}
static void close_client(long c) {
    auto& cl = clients[static_cast<size_t>(c - 1)];
    if(!cl.c) {
        return;
    }
    {
        std::unique_lock<std::mutex> l(em);
        say(vf::js().str("ev", "close").num("c", c));
    }
    auto p = std::move(cl.c);
    cl.cm = nullptr;
    p.reset();
}
static void finish() {
    for(size_t c = 1; c <= clients.size(); c++) {
        close_client(static_cast<long>(c));
    }
    // nobody is left to wait for
    for(int n = 0; running != 0 && n < 40; n++) {
        std::this_thread::sleep_for(std::chrono::microseconds(n < 20 ? 200 : 10000));
        vf::quiesce();
    }
    if(running != 0) {
        std::unique_lock<std::mutex> l(em);
        say(vf::js().str("ev", "stuck"));
        fflush(nullptr);
        _exit(5);
    }
    quiet();
    say(vf::js().str("ev", "end"));
}
// Callers in many threads; the network's threads run with them.
static void run_stress(long nthreads, long k) {
    std::vector<std::thread> ts;
    std::atomic_bool stop{false};
    stress = true;
    vf::perturb = true;
    to_server.clear();
    to_client.assign(clients.size(), {});
    auto network = [&](std::deque<std::function<void()>>& q) {
        for(;;) {
            std::function<void()> f;
            {
                std::unique_lock<std::mutex> l(em);
                if(q.empty()) {
                    if(stop && running == 0) {
                        return;
                    }
                } else {
                    f = q.front();
                    q.pop_front();
                }
            }
            if(f) {
                f();
            } else {
                std::this_thread::sleep_for(std::chrono::microseconds(20));
            }
        }
    };
    for(long t = 0; t < nthreads; t++) {
        ts.emplace_back([&, t]() {
            for(long i = 0; i < k; i++) {
                make_call(1 + t % static_cast<long>(clients.size()), "saltsfagn"[(i * 5 + t * 3) % 9]);
            }
        });
    }
    std::vector<std::thread> ns;
    ns.emplace_back([&]() { network(to_server); });
    for(auto& q : to_client) {
        ns.emplace_back([&]() { network(q); });
    }
    for(auto& t : ts) {
        t.join();
    }
    stop = true;
    ns[0].join();
    for(size_t i = 1; i < ns.size(); i++) {
        ns[i].join();
    }
    vf::perturb = false;
    stress = false;
}

// Callers in step.
static void burst(long nthreads, long k) {
    std::vector<std::thread> ts;
    std::atomic<long> arrived{0};
    for(long t = 0; t < nthreads; t++) {
        ts.emplace_back([&]() {
            for(long i = 0; i < k; i++) {
                auto n = new_call(1, 'a');
                arrived++;
                for(long w = 0; arrived.load() < (i + 1) * nthreads && w < 1000000; w++) {
                }
                do_call(1, 'a', n);
            }
        });
    }
    for(auto& t : ts) {
        t.join();
    }
}

int main(int argc, char** argv) {
    cm_t::hook() = on_send;
    return vf::run(argc, argv, [](const vf::op& o) {
        auto cok = [&](size_t n) {
            return o.i(n) >= 1 && o.i(n) <= static_cast<long>(clients.size()) && clients[o.u(n) - 1].c;
        };
        auto rsp_ok = [&](size_t n) {
            return o.i(n) >= 1 && o.i(n) <= static_cast<long>(reps.size()) && clients[static_cast<size_t>(reps[o.u(n) - 1].c - 1)].c;
        };
        if(o.name == "reset") {
            // reset MODE CLIENTS
            stop_server();
            clients.clear();
            reqs.clear();
            reps.clear();
            kinds.clear();
            returned.clear();
            later.clear();
            ndel = 0;
            forged = 0;
            mode = o.a[0];
            say(vf::js().str("ev", "reset").str("mode", mode).num("c", o.i(1)));
            start_server();
            clients.resize(o.u(1));
            for(auto& c : clients) {
                c.c = std::make_unique<client_t>(std::vector<net::endpoint_t>{{"server", 1}, {"server", 2}});
                c.cm = cm_t::all().back();
                if(!c.c->init()) {
                    say(vf::js().str("ev", "init-failed"));
                }
            }
            return;
        }
        if(o.name == "call") {
            // call C KIND: s waits, l and t with a long and a short timeout, a
            // with a callback, n with one that calls again; f and g cannot be
            // sent; e and b have their response early
            if(cok(0) && threads.size() < 40) {
                auto c = o.i(0);
                auto kind = o.a[1][0];
                auto k = new_call(c, kind);
                thread_op([=]() { do_call(c, kind, k); });
            }
        } else if(o.name == "req") {
            // req N HOW: request N reaches the server
            if(o.i(0) >= 1 && o.i(0) <= static_cast<long>(reqs.size()) && scm != nullptr) {
                auto r = reqs[o.u(0) - 1];
                serve(r.c, r.b, o.a[1]);
            }
        } else if(o.name == "cut") {
            // cut N LEN ADD: the first bytes of request N, and bytes added
            if(o.i(0) >= 1 && o.i(0) <= static_cast<long>(reqs.size()) && scm != nullptr) {
                auto r = reqs[o.u(0) - 1];
                auto b = cbdc::buffer();
                auto n = o.u(1) % r.b.size();
                if(mode == "r") {
                    n %= 8;
                }
                b.append(r.b.data(), n);
                serve(r.c, b, "now");
            }
        } else if(o.name == "done") {
            auto it = later.find(o.i(0));
            if(it != later.end()) {
                auto f = it->second.answer;
                later.erase(it);
                f(o.i(1) != 0);
            }
        } else if(o.name == "rsp") {
            if(rsp_ok(0)) {
                auto r = reps[o.u(0) - 1];
                deliver_rsp(r.c, r.b);
            }
        } else if(o.name == "rsps") {
            // all replies, the last first
            for(auto n = reps.size(); n > 0; n--) {
                auto r = reps[n - 1];
                deliver_rsp(r.c, r.b);
            }
        } else if(o.name == "cutrsp") {
            if(rsp_ok(0)) {
                auto r = reps[o.u(0) - 1];
                auto b = cbdc::buffer();
                b.append(r.b.data(), o.u(1) % r.b.size());
                {
                    std::unique_lock<std::mutex> l(em);
                    say(vf::js().str("ev", "junk").num("c", r.c));
                }
                hand(r.c, b);
            }
        } else if(o.name == "fake") {
            // fake C ID OK: a response nobody has sent
            if(cok(0)) {
                deliver_rsp(o.i(0), made_up(o.u(1), o.i(2) != 0));
            }
        } else if(o.name == "expire") {
            if(o.i(0) >= 1 && o.i(0) <= static_cast<long>(kinds.size()) && kinds[o.u(0) - 1] == 't') {
                for(int n = 0; n < 12000 && !*returned[o.u(0) - 1]; n++) {
                    std::this_thread::sleep_for(std::chrono::microseconds(250));
                }
                std::unique_lock<std::mutex> l(em);
                say(vf::js().str("ev", "expired").num("k", o.i(0)));
                if(!*returned[o.u(0) - 1]) {
                    _exit(5);
                }
            }
        } else if(o.name == "close") {
            if(cok(0)) {
                close_client(o.i(0));
            }
        } else if(o.name == "stop") {
            {
                std::unique_lock<std::mutex> l(em);
                say(vf::js().str("ev", "stop"));
            }
            stop_server();
        } else if(o.name == "stress") {
            run_stress(o.i(0), o.i(1));
        } else if(o.name == "burst") {
            if(clients[0].c) {
                burst(o.i(0), o.i(1));
            }
        } else if(o.name == "end") {
            finish();
            return;
        }
        quiet();
    });
}
