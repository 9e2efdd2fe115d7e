// Conformance driver: the ticket machine.  Clients of the brokers with a
// scripted network, either straight to replicas of the state machine (core)
// or through the replicas' controllers, raft nodes and servers (ctl).
#include "common.hpp"
#include "parsec/ticket_machine/client.hpp"
#include "parsec/ticket_machine/controller.hpp"
#include "parsec/ticket_machine/state_machine.hpp"
#include "perturb.hpp"
#include "threads.hpp"
#include "util/rpc/format.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"
#include <deque>
#include <list>
#include <set>

namespace tmach = cbdc::parsec::ticket_machine;
namespace net = cbdc::network;
using cm_t = net::connection_manager;
using resp_t = cbdc::rpc::response<tmach::rpc::response>;

static std::mutex em; // events, and the state below
static std::condition_variable cv;
static bool core_mode, stress;
static tmach::ticket_number_type batch;
struct replica {
    nuraft::ptr<tmach::state_machine> sm;
    std::unique_ptr<tmach::controller> ctl;
    nuraft::ptr<nuraft::raft_server> srv;
    size_t applied{0};
};
struct client {
    std::unique_ptr<tmach::rpc::client> c;
    cm_t* cm{nullptr};
    bool up{true}, holdsend{false}, held{false};
};
struct msg {
    long c;
    cbdc::buffer b;
    bool answered{false}; // a response, or failure, has been handed over
};
struct rsp {
    long c;
    cbdc::buffer b;
    long m;
    bool range;
};
static std::vector<replica> reps;
static std::vector<client> clients;
static std::vector<msg> msgs;
static std::vector<rsp> rsps;
static std::vector<cbdc::buffer> rlog;
static long leader, next_id;
static std::set<long> hold;    // requests whose callback is to be held
static std::set<long> inside;  // callbacks held
static std::list<std::thread> threads;
static std::atomic<long> running{0};
// consecutive numbers given at once
static long rc{-1}, rlo, rhi;
static void flush() {
    if(rc >= 0) {
        vf::emit(vf::js().str("ev", "run").num("c", rc).num("lo", rlo).num("hi", rhi));
        rc = -1;
    }
}
static void say(const vf::js& j) {
    flush();
    vf::emit(j);
}
// Announces the request this thread is making.
static thread_local std::function<void()> announce_mine;
static long peer_of(const cm_t* cm) {
    for(size_t i = 0; i < clients.size(); i++) {
        if(clients[i].cm == cm) {
            return static_cast<long>(i);
        }
    }
    return -1;
}
static uint64_t rid(const cbdc::buffer& b) {
    auto x = b;
    auto h = cbdc::from_buffer<cbdc::rpc::header>(x);
    return h.has_value() ? h->m_request_id : ~0ULL;
}
static vf::js describe(vf::js j, const cbdc::buffer& b, bool& range) {
    auto x = b;
    auto r = cbdc::from_buffer<resp_t>(x);
    range = false;
    if(!r.has_value()) {
        return j.str("k", "junk").num("lo", 0).num("hi", 0);
    }
    if(!r->m_payload.has_value()) {
        return j.str("k", "null").num("lo", 0).num("hi", 0);
    }
    if(!std::holds_alternative<tmach::interface::ticket_number_range_type>(r->m_payload.value())) {
        return j.str("k", "err").num("lo", 0).num("hi", 0);
    }
    range = true;
    auto g = std::get<tmach::interface::ticket_number_range_type>(r->m_payload.value());
    return j.str("k", "range").num("lo", static_cast<long>(g.first)).num("hi", static_cast<long>(g.second));
}
// A response for client c exists (em held).
static void respond(long c, const cbdc::buffer& b) {
    long m = -1;
    for(size_t i = 0; i < msgs.size(); i++) {
        if(msgs[i].c == c && rid(msgs[i].b) == rid(b)) {
            m = static_cast<long>(i);
        }
    }
    rsps.push_back({c, b, m, false});
    say(describe(vf::js().str("ev", "rsp").num("r", static_cast<long>(rsps.size())).num("m", m + 1), b, rsps.back().range));
}
static bool on_send(cm_t& cm, cm_t::kind k, const std::shared_ptr<cbdc::buffer>& b, net::peer_id_t peer) {
    std::unique_lock<std::mutex> l(em);
    if(k == cm_t::kind::peer) {
        respond(static_cast<long>(peer), *b);
        return true;
    }
    auto c = peer_of(&cm);
    if(c < 0) {
        return false;
    }
    if(announce_mine) {
        announce_mine();
    }
    auto& cl = clients[static_cast<size_t>(c)];
    if(cl.holdsend) {
        cl.held = true;
        cv.wait(l, [&]() { return !cl.holdsend; });
        cl.held = false;
    }
    if(!cl.up) {
        say(vf::js().str("ev", "nofetch").num("c", c + 1));
        return false;
    }
    msgs.push_back({c, *b});
    say(vf::js().str("ev", "fetch").num("c", c + 1).num("m", static_cast<long>(msgs.size())));
    return true;
}
static void apply(size_t r, size_t idx, const nuraft::ptr<nuraft::buffer>& v) {
    auto b = cbdc::buffer();
    if(v) {
        b.append(v->data_begin(), v->size());
    }
    bool range{};
    say(describe(vf::js().str("ev", "commit").num("r", static_cast<long>(r)).num("i", static_cast<long>(idx)), b, range));
}
static nuraft::ptr<nuraft::buffer> nbuf(const cbdc::buffer& b) {
    auto nb = nuraft::buffer::alloc(b.size());
    if(b.size() != 0) {
        memcpy(nb->data_begin(), b.data(), b.size());
    }
    nb->pos(0);
    return nb;
}
static nuraft::ptr<nuraft::buffer> commit_one(size_t r) {
    auto& p = reps[r];
    auto b = nbuf(rlog[p.applied]);
    auto v = (core_mode ? static_cast<nuraft::state_machine*>(p.sm.get()) : p.srv->m_sm.get())->commit(p.applied + 1, *b);
    p.applied++;
    apply(r, p.applied, v);
    return v;
}
static void start(size_t r) {
    auto& p = reps[r];
    p.applied = 0;
    if(core_mode) {
        p.sm = nuraft::cs_new<tmach::state_machine>(vf::logger(), batch);
        return;
    }
    nuraft::fake::start_as_follower() = true;
    std::vector<net::endpoint_t> eps;
    for(size_t i = 0; i < reps.size(); i++) {
        eps.push_back({"raft", static_cast<unsigned short>(i)});
    }
    p.ctl = std::make_unique<tmach::controller>(r, net::endpoint_t{"tm", static_cast<unsigned short>(r)}, eps, vf::logger());
    if(!p.ctl->init()) {
        say(vf::js().str("ev", "init-failed"));
    }
    p.srv = nuraft::fake::last();
}
static void lead(size_t r) {
    auto& p = reps[r];
    while(p.applied < rlog.size()) {
        commit_one(r);
    }
    leader = static_cast<long>(r);
    if(!core_mode) {
        p.srv->m_leader = true;
        nuraft::cb_func::Param prm;
        p.srv->m_cb(nuraft::cb_func::BecomeLeader, &prm);
    }
}
static void thread_op(const std::function<void()>& f, bool own) {
    if(!own) {
        f();
        return;
    }
    running++;
    threads.emplace_back([f]() {
        f();
        running--;
    });
    vf::quiesce();
}
// True if the number was given at once.
static bool get(size_t c, long id, int again) {
    {
        std::unique_lock<std::mutex> l(em);
        if(rc != static_cast<long>(c) + 1 || again > 0) {
            flush();
        }
    }
    auto st = std::make_shared<int>(0); // before the call returns
    auto num = std::make_shared<long>(-2);
    // the call is announced lazily, to join what was given at once
    auto called = std::make_shared<bool>(false);
    auto announce = [=]() {
        if(!*called) {
            *called = true;
            say(vf::js().str("ev", "call").num("c", static_cast<long>(c) + 1).num("i", id));
        }
    };
    {
        std::unique_lock<std::mutex> l(em);
        if(hold.count(id) != 0 || again > 0 || stress || running > 0) {
            announce();
        }
    }
    announce_mine = announce;
    auto ok = clients[c].c->get_ticket_number([=](tmach::interface::get_ticket_number_return_type r) {
        {
            std::unique_lock<std::mutex> l(em);
            long n = -1;
            if(std::holds_alternative<tmach::interface::ticket_number_range_type>(r)) {
                n = static_cast<long>(std::get<tmach::interface::ticket_number_range_type>(r).first);
            }
            if(*st == 0 && !*called && n >= 0 && !stress) {
                *st = 1;
                *num = n;
                return;
            }
            announce();
            say(vf::js().str("ev", "cb").num("i", id).num("n", n));
            if(hold.count(id) != 0) {
                inside.insert(id);
                cv.wait(l, [&]() { return hold.count(id) == 0; });
                inside.erase(id);
            }
        }
        if(again > 0) {
            long id2{};
            {
                std::unique_lock<std::mutex> l(em);
                id2 = ++next_id;
            }
            get(c, id2, again - 1);
        }
    });
    announce_mine = nullptr;
    std::unique_lock<std::mutex> l(em);
    if(*st == 1 && ok && !*called) {
        if(rc == static_cast<long>(c) + 1 && rhi == *num) {
            rhi++;
        } else {
            flush();
            rc = static_cast<long>(c) + 1;
            rlo = *num;
            rhi = *num + 1;
        }
        return true;
    }
    announce();
    if(*st == 1) {
        say(vf::js().str("ev", "cb").num("i", id).num("n", *num));
    }
    *st = 2;
    say(vf::js().str("ev", "ret").num("i", id).num("ok", ok ? 1 : 0));
    return false;
}
static void hand(size_t c, const cbdc::buffer& b) {
    clients[c].cm->m_handler(net::message_t{std::make_shared<cbdc::buffer>(b), 0});
}
static void ans(size_t r, bool own) {
    long c{};
    cbdc::buffer b;
    {
        std::unique_lock<std::mutex> l(em);
        c = rsps[r].c;
        b = rsps[r].b;
        if(rsps[r].m >= 0) {
            msgs[static_cast<size_t>(rsps[r].m)].answered = true;
        }
        say(vf::js().str("ev", "ans").num("r", static_cast<long>(r) + 1));
    }
    thread_op([c, b]() { hand(static_cast<size_t>(c), b); }, own);
}
// The machine fails to answer message m.
static void null_answer(size_t m, bool own) {
    auto h = cbdc::rpc::header{rid(msgs[m].b)};
    auto b = cbdc::make_buffer(resp_t{h, std::nullopt});
    size_t r{};
    {
        std::unique_lock<std::mutex> l(em);
        respond(msgs[m].c, b);
        r = rsps.size() - 1;
    }
    ans(r, own);
}
static void deliver(size_t m) {
    if(core_mode) {
        rlog.push_back(msgs[m].b);
        nuraft::ptr<nuraft::buffer> v;
        for(size_t r = 0; r < reps.size(); r++) {
            if(reps[r].applied + 1 == rlog.size()) {
                auto x = commit_one(r);
                if(static_cast<long>(r) == leader) {
                    v = x;
                }
            }
        }
        auto b = cbdc::buffer();
        if(v) {
            b.append(v->data_begin(), v->size());
            std::unique_lock<std::mutex> l(em);
            respond(msgs[m].c, b);
        }
        return;
    }
    // the replica that listens
    for(auto* cm : cm_t::all()) {
        if(cm->m_listen.has_value() && cm->m_handler) {
            auto r = cm->m_handler(net::message_t{std::make_shared<cbdc::buffer>(msgs[m].b), static_cast<size_t>(msgs[m].c)});
            if(r.has_value()) {
                std::unique_lock<std::mutex> l(em);
                respond(msgs[m].c, r.value());
            }
            return;
        }
    }
}
static void commit_lead(long n, bool notify) {
    if(core_mode || leader < 0) {
        return;
    }
    auto& p = reps[static_cast<size_t>(leader)];
    for(; n > 0 && !p.srv->m_pending.empty(); n--) {
        auto e = p.srv->m_pending.front();
        p.srv->m_pending.pop_front();
        auto b = cbdc::buffer();
        b.append(e.m_buf->data_begin(), e.m_buf->size());
        rlog.push_back(b);
        auto v = commit_one(static_cast<size_t>(leader));
        if(v) {
            v->pos(0);
        }
        if(notify) {
            e.m_res->complete(v, true);
        }
    }
}
static void step_down(long keep) {
    auto& p = reps[static_cast<size_t>(leader)];
    p.srv->m_leader = false;
    nuraft::cb_func::Param prm;
    p.srv->m_cb(nuraft::cb_func::BecomeFollower, &prm);
    // entries not committed yet: some survive, their sender does not hear of it
    for(long n = 0; !p.srv->m_pending.empty(); n++) {
        auto e = p.srv->m_pending.front();
        p.srv->m_pending.pop_front();
        if(n < keep) {
            auto b = cbdc::buffer();
            b.append(e.m_buf->data_begin(), e.m_buf->size());
            rlog.push_back(b);
        }
        e.m_res->complete(nullptr, false);
    }
}
static bool idle() {
    return running == 0;
}
static void quiet() {
    if(!threads.empty()) {
        vf::quiesce();
        if(idle()) {
            for(auto& t : threads) {
                t.join();
            }
            threads.clear();
        }
    }
    std::unique_lock<std::mutex> l(em);
    flush();
    if(threads.empty()) {
        say(vf::js().str("ev", "q"));
    }
}
static void release_all() {
    {
        std::unique_lock<std::mutex> l(em);
        hold.clear();
        for(auto& c : clients) {
            c.holdsend = false;
            c.up = true;
        }
        cv.notify_all();
    }
    quiet();
}
static void finish() {
    for(int n = 0; n < 60; n++) {
        release_all();
        if(!threads.empty()) {
            say(vf::js().str("ev", "stuck"));
            _exit(5);
        }
        size_t m = 0;
        while(m < msgs.size() && msgs[m].answered) {
            m++;
        }
        if(m == msgs.size()) {
            break;
        }
        if(!core_mode && leader < 0) {
            lead(0);
        }
        size_t r = 0;
        auto find = [&]() {
            for(r = 0; r < rsps.size(); r++) {
                if(rsps[r].m == static_cast<long>(m)) {
                    return true;
                }
            }
            return false;
        };
        if(!find()) {
            deliver(m);
            commit_lead(1000, true);
        }
        if(find()) {
            ans(r, true);
        } else {
            null_answer(m, true);
        }
    }
    say(vf::js().str("ev", "end"));
}
// Free-running threads; every message is answered at once by another thread.
static void run_stress(long nthreads, long k) {
    std::vector<std::thread> ts;
    std::atomic_bool stop{false};
    stress = true;
    vf::perturb = true;
    for(long t = 0; t < nthreads; t++) {
        ts.emplace_back([&, t]() {
            for(long i = 0; i < k; i++) {
                long id{};
                {
                    std::unique_lock<std::mutex> l(em);
                    id = ++next_id;
                }
                get(static_cast<size_t>(t) % clients.size(), id, i % 7 == 3 ? 1 : 0);
            }
        });
    }
    auto net_thread = std::thread([&]() {
        size_t m = 0;
        for(;;) {
            long c{};
            cbdc::buffer b;
            size_t r{};
            {
                std::unique_lock<std::mutex> l(em);
                if(m == msgs.size()) {
                    if(stop) {
                        return;
                    }
                    l.unlock();
                    std::this_thread::yield();
                    continue;
                }
                rlog.push_back(msgs[m].b);
                nuraft::ptr<nuraft::buffer> v;
                for(size_t x = 0; x < reps.size(); x++) {
                    auto y = commit_one(x);
                    v = y ? y : v;
                }
                if(v) {
                    b.append(v->data_begin(), v->size());
                }
                c = msgs[m].c;
                respond(c, b);
                msgs[m].answered = true;
                r = rsps.size();
                say(vf::js().str("ev", "ans").num("r", static_cast<long>(r)));
            }
            hand(static_cast<size_t>(c), b);
            m++;
        }
    });
    for(auto& t : ts) {
        t.join();
    }
    stop = true;
    net_thread.join();
    vf::perturb = false;
    stress = false;
}

int main(int argc, char** argv) {
    cm_t::hook() = on_send;
    return vf::run(argc, argv, [](const vf::op& o) {
        auto mi = [&](size_t n) {
            return o.i(n) >= 1 && o.i(n) <= static_cast<long>(msgs.size());
        };
        if(o.name == "reset") {
            // reset core|ctl BATCH CLIENTS REPLICAS
            clients.clear();
            for(auto& r : reps) {
                r.ctl.reset();
                r.srv.reset();
            }
            reps.clear();
            msgs.clear();
            rsps.clear();
            rlog.clear();
            hold.clear();
            next_id = 0;
            leader = -1;
            rc = -1;
            core_mode = o.a[0] == "core";
            batch = core_mode ? o.u(1) : 1000;
            say(vf::js().str("ev", "reset").num("b", static_cast<long>(batch)).num("c", o.i(2)));
            reps.resize(o.u(3));
            for(size_t r = 0; r < reps.size(); r++) {
                start(r);
            }
            clients.resize(o.u(2));
            for(auto& c : clients) {
                std::vector<net::endpoint_t> eps;
                for(size_t r = 0; r < reps.size(); r++) {
                    eps.push_back({"tm", static_cast<unsigned short>(r)});
                }
                c.c = std::make_unique<tmach::rpc::client>(eps);
                c.cm = cm_t::all().back();
                if(!c.c->init()) {
                    say(vf::js().str("ev", "init-failed"));
                }
            }
            lead(0);
            return;
        }
        if(o.name == "get" || o.name == "getr") {
            // get C N HOLD ; getr C N: each callback asks again
            auto c = static_cast<size_t>(o.i(0) - 1);
            for(long k = 0; k < (threads.size() > 5 ? 0 : !threads.empty() || clients[c].holdsend ? std::min(2L, o.i(1)) : o.i(1)); k++) {
                long id = ++next_id;
                bool h = o.name == "get" && o.i(2) != 0;
                bool busy = clients[c].holdsend || !threads.empty();
                if(h) {
                    std::unique_lock<std::mutex> l(em);
                    hold.insert(id);
                }
                auto again = o.name == "getr" ? static_cast<int>(o.i(2)) : 0;
                if(h || busy || again > 0) {
                    thread_op([c, id, again]() { get(c, id, again); }, h || busy);
                } else if(!get(c, id, 0) && k > 3) {
                    break; // long bursts end when the kept numbers do
                }
            }
        } else if(o.name == "deliver") {
            if(mi(0)) {
                deliver(o.u(0) - 1);
            }
        } else if(o.name == "commit") {
            commit_lead(o.i(0), true);
        } else if(o.name == "follow") {
            auto r = o.u(0);
            while(r < reps.size() && static_cast<long>(r) != leader && reps[r].applied < rlog.size()) {
                commit_one(r);
            }
        } else if(o.name == "lead") {
            // lead R KEEP
            if(o.u(0) < reps.size() && o.i(0) != leader) {
                if(leader >= 0 && !core_mode) {
                    step_down(o.i(1));
                }
                lead(o.u(0));
            }
        } else if(o.name == "restart") {
            auto r = o.u(0);
            if(r < reps.size() && static_cast<long>(r) != leader) {
                reps[r].ctl.reset();
                reps[r].srv.reset();
                start(r);
                while(reps[r].applied < rlog.size()) {
                    commit_one(r);
                }
            }
        } else if(o.name == "ans") {
            if(o.i(0) >= 1 && o.i(0) <= static_cast<long>(rsps.size())) {
                ans(o.u(0) - 1, true);
            }
        } else if(o.name == "null") {
            if(mi(0)) {
                null_answer(o.u(0) - 1, true);
            }
        } else if(o.name == "junk") {
            // a response that cannot be read
            auto b = msgs.empty() ? cbdc::buffer() : msgs.back().b;
            for(long k = 0; k < o.i(1); k++) {
                char x = static_cast<char>(o.i(0));
                b.append(&x, 1);
            }
            auto x = b;
            if(!cbdc::from_buffer<resp_t>(x).has_value()) {
                hand(0, b);
            }
        } else if(o.name == "net") {
            std::unique_lock<std::mutex> l(em);
            clients[o.u(0) - 1].up = o.i(1) != 0;
        } else if(o.name == "rel") {
            std::unique_lock<std::mutex> l(em);
            if(o.i(0) == 0) {
                hold.clear();
            } else {
                hold.erase(o.i(0));
            }
            cv.notify_all();
        } else if(o.name == "holdsend") {
            std::unique_lock<std::mutex> l(em);
            clients[o.u(0) - 1].holdsend = true;
        } else if(o.name == "relsend") {
            std::unique_lock<std::mutex> l(em);
            auto& c = clients[o.u(0) - 1];
            c.holdsend = false;
            cv.notify_all();
        } else if(o.name == "stress") {
            release_all();
            run_stress(o.i(0), o.i(1));
        } else if(o.name == "end") {
            finish();
            return;
        }
        quiet();
    });
}
