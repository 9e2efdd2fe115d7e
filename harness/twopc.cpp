// Conformance driver: the real coordinator controller (batching, distributed
// transactions, replicated state machine, recovery), the real shard clients,
// and real locking shards behind their state machines.  The network and the
// consensus log are stand-ins at which the driver decides what happens next.
#include "pc.hpp"
#include "threads.hpp"
#include "uhs/transaction/messages.hpp"
#include "uhs/twophase/coordinator/controller.hpp"
#include "uhs/twophase/coordinator/format.hpp"
#include "uhs/twophase/coordinator/messages.hpp"
#include "util/raft/serialization.hpp"
#include "util/rpc/tcp_client.hpp"
#include "util/rpc/tcp_server.hpp"
#include <algorithm>
#include <atomic>
#include <list>
#include <map>

namespace co = cbdc::coordinator;
using cbdc::hash_t;
using namespace pc;

extern "C" int sched_yield() {
    return vf::park_spinner();
}
extern "C" int nanosleep(const struct timespec*, struct timespec*) {
    return 0;
}
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) {
    return 0;
}

enum kind_t { NET, RAFT, RAND };
struct gate {
    kind_t kind{NET};
    const void* who{nullptr};
    unsigned short port{0};
    cbdc::buffer req;
    std::optional<cbdc::buffer> resp;
    nuraft::raft_server* srv{nullptr};
    nuraft::ptr<nuraft::buffer> buf;
    nuraft::ptr<nuraft::raft_server::result> res;
    bool done{false};
    bool seen{false};
    // what the driver made of it
    std::string cmd;
    long d{0};
};
static std::mutex gm;
static std::condition_variable gcv;
using gate_ptr = std::shared_ptr<gate>;
static std::list<gate_ptr> gates;
static std::map<const void*, int> inflight;
static bool hold_rand = false;
static std::vector<std::pair<long, std::string>> replies;
static std::map<unsigned short, std::pair<const void*, vf::server_entry>> servers;

static std::vector<shard*> sh;

static void raft_fail(gate& g);
static void wait_gate(const gate_ptr& g) {
    std::unique_lock<std::mutex> l(gm);
    gates.push_back(g);
    inflight[g->who]++;
    gcv.wait(l, [&]() { return g->done; });
    gates.remove(g);
    inflight[g->who]--;
    gcv.notify_all();
}
static void release(gate& g) {
    std::unique_lock<std::mutex> l(gm);
    g.done = true;
    gcv.notify_all();
}

namespace vf {
    std::optional<cbdc::buffer> net_call(const void* who, unsigned short port, cbdc::buffer req) {
        if(port >= 1000) {
            return sh[port - 1000]->ss->go(std::move(req));
        }
        auto g = std::make_shared<gate>();
        g->kind = NET;
        g->who = who;
        g->port = port;
        g->req = std::move(req);
        wait_gate(g);
        return g->resp;
    }
    void net_close(const void* who) {
        std::unique_lock<std::mutex> l(gm);
        for(auto& g : gates) {
            if(g->kind == NET && g->who == who) {
                g->done = true;
            }
        }
        gcv.notify_all();
        gcv.wait(l, [&]() { return inflight[who] == 0; });
        inflight.erase(who);
    }
    void net_async(unsigned short, cbdc::buffer, std::function<void(std::optional<cbdc::buffer>)>) {}
    void server_up(unsigned short port, const void* who, server_entry e) {
        std::unique_lock<std::mutex> l(gm);
        servers[port] = {who, std::move(e)};
    }
    void server_down(const void* who) {
        std::unique_lock<std::mutex> l(gm);
        for(auto it = servers.begin(); it != servers.end();) {
            it = it->second.first == who ? servers.erase(it) : std::next(it);
        }
    }
}

// Random numbers: unique, and a place where a new batch can be held back.
namespace cbdc {
    static uint64_t rnd_counter = 0;
    random_source::random_source(const std::string&) {}
    auto random_source::operator()() -> result_type {
        return static_cast<result_type>(++rnd_counter);
    }
    auto random_source::random_hash() -> hash_t {
        hash_t h{};
        bool hold = false;
        {
            std::unique_lock<std::mutex> l(gm);
            auto c = ++rnd_counter;
            std::memcpy(h.data() + 3, &c, sizeof(c));
            hold = hold_rand;
        }
        if(hold) {
            auto g = std::make_shared<gate>();
            g->kind = RAND;
            wait_gate(g);
        }
        return h;
    }
}

struct node {
    std::unique_ptr<co::controller> ctl;
    nuraft::ptr<nuraft::raft_server> srv;
    size_t applied{0};
};
static std::vector<node*> nodes;
static size_t leader = 0;
static std::vector<nuraft::ptr<nuraft::buffer>> clog;
static std::map<hash_t, long> dnum;
struct txdef {
    std::vector<long> ins, outs;
};
static std::map<long, txdef> defs;
static std::set<long> universe;
struct ghost {
    long d;
    long s;
    std::string kind;
    cbdc::buffer req;
};
static std::vector<ghost> ghosts;
static std::set<long> discarding;
static std::unique_ptr<ls::rpc::status_client> status;
static long nreq = 0;
static long threads_ = 8;
static long bsize = 4;
static std::map<long, std::vector<shard*>> pool;
static bool fatal_stop = false;

static std::string flagarr(const std::vector<bool>& v) {
    std::vector<long> r;
    for(auto b : v) {
        r.push_back(b ? 1 : 0);
    }
    return arr(r);
}
template<typename T>
static std::string txarr(const std::vector<T>& v) {
    std::vector<std::string> r;
    std::string s = "[";
    for(auto& x : v) {
        const cbdc::transaction::compact_tx* t{};
        if constexpr(std::is_same_v<T, ls::tx>) {
            t = &x.m_tx;
        } else {
            t = &x;
        }
        auto id = num(t->m_id, 2);
        // a transaction whose content changed on the way is not the one sent
        auto it = defs.find(id);
        if(it != defs.end()) {
            auto w = mktx(id, it->second.ins, it->second.outs);
            if(w.m_inputs != t->m_inputs || w.m_uhs_outputs != t->m_uhs_outputs) {
                id = -2;
            }
        }
        s += (s.size() > 1 ? "," : "") + std::to_string(id);
    }
    return s + "]";
}
static long dof(const hash_t& h) {
    auto it = dnum.find(h);
    return it == dnum.end() ? -1 : it->second;
}

// Makes sense of a gate that has just appeared, and reports it.
static void report(gate& g) {
    g.seen = true;
    vf::js j;
    if(g.kind == NET) {
        auto b = g.req;
        auto r = cbdc::from_buffer<req>(b);
        if(!r.has_value()) {
            vf::emit(j.str("ev", "send").num("d", -1).num("s", g.port).str("kind", "garbled").raw("txs", "[]").raw("flags", "[]"));
            return;
        }
        g.d = dof(r->m_payload.m_dtx_id);
        auto& p = r->m_payload.m_params;
        std::string txs = "[]";
        std::string flags = "[]";
        if(std::holds_alternative<ls::rpc::lock_params>(p)) {
            g.cmd = "lock";
            txs = txarr(std::get<ls::rpc::lock_params>(p));
        } else if(std::holds_alternative<ls::rpc::apply_params>(p)) {
            g.cmd = "apply";
            flags = flagarr(std::get<ls::rpc::apply_params>(p));
        } else {
            g.cmd = "discard";
            if(g.d > 0) {
                discarding.insert(g.d);
            }
        }
        vf::emit(j.str("ev", "send").num("d", g.d).num("s", g.port).str("kind", g.cmd).raw("txs", txs).raw("flags", flags));
        return;
    }
    if(g.kind == RAFT) {
        auto c = co::controller::sm_command_header();
        auto deser = cbdc::nuraft_serializer(*g.buf);
        deser >> c;
        std::string txs = "[]";
        std::string flags = "[]";
        using cmd = co::state_machine::command;
        switch(c.m_comm) {
            case cmd::prepare: {
                g.cmd = "prepare";
                auto v = co::controller::prepare_tx();
                deser >> v;
                txs = txarr(v);
                if(dnum.find(c.m_dtx_id.value()) == dnum.end()) {
                    auto n = static_cast<long>(dnum.size()) + 1;
                    dnum[c.m_dtx_id.value()] = n;
                }
                break;
            }
            case cmd::commit: {
                g.cmd = "commit";
                auto v = co::controller::commit_tx();
                deser >> v;
                flags = flagarr(v.first);
                break;
            }
            case cmd::discard: g.cmd = "discard"; break;
            case cmd::done: g.cmd = "done"; break;
            case cmd::get: g.cmd = "get"; break;
        }
        g.d = g.cmd == "get" ? 0 : dof(c.m_dtx_id.value());
        if(g.cmd != "get") {
            vf::emit(j.str("ev", "rep").num("d", g.d).str("kind", g.cmd).raw("txs", txs).raw("flags", flags));
        }
    }
}

static std::vector<gate_ptr> pending() {
    std::vector<gate_ptr> v;
    {
        std::unique_lock<std::mutex> l(gm);
        for(auto& g : gates) {
            if(!g->done) {
                v.push_back(g);
            }
        }
    }
    std::stable_sort(v.begin(), v.end(), [](const gate_ptr& a, const gate_ptr& b) {
        return std::make_tuple(a->kind != RAND, a->d, a->kind, a->port) < std::make_tuple(b->kind != RAND, b->d, b->kind, b->port);
    });
    return v;
}

static void observe() {
    for(;;) {
        vf::quiesce();
        auto v = pending();
        bool fresh = false;
        // commands first: they give batches their numbers
        for(auto k : {RAFT, NET}) {
            for(auto& g : v) {
                if(!g->seen && g->kind == k) {
                    report(*g);
                    fresh = true;
                }
            }
        }
        decltype(replies) rs;
        {
            std::unique_lock<std::mutex> l(gm);
            rs.swap(replies);
        }
        std::sort(rs.begin(), rs.end());
        for(auto& [r, x] : rs) {
            vf::emit(vf::js().str("ev", "reply").num("r", r).str("res", x));
        }
        auto before = vf::spin_count();
        vf::bump_spinners();
        vf::quiesce();
        bool spun = vf::spin_count() != before;
        std::unique_lock<std::mutex> l(gm);
        bool more = !replies.empty();
        for(auto& g : gates) {
            more = more || (!g->done && !g->seen && g->kind != RAND);
        }
        if(!more && (!fresh || !spun)) {
            return;
        }
    }
}

static std::vector<long> unspent(long s) {
    std::vector<long> r;
    for(auto x : universe) {
        // each shard is asked directly, whoever owns the id
        auto q = cbdc::rpc::request<ls::rpc::status_request>{{1}, ls::rpc::uhs_status_request{uid(x)}};
        auto rb = sh[s]->ss->go(cbdc::make_buffer(q));
        auto resp = cbdc::from_buffer<cbdc::rpc::response<bool>>(*rb);
        if(resp->m_payload.has_value() && resp->m_payload.value()) {
            r.push_back(x);
        }
    }
    return r;
}
static std::vector<long> completed(long s) {
    std::vector<long> r;
    for(auto& [t, def] : defs) {
        auto q = cbdc::rpc::request<ls::rpc::status_request>{{1}, ls::rpc::tx_status_request{tid(t)}};
        auto rb = sh[s]->ss->go(cbdc::make_buffer(q));
        auto resp = cbdc::from_buffer<cbdc::rpc::response<bool>>(*rb);
        if(resp->m_payload.has_value() && resp->m_payload.value()) {
            r.push_back(t);
        }
    }
    return r;
}
static void query_all(const char* ev) {
    vf::js j;
    std::vector<long> u;
    std::vector<long> d;
    long none = 0;
    for(auto x : universe) {
        auto r = status->check_unspent(uid(x));
        none += r.has_value() ? 0 : 1;
        if(r.has_value() && *r) {
            u.push_back(x);
        }
    }
    for(auto& [t, def] : defs) {
        auto r = status->check_tx_id(tid(t));
        none += r.has_value() ? 0 : 1;
        if(r.has_value() && *r) {
            d.push_back(t);
        }
    }
    vf::emit(j.str("ev", ev).raw("un", arr(u)).raw("dn", arr(d)).num("none", none).num("left", static_cast<long>(pending().size())));
}

static std::optional<cbdc::buffer> deliver(long s, const cbdc::buffer& b, vf::js& j) {
    auto r = sh[s]->commit(b);
    std::string res = "[]";
    if(r.has_value()) {
        auto c = *r;
        auto p = cbdc::from_buffer<resp>(c);
        if(p.has_value() && p->m_payload.has_value()) {
            if(std::holds_alternative<ls::rpc::lock_response>(*p->m_payload)) {
                res = flagarr(std::get<ls::rpc::lock_response>(*p->m_payload));
            }
        } else {
            res = "[-1]";
        }
    }
    j.raw("res", res).raw("un", arr(unspent(s))).raw("dn", arr(completed(s)));
    return r;
}
static void do_net(gate& g, const std::string& how) {
    vf::js j;
    j.str("ev", "del").num("d", g.d).num("s", g.port).str("kind", g.cmd).num("ack", how == "msg" ? 1 : 0).num("gh", 0);
    if(how != "drop") {
        auto r = deliver(g.port, g.req, j);
        vf::emit(j);
        if(how == "msg") {
            g.resp = r;
        }
    } else {
        vf::emit(vf::js().str("ev", "drop").num("d", g.d).num("s", g.port).str("kind", g.cmd));
    }
    release(g);
    observe();
}
static void to_log(const nuraft::ptr<nuraft::buffer>& b) {
    clog.push_back(nuraft::buffer::clone(*b));
}
static nuraft::ptr<nuraft::buffer> catch_up(node& n) {
    nuraft::ptr<nuraft::buffer> last;
    while(n.applied < clog.size()) {
        auto b = nuraft::buffer::clone(*clog[n.applied++]);
        b->pos(0);
        last = n.srv->m_sm->commit(n.applied, *b);
    }
    return last;
}
static void do_raft(gate& g) {
    to_log(g.buf);
    auto r = catch_up(*nodes[leader]);
    if(r) {
        r->pos(0);
    }
    if(g.cmd != "get") {
        vf::emit(vf::js().str("ev", "raft").num("d", g.d).str("kind", g.cmd));
    }
    g.res->complete(r, true);
    release(g);
    observe();
}
static void raft_fail(gate& g) {
    g.res->complete(nullptr, false);
    release(g);
}
static void any_gate(gate& g, const std::string& how) {
    if(g.kind == RAND) {
        release(g);
        observe();
    } else if(g.kind == RAFT) {
        do_raft(g);
    } else {
        do_net(g, how);
    }
}

static void become(size_t n) {
    leader = n;
    catch_up(*nodes[n]);
    nodes[n]->srv->m_leader = true;
    nodes[n]->srv->m_cb(nuraft::cb_func::BecomeLeader, nullptr);
    observe();
}
static void crash(bool same, const std::set<long>& keep) {
    {
        std::unique_lock<std::mutex> l(gm);
        hold_rand = false;
    }
    auto& n = *nodes[leader];
    n.srv->m_leader = false;
    auto v = pending();
    std::vector<long> kept;
    for(auto& g : v) {
        if(g->kind == RAFT && keep.count(g->d) != 0 && g->cmd != "get") {
            to_log(g->buf);
            kept.push_back(g->d);
        } else if(g->kind == NET) {
            ghosts.push_back({g->d, g->port, g->cmd, g->req});
        }
    }
    vf::emit(vf::js().str("ev", "stop").raw("kept", arr(kept)));
    catch_up(n);
    n.srv->m_cb(nuraft::cb_func::BecomeFollower, nullptr);
    for(auto& g : v) {
        if(g->kind == RAFT) {
            raft_fail(*g);
        } else if(g->kind == RAND) {
            release(*g);
        }
    }
    // What the old leader still asks of the log is refused; its messages are
    // lost, or answered if it does not give up (it may be busy recovering).
    for(int i = 0, idle = 0; i < 200 && idle < 2; i++) {
        vf::bump_spinners();
        vf::quiesce();
        idle++;
        for(auto& g : pending()) {
            idle = 0;
            if(g->kind == RAFT) {
                raft_fail(*g);
            } else if(g->kind == RAND) {
                release(*g);
            } else if(i < 3) {
                if(!g->seen) {
                    report(*g);
                }
                release(*g);
            } else {
                if(!g->seen) {
                    report(*g);
                }
                vf::js j;
                j.str("ev", "del").num("d", g->d).num("s", g->port).str("kind", g->cmd).num("ack", 0).num("gh", 1);
                g->resp = deliver(g->port, g->req, j);
                vf::emit(j);
                release(*g);
            }
        }
    }
    observe();
    vf::emit(vf::js().str("ev", "takeover"));
    if(!same) {
        become(1 - leader);
    } else {
        become(leader);
    }
}

static void teardown() {
    {
        std::unique_lock<std::mutex> l(gm);
        hold_rand = false;
    }
    for(auto* n : nodes) {
        n->srv->m_leader = false;
    }
    // stop all that runs, without recording
    for(auto* n : nodes) {
        std::atomic<bool> gone{false};
        std::thread t([&]() {
            n->ctl.reset();
            gone = true;
        });
        for(;;) {
            vf::bump_spinners();
            vf::quiesce();
            for(auto& g : pending()) {
                if(g->kind == RAFT) {
                    raft_fail(*g);
                } else {
                    release(*g);
                }
            }
            if(gone) {
                break;
            }
        }
        t.join();
    }
    for(auto* n : nodes) {
        delete n;
    }
    nodes.clear();
    replies.clear();
    ghosts.clear();
    clog.clear();
    dnum.clear();
    defs.clear();
    universe.clear();
    discarding.clear();
    servers.clear();
    nreq = 0;
}

static void reset(const vf::op& o) {
    teardown();
    ns() = o.i(0);
    auto k = o.i(1);
    threads_ = o.i(2);
    bsize = o.i(3);
    auto seeds = nums(o.a.size() > 4 ? o.a[4] : "-");
    salt()++;
    auto& p = pool[ns() * 1000 + k];
    if(p.empty()) {
        for(long s = 0; s < ns(); s++) {
            auto* x = new shard();
            x->rng = range(s);
            x->k = k;
            x->make("");
            p.push_back(x);
        }
    }
    sh = p;
    for(auto x : seeds) {
        universe.insert(x);
    }
    for(long s = 0; s < ns(); s++) {
        sh[s]->log.clear();
        // The seed is an output-only batch whose transaction belongs elsewhere.
        auto t = mktx(0, {}, {});
        t.m_id = tid((s + 1) % ns());
        t.m_id[21] = 7;
        for(auto x : seeds) {
            t.m_uhs_outputs.push_back(uid(x));
        }
        hash_t d{};
        d[0] = 255;
        auto sl = salt();
        std::memcpy(d.data() + 8, &sl, sizeof(sl));
        sh[s]->commit(cbdc::make_buffer(req{{1}, ls::rpc::request{d, ls::rpc::lock_params{ls::tx{t}}}}));
        sh[s]->commit(cbdc::make_buffer(req{{2}, ls::rpc::request{d, ls::rpc::apply_params{true}}}));
        sh[s]->commit(cbdc::make_buffer(req{{3}, ls::rpc::request{d, ls::rpc::discard_params()}}));
    }
    std::vector<std::vector<cbdc::network::endpoint_t>> eps;
    std::vector<cbdc::config::shard_range_t> rs;
    cbdc::config::options opt;
    for(long s = 0; s < ns(); s++) {
        opt.m_locking_shard_endpoints.push_back({{"s", static_cast<unsigned short>(s)}});
        opt.m_shard_ranges.push_back(range(s));
        eps.push_back({{"r", static_cast<unsigned short>(1000 + s)}});
    }
    status = std::make_unique<ls::rpc::status_client>(eps, opt.m_shard_ranges);
    opt.m_batch_size = static_cast<size_t>(bsize);
    opt.m_coordinator_max_threads = static_cast<size_t>(threads_);
    opt.m_coordinator_endpoints = {{{"c", 100}, {"c", 101}}};
    opt.m_coordinator_raft_endpoints = {{{"q", 200}, {"q", 201}}};
    opt.m_attestation_threshold = 0;
    for(size_t i = 0; i < 2; i++) {
        auto* n = new node();
        n->ctl = std::make_unique<co::controller>(i, 0, opt, vf::logger());
        nuraft::fake::start_as_follower() = true;
        if(!n->ctl->init()) {
            _exit(3);
        }
        n->srv = nuraft::fake::last();
        n->srv->m_gate = [](nuraft::raft_server& s, nuraft::ptr<nuraft::buffer> b, nuraft::ptr<nuraft::raft_server::result> r) {
            auto g = std::make_shared<gate>();
            g->kind = RAFT;
            g->srv = &s;
            g->buf = std::move(b);
            g->res = std::move(r);
            if(!s.m_leader) {
                raft_fail(*g);
                return;
            }
            wait_gate(g);
        };
        nodes.push_back(n);
    }
    vf::emit(vf::js().str("ev", "reset").num("ns", ns()).num("k", k).raw("seed", arr(seeds)));
    become(0);
}

static void submit(long t, bool more) {
    auto r = ++nreq;
    auto& d = defs[t];
    for(auto x : d.ins) {
        universe.insert(x);
    }
    for(auto x : d.outs) {
        universe.insert(x);
    }
    vf::server_entry e;
    {
        std::unique_lock<std::mutex> l(gm);
        auto it = servers.find(static_cast<unsigned short>(100 + leader));
        if(it != servers.end()) {
            e = it->second.second;
        }
    }
    vf::emit(vf::js().str("ev", "submit").num("r", r).num("t", t).num("up", e ? 1 : 0).raw("ins", arr(d.ins)).raw("outs", arr(d.outs)));
    if(e) {
        cbdc::rpc::request<co::rpc::request> q{{static_cast<uint64_t>(r)}, mktx(t, d.ins, d.outs)};
        e(cbdc::make_buffer(q), [r](cbdc::buffer b) {
            auto p = cbdc::from_buffer<cbdc::rpc::response<co::rpc::response>>(b);
            std::string x = "garbled";
            if(p.has_value() && p->m_header.m_request_id == static_cast<uint64_t>(r)) {
                x = !p->m_payload.has_value() ? "none" : (p->m_payload.value() ? "yes" : "no");
            }
            std::unique_lock<std::mutex> l(gm);
            replies.emplace_back(r, x);
        });
    }
    if(more) {
        vf::quiesce();
    }
    observe();
}

static gate_ptr find(kind_t k, long d, long s) {
    for(auto& g : pending()) {
        if(g->kind == k && g->d == d && (k != NET || g->port == s)) {
            return g;
        }
    }
    return nullptr;
}
static void do_ghost(size_t i) {
    auto g = ghosts[i];
    ghosts.erase(ghosts.begin() + static_cast<long>(i));
    if(discarding.count(g.d) != 0 || g.d < 1) {
        return;
    }
    vf::js j;
    j.str("ev", "del").num("d", g.d).num("s", g.s).str("kind", g.kind).num("ack", 0).num("gh", 1);
    deliver(g.s, g.req, j);
    vf::emit(j);
}

int main(int argc, char** argv) {
    // The code under test ends the process with exit(): no destructors then.
    atexit([]() { _exit(4); });
    vf::spinners().on = true;
    return vf::run(argc, argv, [](const vf::op& o) {
        if(o.name == "reset") {
            reset(o);
        } else if(o.name == "def") {
            defs[o.i(0)] = {nums(o.a[1]), nums(o.a[2])};
        } else if(o.name == "sub") {
            if(defs.find(o.i(0)) != defs.end()) {
                submit(o.i(0), false);
            }
        } else if(o.name == "hold") {
            std::unique_lock<std::mutex> l(gm);
            hold_rand = o.i(0) != 0;
        } else if(o.name == "batch") {
            {
                std::unique_lock<std::mutex> l(gm);
                hold_rand = true;
            }
            for(size_t i = 0; i < o.a.size(); i++) {
                submit(o.i(i), true);
            }
            {
                std::unique_lock<std::mutex> l(gm);
                hold_rand = false;
            }
            for(auto& g : pending()) {
                if(g->kind == RAND) {
                    release(*g);
                }
            }
            observe();
        } else if(o.name == "raft") {
            auto g = find(RAFT, o.i(0), 0);
            if(g != nullptr) {
                do_raft(*g);
            }
        } else if(o.name == "msg" || o.name == "lost" || o.name == "drop") {
            auto g = find(NET, o.i(0), o.i(1) - 1);
            if(g != nullptr) {
                do_net(*g, o.name);
            }
        } else if(o.name == "go" || o.name == "golost" || o.name == "godrop") {
            auto v = pending();
            if(!v.empty()) {
                any_gate(*v[o.u(0) % v.size()], o.name == "go" ? "msg" : o.name.substr(2));
            }
        } else if(o.name == "crash" || o.name == "crashsame") {
            std::set<long> keep;
            for(size_t i = 0; i < o.a.size(); i++) {
                keep.insert(o.i(i));
            }
            crash(o.name == "crashsame", keep);
        } else if(o.name == "ghost") {
            for(size_t i = 0; i < ghosts.size(); i++) {
                if(ghosts[i].d == o.i(0) && ghosts[i].s == o.i(1) - 1 && ghosts[i].kind == o.a[2]) {
                    do_ghost(i);
                    break;
                }
            }
        } else if(o.name == "goghost") {
            if(!ghosts.empty()) {
                do_ghost(o.u(0) % ghosts.size());
            }
        } else if(o.name == "sfail") {
            sh[o.u(0) % sh.size()]->failover();
        } else if(o.name == "query") {
            query_all("query");
        } else if(o.name == "settle") {
            {
                std::unique_lock<std::mutex> l(gm);
                hold_rand = false;
            }
            for(int i = 0; i < 3000; i++) {
                auto v = pending();
                if(v.empty()) {
                    break;
                }
                any_gate(*v[0], "msg");
            }
            query_all("settled");
        }
    });
}
