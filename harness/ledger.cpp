// Conformance driver: real brokers, real shards, real directory and ticket
// machine, connected by in-order channels that the script steps through.
// Brokers can be stopped and replaced at any point.
#include "common.hpp"
#include <deque>
#include <map>
#include <set>
#include "parsec/broker/impl.hpp"
#include "parsec/directory/impl.hpp"
#include "parsec/runtime_locking_shard/impl.hpp"
#include "parsec/runtime_locking_shard/replicated_shard.hpp"
#include "parsec/ticket_machine/impl.hpp"

using namespace cbdc::parsec;
namespace rls = cbdc::parsec::runtime_locking_shard;
using vf::mk;
using vf::val;

static constexpr int nkeys = 5;
static int nb{};
static int ns{};
static bool sync_mode{};
static bool eager{}; // clients finish from within the result callback

static std::vector<std::string> items;
static std::vector<std::shared_ptr<rls::impl>> shards;
static std::map<std::pair<long, long>, std::deque<std::function<void()>>> req;
static std::map<std::pair<long, long>, std::deque<std::function<void()>>> rep;
static std::map<long, long> epoch;
static std::set<long> locks_open; // client lock requests without an answer
static long opid{};

static std::string item(const char* what, long t, long a, const std::string& res, long k, long v) {
    return "{\"x\":\"" + std::string(what) + "\",\"t\":" + std::to_string(t) + ",\"a\":"
         + std::to_string(a) + ",\"res\":\"" + res + "\",\"k\":" + std::to_string(k)
         + ",\"v\":" + std::to_string(v) + "}";
}

struct proxy : public rls::interface {
    long b;
    long s;
    long ep;
    proxy(long bb, long ss, long ee) : b(bb), s(ss), ep(ee) {}

    void send(std::function<void()> f) {
        if(sync_mode) {
            f();
        } else {
            req[{b, s}].push_back(std::move(f));
        }
    }
    void answer(std::function<void()> f) {
        if(epoch[b] != ep) {
            return; // the asker is gone
        }
        if(sync_mode) {
            f();
        } else {
            rep[{b, s}].push_back(std::move(f));
        }
    }
    auto try_lock(rls::ticket_number_type t, rls::broker_id_type bi, rls::key_type key,
                  rls::lock_type ty, bool first, try_lock_callback_type cb) -> bool override {
        send([=, this]() {
            items.push_back(item("lock", static_cast<long>(t) + 1, s, "ok", val(key), 0));
            shards[s]->try_lock(t, bi, key, ty, first, [this, cb](try_lock_return_type r) {
                answer([cb, r]() {
                    cb(r);
                });
            });
        });
        return true;
    }
    template<typename F, typename C>
    void simple(const char* what, rls::ticket_number_type t, F f, C cb) {
        send([=, this]() {
            auto at = items.size();
            items.emplace_back();
            items[at] = item(what, static_cast<long>(t) + 1, s, "no_answer", 0, 0);
            f([this, cb, at, what, t](auto r) {
                items[at] = item(what, static_cast<long>(t) + 1, s, r.has_value() ? "err" : "ok",
                                 0, 0);
                answer([cb, r]() {
                    cb(r);
                });
            });
        });
    }
    auto prepare(rls::ticket_number_type t, rls::broker_id_type bi, rls::state_update_type u,
                 prepare_callback_type cb) -> bool override {
        simple("prepare", t, [=, this](auto c) { shards[s]->prepare(t, bi, u, c); }, cb);
        return true;
    }
    auto commit(rls::ticket_number_type t, commit_callback_type cb) -> bool override {
        simple("commit", t, [=, this](auto c) { shards[s]->commit(t, c); }, cb);
        return true;
    }
    auto rollback(rls::ticket_number_type t, rollback_callback_type cb) -> bool override {
        simple("rollback", t, [=, this](auto c) { shards[s]->rollback(t, c); }, cb);
        return true;
    }
    auto finish(rls::ticket_number_type t, finish_callback_type cb) -> bool override {
        simple("finish", t, [=, this](auto c) { shards[s]->finish(t, c); }, cb);
        return true;
    }
    auto get_tickets(rls::broker_id_type bi, get_tickets_callback_type cb) -> bool override {
        send([=, this]() {
            shards[s]->get_tickets(bi, [this, cb](get_tickets_return_type r) {
                answer([cb, r]() {
                    cb(r);
                });
            });
        });
        return true;
    }
};

struct modulo_directory : public directory::interface {
    auto key_location(rls::key_type key, key_location_callback_type cb) -> bool override {
        cb(static_cast<uint64_t>(val(key)) % static_cast<uint64_t>(ns));
        return true;
    }
};

// every broker has a directory of its own; dir is the auditor's
static std::shared_ptr<directory::interface> dir;
static bool modulo{};
static std::shared_ptr<directory::interface> newdir() {
    if(modulo) {
        return std::make_shared<modulo_directory>();
    }
    return std::make_shared<directory::impl>(ns);
}
static std::shared_ptr<ticket_machine::interface> tm;
static std::map<long, std::shared_ptr<broker::impl>> brkr;
static std::vector<std::shared_ptr<broker::impl>> graveyard;
static std::map<long, std::string> up;

struct client {
    long number{-1};
    long b{};
    std::string st; // act locking failed committing rolling gone done ending end lost
    std::set<long> wlocked;
    std::set<long> asked; // keys with an open lock request
    long gen{};
};
static std::map<long, client> cl; // script index -> client
static long vn{};
static long txs{};

static void newbroker(long b) {
    epoch[b]++;
    std::vector<std::shared_ptr<rls::interface>> p;
    for(long s = 0; s < ns; s++) {
        p.push_back(std::make_shared<proxy>(b, s, epoch[b]));
    }
    if(brkr[b]) {
        graveyard.push_back(brkr[b]);
    }
    brkr[b] = std::make_shared<broker::impl>(static_cast<size_t>(b), p, tm, newdir(), vf::logger());
}

static void emit(vf::js& j) {
    j.list("items", items);
    vf::emit(j);
}

static void finish(long idx) {
    auto& c = cl[idx];
    auto T = c.number + 1;
    auto gen = c.gen;
    auto was = c.st;
    c.st = "ending";
    brkr[c.b]->finish(static_cast<uint64_t>(c.number), [=](broker::interface::finish_return_type r) {
        auto ok = !r.has_value();
        items.push_back(item("finished", T, 0, ok ? "ok" : "err", 0, 0));
        auto& cc = cl[idx];
        if(cc.gen == gen && cc.st == "ending") {
            cc.st = ok ? "end" : was;
        }
    });
}

static bool one(const vf::op& o) {
    items.clear();
    vf::js j;
    j.str("ev", o.name);
    if(o.name == "reset") {
        req.clear();
        rep.clear();
        graveyard.clear();
        brkr.clear();
        cl.clear();
        up.clear();
        shards.clear();
        locks_open.clear();
        sync_mode = false;
        eager = o.i(3) != 0;
        vn = 10;
        nb = static_cast<int>(o.i(0));
        ns = static_cast<int>(o.i(1));
        for(int s = 0; s < ns; s++) {
            shards.push_back(std::make_shared<rls::impl>(vf::logger()));
        }
        modulo = o.i(2) != 0;
        dir = newdir();
        tm = std::make_shared<ticket_machine::impl>(vf::logger(), 1);
        for(long b = 1; b <= nb; b++) {
            newbroker(b);
            up[b] = "up";
        }
        std::vector<long long> loc;
        for(long k = 1; k <= nkeys; k++) {
            dir->key_location(mk(k), [&](auto s) {
                loc.push_back(static_cast<long long>(s));
            });
        }
        j.nums("loc", loc).num("ns", ns);
        vf::emit(j);
        return true;
    }
    if(o.name == "sync") {
        for(auto& [k, q] : req) {
            if(!q.empty()) {
                return false;
            }
        }
        for(auto& [k, q] : rep) {
            if(!q.empty()) {
                return false;
            }
        }
        sync_mode = o.i(0) != 0;
        return false;
    }
    if(o.name == "begin") {
        auto t = o.i(0);
        auto b = o.i(1);
        if(cl.count(t) != 0 || up[b] != "up") {
            return false;
        }
        j.num("t", t).num("b", b);
        brkr[b]->begin([&](broker::interface::ticketnum_or_errcode_type r) {
            if(std::holds_alternative<ticket_machine::ticket_number_type>(r)) {
                auto n = static_cast<long>(std::get<ticket_machine::ticket_number_type>(r));
                cl[t] = client{n, b, "act", {}, {}, 0};
                items.push_back(item("begun", n + 1, b, "ok", 0, 0));
            } else {
                items.push_back(item("begun", 0, b, "err", 0, 0));
            }
        });
        emit(j);
        return true;
    }
    if(o.name == "d" || o.name == "r") {
        auto& q = (o.name == "d" ? req : rep)[{o.i(0), o.i(1)}];
        if(q.empty()) {
            return false;
        }
        j.num("b", o.i(0)).num("s", o.i(1));
        auto f = std::move(q.front());
        q.pop_front();
        f();
        emit(j);
        return true;
    }
    if(o.name == "crash") {
        auto b = o.i(0);
        if(up[b] == "") {
            return false;
        }
        if(o.i(1) == 0) {
            for(auto& [k, q] : req) {
                if(k.first == b) {
                    q.clear();
                }
            }
        }
        for(auto& [k, q] : rep) {
            if(k.first == b) {
                q.clear();
            }
        }
        newbroker(b);
        up[b] = "down";
        for(auto& [n, c] : cl) {
            if(c.b == b) {
                c.st = "lost";
                c.gen++;
            }
        }
        j.num("b", b);
        emit(j);
        return true;
    }
    if(o.name == "recover") {
        auto b = o.i(0);
        if(up[b] != "down") {
            return false;
        }
        for(long s = 0; s < ns; s++) {
            if(!req[{b, s}].empty()) {
                return false;
            }
        }
        up[b] = "recovering";
        j.num("b", b);
        auto ep = epoch[b];
        auto ok = brkr[b]->recover([b, ep](broker::interface::recover_return_type r) {
            if(epoch[b] == ep) {
                up[b] = r.has_value() ? "broken" : "up";
            }
            items.push_back(item("recovered", 0, b, r.has_value() ? "err" : "ok", 0, 0));
        });
        if(!ok) {
            items.push_back(item("recovered", 0, b, "refused", 0, 0));
            up[b] = "broken";
        }
        emit(j);
        return true;
    }
    // client operations
    auto it = cl.find(o.i(0));
    if(it == cl.end()) {
        return false;
    }
    auto& c = it->second;
    auto idx = it->first;
    if(c.st == "lost" || up[c.b] != "up") {
        return false;
    }
    auto n = static_cast<uint64_t>(c.number);
    auto T = c.number + 1;
    j.num("t", T);
    auto gen = c.gen;
    auto same = [idx, gen]() {
        auto& cc = cl[idx];
        return cc.gen == gen;
    };
    if(o.name == "lock") {
        auto k = o.i(1);
        if((c.st != "act" && c.st != "gone" && c.st != "locking") || c.asked.count(k) != 0) {
            return false;
        }
        auto w = o.a[2] == "w";
        if(c.st == "gone") {
            c.wlocked.clear();
            c.asked.clear();
            c.gen++;
        }
        c.st = "locking";
        c.asked.insert(k);
        auto g2 = c.gen;
        auto id = ++opid;
        locks_open.insert(id);
        brkr[c.b]->try_lock(
            n, mk(k), w ? rls::lock_type::write : rls::lock_type::read,
            [=](broker::interface::try_lock_return_type r) {
                locks_open.erase(id);
                auto ok = std::holds_alternative<broker::value_type>(r);
                items.push_back(item("read", T, 0, ok ? "ok" : "err", k,
                                     ok ? val(std::get<broker::value_type>(r)) : 0));
                auto& cc = cl[idx];
                if(cc.gen == g2) {
                    cc.asked.erase(k);
                    if(ok && w) {
                        cc.wlocked.insert(k);
                    }
                    if(cc.st == "locking") {
                        cc.st = !ok ? "failed" : cc.asked.empty() ? "act" : "locking";
                    }
                }
            });
    } else if(o.name == "commit") {
        if(c.st != "act") {
            return false;
        }
        broker::state_update_type u;
        std::string us = "[";
        vn++;
        auto mask = o.a.size() > 1 ? o.u(1) : 255;
        for(auto k : c.wlocked) {
            if(((mask >> k) & 1U) != 0) {
                auto v = vn % 6 == 0 ? 0 : vn * 10 + k;
                u[mk(k)] = mk(v);
                us += (us.size() > 1 ? ",[" : "[") + std::to_string(k) + "," + std::to_string(v) + "]";
            }
        }
        j.raw("u", us + "]");
        c.st = "committing";
        brkr[c.b]->commit(n, u, [=](broker::interface::commit_return_type r) {
            auto ok = !r.has_value();
            items.push_back(item("committed", T, 0, ok ? "ok" : "err", 0, 0));
            auto& cc = cl[idx];
            if(same() && cc.st == "committing") {
                cc.st = ok ? "done" : "failed";
                if(ok && eager) {
                    finish(idx);
                }
            }
        });
    } else if(o.name == "rollback") {
        if(c.st != "act" && c.st != "failed" && c.st != "committing" && c.st != "locking") {
            return false;
        }
        auto was = c.st;
        c.st = "rolling";
        brkr[c.b]->rollback(n, [=](broker::interface::rollback_return_type r) {
            auto ok = !r.has_value();
            auto late = false;
            if(!ok && std::holds_alternative<broker::interface::error_code>(r.value())) {
                auto e = std::get<broker::interface::error_code>(r.value());
                late = e == broker::interface::error_code::prepared
                    || e == broker::interface::error_code::committed;
            }
            items.push_back(item("rolledback", T, 0, ok ? "ok" : "err", 0, 0));
            auto& cc = cl[idx];
            if(same() && cc.st == "rolling") {
                cc.st = ok ? "gone" : late ? was : "failed";
                if(ok && eager) {
                    finish(idx);
                }
            }
        });
    } else if(o.name == "finish") {
        if(c.st != "done" && c.st != "gone") {
            return false;
        }
        finish(idx);
    } else {
        return false;
    }
    emit(j);
    return true;
}

static std::vector<vf::op> choices() {
    std::vector<vf::op> r;
    for(auto& [k, q] : req) {
        if(!q.empty()) {
            r.push_back({"d", {std::to_string(k.first), std::to_string(k.second)}});
        }
    }
    for(auto& [k, q] : rep) {
        if(!q.empty()) {
            r.push_back({"r", {std::to_string(k.first), std::to_string(k.second)}});
        }
    }
    return r;
}
static void flow() {
    for(int n = 0; n < 2000; n++) {
        auto c = choices();
        if(c.empty()) {
            return;
        }
        one(c[n % c.size()]);
    }
}

static void audit(long b) {
    vf::js j;
    j.str("ev", "audit").num("b", b);
    std::vector<std::string> l;
    for(long s = 0; s < ns; s++) {
        shards[s]->get_tickets(b, [&](rls::interface::get_tickets_return_type r) {
            if(std::holds_alternative<rls::interface::get_tickets_success_type>(r)) {
                for(auto& [n, st] : std::get<rls::interface::get_tickets_success_type>(r)) {
                    l.push_back("[" + std::to_string(s) + "," + std::to_string(n + 1) + "]");
                }
            }
        });
    }
    j.list("left", l).raw("items", "[]");
    vf::emit(j);
}

// Ends the run: every broker that is up completes its transactions, the others
// recover; then nothing may be left and the contents are read.
static void settle(bool all) {
    for(long b = 1; b <= nb; b++) {
        if(all && up[b] != "down") {
            one({"crash", {std::to_string(b), "1"}});
        }
    }
    for(int round = 0; round < 20; round++) {
        flow();
        for(auto& [i, c] : cl) {
            auto idx = std::to_string(i);
            if(c.st == "done" || c.st == "gone") {
                one({"finish", {idx}});
            } else if(c.st == "act" || c.st == "failed" || c.st == "locking") {
                one({"rollback", {idx}});
            }
        }
        for(long b = 1; b <= nb; b++) {
            if(up[b] == "down") {
                one({"recover", {std::to_string(b)}});
            }
        }
        flow();
    }
    vf::js j;
    std::string bad;
    for(long b = 1; b <= nb; b++) {
        if(up[b] != "up") {
            bad = "recovery";
        }
    }
    for(auto& [i, c] : cl) {
        if(bad.empty() && c.st != "end" && c.st != "lost" && c.st != "") {
            bad = "transaction";
        }
    }
    j.str("ev", "settled").str("stuck", bad).raw("items", "[]");
    vf::emit(j);
    for(long b = 1; b <= nb; b++) {
        audit(b);
    }
    std::vector<long long> v;
    for(long k = 1; k <= nkeys; k++) {
        dir->key_location(mk(k), [&](auto s) {
            long x = -77; // no answer: still locked
            shards[s]->try_lock(900 + k, 99, mk(k), rls::lock_type::read, true,
                                [&](rls::interface::try_lock_return_type r) {
                                    x = std::holds_alternative<rls::value_type>(r)
                                          ? val(std::get<rls::value_type>(r)) : -78;
                                });
            v.push_back(x);
            shards[s]->rollback(900 + k, [](auto) {});
        });
    }
    vf::js f;
    f.str("ev", "final").nums("v", v).raw("items", "[]");
    vf::emit(f);
}

int main(int argc, char** argv) {
    return vf::run(argc, argv, [](const vf::op& o) {
        if(o.name == "go") { // n-th of the enabled deliveries
            auto c = choices();
            if(!c.empty()) {
                one(c[o.u(0) % c.size()]);
            }
        } else if(o.name == "flow") {
            flow();
        } else if(o.name == "arrive") { // everything sent by b reaches the shards
            for(long s = 0; s < ns; s++) {
                while(one({"d", {o.a[0], std::to_string(s)}})) {}
            }
        } else if(o.name == "settle") {
            settle(o.i(0) != 0);
        } else {
            one(o);
        }
    });
}
