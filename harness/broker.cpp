// Conformance driver: a real broker on scripted shards, ticket machine and
// directory. Replies of shards are given in any order.
#include "common.hpp"
#include <list>
#include <map>
#include <set>
#include "parsec/broker/impl.hpp"

using namespace cbdc::parsec;
namespace rls = cbdc::parsec::runtime_locking_shard;
using vf::mk;
using vf::val;

static constexpr int nshards = 3;
static constexpr int nkeys = 5;

struct call {
    long c{};
    std::string kind;
    long s{};
    long t{};
    rls::interface::try_lock_callback_type lock;
    rls::interface::prepare_callback_type one; // prepare, commit, finish, rollback
    rls::interface::get_tickets_callback_type tickets;
};

static std::list<call> pend;
static std::vector<std::string> calls;
static std::vector<std::string> cbs;
static std::set<long> down;
static long callno{};
static bool dir_refuse{};

static std::string updates(const rls::state_update_type& u) {
    std::map<long, long> m;
    for(auto& [k, v] : u) {
        m[val(k)] = val(v);
    }
    std::string s = "[";
    for(auto& [k, v] : m) {
        s += (s.size() > 1 ? "," : "") + ("[" + std::to_string(k) + "," + std::to_string(v)) + "]";
    }
    return s + "]";
}

struct mock_shard : public rls::interface {
    long m_s;
    explicit mock_shard(long s) : m_s(s) {}
    bool add(call c, long k, const char* ty, bool first, const std::string& u) {
        auto acc = down.count(m_s) == 0;
        c.c = ++callno;
        c.s = m_s;
        vf::js j;
        j.num("c", c.c).str("kind", c.kind).num("s", m_s).num("t", c.t).num("k", k);
        j.str("ty", ty).num("first", first ? 1 : 0).raw("u", u).num("acc", acc ? 1 : 0);
        calls.push_back(j.done());
        if(acc) {
            pend.push_back(std::move(c));
        }
        return acc;
    }
    auto try_lock(rls::ticket_number_type t, rls::broker_id_type, rls::key_type key, rls::lock_type ty,
                  bool first, try_lock_callback_type cb) -> bool override {
        call c{0, "lock", 0, static_cast<long>(t), std::move(cb), {}, {}};
        return add(std::move(c), val(key), ty == rls::lock_type::write ? "w" : "r", first, "[]");
    }
    auto prepare(rls::ticket_number_type t, rls::broker_id_type, rls::state_update_type u,
                 prepare_callback_type cb) -> bool override {
        call c{0, "prepare", 0, static_cast<long>(t), {}, std::move(cb), {}};
        return add(std::move(c), 0, "r", false, updates(u));
    }
    auto commit(rls::ticket_number_type t, commit_callback_type cb) -> bool override {
        call c{0, "commit", 0, static_cast<long>(t), {}, std::move(cb), {}};
        return add(std::move(c), 0, "r", false, "[]");
    }
    auto rollback(rls::ticket_number_type t, rollback_callback_type cb) -> bool override {
        call c{0, "rollback", 0, static_cast<long>(t), {}, std::move(cb), {}};
        return add(std::move(c), 0, "r", false, "[]");
    }
    auto finish(rls::ticket_number_type t, finish_callback_type cb) -> bool override {
        call c{0, "finish", 0, static_cast<long>(t), {}, std::move(cb), {}};
        return add(std::move(c), 0, "r", false, "[]");
    }
    auto get_tickets(rls::broker_id_type, get_tickets_callback_type cb) -> bool override {
        call c{0, "tickets", 0, 0, {}, {}, std::move(cb)};
        return add(std::move(c), 0, "r", false, "[]");
    }
};

struct mock_directory : public directory::interface {
    auto key_location(rls::key_type key, key_location_callback_type cb) -> bool override {
        if(dir_refuse) {
            return false;
        }
        cb(static_cast<uint64_t>(val(key)) % nshards);
        return true;
    }
};

static std::string tm_mode;
static long tm_lo{};
static long tm_hi{};
struct mock_tm : public ticket_machine::interface {
    auto get_ticket_number(get_ticket_number_callback_type cb) -> bool override {
        if(tm_mode == "refuse") {
            return false;
        }
        if(tm_mode == "err") {
            cb(error_code{});
        } else {
            cb(ticket_number_range_type{tm_lo, tm_hi});
        }
        return true;
    }
};

static const char* bcode(broker::interface::error_code c) {
    using e = broker::interface::error_code;
    switch(c) {
        case e::ticket_number_assignment: return "ticket_number_assignment";
        case e::unknown_ticket: return "unknown_ticket";
        case e::prepared: return "prepared";
        case e::shard_unreachable: return "shard_unreachable";
        case e::ticket_machine_unreachable: return "ticket_machine_unreachable";
        case e::committed: return "committed";
        case e::not_prepared: return "not_prepared";
        case e::begun: return "begun";
        case e::aborted: return "aborted";
        case e::directory_unreachable: return "directory_unreachable";
        case e::invalid_shard_state: return "invalid_shard_state";
        case e::waiting_for_locks: return "waiting_for_locks";
        case e::commit_error: return "commit_error";
        case e::rollback_error: return "rollback_error";
        case e::prepare_error: return "prepare_error";
        case e::finish_error: return "finish_error";
        case e::get_tickets_error: return "get_tickets_error";
        case e::commit_hazard: return "commit_hazard";
    }
    return "?";
}
static std::string scode(rls::error_code c) {
    return c == rls::error_code::wounded ? "S:wounded"
                                         : "S:" + std::to_string(static_cast<int>(c));
}
static void cb(long id, const std::string& res, long v) {
    cbs.push_back("[" + std::to_string(id) + ",\"" + res + "\"," + std::to_string(v) + "]");
}
// error name used in scripts -> shard error
static rls::error_code serr(const std::string& n) {
    return n == "wounded" ? rls::error_code::wounded
         : n == "unknown" ? rls::error_code::unknown_ticket
                          : rls::error_code::internal_error;
}

static std::unique_ptr<broker::impl> brkr;
static long opid{};
static std::set<long> given;

static void emit(vf::js& j) {
    std::vector<long long> dn(down.begin(), down.end());
    j.nums("dn", dn).list("calls", calls).list("cbs", cbs);
    vf::emit(j);
}

static void reply(call c, const std::string& code, long v, const std::string& lst) {
    vf::js j;
    j.str("ev", "rep").num("c", c.c);
    auto ok = code == "ok";
    j.str("res", ok ? "ok" : c.kind == "tickets" ? "err" : scode(serr(code)));
    j.num("v", ok && c.kind == "lock" ? v : 0);
    std::string ls = "[";
    if(c.kind == "lock") {
        if(ok) {
            c.lock(mk(v));
        } else {
            c.lock(rls::shard_error{serr(code), std::nullopt});
        }
    } else if(c.kind == "tickets") {
        if(ok) {
            rls::interface::get_tickets_success_type r;
            std::istringstream ss(lst);
            std::string x;
            while(std::getline(ss, x, ',')) {
                auto p = x.find(':');
                if(p == std::string::npos) {
                    continue;
                }
                auto t = std::stol(x.substr(0, p));
                auto st = x[p + 1];
                auto e = st == 'b' ? rls::ticket_state::begun
                       : st == 'p' ? rls::ticket_state::prepared
                       : st == 'c' ? rls::ticket_state::committed
                                   : rls::ticket_state::wounded;
                if(r.emplace(t, e).second) {
                    ls += (ls.size() > 1 ? "," : "") + ("[" + std::to_string(t)) + ",\""
                        + (st == 'b'   ? "begun"
                           : st == 'p' ? "prepared"
                           : st == 'c' ? "committed"
                                       : "wounded")
                        + "\"]";
                }
            }
            c.tickets(r);
        } else {
            c.tickets(rls::error_code::internal_error);
        }
    } else {
        if(ok) {
            c.one(std::nullopt);
        } else {
            c.one(rls::shard_error{serr(code), std::nullopt});
        }
    }
    j.raw("l", ls + "]");
    emit(j);
}

static void handler(const vf::op& o) {
    calls.clear();
    cbs.clear();
    vf::js j;
    if(o.name == "reset") {
        pend.clear();
        down.clear();
        dir_refuse = false;
        callno = 0;
        opid = 0;
        given.clear();
        std::vector<std::shared_ptr<rls::interface>> sh;
        for(int s = 0; s < nshards; s++) {
            sh.push_back(std::make_shared<mock_shard>(s));
        }
        brkr = std::make_unique<broker::impl>(1, sh, std::make_shared<mock_tm>(),
                                             std::make_shared<mock_directory>(), vf::logger());
        std::vector<long long> loc;
        for(int k = 1; k <= nkeys; k++) {
            loc.push_back(k % nshards);
        }
        j.str("ev", "reset").nums("loc", loc);
        vf::emit(j);
        return;
    }
    auto recovering = false;
    for(auto& c : pend) {
        recovering = recovering || c.kind == "tickets";
    }
    auto id = ++opid;
    j.str("ev", o.name).num("id", id).num("t", o.i(0));
    if(o.name == "begin") {
        if(recovering || (o.a[1] == "ok" && !given.insert(o.i(0)).second)) {
            return;
        }
        tm_mode = o.a[1];
        tm_lo = o.i(0);
        tm_hi = o.i(2);
        j.num("hi", tm_hi).str("mode", tm_mode);
        brkr->begin([id](broker::interface::ticketnum_or_errcode_type r) {
            if(std::holds_alternative<ticket_machine::ticket_number_type>(r)) {
                cb(id, "ok", static_cast<long>(std::get<ticket_machine::ticket_number_type>(r)));
            } else {
                cb(id, bcode(std::get<broker::interface::error_code>(r)), 0);
            }
        });
    } else if(o.name == "highest") {
        j.num("v", static_cast<long>(brkr->highest_ticket()));
    } else if(o.name == "lock") {
        j.num("k", o.i(1)).str("ty", o.a[2]).num("dir", dir_refuse ? 0 : 1);
        if(!brkr->try_lock(
            o.u(0), mk(o.i(1)), o.a[2] == "w" ? rls::lock_type::write : rls::lock_type::read,
            [id](broker::interface::try_lock_return_type r) {
                if(std::holds_alternative<broker::value_type>(r)) {
                    cb(id, "ok", val(std::get<broker::value_type>(r)));
                } else if(std::holds_alternative<broker::interface::error_code>(r)) {
                    cb(id, bcode(std::get<broker::interface::error_code>(r)), 0);
                } else {
                    cb(id, scode(std::get<rls::shard_error>(r).m_error_code), 0);
                }
            })) {
            cb(id, "refused", 0);
        }
    } else if(o.name == "commit") {
        broker::state_update_type u;
        for(size_t n = 1; n < o.a.size(); n++) {
            auto p = o.a[n].find('=');
            u[mk(std::stol(o.a[n].substr(0, p)))] = mk(std::stol(o.a[n].substr(p + 1)));
        }
        j.raw("u", updates(u));
        if(!brkr->commit(o.u(0), u, [id](broker::interface::commit_return_type r) {
            if(!r.has_value()) {
                cb(id, "ok", 0);
            } else if(std::holds_alternative<broker::interface::error_code>(r.value())) {
                cb(id, bcode(std::get<broker::interface::error_code>(r.value())), 0);
            } else {
                cb(id, scode(std::get<rls::shard_error>(r.value()).m_error_code), 0);
            }
        })) {
            cb(id, "refused", 0);
        }
    } else if(o.name == "finish") {
        if(!brkr->finish(o.u(0), [id](broker::interface::finish_return_type r) {
            cb(id, r.has_value() ? bcode(r.value()) : "ok", 0);
        })) {
            cb(id, "refused", 0);
        }
    } else if(o.name == "rollback") {
        if(!brkr->rollback(o.u(0), [id](broker::interface::rollback_return_type r) {
            if(!r.has_value()) {
                cb(id, "ok", 0);
            } else if(std::holds_alternative<broker::interface::error_code>(r.value())) {
                cb(id, bcode(std::get<broker::interface::error_code>(r.value())), 0);
            } else {
                cb(id, scode(std::get<rls::error_code>(r.value())), 0);
            }
        })) {
            cb(id, "refused", 0);
        }
    } else if(o.name == "recover") {
        if(!brkr->recover([id](broker::interface::recover_return_type r) {
            cb(id, r.has_value() ? bcode(r.value()) : "ok", 0);
        })) {
            cb(id, "refused", 0);
        }
    } else if(o.name == "down") {
        if(o.i(1) != 0) {
            down.insert(o.i(0));
        } else {
            down.erase(o.i(0));
        }
        return;
    } else if(o.name == "dir") {
        dir_refuse = o.i(0) == 1;
        return;
    } else if(o.name == "repi") { // n-th pending call
        if(pend.empty()) {
            return;
        }
        auto it = std::next(pend.begin(), static_cast<long>(o.u(0) % pend.size()));
        auto c = std::move(*it);
        pend.erase(it);
        reply(std::move(c), o.a[1], o.i(2), o.a.size() > 3 ? o.a[3] : "");
        return;
    } else if(o.name == "rep") { // kind s t code value list
        for(auto it = pend.begin(); it != pend.end(); it++) {
            if(it->kind == o.a[0] && it->s == o.i(1) && it->t == o.i(2)) {
                auto c = std::move(*it);
                pend.erase(it);
                reply(std::move(c), o.a[3], o.i(4), o.a.size() > 5 ? o.a[5] : "");
                return;
            }
        }
        return;
    } else {
        return;
    }
    emit(j);
}

int main(int argc, char** argv) {
    return vf::run(argc, argv, [](const vf::op& o) {
        if(o.name == "settle") {
            // everything pending succeeds, then finish or roll back
            for(int n = 0; n < 200 && !pend.empty(); n++) {
                handler({"repi", {"0", "ok", std::to_string(n + 500)}});
            }
        } else {
            handler(o);
        }
    });
}
