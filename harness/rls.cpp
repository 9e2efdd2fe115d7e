// Conformance driver: the PArSEC runtime locking shard.
#include "common.hpp"
#include <map>
#include <set>
#include "parsec/runtime_locking_shard/impl.hpp"
#include "parsec/runtime_locking_shard/replicated_shard.hpp"

using namespace cbdc::parsec;
namespace rls = cbdc::parsec::runtime_locking_shard;

static std::unique_ptr<rls::impl> shard;
static std::vector<std::string> cbs;

using vf::mk;
using vf::val;
static const char* code(rls::error_code c) {
    switch(c) {
        case rls::error_code::prepared: return "prepared";
        case rls::error_code::wounded: return "wounded";
        case rls::error_code::lock_held: return "lock_held";
        case rls::error_code::lock_queued: return "lock_queued";
        case rls::error_code::unknown_ticket: return "unknown_ticket";
        case rls::error_code::lock_not_held: return "not_write_locked";
        case rls::error_code::state_update_with_read_lock: return "not_write_locked";
        case rls::error_code::not_prepared: return "not_prepared";
        case rls::error_code::committed: return "committed";
        case rls::error_code::not_committed: return "not_committed";
        default: return "internal_error";
    }
}
static std::string tup(long t, long k, const char* kind, long x, long y) {
    return "[" + std::to_string(t) + "," + std::to_string(k) + ",\"" + kind
         + "\"," + std::to_string(x) + "," + std::to_string(y) + "]";
}

static std::map<std::pair<long, long>, bool> want;
static std::map<long, std::set<long>> wlocked;
static void granted(long t, long k) {
    if(want[{t, k}]) {
        wlocked[t].insert(k);
    }
}

template<typename R>
static std::string rescode(const R& r) {
    return r.has_value() ? code(r.value().m_error_code) : "ok";
}

// What the caller has been told so far; only used to choose inputs.
static std::set<long> known;
static std::set<long> committed;

static void one(vf::op o) {
        cbs.clear();
        if(o.name == "rollback" && committed.count(o.i(0)) != 0) {
            o.name = "finish"; // rolling back a committed ticket is misuse
        }
        vf::js j;
        j.str("ev", o.name);
        if(o.name == "reset") {
            shard = std::make_unique<rls::impl>(vf::logger());
            known.clear();
            committed.clear();
            wlocked.clear();
            vf::emit(j);
            return;
        }
        if(o.name == "lock" && o.a.size() < 5) {
            o.a.push_back(known.count(o.i(0)) != 0 ? "0" : "1");
        }
        auto t = o.i(0);
        j.num("t", t);
        std::string res = "no_reply";
        auto once = [&](auto r) {
            res = res == "no_reply" ? rescode(r) : "replied_twice";
        };
        if(o.name == "lock") {
            auto k = o.i(2);
            want[{t, k}] = o.a[3] == "w";
            known.insert(t);
            j.num("b", o.i(1)).num("k", k).str("ty", o.a[3]).num("first", o.i(4));
            auto ok = shard->try_lock(
                t, o.u(1), mk(k),
                o.a[3] == "w" ? rls::lock_type::write : rls::lock_type::read,
                o.i(4) != 0,
                [t, k](rls::interface::try_lock_return_type r) {
                    if(std::holds_alternative<rls::value_type>(r)) {
                        granted(t, k);
                        cbs.push_back(tup(t, k, "g", val(std::get<rls::value_type>(r)), 0));
                        return;
                    }
                    auto& e = std::get<rls::shard_error>(r);
                    long w = 0;
                    long wk = 0;
                    if(e.m_wounded_details.has_value()
                       && e.m_error_code == rls::error_code::wounded) {
                        w = static_cast<long>(e.m_wounded_details->m_wounding_ticket);
                        wk = val(e.m_wounded_details->m_wounding_key);
                    }
                    cbs.push_back(tup(t, k, code(e.m_error_code), w, wk));
                });
            res = ok ? "ok" : "refused";
        } else if(o.name == "prepare") {
            auto u = rls::state_update_type();
            std::string us;
            for(size_t n = 1; n < o.a.size(); n++) {
                auto p = o.a[n].find('=');
                auto k = std::stol(o.a[n].substr(0, p));
                auto v = std::stol(o.a[n].substr(p + 1));
                u[mk(k)] = mk(v);
                us += (us.empty() ? "" : ",");
                us += "[" + std::to_string(k) + "," + std::to_string(v) + "]";
            }
            j.raw("u", "[" + us + "]");
            if(!shard->prepare(t, 1, u, once)) {
                res = "refused";
            }
        } else if(o.name == "commit") {
            if(!shard->commit(t, once)) {
                res = "refused";
            }
        } else if(o.name == "rollback") {
            if(!shard->rollback(t, once)) {
                res = "refused";
            }
        } else if(o.name == "finish") {
            if(!shard->finish(t, once)) {
                res = "refused";
            }
        } else if(o.name == "tickets") {
            std::vector<std::string> l;
            shard->get_tickets(o.u(0), [&](rls::interface::get_tickets_return_type r) {
                res = "ok";
                if(!std::holds_alternative<rls::interface::get_tickets_success_type>(r)) {
                    res = "error";
                    return;
                }
                for(auto& [tn, st] : std::get<rls::interface::get_tickets_success_type>(r)) {
                    const char* n = st == rls::ticket_state::begun    ? "begun"
                                  : st == rls::ticket_state::wounded  ? "wounded"
                                  : st == rls::ticket_state::prepared ? "prepared"
                                                                      : "committed";
                    l.push_back("[" + std::to_string(tn) + ",\"" + n + "\"]");
                }
            });
            j.list("tks", l);
        } else {
            res = "bad_op";
        }
        if(res == "ok") {
            if(o.name == "commit") {
                committed.insert(t);
            } else if(o.name == "rollback" || o.name == "finish") {
                known.erase(t);
                committed.erase(t);
                wlocked.erase(t);
            }
        }
        j.str("res", res);
        j.list("cbs", cbs);
        vf::emit(j);
}

int main(int argc, char** argv) {
    return vf::run(argc, argv, [](const vf::op& o) {
        if(o.name == "prep") {
            // prepare with updates for a subset (bit mask) of the keys the
            // ticket was granted write locks on
            vf::op p{"prepare", {o.a[0]}};
            for(auto k : wlocked[o.i(0)]) {
                if(((o.u(1) >> k) & 1U) != 0) {
                    auto v = o.i(0) * 10 + k;
                    p.a.push_back(std::to_string(k) + "="
                                  + std::to_string(o.i(2) != 0 && (v % 3) == 0 ? 0 : v));
                }
            }
            one(p);
        } else if(o.name == "drain") {
            // finish or roll back everything, then read every key
            auto ts = known;
            for(auto t : ts) {
                one({committed.count(t) != 0 ? "finish" : "rollback", {std::to_string(t)}});
            }
            for(long k = 1; k <= o.i(0); k++) {
                one({"lock", {"1", "1", std::to_string(k), k % 2 != 0 ? "r" : "w"}});
            }
            one({"rollback", {"1"}});
            for(long b = 1; b <= 3; b++) {
                one({"tickets", {std::to_string(b)}});
            }
        } else {
            one(o);
        }
    });
}
