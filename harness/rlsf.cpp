// Conformance driver: replicated runtime locking shard.  The real RPC server
// class, shard, replicated-shard client, raft node wrapper and state machine
// over a deterministic stand-in for the consensus library.
#include "common.hpp"
#include <map>
#include <set>
#include "parsec/runtime_locking_shard/format.hpp"
#include "parsec/runtime_locking_shard/impl.hpp"
#include "parsec/runtime_locking_shard/replicated_shard_client.hpp"
#include "parsec/runtime_locking_shard/server.hpp"
#include "parsec/runtime_locking_shard/state_machine.hpp"
#include "util/rpc/format.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"

using namespace cbdc::parsec;
namespace rls = cbdc::parsec::runtime_locking_shard;
using req_t = rls::rpc::request;
using resp_t = rls::rpc::response;

class fake_srv : public cbdc::rpc::async_server<req_t, resp_t> {
  public:
    // As a transport would: bytes in, bytes out.
    void request(const req_t& r, std::function<void(std::optional<resp_t>)> cb) {
        auto id = m_next++;
        auto buf = cbdc::make_buffer(cbdc::rpc::request<req_t>{{id}, r});
        auto decode = [id, cb](cbdc::buffer b) {
            auto resp = cbdc::from_buffer<cbdc::rpc::response<resp_t>>(b);
            if(!resp.has_value() || resp->m_header.m_request_id != id) {
                cb(std::nullopt);
                return;
            }
            cb(resp->m_payload);
        };
        auto r2 = async_call(std::move(buf), decode);
        if(r2.has_value()) {
            decode(r2.value());
        }
    }

  private:
    uint64_t m_next{1};
};

static nuraft::ptr<rls::state_machine> sm;
static std::shared_ptr<cbdc::raft::node> node;
static nuraft::ptr<nuraft::raft_server> raftsrv;
static std::shared_ptr<rls::impl> shard;
static std::unique_ptr<rls::rpc::server> server;
static fake_srv* srv;
static int epoch;

static std::vector<std::string> cbs;
static std::vector<std::string> reps;
static std::set<long> known;
static std::set<long> committed;
static std::map<long, std::set<long>> wlocked;

using vf::mk;
using vf::val;
static const char* code(rls::error_code c) {
    switch(c) {
        case rls::error_code::prepared: return "prepared";
        case rls::error_code::wounded: return "wounded";
        case rls::error_code::lock_held: return "lock_held";
        case rls::error_code::lock_queued: return "lock_queued";
        case rls::error_code::unknown_ticket: return "unknown_ticket";
        case rls::error_code::lock_not_held: return "not_write_locked";
        case rls::error_code::state_update_with_read_lock: return "not_write_locked";
        case rls::error_code::not_prepared: return "not_prepared";
        case rls::error_code::committed: return "committed";
        case rls::error_code::not_committed: return "not_committed";
        default: return "internal_error";
    }
}
static std::string tup(long t, long k, const char* kind, long x, long y) {
    return "[" + std::to_string(t) + "," + std::to_string(k) + ",\"" + kind
         + "\"," + std::to_string(x) + "," + std::to_string(y) + "]";
}

static void start() {
    epoch++;
    shard = std::make_shared<rls::impl>(vf::logger());
    auto state = sm->get_shard()->get_state();
    rls::replicated_shard::tickets_type tk;
    sm->get_shard()->get_tickets(
        [&](rls::replicated_shard_interface::get_tickets_return_type r) {
            tk = std::get<rls::replicated_shard_interface::tickets_type>(r);
        });
    if(!shard->recover(state, tk)) {
        vf::emit(vf::js().str("ev", "crash").str("why", "recover refused"));
        _exit(3);
    }
    auto s = std::make_unique<fake_srv>();
    srv = s.get();
    server = std::make_unique<rls::rpc::server>(
        vf::logger(), shard,
        std::make_shared<rls::replicated_shard_client>(node),
        std::move(s));
}

static void reset() {
    server.reset();
    shard.reset();
    known.clear();
    committed.clear();
    wlocked.clear();
    sm = nuraft::cs_new<rls::state_machine>();
    node = std::make_shared<cbdc::raft::node>(
        0, std::vector<cbdc::network::endpoint_t>{{"h", 1}}, "vf", false, sm, 0,
        vf::logger(), [](auto, auto) { return nuraft::cb_func::ReturnCode::Ok; });
    if(!node->init(nuraft::raft_params())) {
        _exit(3);
    }
    raftsrv = nuraft::fake::last();
    start();
}

static void reply(const std::string& o, long t, const std::string& res) {
    reps.push_back("[\"" + o + "\"," + std::to_string(t) + ",\"" + res + "\"]");
    if(res == "ok") {
        if(o == "commit") {
            committed.insert(t);
        } else if(o == "rollback" || o == "finish") {
            known.erase(t);
            committed.erase(t);
            wlocked.erase(t);
        }
    }
}

static void call(const std::string& name, long t, const req_t& r) {
    srv->request(r, [name, t, e = epoch](std::optional<resp_t> p) {
        if(e != epoch) {
            return;
        }
        if(!p.has_value()) {
            reply(name, t, "failed");
            return;
        }
        if(std::holds_alternative<rls::interface::prepare_return_type>(*p)) {
            auto& x = std::get<rls::interface::prepare_return_type>(*p);
            reply(name, t, x.has_value() ? code(x->m_error_code) : "ok");
            return;
        }
        if(std::holds_alternative<rls::interface::get_tickets_return_type>(*p)) {
            auto& x = std::get<rls::interface::get_tickets_return_type>(*p);
            if(std::holds_alternative<rls::error_code>(x)) {
                reply(name, t, code(std::get<rls::error_code>(x)));
                return;
            }
        }
        reply(name, t, "other");
    });
}

static void one(vf::op o) {
    cbs.clear();
    reps.clear();
    if(o.name == "rollback" && committed.count(o.i(0)) != 0) {
        o.name = "finish";
    }
    vf::js j;
    j.str("ev", o.name);
    auto t = o.i(0);
    if(o.name == "reset") {
        reset();
        vf::emit(j);
        return;
    }
    if(o.name == "lock") {
        if(o.a.size() < 5) {
            o.a.push_back(known.count(t) != 0 ? "0" : "1");
        }
        auto k = o.i(2);
        auto w = o.a[3] == "w";
        known.insert(t);
        j.num("t", t).num("b", o.i(1)).num("k", k).str("ty", o.a[3]).num("first", o.i(4));
        srv->request(
            rls::rpc::try_lock_request{static_cast<uint64_t>(t), o.u(1), mk(k),
                                       w ? rls::lock_type::write : rls::lock_type::read,
                                       o.i(4) != 0},
            [t, k, w, e = epoch](std::optional<resp_t> p) {
                if(e != epoch) {
                    return;
                }
                if(!p.has_value()
                   || !std::holds_alternative<rls::interface::try_lock_return_type>(*p)) {
                    cbs.push_back(tup(t, k, "failed", 0, 0));
                    return;
                }
                auto& r = std::get<rls::interface::try_lock_return_type>(*p);
                if(std::holds_alternative<rls::value_type>(r)) {
                    if(w) {
                        wlocked[t].insert(k);
                    }
                    cbs.push_back(tup(t, k, "g", val(std::get<rls::value_type>(r)), 0));
                    return;
                }
                auto& er = std::get<rls::shard_error>(r);
                long a = 0;
                long b = 0;
                if(er.m_wounded_details.has_value()
                   && er.m_error_code == rls::error_code::wounded) {
                    a = static_cast<long>(er.m_wounded_details->m_wounding_ticket);
                    b = val(er.m_wounded_details->m_wounding_key);
                }
                cbs.push_back(tup(t, k, code(er.m_error_code), a, b));
            });
    } else if(o.name == "prepare") {
        rls::rpc::prepare_request r;
        r.m_ticket_number = static_cast<uint64_t>(t);
        r.m_broker_id = o.u(1);
        std::string us;
        for(size_t n = 2; n < o.a.size(); n++) {
            auto p = o.a[n].find('=');
            auto k = std::stol(o.a[n].substr(0, p));
            auto v = std::stol(o.a[n].substr(p + 1));
            r.m_state_updates[mk(k)] = mk(v);
            us += (us.empty() ? "" : ",");
            us += "[" + std::to_string(k) + "," + std::to_string(v) + "]";
        }
        j.num("t", t).num("b", o.i(1)).raw("u", "[" + us + "]");
        call("prepare", t, r);
    } else if(o.name == "commit") {
        j.num("t", t);
        call("commit", t, rls::rpc::commit_request{static_cast<uint64_t>(t)});
    } else if(o.name == "rollback") {
        j.num("t", t);
        call("rollback", t, rls::rpc::rollback_request{static_cast<uint64_t>(t)});
    } else if(o.name == "finish") {
        j.num("t", t);
        call("finish", t, rls::rpc::finish_request{static_cast<uint64_t>(t)});
    } else if(o.name == "apply") {
        j.num("any", raftsrv->m_pending.empty() ? 0 : 1);
        raftsrv->commit_next(true);
    } else if(o.name == "crash") {
        auto n = std::min(o.i(0), static_cast<long>(raftsrv->m_pending.size()));
        j.num("n", n);
        epoch++;
        for(long i = 0; i < n; i++) {
            raftsrv->commit_next(false);
        }
        raftsrv->m_pending.clear();
        server.reset();
        shard.reset();
        start();
        known.clear();
        wlocked.clear();
    } else if(o.name == "tickets") {
        j.num("t", t);
        std::vector<std::string> l;
        srv->request(rls::rpc::get_tickets_request{o.u(0)}, [&](std::optional<resp_t> p) {
            if(!p.has_value()
               || !std::holds_alternative<rls::interface::get_tickets_return_type>(*p)) {
                l.push_back("[0,\"failed\"]");
                return;
            }
            auto& r = std::get<rls::interface::get_tickets_return_type>(*p);
            for(auto& [tn, st] : std::get<rls::interface::get_tickets_success_type>(r)) {
                const char* n = st == rls::ticket_state::begun    ? "begun"
                              : st == rls::ticket_state::wounded  ? "wounded"
                              : st == rls::ticket_state::prepared ? "prepared"
                                                                  : "committed";
                if(st == rls::ticket_state::committed) {
                    committed.insert(static_cast<long>(tn));
                }
                known.insert(static_cast<long>(tn));
                l.push_back("[" + std::to_string(tn) + ",\"" + n + "\"]");
            }
        });
        j.list("tks", l);
    }
    j.list("reps", reps);
    j.list("cbs", cbs);
    vf::emit(j);
}

int main(int argc, char** argv) {
    return vf::run(argc, argv, [](const vf::op& o) {
        if(o.name == "prep") {
            vf::op p{"prepare", {o.a[0], o.a[1]}};
            for(auto k : wlocked[o.i(0)]) {
                if(((o.u(2) >> k) & 1U) != 0) {
                    p.a.push_back(std::to_string(k) + "="
                                  + std::to_string((o.i(0) * 10 + k) % 5 == 0 ? 0 : o.i(0) * 10 + k));
                }
            }
            one(p);
        } else if(o.name == "end") {
            // finish what is known to be committed, roll back the rest, only
            // when nothing is pending
            while(!raftsrv->m_pending.empty()) {
                one({"apply", {}});
            }
            one({committed.count(o.i(0)) != 0 ? "finish" : "rollback", {o.a[0]}});
            one({"apply", {}});
        } else if(o.name == "crash") {
            one(o);
            for(long b = 1; b <= 3; b++) {
                one({"tickets", {std::to_string(b)}});
            }
        } else if(o.name == "drain") {
            // settle, fail over, look at everything that was left
            while(!raftsrv->m_pending.empty()) {
                one({"apply", {}});
            }
            one({"crash", {"0"}});
            for(long b = 1; b <= 3; b++) {
                one({"tickets", {std::to_string(b)}});
            }
            for(long k = 1; k <= o.i(0); k++) {
                one({"lock", {o.a[1], "1", std::to_string(k), "r"}});
            }
            auto ts = known;
            for(auto t : ts) {
                one({committed.count(t) != 0 ? "finish" : "rollback", {std::to_string(t)}});
                one({"apply", {}});
            }
            for(long k = 1; k <= o.i(0); k++) {
                one({"lock", {"1", "1", std::to_string(k), "r"}});
            }
            for(long b = 1; b <= 3; b++) {
                one({"tickets", {std::to_string(b)}});
            }
        } else {
            one(o);
        }
    });
}
