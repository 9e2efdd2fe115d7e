// Conformance driver: the atomizer, its aggregation of attestations, and the
// replicated state machine on several replicas with snapshots and restarts.
#include "common.hpp"
#include "uhs/atomizer/atomizer/atomizer.hpp"
#include "uhs/atomizer/atomizer/atomizer_raft.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "util/raft/serialization.hpp"
#include "util/raft/util.hpp"
#include "util/serialization/buffer_serializer.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"
#include <filesystem>
#include <fstream>
#include <map>
#include <unistd.h>

namespace at = cbdc::atomizer;
namespace wt = cbdc::watchtower;
using cbdc::hash_t;

static hash_t uid(long x) {
    hash_t h{};
    h[0] = static_cast<unsigned char>(x);
    std::memcpy(h.data() + 1, &x, sizeof(x));
    h[20] = 1;
    return h;
}
static hash_t tid(long x) {
    auto h = uid(x);
    h[20] = 2;
    return h;
}
static long num(const hash_t& h, unsigned char what) {
    long x{};
    std::memcpy(&x, h.data() + 1, sizeof(x));
    return (what == 1 ? uid(x) : tid(x)) == h ? x : -1;
}
struct def {
    std::vector<long long> ins, outs;
};
static std::map<long, def> defs;
static std::vector<long long> nums(const std::string& s) {
    std::vector<long long> r;
    std::istringstream ss(s);
    std::string t;
    while(std::getline(ss, t, ',')) {
        if(t != "-" && !t.empty()) {
            r.push_back(std::stol(t));
        }
    }
    return r;
}
static cbdc::transaction::compact_tx mktx(long t) {
    cbdc::transaction::compact_tx x;
    x.m_id = tid(t);
    for(auto i : defs[t].ins) {
        x.m_inputs.push_back(uid(i));
    }
    for(auto i : defs[t].outs) {
        x.m_uhs_outputs.push_back(uid(i));
    }
    return x;
}
static long txnum(const cbdc::transaction::compact_tx& x) {
    auto t = num(x.m_id, 2);
    if(defs.find(t) == defs.end()) {
        return -1;
    }
    auto w = mktx(t);
    return w.m_inputs == x.m_inputs && w.m_uhs_outputs == x.m_uhs_outputs ? t : -2;
}
static std::string err_js(const std::optional<wt::tx_error>& e) {
    if(!e.has_value()) {
        return vf::js().num("t", 0).str("k", "none").raw("es", "[]").done();
    }
    std::string k = "other";
    std::vector<long long> es;
    auto info = e->info();
    if(std::holds_alternative<wt::tx_error_stxo_range>(info)) {
        k = "range";
    } else if(std::holds_alternative<wt::tx_error_incomplete>(info)) {
        k = "incomplete";
    } else if(std::holds_alternative<wt::tx_error_inputs_spent>(info)) {
        k = "spent";
        for(auto& h : std::get<wt::tx_error_inputs_spent>(info).input_uhs_ids()) {
            es.push_back(num(h, 1));
        }
        std::sort(es.begin(), es.end());
    }
    return vf::js().num("t", num(e->tx_id(), 2)).str("k", k.c_str()).nums("es", es).done();
}
static std::string lst(const std::vector<std::string>& v) {
    std::string s = "[";
    for(size_t i = 0; i < v.size(); i++) {
        s += (i ? "," : "") + v[i];
    }
    return s + "]";
}
static std::vector<long long> blk_txs(const at::block& b) {
    std::vector<long long> r;
    for(auto& t : b.m_transactions) {
        r.push_back(txnum(t));
    }
    return r;
}

// ---- bare atomizer
static std::unique_ptr<at::atomizer> atm;
static size_t depth = 0;

static void inserted(vf::js& j, const std::optional<wt::tx_error>& e) {
    vf::emit(j.raw("err", err_js(e)).num("n", static_cast<long>(atm->pending_transactions())).num("h2", static_cast<long>(atm->height())));
}

// ---- replicas
struct rep {
    std::string dir;
    nuraft::ptr<nuraft::state_machine> sm;
};
static std::unique_ptr<at::atomizer_raft> ar;
static nuraft::ptr<nuraft::raft_server> srv;
static std::vector<rep> reps;
static std::vector<nuraft::ptr<nuraft::buffer>> clog;

static nuraft::ptr<nuraft::buffer> apply(rep& r) {
    auto i = r.sm->last_commit_index();
    auto b = nuraft::buffer::clone(*clog[i]);
    b->pos(0);
    auto v = r.sm->commit(i + 1, *b);
    if(v) {
        v->pos(0);
    }
    return v;
}
static void catch_up(rep& r) {
    while(r.sm->last_commit_index() < clog.size()) {
        apply(r);
    }
}
static void make_leader() {
    cbdc::config::options o;
    o.m_attestation_threshold = 0;
    ar.reset();
    srv.reset();
    ar = std::make_unique<at::atomizer_raft>(
        0U,
        std::vector<cbdc::network::endpoint_t>{{"a", 1}},
        depth,
        vf::logger(),
        o,
        [](nuraft::cb_func::Type, nuraft::cb_func::Param*) { return nuraft::cb_func::ReturnCode::Ok; });
    if(!ar->init(nuraft::raft_params())) {
        _exit(3);
    }
    srv = nuraft::fake::last();
    reps[0].sm = srv->m_sm;
}
// The command appended last, on all replicas: their answers.
static std::vector<std::optional<at::state_machine::response>> all() {
    std::vector<std::optional<at::state_machine::response>> r;
    while(!srv->m_pending.empty()) {
        clog.push_back(srv->m_pending.front().m_buf);
        srv->m_pending.pop_front();
        r.clear();
        for(auto& x : reps) {
            auto v = apply(x);
            if(!v) {
                r.emplace_back(std::nullopt);
            } else {
                r.emplace_back(cbdc::from_buffer<at::state_machine::response>(*v));
            }
        }
    }
    return r;
}

int main(int argc, char** argv) {
    atexit([]() { _exit(4); });
    return vf::run(argc, argv, [](const vf::op& o) {
        if(o.name == "reset") {
            ar.reset();
            srv.reset();
            nuraft::fake::last().reset();
            atm.reset();
            reps.clear();
            clog.clear();
            defs.clear();
            depth = o.u(1);
            auto h = o.u(2);
            std::error_code ec;
            for(auto d : {"atomizer_snps_0", "atomizer_raft_log_0", "rep1", "rep2"}) {
                std::filesystem::remove_all(d, ec);
            }
            for(auto& p : std::filesystem::directory_iterator(".", ec)) {
                auto n = p.path().filename().string();
                if(n.rfind("atomizer", 0) == 0) {
                    std::filesystem::remove_all(p.path(), ec);
                }
            }
            if(o.a[0] == "raw") {
                atm = std::make_unique<at::atomizer>(h, depth);
            } else {
                h = 0;
                reps.resize(3);
                reps[0].dir = "atomizer_snps_0";
                make_leader();
                for(size_t i = 1; i < 3; i++) {
                    reps[i].dir = "rep" + std::to_string(i);
                    reps[i].sm = nuraft::cs_new<at::state_machine>(depth, reps[i].dir);
                }
            }
            vf::emit(vf::js().str("ev", "reset").num("D", static_cast<long>(depth)).num("h", static_cast<long>(h)));
        } else if(o.name == "def") {
            defs[o.i(0)] = {nums(o.a[1]), nums(o.a[2])};
        } else if(o.name == "ins") {
            auto atts = nums(o.a[2]);
            vf::js j;
            j.str("ev", "ins").num("t", o.i(0)).nums("ins", defs[o.i(0)].ins).num("h", o.i(1)).nums("atts", atts);
            inserted(j, atm->insert(o.u(1), mktx(o.i(0)), std::unordered_set<uint32_t>(atts.begin(), atts.end())));
        } else if(o.name == "insc") {
            vf::js j;
            j.str("ev", "insc").num("t", o.i(0)).nums("ins", defs[o.i(0)].ins).num("h", o.i(1));
            inserted(j, atm->insert_complete(o.u(1), mktx(o.i(0))));
        } else if(o.name == "block" && atm) {
            auto [b, errs] = atm->make_block();
            std::vector<long long> inc;
            long other = 0;
            for(auto& e : errs) {
                if(std::holds_alternative<wt::tx_error_incomplete>(e.info())) {
                    inc.push_back(num(e.tx_id(), 2));
                } else {
                    other++;
                }
            }
            vf::emit(vf::js().str("ev", "blk").num("h", static_cast<long>(b.m_height)).nums("txs", blk_txs(b)).nums("inc", inc).num("other", other));
        } else if(o.name == "ser") {
            auto b = atm->serialize();
            auto n = std::make_unique<at::atomizer>(o.u(0), o.u(1));
            auto d = cbdc::buffer_serializer(b);
            n->deserialize(d);
            bool eq = *n == *atm;
            atm = std::move(n);
            vf::emit(vf::js().str("ev", "ser").num("eq", eq ? 1 : 0));
        } else if(o.name == "not") {
            auto atts = nums(o.a[2]);
            at::tx_notify_request r;
            r.m_tx = mktx(o.i(0));
            r.m_block_height = o.u(1);
            r.m_attestations.insert(atts.begin(), atts.end());
            ar->tx_notify(std::move(r));
            vf::emit(vf::js().str("ev", "notify").num("t", o.i(0)).nums("ins", defs[o.i(0)].ins).num("h", o.i(1)).nums("atts", atts));
        } else if(o.name == "flush") {
            (void)ar->send_complete_txs(nullptr);
            std::vector<std::string> sent;
            for(auto& e : srv->m_pending) {
                auto b = nuraft::buffer::clone(*e.m_buf);
                b->pos(0);
                auto q = cbdc::from_buffer<at::state_machine::request>(*b);
                if(q.has_value() && std::holds_alternative<at::aggregate_tx_notify_request>(*q)) {
                    for(auto& x : std::get<at::aggregate_tx_notify_request>(*q).m_agg_txs) {
                        sent.push_back("[" + std::to_string(txnum(x.m_tx)) + "," + std::to_string(x.m_oldest_attestation) + "]");
                    }
                }
            }
            std::vector<std::string> rs;
            for(auto& r : all()) {
                std::vector<std::string> es;
                if(r.has_value()) {
                    if(std::holds_alternative<at::errors>(*r)) {
                        for(auto& e : std::get<at::errors>(*r)) {
                            es.push_back(err_js(e));
                        }
                    } else {
                        es.push_back(vf::js().num("t", 0).str("k", "garbled").raw("es", "[]").done());
                    }
                }
                rs.push_back(lst(es));
            }
            vf::emit(vf::js().str("ev", "flush").raw("sent", lst(sent)).raw("rs", lst(rs)));
        } else if(o.name == "block") {
            ar->make_request(at::make_block_request(), nullptr);
            std::vector<std::string> rs;
            for(auto& r : all()) {
                if(r.has_value() && std::holds_alternative<at::make_block_response>(*r)) {
                    auto& b = std::get<at::make_block_response>(*r).m_blk;
                    rs.push_back(vf::js().num("h", static_cast<long>(b.m_height)).nums("txs", blk_txs(b)).done());
                } else {
                    rs.push_back(vf::js().num("h", -1).raw("txs", "[]").done());
                }
            }
            vf::emit(vf::js().str("ev", "block").raw("rs", lst(rs)));
        } else if(o.name == "get") {
            at::get_block_request q;
            q.m_block_height = o.u(0);
            ar->make_request(q, nullptr);
            std::vector<std::string> rs;
            for(auto& r : all()) {
                if(r.has_value() && std::holds_alternative<at::get_block_response>(*r)) {
                    auto& b = std::get<at::get_block_response>(*r).m_blk;
                    rs.push_back(vf::js().num("ok", 1).num("h", static_cast<long>(b.m_height)).nums("txs", blk_txs(b)).done());
                } else {
                    rs.push_back(vf::js().num("ok", r.has_value() ? -1 : 0).num("h", 0).raw("txs", "[]").done());
                }
            }
            vf::emit(vf::js().str("ev", "get").num("h", o.i(0)).raw("rs", lst(rs)));
        } else if(o.name == "prune") {
            at::prune_request q;
            q.m_block_height = o.u(0);
            ar->make_request(q, nullptr);
            all();
            vf::emit(vf::js().str("ev", "prune").num("h", o.i(0)));
        } else if(o.name == "snap") {
            auto& r = reps[o.u(0)];
            if(clog.empty()) {
                return;
            }
            nuraft::snapshot s(r.sm->last_commit_index(), 1);
            long ok = 0;
            nuraft::async_result<bool>::handler_type done = [&](bool& x, nuraft::ptr<std::exception>&) { ok = x ? 1 : 0; };
            r.sm->create_snapshot(s, done);
            vf::emit(vf::js().str("ev", "snap").num("r", o.i(0)).num("ok", ok));
        } else if(o.name == "restart") {
            auto& r = reps[o.u(0)];
            // a snapshot file that was being written is left behind
            if(o.a.size() > 1 && o.a[1] == "1") {
                std::ofstream(r.dir + "/tmp") << "partial";
            }
            r.sm.reset();
            if(o.u(0) == 0) {
                make_leader();
            } else {
                r.sm = nuraft::cs_new<at::state_machine>(depth, r.dir);
            }
            auto idx = static_cast<long>(r.sm->last_commit_index());
            auto snp = r.sm->last_snapshot();
            catch_up(r);
            vf::emit(vf::js().str("ev", "restart").num("r", o.i(0)).num("idx", idx).num("last", snp ? static_cast<long>(snp->get_last_log_idx()) : 0));
        } else if(o.name == "install") {
            // a snapshot is sent to a replica that starts without any state
            auto& f = reps[o.u(0)];
            auto snp = f.sm->last_snapshot();
            if(o.u(0) == o.u(1) || o.u(1) == 0 || !snp) {
                return;
            }
            auto& t = reps[o.u(1)];
            t.sm.reset();
            if(o.u(2) != 0) {
                std::error_code ec;
                std::filesystem::remove_all(t.dir, ec);
            }
            t.sm = nuraft::cs_new<at::state_machine>(depth, t.dir);
            if(t.sm->last_commit_index() >= snp->get_last_log_idx()) {
                // it needs no snapshot after all
                auto idx = static_cast<long>(t.sm->last_commit_index());
                catch_up(t);
                vf::emit(vf::js().str("ev", "restart").num("r", o.i(1)).num("idx", idx).num("last", idx));
                return;
            }
            long ok = 1;
            void* ctx = nullptr;
            nuraft::ulong obj = 0;
            bool last = false;
            bool first = true;
            while(!last) {
                nuraft::ptr<nuraft::buffer> b;
                if(f.sm->read_logical_snp_obj(*snp, ctx, obj, b, last) < 0 || !b) {
                    ok = 0;
                    break;
                }
                b->pos(0);
                t.sm->save_logical_snp_obj(*snp, obj, *b, first, last);
                first = false;
            }
            if(ok == 1 && !t.sm->apply_snapshot(*snp)) {
                ok = 0;
            }
            auto idx = static_cast<long>(t.sm->last_commit_index());
            catch_up(t);
            vf::emit(vf::js().str("ev", "install").num("from", o.i(0)).num("to", o.i(1)).num("ok", ok).num("idx", idx));
        }
    });
}
