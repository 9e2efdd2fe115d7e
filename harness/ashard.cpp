// Conformance driver: the atomizer's shards (bare and behind their controller)
// and the archiver.
#include "ids.hpp"
#include "ldb.hpp"
#include "threads.hpp"
#include "uhs/atomizer/archiver/controller.hpp"
#include "uhs/atomizer/atomizer/atomizer_raft.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/shard/controller.hpp"
#include "uhs/atomizer/shard/shard.hpp"
#include "uhs/transaction/messages.hpp"
#include "util/common/keys.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"
#include <filesystem>
#include <secp256k1.h>

namespace wt = cbdc::watchtower;
namespace net = cbdc::network;
namespace at = cbdc::atomizer;

extern "C" int clock_nanosleep(clockid_t, int, const timespec*, timespec*) {
    return 0;
}
extern "C" int nanosleep(const timespec*, timespec*) {
    return 0;
}

// ---- gates for concurrent calls on a bare shard
struct worker {
    std::thread th;
    bool waiting{false}, go{false}, done{false};
    vf::js result;
    long id{};
};
static std::mutex gm;
static std::condition_variable gcv;
static std::map<long, std::unique_ptr<worker>> workers;
static thread_local worker* self = nullptr;
static void at_gate(const char*) {
    if(self == nullptr) {
        return;
    }
    std::unique_lock<std::mutex> l(gm);
    self->waiting = true;
    gcv.wait(l, [] { return self->go; });
    self->go = false;
    self->waiting = false;
}
static void report() {
    for(auto it = workers.begin(); it != workers.end();) {
        std::unique_lock<std::mutex> l(gm);
        if(it->second->done) {
            it->second->th.join();
            vf::emit(it->second->result);
            it = workers.erase(it);
        } else {
            ++it;
        }
    }
}
static void step(long id) {
    {
        std::unique_lock<std::mutex> l(gm);
        auto it = workers.find(id);
        if(it == workers.end() || !it->second->waiting) {
            return;
        }
        it->second->go = true;
        gcv.notify_all();
    }
    vf::quiesce();
    report();
}
static void finish_all() {
    while(!workers.empty()) {
        std::vector<long> ids;
        for(auto& w : workers) {
            ids.push_back(w.first);
        }
        for(auto i : ids) {
            step(i);
        }
    }
}

// ---- the world
static std::string mode, dir;
static long dirs{0};
static long lo{0}, hi{255};
static std::unique_ptr<cbdc::shard::shard> sh;
static std::unique_ptr<cbdc::shard::controller> ctl;
static std::unique_ptr<cbdc::archiver::controller> ar;
static std::vector<std::vector<long long>> chain;
static long archived{0}, fails{0};
static std::vector<long long> asked;
static std::mutex sent_m;
static std::vector<std::string> sent;
static cbdc::config::options opts;
static std::unique_ptr<secp256k1_context, void (*)(secp256k1_context*)> secp{secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY), &secp256k1_context_destroy};
static cbdc::privkey_t key{};

static std::string result_js(const std::variant<at::tx_notify_request, wt::tx_error>& r) {
    vf::js j;
    if(std::holds_alternative<at::tx_notify_request>(r)) {
        auto& n = std::get<at::tx_notify_request>(r);
        std::vector<long long> a(n.m_attestations.begin(), n.m_attestations.end());
        auto t = num(n.m_tx.m_id, 2);
        auto same = mktx(t).m_inputs == n.m_tx.m_inputs && mktx(t).m_uhs_outputs == n.m_tx.m_uhs_outputs;
        j.num("t", same ? t : -1).str("k", "ok").num("h", static_cast<long>(n.m_block_height)).nums("at", a);
    } else {
        auto& e = std::get<wt::tx_error>(r);
        std::vector<long long> a;
        std::string k = "other";
        auto info = e.info();
        if(std::holds_alternative<wt::tx_error_sync>(info)) {
            k = "sync";
        } else if(std::holds_alternative<wt::tx_error_inputs_dne>(info)) {
            k = "dne";
            for(auto& h : std::get<wt::tx_error_inputs_dne>(info).input_uhs_ids()) {
                a.push_back(num(h, 1));
            }
        }
        j.num("t", num(e.tx_id(), 2)).str("k", k).num("h", 0).nums("at", a);
    }
    return j.done();
}
static std::optional<cbdc::buffer> archive(const net::endpoint_t&, const cbdc::buffer& pkt) {
    auto b = pkt;
    auto h = cbdc::from_buffer<uint64_t>(b);
    asked.push_back(h.has_value() ? static_cast<long long>(h.value()) : -1);
    if(asked.size() > 400) {
        vf::emit(vf::js().str("ev", "stall"));
        _exit(5);
    }
    std::optional<at::block> r;
    if(fails > 0) {
        fails--;
        if(fails % 2 == 1) {
            return std::nullopt;
        }
    } else if(h.has_value() && h.value() >= 1 && static_cast<long>(h.value()) <= archived) {
        r = mkblk(h.value(), chain[h.value() - 1]);
    } else if(archived < static_cast<long>(chain.size())) {
        archived++;
    }
    return cbdc::make_buffer(r);
}
static net::connection_manager* find(unsigned short port) {
    for(auto* c : net::connection_manager::all()) {
        if((c->m_listen.has_value() && c->m_listen->second == port)
           || (!c->m_listen.has_value() && !c->m_eps.empty() && c->m_eps[0].second == port)) {
            return c;
        }
    }
    return nullptr;
}
static std::optional<cbdc::buffer> deliver(unsigned short port, const cbdc::buffer& b) {
    return find(port)->m_handler(net::message_t{std::make_shared<cbdc::buffer>(b), 7});
}
static bool on_send(net::connection_manager& c, net::connection_manager::kind, const std::shared_ptr<cbdc::buffer>& b, net::peer_id_t) {
    std::unique_lock<std::mutex> l(sent_m);
    if(vf::ldb::dead()) {
        return true;
    }
    auto port = c.m_eps.empty() ? 0 : c.m_eps[0].second;
    if(port == 4) {
        auto r = cbdc::from_buffer<at::request>(*b);
        if(!r.has_value()) {
            sent.push_back(vf::js().num("t", -1).str("k", "junk").num("h", 0).nums("at", {}).done());
        } else if(std::holds_alternative<at::tx_notify_request>(r.value())) {
            sent.push_back(result_js(std::get<at::tx_notify_request>(r.value())));
        } else if(std::holds_alternative<at::prune_request>(r.value())) {
            sent.push_back(vf::js().str("k", "prune").num("h", static_cast<long>(std::get<at::prune_request>(r.value()).m_block_height)).done());
        } else {
            sent.push_back(vf::js().str("k", "get").num("h", static_cast<long>(std::get<at::get_block_request>(r.value()).m_block_height)).done());
        }
    } else {
        auto v = cbdc::from_buffer<std::vector<wt::tx_error>>(*b);
        for(auto& e : v.value()) {
            sent.push_back(result_js(e));
        }
    }
    return true;
}
static void open_it() {
    if(mode == "sh") {
        sh = std::make_unique<cbdc::shard::shard>(cbdc::config::shard_range_t{lo, hi});
        if(sh->open_db(dir).has_value()) {
            vf::emit(vf::js().str("ev", "open-failed"));
        }
    } else if(mode == "shc") {
        opts.m_shard_ranges = {{lo, hi}};
        opts.m_shard_db_dirs = {dir};
        ctl = std::make_unique<cbdc::shard::controller>(0, opts, vf::logger());
        if(!ctl->init()) {
            vf::emit(vf::js().str("ev", "open-failed"));
        }
    } else {
        opts.m_archiver_db_dirs = {dir};
        ar = std::make_unique<cbdc::archiver::controller>(0, opts, vf::logger(), 0);
        if(!ar->init()) {
            vf::emit(vf::js().str("ev", "open-failed"));
        }
    }
}
static void close_it() {
    finish_all();
    sh.reset();
    ctl.reset();
    ar.reset();
}
static void new_dir() {
    if(!dir.empty()) {
        std::filesystem::remove_all(dir);
    }
    dir = "db" + std::to_string(dirs++);
}

int main(int argc, char** argv) {
    key[31] = 3;
    net::tcp_socket::answer() = archive;
    net::connection_manager::hook() = on_send;
    vf::ldb::gate() = at_gate;
    opts.m_archiver_endpoints = {{"a", 1}};
    opts.m_watchtower_internal_endpoints = {{"w", 2}};
    opts.m_shard_endpoints = {{"s", 3}};
    opts.m_atomizer_endpoints = {{"z", 4}};
    opts.m_attestation_threshold = 1;
    opts.m_sentinel_public_keys = {cbdc::pubkey_from_privkey(key, secp.get())};
    return vf::run(argc, argv, [](const vf::op& o) {
        if(o.name == "reset") {
            // reset sh|shc|ar lo hi
            close_it();
            vf::ldb::left() = -1;
            defs.clear();
            chain.clear();
            archived = fails = 0;
            new_dir();
            mode = o.a[0];
            lo = o.i(1);
            hi = o.i(2);
            vf::emit(vf::js().str("ev", "reset").str("mode", mode).num("lo", lo).num("hi", hi));
            open_it();
        } else if(o.name == "def") {
            defs[o.i(0)] = def{nums(o.a[1]), nums(o.a[2])};
        } else if(o.name == "mk") {
            auto t = nums(o.a[0]);
            chain.push_back(t);
            vf::emit(vf::js().str("ev", "mk").num("h", static_cast<long>(chain.size())).raw("txs", txs_js(t)));
        } else if(o.name == "restart") {
            close_it();
            open_it();
            vf::emit(vf::js().str("ev", "restart").num("best", static_cast<long>(ar ? ar->best_block_height() : sh ? sh->best_block_height() : 0)));
        }
        // ---- bare shard
        else if(o.name == "startblk" || o.name == "starttx") {
            // startblk id height / starttx id tx
            if(workers.count(o.i(0)) != 0U || (o.name == "startblk" && (o.i(1) < 1 || o.i(1) > static_cast<long>(chain.size())))) {
                return;
            }
            auto id = o.i(0);
            auto arg = o.i(1);
            auto isblk = o.name == "startblk";
            if(isblk) {
                // blocks are digested by one thread
                for(auto& w : workers) {
                    if(w.second->id < 0) {
                        return;
                    }
                }
            }
            auto w = std::make_unique<worker>();
            w->id = isblk ? -1 : id;
            auto* p = w.get();
            vf::emit(vf::js().str("ev", "start").num("id", id).num("blk", isblk ? arg : 0));
            w->th = std::thread([p, id, arg, isblk] {
                self = p;
                at_gate("start");
                vf::js j;
                if(isblk) {
                    auto ok = sh->digest_block(mkblk(static_cast<uint64_t>(arg), chain[static_cast<size_t>(arg - 1)]));
                    j.str("ev", "endblk").num("id", id).num("h", arg).num("ok", ok ? 1 : 0).num("best", static_cast<long>(sh->best_block_height()));
                } else {
                    auto r = sh->digest_transaction(mktx(arg));
                    j.str("ev", "endtx").num("id", id).raw("ins", arr(defs[arg].ins)).num("tx", arg).raw("r", result_js(r));
                }
                std::unique_lock<std::mutex> l(gm);
                p->result = j;
                p->done = true;
            });
            workers[id] = std::move(w);
            vf::quiesce();
        } else if(o.name == "step") {
            step(o.i(0));
        } else if(o.name == "finish") {
            finish_all();
        } else if(o.name == "crashblk") {
            // crashblk height n k: only the first n mutations of the digestion reach
            // the disk; k >= 0: and of those that were not synced only k
            if(o.i(0) < 1 || o.i(0) > static_cast<long>(chain.size())) {
                return;
            }
            finish_all();
            vf::ldb::left() = o.i(1);
            asked.clear();
            sent.clear();
            auto blk = mkblk(o.u(0), chain[o.u(0) - 1]);
            if(sh) {
                sh->digest_block(blk);
            } else {
                archived = static_cast<long>(chain.size());
                deliver(4, cbdc::make_buffer(blk));
            }
            if(o.i(2) >= 0) {
                for(auto* p : vf::ldb::open()) {
                    p->power_failure(o.u(2));
                }
            }
            auto before = sent;
            close_it();
            vf::ldb::left() = -1;
            vf::ldb::dead() = false;
            open_it();
            sent.clear();
            vf::emit(vf::js().str("ev", "crashblk").list("sent", before).num("power", o.i(2) >= 0 ? 1 : 0).num("h", o.i(0)).num("best", static_cast<long>(ar ? ar->best_block_height() : sh ? sh->best_block_height() : -1)));
        }
        // ---- shard controller
        else if(o.name == "pkt") {
            // pkt H A F
            if(o.i(0) < 1 || o.i(0) > static_cast<long>(chain.size())) {
                return;
            }
            archived = std::max(archived, std::min(o.i(1), static_cast<long>(chain.size())));
            fails = o.i(2);
            asked.clear();
            sent.clear();
            deliver(4, cbdc::make_buffer(mkblk(o.u(0), chain[o.u(0) - 1])));
            vf::emit(vf::js().str("ev", "pkt").num("h", o.i(0)).nums("asked", asked).list("sent", sent).num("best", static_cast<long>(ar ? ar->best_block_height() : 0)));
        } else if(o.name == "junk") {
            auto b = cbdc::buffer();
            auto x = static_cast<unsigned char>(o.i(0));
            for(long i = 0; i < o.i(0) % 12; i++) {
                b.append(&x, 1);
            }
            sent.clear();
            deliver(static_cast<unsigned short>(o.i(1) != 0 ? 4 : mode == "ar" ? 1 : 3), b);
            if(mode == "shc") {
                vf::quiesce();
            }
            vf::emit(vf::js().str("ev", "junk").list("sent", sent).num("best", static_cast<long>(ar ? ar->best_block_height() : 0)));
        } else if(o.name == "req") {
            // req t att...: 1 valid, 0 none, 2 wrong key, 3 wrong message
            sent.clear();
            std::vector<std::string> ts;
            for(size_t i = 0; i + 1 < o.a.size(); i += 2) {
                auto t = o.i(i);
                auto a = o.i(i + 1);
                auto tx = mktx(t);
                if(a == 1) {
                    tx.m_attestations.insert(tx.sign(secp.get(), key));
                } else if(a == 2) {
                    auto k = key;
                    k[31] = 9;
                    tx.m_attestations.insert(tx.sign(secp.get(), k));
                } else if(a == 3) {
                    auto other = mktx(t);
                    other.m_uhs_outputs.push_back(uid(99));
                    tx.m_attestations.insert(other.sign(secp.get(), key));
                }
                ts.push_back(vf::js().num("t", t).num("valid", a == 1 ? 1 : 0).raw("ins", arr(defs[t].ins)).done());
                deliver(3, cbdc::make_buffer(tx));
            }
            vf::quiesce();
            vf::emit(vf::js().str("ev", "req").list("ts", ts).list("sent", sent));
        }
        // ---- archiver
        else if(o.name == "get") {
            auto b = deliver(1, cbdc::make_buffer(o.u(0)));
            auto r = cbdc::from_buffer<std::optional<at::block>>(b.value());
            long h = -1;
            bool same = false;
            if(r.has_value() && !r.value().has_value()) {
                h = 0;
            } else if(r.has_value()) {
                h = static_cast<long>(r.value()->m_height);
                same = h >= 1 && h <= static_cast<long>(chain.size()) && r.value().value() == mkblk(static_cast<uint64_t>(h), chain[static_cast<size_t>(h - 1)]);
            }
            vf::emit(vf::js().str("ev", "get").num("h", o.i(0)).num("got", h).num("same", same ? 1 : 0));
        }
    });
}
