// Conformance driver: a real sentinel (of either architecture) with its real
// server and clients on a network that is the driver.
#include "common.hpp"
#include "threads.hpp"
#include "crypto/sha256.h"
#ifdef ATOM
#include "uhs/atomizer/sentinel/controller.hpp"
#else
#include "uhs/twophase/sentinel_2pc/controller.hpp"
#endif
#include "uhs/sentinel/format.hpp"
#include "uhs/transaction/messages.hpp"
#include "uhs/transaction/validation.hpp"
#include "util/rpc/format.hpp"
#include "util/serialization/format.hpp"
#include <deque>
#include <map>
#include <set>
using namespace vf;
using namespace cbdc;
namespace tr = cbdc::transaction;
namespace va = cbdc::transaction::validation;
using net = network::connection_manager;
#ifdef ATOM
using ctl_t = sentinel::controller;
#else
using ctl_t = sentinel_2pc::controller;
#endif
using sreq = rpc::request<sentinel::request>;
using sresp = rpc::response<sentinel::response>;
using creq = rpc::request<tr::compact_tx>;
using cresp = rpc::response<bool>;

// The sentinel's random choices are a function of the script.
static unsigned seed = 1;
std::random_device::result_type std::random_device::_M_getval() {
    seed = seed * 1103515245 + 12345;
    return seed;
}

static secp256k1_context* ctx
    = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY);
static hash_t sha(const std::string& x) {
    CSHA256 s;
    hash_t h;
    s.Write(reinterpret_cast<const unsigned char*>(x.data()), x.size());
    s.Finalize(h.data());
    return h;
}
static privkey_t priv(long k) {
    privkey_t p{};
    p[31] = static_cast<unsigned char>(k + 1);
    p[5] = 7;
    return p;
}
static pubkey_t pub(long k) {
    return pubkey_from_privkey(priv(k), ctx);
}
static tr::full_tx mk(long n, const std::string& kind, long nin) {
    tr::full_tx t;
    for(long i = 0; i < nin; i++) {
        tr::input q;
        q.m_prevout.m_tx_id = sha(std::to_string(n) + ":" + std::to_string(i));
        q.m_prevout.m_index = static_cast<uint64_t>(i);
        q.m_prevout_data = tr::output(va::get_p2pk_witness_commitment(pub(50 + i % 3)), 10);
        t.m_inputs.push_back(q);
    }
    if(kind == "duplicate") {
        t.m_inputs.back().m_prevout = t.m_inputs.front().m_prevout;
    }
    if(kind != "no_outputs") {
        t.m_outputs.emplace_back(va::get_p2pk_witness_commitment(pub(60)), static_cast<uint64_t>(nin) * 10 - (kind == "asymmetric_values" ? 1 : 0));
    }
    auto m = tr::tx_id(t);
    for(long i = 0; i < nin; i++) {
        auto k = 50 + i % 3;
        secp256k1_keypair kp;
        signature_t s{};
        auto p = priv(k);
        (void)secp256k1_keypair_create(ctx, &kp, p.data());
        if(kind == "invalid_signature" && i == nin - 1) {
            m[3] ^= 1;
        }
        secp256k1_schnorrsig_sign(ctx, s.data(), m.data(), &kp, nullptr, nullptr);
        witness_t w(97);
        auto x = pub(k);
        std::memcpy(&w[1], x.data(), 32);
        std::memcpy(&w[33], s.data(), 64);
        t.m_witness.push_back(w);
    }
    if(kind == "missing_witness") {
        t.m_witness.pop_back();
    }
    return t;
}
static std::string errname(const va::tx_error& e) {
    static const char* tn[] = {"no_inputs", "no_outputs", "missing_witness", "asymmetric_values", "value_overflow"};
    static const char* wn[] = {"missing_witness_program_type", "unknown_witness_program_type", "malformed", "program_mismatch", "invalid_public_key", "invalid_signature"};
    if(auto* x = std::get_if<va::tx_error_code>(&e)) {
        return tn[static_cast<int>(*x)];
    }
    if(auto* x = std::get_if<va::input_error>(&e)) {
        return x->m_code == va::input_error_code::duplicate ? "duplicate" : "zero_input";
    }
    if(std::holds_alternative<va::output_error>(e)) {
        return "zero_output";
    }
    return wn[static_cast<int>(std::get<va::witness_error>(e).m_code)];
}

static std::mutex mut;
static std::map<long, tr::full_tx> txs;
static long self, n_sent;
static std::set<long> down, sdown;
static int cdown;
static std::vector<std::pair<int, int>> ranges;
struct pend {
    net* cm;
    uint64_t id;
    long peer;
    long q;
};
static long nq;
static std::map<long, std::deque<pend>> asks, coords;
static std::unique_ptr<ctl_t> ctl;

static std::string boolean(bool b) {
    return b ? "true" : "false";
}
static long find(const tr::full_tx& t) {
    for(auto& [n, x] : txs) {
        if(x == t) {
            return n;
        }
    }
    return -1;
}
static std::string compact(const tr::compact_tx& c, long& tx) {
    tx = -1;
    for(auto& [n, x] : txs) {
        auto y = tr::compact_tx(x);
        if(y.m_id == c.m_id && y.m_inputs == c.m_inputs && y.m_uhs_outputs == c.m_uhs_outputs) {
            tx = n;
        }
    }
    std::vector<std::string> as;
    for(auto& [k, s] : c.m_attestations) {
        long who = -1;
        for(long i = 0; i < n_sent; i++) {
            if(pub(i) == k && c.verify(ctx, {k, s})) {
                who = i;
            }
        }
        as.push_back(std::to_string(who));
    }
    std::string r = "[";
    for(size_t i = 0; i < as.size(); i++) {
        r += (i ? "," : "") + as[i];
    }
    return r + "]";
}
static bool on_send(net& cm, net::kind k, const std::shared_ptr<buffer>& b, network::peer_id_t peer) {
    std::unique_lock<std::mutex> l(mut);
    if(cm.m_listen) {
        // a response
        auto r = from_buffer<sresp>(*b);
        std::string a = "garbled";
        if(r) {
            if(!r->m_payload) {
                a = "failed";
            } else if(auto* x = std::get_if<sentinel::execute_response>(&*r->m_payload)) {
                using st = sentinel::tx_status;
                a = x->m_tx_status == st::static_invalid ? (x->m_tx_error ? errname(*x->m_tx_error) : "no error")
                  : x->m_tx_error                        ? "error"
                  : x->m_tx_status == st::confirmed      ? "confirmed"
                  : x->m_tx_status == st::state_invalid  ? "state_invalid"
                                                         : "pending";
            } else {
                auto& att = std::get<sentinel::validate_response>(*r->m_payload);
                a = "attested-wrongly";
                // the request's transaction is found by the peer number
                auto t = txs.find(static_cast<long>(peer) / 1000);
                if(t != txs.end() && att.first == pub(self) && tr::compact_tx(t->second).verify(ctx, att)) {
                    a = "attested";
                }
            }
            if(r->m_header.m_request_id != peer % 1000) {
                a = "misdirected";
            }
        }
        emit(js().str("ev", "answer").num("r", static_cast<long>(peer % 1000)).str("a", a));
        return true;
    }
    auto port = cm.m_eps.at(k == net::kind::peer ? peer : 0).second;
    if(port >= 3000) {
        long tx{};
        auto c = from_buffer<tr::compact_tx>(*b);
        auto as = c ? compact(*c, tx) : "[-1]";
        emit(js().str("ev", "fwd").num("tx", c ? tx : -1).raw("atts", as).num("to", port - 3000).num("q", 0));
        return true;
    }
    if(port >= 2000) {
        if(cdown > 0) {
            cdown--;
            return false;
        }
        auto q = from_buffer<creq>(*b);
        long tx{-1};
        auto as = q ? compact(q->m_payload, tx) : "[-1]";
        if(q) {
            coords[tx].push_back({&cm, q->m_header.m_request_id, 0, ++nq});
        }
        emit(js().str("ev", "fwd").num("tx", tx).raw("atts", as).num("to", 0).num("q", nq));
        return true;
    }
    auto p = port - 1000;
    if(down.count(p) != 0) {
        return false;
    }
    auto q = from_buffer<sreq>(*b);
    long tx{-1};
    if(q && std::holds_alternative<sentinel::validate_request>(q->m_payload)) {
        tx = find(std::get<sentinel::validate_request>(q->m_payload));
        asks[tx].push_back({&cm, q->m_header.m_request_id, p, ++nq});
    }
    emit(js().str("ev", "ask").num("tx", tx).num("p", p).num("q", nq));
    return true;
}
static void settle() {
#ifdef ATOM
    quiesce();
#endif
}
static void quiet() {
    settle();
    std::unique_lock<std::mutex> l(mut);
    emit(js().str("ev", "quiet"));
}
static void deliver(net* cm, buffer b, network::peer_id_t peer) {
    auto r = cm->m_handler({std::make_shared<buffer>(std::move(b)), peer});
    if(r) {
        (void)on_send(*cm, net::kind::peer, std::make_shared<buffer>(*r), peer);
    }
}
static net* server() {
    for(auto* c : net::all()) {
        if(c->m_listen) {
            return c;
        }
    }
    return nullptr;
}

int main(int argc, char** argv) {
    net::hook() = on_send;
    net::is_connected() = [](net& cm, network::peer_id_t p) {
        return sdown.count(cm.m_eps.at(p).second - 3000) == 0;
    };
    return run(argc, argv, [&](const op& o) {
        auto& name = o.name;
        if(name == "reset") {
            // reset self n thr seed [lo-hi ...]
            ctl.reset();
            txs.clear();
            down.clear();
            sdown.clear();
            cdown = 0;
            nq = 0;
            asks.clear();
            coords.clear();
            ranges.clear();
            self = o.i(0);
            n_sent = o.i(1);
            seed = static_cast<unsigned>(o.u(3));
            config::options c;
            c.m_attestation_threshold = static_cast<size_t>(o.i(2));
            for(long i = 0; i < n_sent; i++) {
                c.m_sentinel_endpoints.push_back({"x", static_cast<network::port_number_t>(1000 + i)});
                c.m_sentinel_private_keys[static_cast<size_t>(i)] = priv(i);
                c.m_sentinel_public_keys.insert(pub(i));
            }
            c.m_coordinator_endpoints.push_back({{"x", 2000}});
            for(size_t i = 4; i < o.a.size(); i++) {
                auto d = o.a[i].find('-');
                ranges.emplace_back(std::stoi(o.a[i].substr(0, d)), std::stoi(o.a[i].substr(d + 1)));
                c.m_shard_endpoints.push_back({"x", static_cast<network::port_number_t>(3000 + i - 4)});
                c.m_shard_ranges.push_back({static_cast<uint8_t>(ranges.back().first), static_cast<uint8_t>(ranges.back().second)});
            }
            emit(js().str("ev", "reset").num("self", self).num("n", n_sent).num("thr", o.i(2)).raw("two",
#ifdef ATOM
                                                                                                "false"
#else
                                                                                                "true"
#endif
                                                                                                ));
            ctl = std::make_unique<ctl_t>(static_cast<uint32_t>(self), c, logger());
            if(!ctl->init()) {
                emit(js().str("ev", "init-failed"));
            }
        } else if(!ctl) {
            return;
        } else if(name == "tx") {
            txs[o.i(0)] = mk(o.i(0), o.a[1], o.i(2));
        } else if(name == "down" || name == "sdown") {
            auto& d = name == "down" ? down : sdown;
            d.clear();
            for(size_t i = 0; i < o.a.size(); i++) {
                d.insert(o.i(i));
            }
        } else if(name == "cdown") {
            cdown = static_cast<int>(o.i(0));
        } else if(name == "req") {
            // req r exec|val tx err
            auto& t = txs[o.i(2)];
            std::vector<std::string> need;
            for(auto& h : tr::compact_tx(t).m_inputs) {
                std::vector<long long> cover;
                for(size_t i = 0; i < ranges.size(); i++) {
                    if(h[0] >= ranges[i].first && h[0] <= ranges[i].second && sdown.count(static_cast<long>(i)) == 0) {
                        cover.push_back(static_cast<long>(i));
                    }
                }
                need.push_back(js().nums("s", cover).done());
            }
            emit(js().str("ev", "req").num("r", o.i(0)).str("k", o.a[1]).num("tx", o.i(2)).str("err", o.a.size() > 3 ? o.a[3] : "").list("need", need));
            sreq q;
            q.m_header.m_request_id = o.u(0);
            if(o.a[1] == "exec") {
                q.m_payload = sentinel::execute_request{t};
            } else {
                q.m_payload = sentinel::validate_request{t};
            }
            deliver(server(), make_buffer(q), o.u(0) + 1000 * o.u(2));
            quiet();
        } else if(name == "junk") {
            sreq q;
            q.m_header.m_request_id = 77;
            q.m_payload = sentinel::execute_request{txs.begin()->second};
            auto b = make_buffer(q);
            auto c = buffer();
            c.append(b.data(), std::min(b.size(), static_cast<size_t>(o.i(0))));
            emit(js().str("ev", "junk"));
            deliver(server(), c, 77);
            quiet();
        } else if(name == "ans") {
            // ans tx ok|none|wrong|twice
            auto& q = asks[o.i(0)];
            if(q.empty()) {
                return;
            }
            auto at = q.begin() + (o.a.size() > 2 ? o.i(2) % static_cast<long>(q.size()) : 0);
            auto p = *at;
            q.erase(at);
            auto ok = o.a[1] == "ok" || o.a[1] == "twice";
            emit(js().str("ev", "ans").num("q", p.q).raw("ok", boolean(ok)));
            sresp r;
            r.m_header.m_request_id = p.id;
            if(ok) {
                r.m_payload = sentinel::response(sentinel::validate_response(tr::compact_tx(txs[o.i(0)]).sign(ctx, priv(p.peer))));
            } else if(o.a[1] == "wrong") {
                r.m_payload = sentinel::response(sentinel::execute_response{sentinel::tx_status::confirmed, std::nullopt});
            }
            deliver(p.cm, make_buffer(r), 0);
            if(o.a[1] == "twice") {
                settle();
                deliver(p.cm, make_buffer(r), 0);
            }
            quiet();
        } else if(name == "coord") {
            auto& q = coords[o.i(0)];
            if(q.empty()) {
                return;
            }
            auto at = q.begin() + (o.a.size() > 2 ? o.i(2) % static_cast<long>(q.size()) : 0);
            auto p = *at;
            q.erase(at);
            emit(js().str("ev", "coord").num("q", p.q).str("a", o.a[1]));
            cresp r;
            r.m_header.m_request_id = p.id;
            if(o.a[1] != "none") {
                r.m_payload = o.a[1] == "yes";
            }
            deliver(p.cm, make_buffer(r), 0);
            quiet();
        } else if(name == "stop") {
            emit(js().str("ev", "stop"));
            ctl.reset();
            asks.clear();
            coords.clear();
            std::unique_lock<std::mutex> l(mut);
            emit(js().str("ev", "quiet"));
        }
    });
}
