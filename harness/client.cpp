// Conformance driver: a real client (of either architecture) with its real
// network clients on a network that is the driver.
#include "coins.hpp"
#include "bech32/bech32.h"
#include "bech32/util/strencodings.h"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/watchtower/watchtower.hpp"
#include "uhs/client/atomizer_client.hpp"
#include "uhs/client/twophase_client.hpp"
#include "uhs/sentinel/format.hpp"
#include "uhs/twophase/locking_shard/format.hpp"
#include "uhs/twophase/locking_shard/status_messages.hpp"
#include "util/rpc/format.hpp"
#include <filesystem>
using namespace vf;
using namespace vf::coins;
namespace fs = std::filesystem;
namespace wt = cbdc::watchtower;
using net = network::connection_manager;
using sreq = rpc::request<sentinel::request>;
using sresp = rpc::response<sentinel::response>;
using creq = rpc::request<tr::compact_tx>;
using cresp = rpc::response<bool>;
using streq = rpc::request<locking_shard::rpc::status_request>;
using stresp = rpc::response<locking_shard::rpc::status_response>;

static world W;
static bool two;
static config::options opts;
static std::shared_ptr<logging::log> lg;
static std::unique_ptr<client> C;
static std::set<hash_t> settled;
static std::vector<long> mine;
static const std::string wf = "wallet";
static const std::string cf = "client";
static unsigned long height;

// What the next request is answered.
static std::string ans = "confirmed";
static std::vector<std::string> st{"no"};
// What was seen.
static std::optional<tr::full_tx> seen;
static bool mint_ok;
static std::optional<hash_t> unspent_q;
static std::map<hash_t, std::string> asked;
static std::vector<std::pair<net*, uint64_t>> late;

static void reply(net& cm, const std::shared_ptr<buffer>& b) {
    network::message_t m;
    m.m_pkt = b;
    (void)cm.m_handler(std::move(m));
}
static std::string status(const hash_t& id) {
    if(settled.count(id) != 0) {
        return "yes";
    }
    auto it = W.ids.find(id);
    return st[it == W.ids.end() ? 0 : static_cast<size_t>(it->second) % st.size()];
}
static bool right_ctx(const tr::compact_tx& t) {
    return va::check_attestations(t, opts.m_sentinel_public_keys, opts.m_attestation_threshold);
}
static bool hook(net& cm, net::kind, const std::shared_ptr<buffer>& b, network::peer_id_t) {
    auto port = cm.m_eps.empty() ? 0 : cm.m_eps[0].second;
    if(port == 1000) {
        auto r = from_buffer<sreq>(*b).value();
        seen = std::get<sentinel::execute_request>(r.m_payload);
        if(ans == "none") {
            return false;
        }
        sentinel::execute_response er;
        er.m_tx_status = ans == "confirmed" ? sentinel::tx_status::confirmed
                       : ans == "pending"   ? sentinel::tx_status::pending
                       : ans == "state"     ? sentinel::tx_status::state_invalid
                                            : sentinel::tx_status::static_invalid;
        if(ans == "static") {
            er.m_tx_error = va::tx_error(va::tx_error_code::no_inputs);
        }
        reply(cm, make_shared_buffer(sresp{{r.m_header.m_request_id}, er}));
        return true;
    }
    if(port == 2000) {
        auto r = from_buffer<creq>(*b).value();
        mint_ok = right_ctx(r.m_payload);
        seen.reset();
        if(ans == "none") {
            return false;
        }
        if(ans == "late") {
            late.emplace_back(&cm, r.m_header.m_request_id);
            return true;
        }
        reply(cm, make_shared_buffer(cresp{{r.m_header.m_request_id}, ans == "confirmed"}));
        return true;
    }
    if(port == 3000 || port == 3001) {
        auto r = from_buffer<streq>(*b).value();
        auto low = port == 3000;
        bool v = false;
        if(auto* u = std::get_if<locking_shard::rpc::uhs_status_request>(&r.m_payload)) {
            unspent_q = u->m_uhs_id;
            v = (u->m_uhs_id[0] < 128) == low && st[0] == "yes";
            if(st[0] == "none") {
                return false;
            }
        } else {
            auto id = std::get<locking_shard::rpc::tx_status_request>(r.m_payload).m_tx_id;
            auto a = status(id);
            asked[id] = a;
            if(a == "none") {
                return false;
            }
            v = (id[0] < 128) == low && a == "yes";
        }
        reply(cm, make_shared_buffer(stresp{{r.m_header.m_request_id}, v}));
        return true;
    }
    if(port == 4000) {
        auto d = buffer_serializer(*b);
        auto r = wt::request(d);
        if(std::holds_alternative<wt::best_block_height_request>(r.payload())) {
            reply(cm, make_shared_buffer(wt::response{wt::best_block_height_response{height}}));
            return true;
        }
        // the answer is about the outputs that a transaction uses and makes
        auto& q = std::get<wt::status_update_request>(r.payload());
        wt::tx_id_states res;
        auto seed = 0U;
        for(auto& [id, us] : q.uhs_ids()) {
            auto a = status(id);
            asked[id] = a;
            auto t = W.ids.find(id);
            std::set<hash_t> in;
            std::set<hash_t> out;
            std::set<hash_t> theirs;
            if(t != W.ids.end()) {
                auto& f = W.txs[t->second];
                for(size_t i = 0; i < f.m_outputs.size(); i++) {
                    if(W.key(f.m_outputs[i].m_witness_program_commitment) >= 100000) {
                        theirs.insert(tr::uhs_id_from_output(id, i, f.m_outputs[i]));
                    }
                }
                auto c = tr::compact_tx(W.txs[t->second]);
                in.insert(c.m_inputs.begin(), c.m_inputs.end());
                out.insert(c.m_uhs_outputs.begin(), c.m_uhs_outputs.end());
            }
            std::vector<wt::status_update_state> v;
            for(auto& u : us) {
                auto s = wt::search_status::no_history;
                if(a == "yes" && in.count(u) != 0) {
                    s = wt::search_status::spent;
                } else if(a == "yes" && out.count(u) != 0) {
                    // an output that has been spent is known by its spender only
                    s = theirs.count(u) != 0 && ++seed % 3 != 0 ? wt::search_status::no_history : wt::search_status::unspent;
                } else if(a == "bad") {
                    static const wt::search_status e[] = {wt::search_status::tx_rejected, wt::search_status::invalid_input, wt::search_status::internal_error};
                    s = e[++seed % 3];
                }
                v.emplace_back(s, height, u);
            }
            res[id] = v;
        }
        reply(cm, make_shared_buffer(wt::response{wt::status_request_check_success{res}}));
        return true;
    }
    // an atomizer
    auto r = from_buffer<atomizer::request>(*b);
    if(r) {
        if(auto* n = std::get_if<atomizer::tx_notify_request>(&r.value())) {
            mint_ok = right_ctx(n->m_tx) && n->m_block_height == height;
        }
    }
    return ans != "none";
}

static std::unique_ptr<client> open(const std::string& w, const std::string& c) {
    std::unique_ptr<client> r;
    if(two) {
        r = std::make_unique<twophase_client>(opts, lg, w, c);
    } else {
        r = std::make_unique<atomizer_client>(opts, lg, w, c);
    }
    (void)r->init();
    return r;
}
static void cst(client& x, const std::string& w) {
    tr::wallet s;
    s.load(w);
    emit(js().str("ev", "cst").raw("bal", W.amount(x.balance())).num("cnt", static_cast<long>(x.utxo_count()))
             .num("npend", static_cast<long>(x.pending_tx_count())).num("npin", static_cast<long>(x.pending_input_count())).raw("saved", W.drain(s)));
}
static void state() {
    cst(*C, wf);
    if(fs::exists(wf)) {
        // as another process would find it
        fs::copy_file(wf, "wallet2", fs::copy_options::overwrite_existing);
        fs::copy_file(cf, "client2", fs::copy_options::overwrite_existing);
        auto x = open("wallet2", "client2");
        cst(*x, "wallet2");
    }
}
static pubkey_t payee(long k) {
    return W.pubs.count(k) != 0 ? W.pubs[k] : W.pubs[100000];
}
static long pk(long k) {
    return W.pubs.count(k) != 0 ? k : 100000;
}
static void answered(long n, const std::string& a) {
    if(a == "confirmed") {
        settled.insert(tr::tx_id(W.txs[n]));
    }
    emit(js().str("ev", "sent").num("t", n).str("a", a));
}
static void told(bool ok, bool exp) {
    emit(js().str("ev", "ret").raw("ok", ok ? "true" : "false").raw("exp", exp ? "true" : "false"));
}
static void registered(js e, const std::optional<tr::full_tx>& t) {
    auto n = t ? W.def(*t) : 0;
    auto valid = true;
    if(t) {
        valid = !va::check_tx(*t).has_value();
        mine.push_back(n);
    }
    emit(e.num("t", n).raw("valid", valid ? "true" : "false"));
}
static std::string addr(const std::string& hrp, const std::vector<uint8_t>& v) {
    auto data = std::vector<uint8_t>();
    ConvertBits<address::bits_per_byte, address::bech32_bits_per_symbol, true>(
        [&](uint8_t c) {
            data.push_back(c);
        },
        v.begin(),
        v.end());
    return bech32::Encode(hrp, data);
}

int main(int argc, char** argv) {
    lg = std::make_shared<logging::log>(logging::log_level::fatal);
    net::hook() = hook;
    return run(argc, argv, [&](const op& o) {
        auto& name = o.name;
        auto is_tx = [&]() {
            return W.tx(o.i(0)) != nullptr;
        };
        auto tx = [&]() -> tr::full_tx& {
            return *W.tx(o.i(0));
        };
        if(name == "reset") {
            // reset two unit threshold
            C.reset();
            late.clear();
            settled.clear();
            mine.clear();
            for(auto* f : {"wallet", "client", "wallet2", "client2"}) {
                fs::remove(f);
            }
            two = o.i(0) != 0;
            W = world();
            W.unit = std::max(1ULL, o.u(1));
            W.foreign(4);
            W.own = [](const tr::input& i) {
                tr::wallet w;
                w.load(wf);
                return w.is_spendable(i);
            };
            height = 7;
            opts = config::options();
            opts.m_twophase_mode = two;
            auto ip = network::localhost;
            opts.m_sentinel_endpoints = {{ip, 1000}, {ip, 1001}};
            opts.m_coordinator_endpoints = {{{ip, 2000}}};
            opts.m_locking_shard_readonly_endpoints = {{{ip, 3000}}, {{ip, 3001}}};
            opts.m_shard_ranges = {{0, 127}, {128, 255}};
            opts.m_watchtower_client_endpoints = {{ip, 4000}};
            opts.m_atomizer_endpoints = {{ip, 5000}};
            opts.m_attestation_threshold = o.u(2);
            for(size_t k = 0; k < 3; k++) {
                opts.m_sentinel_private_keys[k] = priv(500 + static_cast<long>(k));
                opts.m_sentinel_public_keys.insert(pubkey_from_privkey(priv(500 + static_cast<long>(k)), ctx()));
            }
            C = open(wf, cf);
            emit(js().str("ev", "reset"));
        } else if(name == "restart") {
            C.reset();
            late.clear();
            C = open(wf, cf);
            emit(js().str("ev", "restart"));
            state();
        } else if(name == "newaddr") {
            auto k = C->new_address();
            tr::input i;
            i.m_prevout_data.m_witness_program_commitment = va::get_p2pk_witness_commitment(k);
            told(W.own(i), true);
            W.add_key(k);
            state();
        } else if(name == "mint") {
            // mint n v answer
            ans = o.a.size() > 2 ? o.a[2] : "confirmed";
            mint_ok = false;
            auto t = C->mint(o.u(0), static_cast<uint32_t>(o.u(1) * W.unit));
            auto n = W.def(t);
            mine.push_back(n);
            emit(js().str("ev", "mint").num("t", n).num("n", o.i(0)).num("v", o.i(1)));
            answered(n, two && ans == "confirmed" ? "confirmed" : "other");
            told(mint_ok, true);
            state();
        } else if(name == "late") {
            // the coordinator's answers arrive after all
            if(!late.empty()) {
                auto [cm, id] = late.front();
                late.erase(late.begin());
                reply(*cm, make_shared_buffer(cresp{{id}, true}));
                answered(mine.back(), "confirmed");
                state();
            }
        } else if(name == "send" || name == "fan") {
            // send v payee answer | fan n v payee answer
            auto f = name == "fan" ? 1U : 0U;
            ans = o.a.size() > 2 + f ? o.a[2 + f] : "confirmed";
            seen.reset();
            auto v = static_cast<uint32_t>(o.u(f) * W.unit);
            auto p = o.i(1 + f);
            auto r = f != 0 ? C->fan(static_cast<uint32_t>(o.u(0)), v, payee(p)) : C->send(v, payee(p));
            registered(js().str("ev", "register").str("k", name).num("n", f != 0 ? o.i(0) : 1).num("v", o.i(f)).num("p", pk(p)), seen);
            if(seen) {
                answered(W.def(*seen), ans);
                if(r.first) {
                    told(tr::tx_id(*r.first) == tr::tx_id(*seen), true);
                }
            }
            told(r.first.has_value() && r.second.has_value(), seen.has_value() && ans != "none");
            if(r.second) {
                told((r.second->m_tx_status == sentinel::tx_status::confirmed) == (ans == "confirmed"), true);
            }
            state();
        } else if(name == "create") {
            auto t = C->create_transaction(static_cast<uint32_t>(o.u(0) * W.unit), payee(o.i(1)));
            registered(js().str("ev", "register").str("k", "send").num("n", 1).num("v", o.i(0)).num("p", pk(o.i(1))), t);
            state();
        } else if(name == "resend" && !mine.empty()) {
            // resend i answer
            auto n = mine[static_cast<size_t>(o.i(0)) % mine.size()];
            auto t = W.txs[n];
            if(settled.count(tr::tx_id(t)) == 0 && !t.m_inputs.empty()) {
                ans = o.a.size() > 1 ? o.a[1] : "confirmed";
                t.m_witness.clear();
                C->sign_transaction(t);
                told(!va::check_tx(t).has_value(), true);
                seen.reset();
                auto r = C->send_transaction(t);
                answered(n, ans);
                told(seen.has_value() && *seen == t && r.has_value() == (ans != "none"), true);
                state();
            }
        } else if(name == "ext") {
            (void)W.ext(o, 0);
        } else if(name == "import" && is_tx()) {
            auto all = W.outs(tx());
            if(o.u(1) < all.size() && settled.count(tr::tx_id(tx())) == 0) {
                auto i = all[o.u(1)];
                emit(js().str("ev", "import").raw("c", W.coin(i.m_prevout)));
                C->import_send_input(i);
                state();
            }
        } else if(name == "confirm" && is_tx()) {
            auto id = tr::tx_id(tx());
            auto ok = C->confirm_transaction(id);
            emit(js().str("ev", "confirm").num("t", W.ids[id]).raw("ok", ok ? "true" : "false"));
            if(ok) {
                settled.insert(id);
            }
            state();
        } else if(name == "abandon" && is_tx()) {
            auto id = tr::tx_id(tx());
            auto ok = C->abandon_transaction(id);
            emit(js().str("ev", "abandon").num("t", W.ids[id]).raw("ok", ok ? "true" : "false"));
            state();
        } else if(name == "sync") {
            st = o.a;
            asked.clear();
            auto ok = C->sync();
            std::vector<std::string> r;
            for(auto& [id, a] : asked) {
                auto it = W.ids.find(id);
                r.push_back(js().num("t", it == W.ids.end() ? -1 : it->second).str("a", a).done());
                if(a == "yes") {
                    settled.insert(id);
                }
            }
            emit(js().str("ev", "sync").raw("two", two ? "true" : "false").raw("ok", ok ? "true" : "false").list("res", r));
            state();
        } else if(name == "chk" && is_tx()) {
            for(auto& i : tx().m_inputs) {
                if(W.right(i)) {
                    auto ok = C->check_pending(i);
                    emit(js().str("ev", "chk").raw("c", W.coin(i.m_prevout)).raw("ok", ok ? "true" : "false"));
                }
            }
        } else if(name == "ask" && two && is_tx()) {
            // ask i status: the state of a transaction and of its first output
            auto* c = static_cast<twophase_client*>(C.get());
            st = {o.a[1]};
            auto id = tr::tx_id(tx());
            auto want = status(id);
            auto r = c->check_tx_id(id);
            told(r.has_value() && *r, want == "yes");
            told(r.has_value(), want != "none");
            auto u = tr::uhs_id_from_output(id, 0, tx().m_outputs.at(0));
            auto q = c->check_unspent(u);
            told(q.has_value() && *q, st[0] == "yes");
            told(q.has_value(), st[0] != "none");
        } else if(name == "addr") {
            // addr kind i
            auto k = payee(o.i(1));
            std::vector<uint8_t> v{0};
            v.insert(v.end(), k.begin(), k.end());
            std::string a;
            auto& kind = o.a[0];
            if(kind == "type") {
                v[0] = 1;
            } else if(kind == "short") {
                v.pop_back();
            } else if(kind == "long") {
                v.push_back(0);
            } else if(kind == "empty") {
                v.clear();
            }
            a = addr(kind == "hrp" ? "bc" : config::bech32_hrp, v);
            if(kind == "typo") {
                auto& c = a[a.size() - 1 - static_cast<size_t>(o.i(1)) % 50];
                c = c == 'q' ? 'p' : 'q';
            } else if(kind == "upper") {
                for(auto& c : a) {
                    c = static_cast<char>(std::toupper(c));
                }
            } else if(kind == "none") {
                a = "";
            } else if(kind == "cut") {
                a.resize(static_cast<size_t>(o.i(1)) % a.size());
            }
            auto d = address::decode(a);
            told(d.has_value(), kind == "good" || kind == "upper");
            told(!d.has_value() || *d == k, true);
        }
    });
}
