// Conformance driver: a real wallet.
#define PERTURB_ALLOC
#include "coins.hpp"
#include "perturb.hpp"
#include <filesystem>
#include <mutex>
#include <thread>
using namespace vf;
using namespace vf::coins;

static std::unique_ptr<tr::wallet> w;
static world W;
static std::string dir;

static void state() {
    emit(js().str("ev", "st").raw("bal", W.amount(w->balance())).num("cnt", static_cast<long>(w->count())));
}
static pubkey_t payee(long k) {
    return W.pubs.count(k) != 0 ? W.pubs[k] : W.pubs[100000];
}
static void made(js e, std::optional<tr::full_tx> t, bool sign) {
    auto n = t ? W.def(*t) : 0;
    auto valid = true;
    if(t) {
        if(!sign) {
            w->sign(*t);
        }
        valid = t->m_inputs.size() == 0 || !va::check_tx(*t).has_value();
        W.txs[n] = *t;
    }
    emit(e.num("t", n).raw("valid", valid ? "true" : "false"));
    state();
}

int main(int argc, char** argv) {
    dir = "files"; // in the scratch directory the driver runs in
    std::filesystem::create_directories(dir);
    return run(argc, argv, [&](const op& o) {
        auto& name = o.name;
        if(name == "reset") {
            W = world();
            w = std::make_unique<tr::wallet>();
            W.own = [](const tr::input& i) {
                return w->is_spendable(i);
            };
            W.unit = std::max(1ULL, o.u(0));
            W.foreign(4);
            for(auto& e : std::filesystem::directory_iterator(dir)) {
                std::filesystem::remove(e.path());
            }
            emit(js().str("ev", "reset"));
        } else if(name == "gen") {
            W.add_key(w->generate_key());
        } else if(name == "gens") {
            auto a = W.nkey + 1;
            for(long n = 0; n < o.i(0); n++) {
                auto p = w->generate_key();
                auto c = va::get_p2pk_witness_commitment(p);
                if(W.keys.count(c) == 0) {
                    W.keys[c] = ++W.nkey;
                    W.pubs[W.nkey] = p;
                }
            }
            emit(js().str("ev", "keys").num("a", a).num("b", W.nkey));
        } else if(name == "mint") {
            auto t = w->mint_new_coins(o.u(0), static_cast<uint32_t>(o.u(1) * W.unit));
            auto n = W.def(t);
            emit(js().str("ev", "mint").num("t", n).num("n", o.i(0)).num("v", o.i(1)));
            state();
        } else if(name == "ext") {
            (void)W.ext(o, 0);
        } else if(name == "send") {
            made(js().str("ev", "made").str("k", "send").num("n", 1).num("v", o.i(0)).num("p", W.pubs.count(o.i(1)) ? o.i(1) : 100000),
                 w->send_to(static_cast<uint32_t>(o.u(0) * W.unit), payee(o.i(1)), o.i(2) != 0),
                 o.i(2) != 0);
        } else if(name == "multi") {
            made(js().str("ev", "made").str("k", "multi").num("n", o.i(0)).num("v", o.i(1)).num("p", W.pubs.count(o.i(2)) ? o.i(2) : 100000),
                 w->send_to(o.u(0), o.u(1), payee(o.i(2)), o.i(3) != 0),
                 o.i(3) != 0);
        } else if(name == "fan") {
            made(js().str("ev", "made").str("k", "fan").num("n", o.i(0)).num("v", o.i(1)).num("p", W.pubs.count(o.i(2)) ? o.i(2) : 100000),
                 w->fan(o.u(0), static_cast<uint32_t>(o.u(1) * W.unit), payee(o.i(2)), o.i(3) != 0),
                 o.i(3) != 0);
        } else if(name == "conf") {
            if(auto* t = W.tx(o.i(0))) {
                emit(js().str("ev", "conf").num("t", W.ids[tr::tx_id(*t)]));
                w->confirm_transaction(*t);
                state();
            }
        } else if(name == "ret" || name == "credit") {
            if(auto* t = W.tx(o.i(0))) {
                std::vector<tr::input> c;
                if(name == "ret") {
                    c = t->m_inputs;
                } else {
                    auto all = W.outs(*t);
                    for(size_t i = 1; i < o.a.size(); i++) {
                        if(o.u(i) < all.size()) {
                            c.push_back(all[o.u(i)]);
                        }
                    }
                }
                std::vector<std::string> cs;
                std::vector<tr::input> known;
                for(auto& i : c) {
                    if(W.right(i)) {
                        known.push_back(i);
                        cs.push_back(W.coin(i.m_prevout));
                    }
                }
                emit(js().str("ev", "credit").list("cs", cs));
                w->confirm_inputs(known);
                state();
            }
        } else if(name == "save") {
            w->save(dir + "/" + o.a[0]);
            emit(js().str("ev", "save").str("f", o.a[0]));
        } else if(name == "load") {
            w->load(dir + "/" + o.a[0]);
            emit(js().str("ev", "load").str("f", o.a[0]));
            state();
        } else if(name == "new") {
            w = std::make_unique<tr::wallet>();
            emit(js().str("ev", "new"));
            state();
        } else if(name == "seed") {
            // seed v from to ro
            auto k = priv(900);
            auto p = pubkey_from_privkey(k, ctx());
            auto c = va::get_p2pk_witness_commitment(p);
            auto v = static_cast<uint32_t>(o.u(0) * W.unit);
            bool ok = true;
            if(o.i(3) != 0) {
                w->seed_readonly(c, v, o.u(1), o.u(2));
            } else {
                ok = w->seed(k, v, o.u(1), o.u(2));
            }
            if(ok) {
                for(auto i = o.u(1); i < o.u(2); i++) {
                    auto t = w->create_seeded_transaction(i);
                    if(t) {
                        W.seeds[tr::tx_id(*t)] = {static_cast<long>(i), o.i(0)};
                    }
                }
            }
            emit(js().str("ev", "seed").num("v", o.i(0)).num("a", o.i(1)).num("b", o.i(2)).raw("ro", o.i(3) ? "true" : "false").raw("ok", ok ? "true" : "false"));
            if(ok && o.i(3) == 0) {
                W.add_key(p);
            }
            state();
        } else if(name == "spendable") {
            if(auto* t = W.tx(o.i(0))) {
                for(auto& i : W.outs(*t)) {
                    emit(js().str("ev", "spendable").num("k", W.key(i.m_prevout_data.m_witness_program_commitment)).raw("ok", w->is_spendable(i) ? "true" : "false"));
                }
            }
        } else if(name == "export") {
            if(auto* t = W.tx(o.i(0))) {
                if(W.pubs.count(o.i(1)) != 0) {
                    auto v = tr::wallet::export_send_inputs(*t, W.pubs[o.i(1)]);
                    std::vector<std::string> cs;
                    auto ok = true;
                    for(auto& i : v) {
                        cs.push_back(W.coin(i.m_prevout));
                        ok = ok && W.right(i);
                    }
                    emit(js().str("ev", "export").num("t", W.ids[tr::tx_id(*t)]).num("k", o.i(1)).list("cs", cs).raw("ok", ok ? "true" : "false"));
                }
            }
        } else if(name == "pargen") {
            // pargen threads keys
            std::vector<std::vector<pubkey_t>> ks(o.u(0));
            std::vector<std::thread> ts;
            perturb = true;
            for(size_t n = 0; n < ks.size(); n++) {
                ts.emplace_back([&, n]() {
                    for(long j = 0; j < o.i(1); j++) {
                        ks[n].push_back(w->generate_key());
                    }
                });
            }
            for(auto& t : ts) {
                t.join();
            }
            perturb = false;
            auto ok = true;
            for(auto& v : ks) {
                for(auto& k : v) {
                    tr::input i;
                    i.m_prevout_data.m_witness_program_commitment = va::get_p2pk_witness_commitment(k);
                    ok = ok && w->is_spendable(i);
                    W.add_key(k);
                }
            }
            emit(js().str("ev", "ret").raw("ok", ok ? "true" : "false").raw("exp", "true"));
        } else if(name == "par") {
            // par threads operations: sends to itself and others, confirmed or returned
            std::mutex m;
            std::vector<tr::full_tx> mk;
            std::vector<tr::full_tx> cf;
            std::vector<std::thread> ts;
            auto self = w->generate_key();
            W.add_key(self);
            auto other = W.pubs[100001];
            auto unit = W.unit;
            perturb = true;
            for(long n = 0; n < o.i(0); n++) {
                ts.emplace_back([&, n]() {
                    auto x = static_cast<unsigned>(n * 7919 + o.i(2) + 1);
                    for(long j = 0; j < o.i(1); j++) {
                        x = x * 1103515245 + 12345;
                        auto a = (x >> 16) % 7 + 1;
                        auto what = (x >> 8) % 4;
                        auto t = what == 0 ? w->send_to(a % 3 + 1, 2, self, false)
                               : what == 1 ? w->fan(a % 3 + 1, static_cast<uint32_t>(unit), self, false)
                                           : w->send_to(static_cast<uint32_t>(a * unit), what == 2 ? self : other, false);
                        if(!t) {
                            continue;
                        }
                        auto ret = (x >> 20) % 5 == 0;
                        {
                            std::unique_lock<std::mutex> l(m);
                            mk.push_back(*t);
                            if(!ret) {
                                cf.push_back(*t);
                            }
                        }
                        if(!ret) {
                            w->confirm_transaction(*t);
                        }
                        (void)w->balance();
                    }
                });
            }
            for(auto& t : ts) {
                t.join();
            }
            perturb = false;
            std::vector<long long> mm;
            std::vector<long long> cc;
            // definitions in an order in which inputs are known
            std::vector<tr::full_tx> rest = mk;
            for(size_t left = rest.size() + 1; rest.size() != 0 && rest.size() != left;) {
                left = rest.size();
                std::vector<tr::full_tx> later;
                for(auto& t : rest) {
                    auto known = true;
                    for(auto& i : t.m_inputs) {
                        known = known && (W.ids.count(i.m_prevout.m_tx_id) != 0 || W.seeds.count(i.m_prevout.m_tx_id) != 0);
                    }
                    if(known) {
                        (void)W.def(t);
                    } else {
                        later.push_back(t);
                    }
                }
                rest = later;
            }
            for(auto& t : mk) {
                mm.push_back(W.def(t));
            }
            for(auto& t : cf) {
                cc.push_back(W.def(t));
            }
            emit(js().str("ev", "par").nums("made", mm).nums("conf", cc));
            state();
        }
    });
}
