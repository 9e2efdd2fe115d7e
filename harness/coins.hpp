// Transactions, coins and keys as the wallet and client drivers number them.
#ifndef VERIF_COINS_HPP
#define VERIF_COINS_HPP
#include "common.hpp"
#include "crypto/sha256.h"
#include "uhs/transaction/messages.hpp"
#include "uhs/transaction/validation.hpp"
#include "uhs/transaction/wallet.hpp"
#include "util/serialization/format.hpp"
#include <map>
#include <set>

namespace vf::coins {
    using namespace cbdc;
    namespace tr = cbdc::transaction;
    namespace va = cbdc::transaction::validation;
    inline secp256k1_context* ctx() {
        static auto* c = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY);
        return c;
    }
    inline hash_t sha(const std::string& x) {
        CSHA256 s;
        hash_t h;
        s.Write(reinterpret_cast<const unsigned char*>(x.data()), x.size());
        s.Finalize(h.data());
        return h;
    }
    inline privkey_t priv(long k) {
        privkey_t p{};
        p[31] = static_cast<unsigned char>(k % 250 + 1);
        p[30] = static_cast<unsigned char>(k / 250 % 200);
        p[5] = 7;
        return p;
    }
    // Keys 100000 and up are somebody else's, the others the tested wallet's, in the order they appeared.
    struct world {
        uint64_t unit{1};
        std::map<long, tr::full_tx> txs;
        std::map<hash_t, long> ids;
        std::map<hash_t, long> keys;
        std::map<long, pubkey_t> pubs;
        std::map<hash_t, std::pair<long, long>> seeds; // id of the seed's transaction
        long ntx{0};
        long nkey{0};
        long next{0};
        std::function<bool(const tr::input&)> own;

        void foreign(long n) {
            for(long k = 100000; k < 100000 + n; k++) {
                pubs[k] = pubkey_from_privkey(priv(k), ctx());
                keys[va::get_p2pk_witness_commitment(pubs[k])] = k;
            }
        }
        void add_key(const pubkey_t& p) {
            auto c = va::get_p2pk_witness_commitment(p);
            if(keys.count(c) == 0) {
                keys[c] = ++nkey;
                emit(js().str("ev", "key").num("k", nkey));
            }
            pubs[keys[c]] = p;
        }
        long key(const hash_t& c) {
            auto it = keys.find(c);
            if(it != keys.end()) {
                return it->second;
            }
            tr::input i;
            i.m_prevout_data.m_witness_program_commitment = c;
            if(own && own(i)) {
                keys[c] = ++nkey;
                emit(js().str("ev", "key").num("k", nkey));
                return nkey;
            }
            return -1;
        }
        std::string amount(uint64_t v) const {
            return v % unit != 0 || v / unit > 1000000000 ? "-1" : std::to_string(v / unit);
        }
        std::string coin(const tr::out_point& o) {
            auto s = seeds.find(o.m_tx_id);
            if(s != seeds.end() && o.m_index == 0) {
                return "[0," + std::to_string(s->second.first) + "]";
            }
            auto it = ids.find(o.m_tx_id);
            if(it == ids.end()) {
                return "[-1,0]";
            }
            return "[" + std::to_string(it->second) + "," + std::to_string(o.m_index) + "]";
        }
        // A coin with what it is said to be worth and who owns it.
        bool right(const tr::input& i) {
            auto s = seeds.find(i.m_prevout.m_tx_id);
            if(s != seeds.end()) {
                return i.m_prevout_data.m_value == unit * static_cast<uint64_t>(s->second.second);
            }
            auto it = ids.find(i.m_prevout.m_tx_id);
            return it != ids.end() && i.m_prevout.m_index < txs[it->second].m_outputs.size()
                && i.m_prevout_data == txs[it->second].m_outputs[i.m_prevout.m_index];
        }
        long def(const tr::full_tx& t) {
            auto id = tr::tx_id(t);
            auto it = ids.find(id);
            if(it != ids.end()) {
                return it->second;
            }
            std::vector<std::string> in;
            std::vector<std::string> out;
            auto ok = true;
            for(auto& i : t.m_inputs) {
                in.push_back(coin(i.m_prevout));
                ok = ok && right(i);
            }
            for(auto& o : t.m_outputs) {
                auto k = key(o.m_witness_program_commitment);
                out.push_back("[" + amount(o.m_value) + "," + std::to_string(k) + "]");
            }
            ids[id] = ++ntx;
            txs[ntx] = t;
            emit(js().str("ev", "tx").num("t", ntx).list("ins", in).list("outs", out).raw("right", ok ? "true" : "false"));
            return ntx;
        }
        // ext v:k v:k ... : somebody else's transaction
        long ext(const op& o, size_t from) {
            tr::full_tx t;
            tr::input i;
            i.m_prevout.m_tx_id = sha("x" + std::to_string(next++));
            t.m_inputs.push_back(i);
            for(size_t n = from; n < o.a.size(); n++) {
                auto d = o.a[n].find(':');
                auto k = std::stol(o.a[n].substr(d + 1));
                if(pubs.count(k) == 0) {
                    k = 100000;
                }
                t.m_outputs.emplace_back(va::get_p2pk_witness_commitment(pubs[k]), std::stoull(o.a[n].substr(0, d)) * unit);
            }
            // its input is not a coin of this world
            auto id = tr::tx_id(t);
            std::vector<std::string> out;
            for(auto& x : t.m_outputs) {
                out.push_back("[" + amount(x.m_value) + "," + std::to_string(key(x.m_witness_program_commitment)) + "]");
            }
            ids[id] = ++ntx;
            txs[ntx] = t;
            emit(js().str("ev", "tx").num("t", ntx).list("ins", {}).list("outs", out).raw("right", "true"));
            return ntx;
        }
        tr::full_tx* tx(long n) {
            if(ntx == 0) {
                return nullptr;
            }
            return &txs[1 + (n % ntx + ntx) % ntx];
        }
        std::vector<tr::input> outs(const tr::full_tx& t) {
            std::vector<tr::input> r;
            for(size_t i = 0; i < t.m_outputs.size(); i++) {
                r.push_back(tr::input_from_output(t, i, tr::tx_id(t)).value());
            }
            return r;
        }
        // All coins of a wallet, by spending them.
        std::string drain(tr::wallet& w) {
            std::vector<std::string> c;
            if(w.count() > 0) {
                auto t = w.send_to(w.count(), 1, pubkey_from_privkey(priv(100000), ctx()), false);
                if(t) {
                    for(auto& i : t->m_inputs) {
                        c.push_back(right(i) ? coin(i.m_prevout) : "[-2,0]");
                    }
                }
            }
            std::string s = "[";
            for(size_t i = 0; i < c.size(); i++) {
                s += (i ? "," : "") + c[i];
            }
            return s + "]";
        }
    };
}
#endif
