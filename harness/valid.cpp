// Conformance driver: builds transactions and attestations piece by piece,
// gives them to the real validation, reports verdicts and identifiers.
#include "common.hpp"
#include "crypto/sha256.h"
#include "uhs/transaction/messages.hpp"
#include "uhs/transaction/validation.hpp"
#include <map>
#include <set>
#include <unordered_set>
using namespace vf;
using namespace cbdc;
namespace tr = cbdc::transaction;
namespace va = cbdc::transaction::validation;

static secp256k1_context* ctx
    = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY);
static hash_t sha(const void* p, size_t n) {
    CSHA256 s;
    hash_t h;
    s.Write(static_cast<const unsigned char*>(p), n);
    s.Finalize(h.data());
    return h;
}
static privkey_t priv(long k) {
    privkey_t p{};
    p[31] = static_cast<unsigned char>(k);
    p[5] = 7;
    return p;
}
// Positive numbers are keys, negative ones are 32 bytes that are none.
static pubkey_t pub(long k) {
    if(k > 0) {
        return pubkey_from_privkey(priv(k), ctx);
    }
    pubkey_t p{};
    p.fill(0xff);
    p[31] = static_cast<unsigned char>(100 + k);
    if(k % 2 == 0) {
        secp256k1_xonly_pubkey x;
        p.fill(1);
        for(p[31] = 1; secp256k1_xonly_pubkey_parse(ctx, &x, p.data()) == 1; p[31]++) {}
    }
    return p;
}
static hash_t com(long c) {
    unsigned char b[33];
    auto k = c > 300 ? c - 300 : c > 200 ? c - 200 : c;
    auto p = c >= 100 && c <= 200 ? pubkey_t{} : pub(k);
    std::memcpy(b + 1, p.data(), 32);
    b[0] = c > 300 ? 1 : 0;
    if(c > 200 && c <= 300) {
        return sha(b + 1, 32);
    }
    if(c >= 100 && c <= 200) {
        return sha(&c, sizeof(c));
    }
    return sha(b, 33);
}
static signature_t sig(long k, const hash_t& m) {
    secp256k1_keypair kp;
    signature_t s{};
    auto p = priv(std::abs(k));
    if(k == 0 || secp256k1_keypair_create(ctx, &kp, p.data()) != 1) {
        s.fill(3);
        return s;
    }
    secp256k1_schnorrsig_sign(ctx, s.data(), m.data(), &kp, nullptr, nullptr);
    if(k < 0) {
        s[k % 2 == 0 ? 3 : 60] ^= 4;
    }
    return s;
}
static std::map<hash_t, long> seen;
static long in(const hash_t& h) {
    return seen.emplace(h, static_cast<long>(seen.size()) + 1).first->second;
}

struct wit {
    long len, ty, key, by, over;
};
struct txn {
    tr::full_tx t;
    std::vector<long> ic, oc;
    std::vector<wit> w;
};
static std::map<long, txn> slots;
struct att {
    long by;
    std::string over;
};
struct cmp {
    tr::compact_tx c;
    std::map<long, att> a;
};
static std::map<long, cmp> cs;

static std::string w4(uint64_t v) {
    std::string s = "[";
    for(int i = 0; i < 4; i++) {
        s += (i ? "," : "") + std::to_string((v >> (16 * i)) & 0xffff);
    }
    return s + "]";
}
static std::vector<std::string> insj(const txn& x) {
    std::vector<std::string> r;
    for(size_t i = 0; i < x.ic.size(); i++) {
        auto& q = x.t.m_inputs[i];
        r.push_back(js().num("t", in(q.m_prevout.m_tx_id)).raw("i", w4(q.m_prevout.m_index)).num("c", x.ic[i]).raw("v", w4(q.m_prevout_data.m_value)).done());
    }
    return r;
}
static std::vector<std::string> outsj(const txn& x) {
    std::vector<std::string> r;
    for(size_t i = 0; i < x.oc.size(); i++) {
        r.push_back(js().num("c", x.oc[i]).raw("v", w4(x.t.m_outputs[i].m_value)).done());
    }
    return r;
}
static std::string lst(const std::vector<std::string>& v) {
    std::string s = "[";
    for(size_t i = 0; i < v.size(); i++) {
        s += (i ? "," : "") + v[i];
    }
    return s + "]";
}
static std::string cont(const tr::compact_tx& c) {
    auto l = [](const std::vector<hash_t>& v) {
        std::vector<std::string> r;
        for(auto& h : v) {
            r.push_back(std::to_string(in(h)));
        }
        return lst(r);
    };
    return "[" + std::to_string(in(c.m_id)) + "," + l(c.m_inputs) + "," + l(c.m_uhs_outputs) + "]";
}
static std::vector<std::string> verdict(const std::optional<va::tx_error>& e) {
    static const char* tn[] = {"no_inputs", "no_outputs", "missing_witness", "asymmetric_values", "value_overflow"};
    static const char* wn[] = {"missing_witness_program_type", "unknown_witness_program_type", "malformed", "program_mismatch", "invalid_public_key", "invalid_signature"};
    auto r = [](std::string n, long i) {
        return std::vector<std::string>{"\"" + n + "\"", std::to_string(i)};
    };
    if(!e) {
        return r("", -1);
    }
    if(auto* x = std::get_if<va::tx_error_code>(&*e)) {
        return r(static_cast<int>(*x) < 5 ? tn[static_cast<int>(*x)] : "?", -1);
    }
    if(auto* x = std::get_if<va::input_error>(&*e)) {
        auto i = static_cast<long>(x->m_idx);
        if(x->m_code == va::input_error_code::duplicate) {
            return r(x->m_data_err ? "?" : "duplicate", i);
        }
        return r(x->m_data_err == va::output_error_code::zero_value ? "zero_input" : "?", i);
    }
    if(auto* x = std::get_if<va::output_error>(&*e)) {
        return r(x->m_code == va::output_error_code::zero_value ? "zero_output" : "?", static_cast<long>(x->m_idx));
    }
    auto& x = std::get<va::witness_error>(*e);
    return r(static_cast<int>(x.m_code) < 6 ? wn[static_cast<int>(x.m_code)] : "?", static_cast<long>(x.m_idx));
}

int main(int argc, char** argv) {
    return run(argc, argv, [&](const op& o) {
        if(o.name == "reset") {
            seen.clear();
            slots.clear();
            cs.clear();
            emit(js().str("ev", "reset"));
        } else if(o.name == "t") {
            slots[o.i(0)] = txn();
        } else if(o.name == "copy") {
            // copy s from
            slots[o.i(0)] = slots[o.i(1)];
        } else if(o.name == "i") {
            // i s tx idx c v
            auto& x = slots[o.i(0)];
            auto n = o.a[1];
            tr::input q;
            q.m_prevout.m_tx_id = n[0] == 's' ? tr::tx_id(slots[std::stol(n.substr(1))].t) : sha(n.data(), n.size());
            q.m_prevout.m_index = o.u(2);
            q.m_prevout_data.m_witness_program_commitment = com(o.i(3));
            q.m_prevout_data.m_value = o.u(4);
            x.t.m_inputs.push_back(q);
            x.ic.push_back(o.i(3));
        } else if(o.name == "take") {
            // take s from idx: the output of another transaction
            auto& x = slots[o.i(0)];
            auto& f = slots[o.i(1)];
            auto q = tr::input_from_output(f.t, static_cast<size_t>(o.i(2)));
            if(q) {
                x.t.m_inputs.push_back(*q);
                x.ic.push_back(f.oc.at(static_cast<size_t>(o.i(2))));
            }
        } else if(o.name == "o") {
            auto& x = slots[o.i(0)];
            x.t.m_outputs.emplace_back(com(o.i(1)), o.u(2));
            x.oc.push_back(o.i(1));
        } else if(o.name == "w") {
            // w s len ty key by over
            slots[o.i(0)].w.push_back({o.i(1), o.i(2), o.i(3), o.i(4), o.i(5)});
        } else if(o.name == "swap") {
            // swap s in|out|wit
            auto& x = slots[o.i(0)];
            if(o.a[1] == "in" && x.ic.size() > 1) {
                std::swap(x.t.m_inputs[0], x.t.m_inputs[1]);
                std::swap(x.ic[0], x.ic[1]);
            } else if(o.a[1] == "out" && x.oc.size() > 1) {
                std::swap(x.t.m_outputs[0], x.t.m_outputs[1]);
                std::swap(x.oc[0], x.oc[1]);
            } else if(o.a[1] == "wit" && x.w.size() > 1) {
                std::swap(x.w[0], x.w[1]);
            }
        } else if(o.name == "pop") {
            auto& x = slots[o.i(0)];
            if(o.a[1] == "in" && !x.ic.empty()) {
                x.t.m_inputs.pop_back();
                x.ic.pop_back();
            } else if(o.a[1] == "out" && !x.oc.empty()) {
                x.t.m_outputs.pop_back();
                x.oc.pop_back();
            } else if(o.a[1] == "wit" && !x.w.empty()) {
                x.w.pop_back();
            }
        } else if(o.name == "flip") {
            // flip s in|out j t|i|c|v bit: the smallest change there is
            auto& x = slots[o.i(0)];
            auto j = static_cast<size_t>(o.i(2));
            auto in = o.a[1] == "in";
            auto bit = uint64_t{1} << (o.u(4) % 64);
            if(in ? j < x.ic.size() : j < x.oc.size()) {
                auto& d = in ? x.t.m_inputs[j].m_prevout_data : x.t.m_outputs[j];
                auto& c = in ? x.ic[j] : x.oc[j];
                if(o.a[3] == "v") {
                    d.m_value ^= bit;
                } else if(o.a[3] == "c") {
                    c = c == 1 ? 2 : 1;
                    d.m_witness_program_commitment = com(c);
                } else if(in && o.a[3] == "i") {
                    x.t.m_inputs[j].m_prevout.m_index ^= bit;
                } else if(in) {
                    x.t.m_inputs[j].m_prevout.m_tx_id[o.u(4) % 32] ^= 1;
                }
            }
        } else if(o.name == "uhs") {
            // uhs tx idx c v: the identifier of an output of a transaction
            auto n = o.a[0];
            auto t = sha(n.data(), n.size());
            auto h = tr::uhs_id_from_output(t, o.u(1), tr::output(com(o.i(2)), o.u(3)));
            emit(js().str("ev", "uhs").num("t", in(t)).raw("i", w4(o.u(1))).num("c", o.i(2)).raw("v", w4(o.u(3))).num("id", in(h)));
        } else if(o.name == "check") {
            auto x = slots[o.i(0)];
            std::vector<std::string> ws, bodies;
            std::map<long, size_t> at;
            for(auto& w : x.w) {
                hash_t m{};
                size_t b = 0;
                if(slots.count(w.over) != 0) {
                    if(at.count(w.over) == 0) {
                        bodies.push_back("[" + lst(insj(slots[w.over])) + "," + lst(outsj(slots[w.over])) + "]");
                        at[w.over] = bodies.size();
                    }
                    b = at[w.over];
                    m = tr::tx_id(slots[w.over].t);
                } else {
                    m.fill(static_cast<unsigned char>(w.over));
                }
                witness_t v(97);
                auto p = pub(w.key == 0 ? 1 : w.key);
                auto s = sig(w.by, m);
                v[0] = std::byte(w.ty);
                std::memcpy(&v[1], p.data(), 32);
                std::memcpy(&v[33], s.data(), 64);
                v.resize(static_cast<size_t>(w.len), std::byte(w.ty));
                v.shrink_to_fit();
                x.t.m_witness.push_back(v);
                ws.push_back(js().num("len", w.len).num("ty", w.ty).num("key", w.key).num("by", std::max(0L, w.by)).num("over", static_cast<long>(b)).done());
            }
            auto r = va::check_tx(x.t);
            if(r) {
                (void)va::to_string(*r);
            }
            emit(js().str("ev", "check").list("ins", insj(x)).list("outs", outsj(x)).list("wits", ws).list("bodies", bodies).list("v", verdict(r)));
        } else if(o.name == "id") {
            auto& x = slots[o.i(0)];
            auto t = x.t;
            // witnesses do not change what a transaction is
            t.m_witness.resize(static_cast<size_t>(o.i(1)), witness_t(3));
            auto c = tr::compact_tx(t);
            std::vector<long long> ci, co, fr;
            for(auto& h : c.m_inputs) {
                ci.push_back(in(h));
            }
            for(auto& h : c.m_uhs_outputs) {
                co.push_back(in(h));
            }
            for(size_t i = 0; i < x.oc.size(); i++) {
                auto q = tr::input_from_output(t, i);
                auto q2 = tr::input_from_output(t, i, tr::tx_id(t));
                fr.push_back(q && q2 && *q == *q2 && q->m_prevout_data == t.m_outputs[i] && q->m_prevout.m_index == i && q->m_prevout.m_tx_id == c.m_id ? in(q->hash()) : 0);
            }
            auto none = !tr::input_from_output(t, x.oc.size()) && !tr::input_from_output(t, x.oc.size() + 5, c.m_id);
            emit(js().str("ev", "id").list("ins", insj(x)).list("outs", outsj(x)).num("id", in(tr::tx_id(t))).num("cid", in(c.m_id)).nums("ci", ci).nums("co", co).nums("fr", fr).raw("none", none ? "true" : "false"));
        } else if(o.name == "com") {
            emit(js().str("ev", "com").raw("ok", va::get_p2pk_witness_commitment(pub(o.i(0))) == com(o.i(0)) ? "true" : "false"));
        } else if(o.name == "cmp") {
            cs[o.i(0)] = {tr::compact_tx(slots[o.i(1)].t), {}};
        } else if(o.name == "mut") {
            auto& c = cs[o.i(0)].c;
            switch(o.i(1)) {
                case 0:
                    c.m_id[9] ^= 1;
                    break;
                case 1:
                    if(!c.m_inputs.empty()) {
                        c.m_inputs.pop_back();
                    }
                    break;
                case 2:
                    if(!c.m_uhs_outputs.empty()) {
                        c.m_uhs_outputs.pop_back();
                    }
                    break;
                case 3:
                    c.m_inputs.push_back(com(150));
                    break;
                case 4:
                    c.m_uhs_outputs.push_back(com(151));
                    break;
                case 5:
                    if(c.m_inputs.size() > 1) {
                        std::swap(c.m_inputs[0], c.m_inputs[1]);
                    }
                    break;
                case 6:
                    if(!c.m_uhs_outputs.empty() && !c.m_inputs.empty()) {
                        std::swap(c.m_uhs_outputs[0], c.m_inputs[0]);
                    }
                    break;
                case 7:
                    if(!c.m_uhs_outputs.empty()) {
                        c.m_inputs.push_back(c.m_uhs_outputs[0]);
                        c.m_uhs_outputs.erase(c.m_uhs_outputs.begin());
                    }
                    break;
                case 8:
                    if(!c.m_uhs_outputs.empty()) {
                        c.m_uhs_outputs.back()[31] ^= 128;
                    }
                    break;
                default:
                    if(!c.m_inputs.empty()) {
                        c.m_inputs[0][0] ^= 1;
                    }
            }
        } else if(o.name == "sign") {
            // sign c k
            auto& c = cs[o.i(0)];
            auto a = c.c.sign(ctx, priv(o.i(1)));
            c.c.m_attestations[pub(o.i(1))] = a.second;
            c.a[o.i(1)] = {o.i(1), cont(c.c)};
            emit(js().str("ev", "sign").raw("key", a.first == pub(o.i(1)) ? "true" : "false"));
        } else if(o.name == "mis") {
            // mis c k g: an attestation of k made with another key
            auto& c = cs[o.i(0)];
            auto g = o.i(2);
            auto s = g > 0 ? c.c.sign(ctx, priv(g)).second : sig(-1, c.c.hash());
            c.c.m_attestations[pub(o.i(1))] = s;
            c.a[o.i(1)] = {std::max(0L, g), cont(c.c)};
        } else if(o.name == "put") {
            auto& c = cs[o.i(0)];
            auto& d = cs[o.i(2)];
            if(d.a.count(o.i(1)) != 0) {
                c.a[o.i(1)] = d.a[o.i(1)];
                c.c.m_attestations[pub(o.i(1))] = d.c.m_attestations[pub(o.i(1))];
            }
        } else if(o.name == "drop") {
            auto& c = cs[o.i(0)];
            c.a.erase(o.i(1));
            c.c.m_attestations.erase(pub(o.i(1)));
        } else if(o.name == "chk") {
            // chk c thr known...
            auto& c = cs[o.i(0)];
            std::unordered_set<pubkey_t, hashing::null> ks;
            std::vector<long long> kn;
            for(size_t i = 2; i < o.a.size(); i++) {
                ks.insert(pub(o.i(i)));
                kn.push_back(o.i(i));
            }
            std::vector<std::string> as;
            for(auto& [k, a] : c.a) {
                auto ok = c.c.verify(ctx, {pub(k), c.c.m_attestations[pub(k)]});
                as.push_back(js().num("k", k).num("by", a.by).raw("over", a.over).raw("ok", ok ? "true" : "false").done());
            }
            auto ok = va::check_attestations(c.c, ks, static_cast<size_t>(o.i(1)));
            emit(js().str("ev", "chk").raw("cont", cont(c.c)).num("h", in(c.c.hash())).list("atts", as).num("thr", o.i(1)).nums("known", kn).raw("ok", ok ? "true" : "false"));
        }
    });
}
