// Outputs and transactions of the specifications are numbers; here they become
// hashes and back.
#ifndef VERIF_IDS_HPP
#define VERIF_IDS_HPP
#include "common.hpp"
#include "uhs/atomizer/atomizer/block.hpp"
#include "uhs/atomizer/watchtower/tx_error_messages.hpp"
#include "uhs/transaction/transaction.hpp"
#include <map>
using cbdc::hash_t;
static hash_t uid(long x) {
    hash_t h{};
    h[0] = static_cast<unsigned char>(x);
    std::memcpy(h.data() + 1, &x, sizeof(x));
    h[20] = 1;
    return h;
}
static hash_t tid(long x) {
    auto h = uid(x);
    h[20] = 2;
    return h;
}
[[maybe_unused]] static long num(const hash_t& h, unsigned char what) {
    long x{};
    std::memcpy(&x, h.data() + 1, sizeof(x));
    return (what == 1 ? uid(x) : tid(x)) == h ? x : -1;
}
struct def {
    std::vector<long long> ins, outs;
};
static std::map<long, def> defs;
[[maybe_unused]] static std::vector<long long> nums(const std::string& s, char sep = ',') {
    std::vector<long long> r;
    std::istringstream ss(s);
    std::string t;
    while(std::getline(ss, t, sep)) {
        if(t != "-" && !t.empty()) {
            r.push_back(std::stol(t));
        }
    }
    return r;
}
[[maybe_unused]] static std::string arr(const std::vector<long long>& v) {
    std::string s = "[";
    for(size_t i = 0; i < v.size(); i++) {
        s += (i ? "," : "") + std::to_string(v[i]);
    }
    return s + "]";
}
[[maybe_unused]] static cbdc::transaction::compact_tx mktx(long t) {
    cbdc::transaction::compact_tx x;
    x.m_id = tid(t);
    for(auto i : defs[t].ins) {
        x.m_inputs.push_back(uid(i));
    }
    for(auto i : defs[t].outs) {
        x.m_uhs_outputs.push_back(uid(i));
    }
    return x;
}
[[maybe_unused]] static cbdc::atomizer::block mkblk(uint64_t h, const std::vector<long long>& txs) {
    cbdc::atomizer::block b;
    b.m_height = h;
    for(auto t : txs) {
        b.m_transactions.push_back(mktx(t));
    }
    return b;
}
[[maybe_unused]] static std::string txs_js(const std::vector<long long>& txs) {
    std::string s = "[";
    for(size_t i = 0; i < txs.size(); i++) {
        s += (i ? "," : "") + std::string("{\"id\":") + std::to_string(txs[i]) + ",\"ins\":" + arr(defs[txs[i]].ins) + ",\"outs\":" + arr(defs[txs[i]].outs) + "}";
    }
    return s + "]";
}
#endif
