// Shared by the drivers of the two-phase-commit UHS: ids, shards behind their
// replicated state machines, and the status path.
#ifndef VERIF_PC_HPP
#define VERIF_PC_HPP
#include "common.hpp"
#include <set>
#include "uhs/twophase/locking_shard/format.hpp"
#include "uhs/twophase/locking_shard/state_machine.hpp"
#include "uhs/twophase/locking_shard/status_client.hpp"
#include "uhs/twophase/locking_shard/status_server.hpp"
#include "util/rpc/format.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"

namespace pc {
    namespace ls = cbdc::locking_shard;
    using cbdc::hash_t;
    inline long& ns() {
        static long n = 1;
        return n;
    }
    inline uint64_t& salt() {
        static uint64_t s = 0;
        return s;
    }
    // Number x belongs to shard x modulo ns.
    inline hash_t mkh(long x, unsigned char what) {
        hash_t h{};
        h[0] = static_cast<unsigned char>((x % ns()) * (256 / ns()) + (static_cast<uint64_t>(x) * 37 + what) % (256 / ns()));
        auto v = static_cast<uint32_t>(x);
        std::memcpy(h.data() + 1, &v, sizeof(v));
        auto s = salt();
        std::memcpy(h.data() + 8, &s, sizeof(s));
        h[20] = what;
        return h;
    }
    inline long num(const hash_t& h, unsigned char what) {
        uint32_t v{};
        std::memcpy(&v, h.data() + 1, sizeof(v));
        return mkh(v, what) == h ? static_cast<long>(v) : -1;
    }
    inline hash_t uid(long x) {
        return mkh(x, 1);
    }
    inline hash_t tid(long x) {
        return mkh(x, 2);
    }
    inline std::pair<uint8_t, uint8_t> range(long s) {
        auto w = 256 / ns();
        return {static_cast<uint8_t>(s * w), static_cast<uint8_t>(s == ns() - 1 ? 255 : (s + 1) * w - 1)};
    }
    inline cbdc::transaction::compact_tx mktx(long id, const std::vector<long>& ins, const std::vector<long>& outs) {
        cbdc::transaction::compact_tx t;
        t.m_id = tid(id);
        for(auto i : ins) {
            t.m_inputs.push_back(uid(i));
        }
        for(auto o : outs) {
            t.m_uhs_outputs.push_back(uid(o));
        }
        return t;
    }
    inline std::vector<long> nums(const std::string& s) {
        std::vector<long> r;
        std::istringstream ss(s);
        std::string t;
        while(std::getline(ss, t, ',')) {
            if(t != "-" && !t.empty()) {
                r.push_back(std::stol(t));
            }
        }
        return r;
    }
    inline std::string arr(const std::vector<long>& v) {
        std::string s = "[";
        for(size_t i = 0; i < v.size(); i++) {
            s += (i != 0U ? "," : "") + std::to_string(v[i]);
        }
        return s + "]";
    }

    struct status_srv : public cbdc::rpc::blocking_server<ls::rpc::status_request, ls::rpc::status_response> {
        std::optional<cbdc::buffer> go(cbdc::buffer b) {
            return blocking_call(std::move(b));
        }
    };
    struct shard {
        nuraft::ptr<ls::state_machine> sm;
        uint64_t idx{0};
        std::unique_ptr<ls::rpc::status_server> st;
        status_srv* ss{nullptr};
        std::vector<cbdc::buffer> log;
        std::pair<uint8_t, uint8_t> rng;
        long k{0};
        void make(const std::string& preseed) {
            cbdc::config::options o;
            o.m_attestation_threshold = 0;
            st.reset();
            sm = nuraft::cs_new<ls::state_machine>(rng, vf::logger(), static_cast<size_t>(k), preseed, o);
            idx = 0;
            auto s = std::make_unique<status_srv>();
            ss = s.get();
            st = std::make_unique<ls::rpc::status_server>(sm->get_shard_instance(), std::move(s));
        }
        // A replicated request; empty if the state machine gave no answer.
        std::optional<cbdc::buffer> commit(const cbdc::buffer& b, bool record = true) {
            if(record) {
                log.push_back(b);
            }
            auto nb = nuraft::buffer::alloc(b.size());
            std::memcpy(nb->data_begin(), b.data(), b.size());
            auto r = sm->commit(++idx, *nb);
            if(!r) {
                return std::nullopt;
            }
            cbdc::buffer out;
            out.append(r->data_begin(), r->size());
            return out;
        }
        void failover() {
            make("");
            for(auto& b : log) {
                commit(b, false);
            }
        }
    };
    using req = cbdc::rpc::request<ls::rpc::request>;
    using resp = cbdc::rpc::response<ls::rpc::response>;
}
#endif
