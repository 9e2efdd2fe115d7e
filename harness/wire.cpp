// Conformance driver: decodes byte sequences as messages of every type with
// the real serializers, reports what came out and encodes it again.
#include "common.hpp"
#include "parsec/agent/format.hpp"
#include "parsec/agent/messages.hpp"
#include "parsec/runtime_locking_shard/format.hpp"
#include "parsec/runtime_locking_shard/messages.hpp"
#include "parsec/ticket_machine/messages.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/atomizer/messages.hpp"
#include "uhs/atomizer/atomizer/state_machine.hpp"
#include "uhs/atomizer/watchtower/messages.hpp"
#include "uhs/atomizer/watchtower/watchtower.hpp"
#include "uhs/sentinel/format.hpp"
#include "uhs/transaction/messages.hpp"
#include "uhs/twophase/locking_shard/format.hpp"
#include "uhs/twophase/locking_shard/messages.hpp"
#include "uhs/twophase/locking_shard/status_messages.hpp"
#include "util/raft/serialization.hpp"
#include "util/raft/util.hpp"
#include "util/rpc/format.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/istream_serializer.hpp"
#include "util/serialization/ostream_serializer.hpp"
#include <algorithm>
#include <sstream>
using namespace vf;
using namespace cbdc;
namespace tr = cbdc::transaction;
namespace ls = cbdc::locking_shard;
namespace at = cbdc::atomizer;
namespace wt = cbdc::watchtower;
namespace rs = cbdc::parsec::runtime_locking_shard;
namespace ag = cbdc::parsec::agent;
namespace tmach = cbdc::parsec::ticket_machine;
using out_t = std::vector<long long>;

// Contents of values, in the order in which they are sent.
struct F {
template<typename T>
static auto fl(out_t& o, const T& v) -> std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>> {
    unsigned char b[sizeof(T)];
    std::memcpy(b, &v, sizeof(T));
    o.insert(o.end(), b, b + sizeof(T));
}
template<typename T>
static auto fl(out_t&, const T&) -> std::enable_if_t<std::is_empty_v<T>> {}
static void fl(out_t& o, const buffer& b) {
    o.push_back(b.size());
    for(size_t i = 0; i < b.size(); i++) {
        o.push_back(b.c_ptr()[i]);
    }
}
template<size_t N>
static void fl(out_t& o, const std::array<unsigned char, N>& a) {
    o.insert(o.end(), a.begin(), a.end());
}
template<typename A, typename... R>
static void all(out_t& o, const A& a, const R&... r) {
    fl(o, a);
    if constexpr(sizeof...(R) > 0) {
        all(o, r...);
    }
}
#define S(T, ...)                       \
    static void fl(out_t& o, const T& v) {     \
        (void)v;                        \
        all(o, __VA_ARGS__);            \
    }
S(tr::out_point, v.m_tx_id, v.m_index)
S(tr::output, v.m_witness_program_commitment, v.m_value)
S(tr::input, v.m_prevout, v.m_prevout_data)
S(tr::full_tx, v.m_inputs, v.m_outputs, v.m_witness)
S(tr::compact_tx, v.m_id, v.m_inputs, v.m_uhs_outputs, v.m_attestations)
S(tr::validation::input_error, v.m_code, v.m_data_err, v.m_idx)
S(tr::validation::output_error, v.m_code, v.m_idx)
S(tr::validation::witness_error, v.m_code, v.m_idx)
S(sentinel::execute_response, v.m_tx_status, v.m_tx_error)
S(ls::tx, v.m_tx)
S(ls::rpc::request, v.m_dtx_id, v.m_params)
S(ls::rpc::uhs_status_request, v.m_uhs_id)
S(ls::rpc::tx_status_request, v.m_tx_id)
S(at::block, v.m_height, v.m_transactions)
S(at::tx_notify_request, v.m_block_height, v.m_tx, v.m_attestations)
S(at::aggregate_tx_notification, v.m_oldest_attestation, v.m_tx)
S(at::aggregate_tx_notify_request, v.m_agg_txs)
S(at::prune_request, v.m_block_height)
S(at::get_block_request, v.m_block_height)
S(at::make_block_response, v.m_blk, v.m_errs)
S(at::get_block_response, v.m_blk)
S(wt::tx_error_inputs_dne, v.input_uhs_ids())
S(wt::tx_error_inputs_spent, v.input_uhs_ids())
S(wt::tx_error, v.tx_id(), v.info())
S(wt::status_update_request, v.uhs_ids())
S(wt::status_update_state, v.status(), v.block_height(), v.uhs_id())
S(wt::status_request_check_success, v.states())
S(wt::best_block_height_response, v.height())
S(wt::request, v.payload())
S(wt::response, v.payload())
S(rs::rpc::try_lock_request, v.m_ticket_number, v.m_broker_id, v.m_key, v.m_locktype, v.m_first_lock)
S(rs::rpc::prepare_request, v.m_ticket_number, v.m_state_updates, v.m_broker_id)
S(rs::rpc::commit_request, v.m_ticket_number)
S(rs::rpc::rollback_request, v.m_ticket_number)
S(rs::rpc::finish_request, v.m_ticket_number)
S(rs::rpc::get_tickets_request, v.m_broker_id)
S(rs::wounded_details, v.m_wounding_ticket, v.m_wounding_key)
S(rs::shard_error, v.m_error_code, v.m_wounded_details)
S(rs::rpc::replicated_prepare_request, v.m_ticket_number, v.m_broker_id, v.m_state_update)
S(rs::replicated_shard_interface::ticket_type, v.m_state, v.m_broker_id, v.m_state_update)
S(ag::rpc::request, v.m_function, v.m_param, v.m_is_readonly_run)
template<typename T>
static void fl(out_t& o, const rpc::request<T>& v) {
    all(o, v.m_header.m_request_id, v.m_payload);
}
template<typename T>
static void fl(out_t& o, const rpc::response<T>& v) {
    all(o, v.m_header.m_request_id, v.m_payload);
}
template<typename A, typename B>
static void fl(out_t& o, const std::pair<A, B>& p) {
    all(o, p.first, p.second);
}
template<typename T>
static void fl(out_t& o, const std::optional<T>& p) {
    o.push_back(p.has_value());
    if(p.has_value()) {
        fl(o, *p);
    }
}
template<typename T>
static void fl(out_t& o, const std::vector<T>& v) {
    o.push_back(v.size());
    for(size_t i = 0; i < v.size(); i++) {
        fl(o, static_cast<const T&>(v[i]));
    }
}
static void sorted(out_t& o, std::vector<out_t> v) {
    std::sort(v.begin(), v.end());
    o.push_back(v.size());
    for(auto& x : v) {
        o.insert(o.end(), x.begin(), x.end());
    }
}
template<typename K, typename V, typename... R>
static void fl(out_t& o, const std::unordered_map<K, V, R...>& m) {
    std::vector<out_t> v;
    for(auto& [k, x] : m) {
        v.emplace_back();
        all(v.back(), k, x);
    }
    sorted(o, v);
}
template<typename K, typename... R>
static void fl(out_t& o, const std::unordered_set<K, R...>& m) {
    std::vector<out_t> v;
    for(auto& k : m) {
        v.emplace_back();
        fl(v.back(), k);
    }
    sorted(o, v);
}
template<typename... R>
static void fl(out_t& o, const std::variant<R...>& m) {
    o.push_back(m.index());
    std::visit([&](auto& x) { fl(o, x); }, m);
}
};

struct result {
    bool ok;
    out_t f;
    bool operator==(const result&) const = default;
};
template<typename T, typename D>
static std::optional<T> take(D& d) {
    if constexpr(std::is_default_constructible_v<T>) {
        T v{};
        if(!(d >> v)) {
            return std::nullopt;
        }
        return v;
    } else {
        auto v = T(d);
        if(!d) {
            return std::nullopt;
        }
        return v;
    }
}
static result show(const auto& v) {
    result r{v.has_value(), {}};
    if(v) {
        F::fl(r.f, *v);
    }
    return r;
}
static std::vector<unsigned char> bytes(const buffer& b) {
    auto* p = static_cast<const unsigned char*>(b.data());
    return {p, p + b.size()};
}
template<typename T>
static void dec(const std::string& name, const std::vector<long long>& in) {
    buffer b;
    std::vector<unsigned char> raw(in.begin(), in.end());
    b.append(raw.data(), raw.size());
    std::optional<T> v;
    if constexpr(std::is_default_constructible_v<T>) {
        v = from_buffer<T>(b);
    } else {
        auto d = buffer_serializer(b);
        v = take<T>(d);
    }
    auto r = show(v);
    auto nb = nuraft::buffer::alloc(raw.size());
    std::memcpy(nb->data_begin(), raw.data(), raw.size());
    auto nd = nuraft_serializer(*nb);
    std::stringstream ss(std::string(raw.begin(), raw.end()));
    auto id = istream_serializer(ss);
    auto via = show(take<T>(nd)) == r && show(take<T>(id)) == r;
    js j;
    j.str("ev", "dec").str("t", name).nums("b", in).raw("ok", r.ok ? "true" : "false").nums("f", r.f).raw("via", via ? "true" : "false");
    out_t re;
    long sz = 0;
    bool alt = true;
    if(v) {
        auto e = make_buffer(*v);
        for(auto c : bytes(e)) {
            re.push_back(c);
        }
        sz = serialized_size(*v);
        auto nb2 = nuraft::buffer::alloc(e.size());
        auto ns = nuraft_serializer(*nb2);
        ns << *v;
        std::stringstream os;
        auto ods = ostream_serializer(os);
        ods << *v;
        auto s = os.str();
        alt = *make_shared_buffer(*v) == e && static_cast<bool>(ns) && std::memcmp(nb2->data_begin(), e.data(), e.size()) == 0
           && s.size() == e.size() && std::memcmp(s.data(), e.data(), e.size()) == 0;
    }
    j.nums("re", re).num("sz", sz).raw("alt", alt ? "true" : "false");
    emit(j);
}

// Large containers: read in steps.
template<typename T>
static void big(const std::string& kind, long n, long cut, const T& v, auto same) {
    auto b = make_buffer(v);
    buffer c;
    c.append(b.data(), b.size() - cut);
    auto r = from_buffer<T>(c);
    auto nb = make_buffer<T, nuraft::ptr<nuraft::buffer>>(v);
    bool alt = nb->size() == b.size() && std::memcmp(nb->data_begin(), b.data(), b.size()) == 0;
    emit(js().str("ev", "big").num("asz", serialized_size(v)).raw("alt", alt ? "true" : "false").str("k", kind).num("n", n).num("cut", cut).num("sz", b.size()).raw("ok", r ? "true" : "false").raw("same", r && same(*r, v) ? "true" : "false"));
}
static void bigs(const std::string& k, long n, long cut) {
    auto eq = [](auto& a, auto& b) { return a == b; };
    auto h = [](long i) {
        hash_t x{};
        std::memcpy(x.data(), &i, sizeof(i));
        x[31] = static_cast<unsigned char>(i * 7);
        return x;
    };
    if(k == "buf") {
        buffer b;
        std::vector<unsigned char> x(n);
        for(long i = 0; i < n; i++) {
            x[i] = static_cast<unsigned char>(i * 31 + i / 256);
        }
        b.append(x.data(), n);
        big(k, n, cut, b, eq);
    } else if(k == "hashes") {
        std::vector<hash_t> v;
        for(long i = 0; i < n; i++) {
            v.push_back(h(i));
        }
        big(k, n, cut, v, eq);
    } else if(k == "u64s") {
        std::vector<uint64_t> v;
        for(long i = 0; i < n; i++) {
            v.push_back(i * 77777777777ULL);
        }
        big(k, n, cut, v, eq);
    } else if(k == "bools") {
        std::vector<bool> v;
        for(long i = 0; i < n; i++) {
            v.push_back(i % 3 == 1);
        }
        big(k, n, cut, v, eq);
    } else if(k == "hashset") {
        std::unordered_set<hash_t, hashing::null> v;
        for(long i = 0; i < n; i++) {
            v.insert(h(i));
        }
        big(k, n, cut, v, eq);
    } else if(k == "u64set") {
        std::unordered_set<uint64_t> v;
        for(long i = 0; i < n; i++) {
            v.insert(i * 5);
        }
        big(k, n, cut, v, eq);
    } else if(k == "u64map") {
        std::unordered_map<uint64_t, hash_t> v;
        for(long i = 0; i < n; i++) {
            v[i] = h(i * 3);
        }
        big(k, n, cut, v, eq);
    } else if(k == "werrs") {
        std::vector<wt::tx_error> v;
        for(long i = 0; i < n; i++) {
            v.push_back(wt::tx_error(h(i), wt::tx_error_inputs_dne({h(i + 1)})));
        }
        big(k, n, cut, v, eq);
    }
}

using mix = std::variant<uint64_t, buffer, std::optional<std::optional<uint8_t>>, std::monostate, std::unordered_map<uint8_t, buffer>>;
static const std::map<std::string, void (*)(const std::string&, const std::vector<long long>&)> types = {
#define D(n, ...) {#n, dec<__VA_ARGS__>},
    D(u8, uint8_t) D(u32, uint32_t) D(u64, uint64_t) D(hash, hash_t) D(pubkey, pubkey_t) D(sig, signature_t)
    D(bool, bool) D(buf, buffer) D(nil, std::monostate) D(bools, std::vector<bool>) D(bufs, std::vector<buffer>)
    D(hashes, std::vector<hash_t>) D(u8opt, std::optional<uint8_t>) D(optopt, std::optional<std::optional<uint8_t>>)
    D(u64set, std::unordered_set<uint64_t>) D(hashset, std::unordered_set<hash_t, hashing::null>)
    D(u8map, std::unordered_map<uint8_t, buffer>) D(mix, mix) D(mixes, std::vector<mix>) D(mixpair, std::pair<mix, std::vector<bool>>)
    D(out_point, tr::out_point) D(output, tr::output) D(input, tr::input) D(inputs, std::vector<tr::input>)
    D(outputs, std::vector<tr::output>) D(full_tx, tr::full_tx) D(attest, tr::sentinel_attestation)
    D(attests, decltype(tr::compact_tx::m_attestations)) D(compact_tx, tr::compact_tx) D(ctxs, std::vector<tr::compact_tx>)
    D(in_err, tr::validation::input_error) D(pos_err, tr::validation::witness_error) D(tx_err, tr::validation::tx_error)
    D(tx_erropt, std::optional<tr::validation::tx_error>) D(exec_resp, sentinel::execute_response)
    D(sentinel_request, sentinel::request) D(sentinel_response, sentinel::response)
    D(lshard_params, decltype(ls::rpc::request::m_params)) D(lshard_request, ls::rpc::request) D(lshard_response, ls::rpc::response)
    D(status_request, ls::rpc::status_request)
    D(block, at::block) D(blockopt, std::optional<at::block>) D(tx_notify, at::tx_notify_request) D(agg_tx, at::aggregate_tx_notification)
    D(agg_req, at::aggregate_tx_notify_request) D(atomizer_request, at::request) D(raft_request, at::state_machine::request)
    D(werr, wt::tx_error) D(werrs, at::errors) D(block_errs, at::make_block_response) D(raft_response, at::state_machine::response)
    D(asks, wt::tx_id_uhs_ids) D(wt_request, wt::request) D(wt_state, wt::status_update_state) D(wt_states, std::vector<wt::status_update_state>)
    D(wt_answers, wt::tx_id_states) D(wt_response, wt::response)
    D(updates, rs::state_update_type) D(try_lock, rs::rpc::try_lock_request) D(prepare, rs::rpc::prepare_request)
    D(rls_request, rs::rpc::request) D(wounded, rs::wounded_details) D(woundedopt, std::optional<rs::wounded_details>)
    D(shard_error, rs::shard_error) D(serropt, std::optional<rs::shard_error>) D(lock_ret, rs::interface::try_lock_return_type)
    D(ticket_map, rs::interface::get_tickets_success_type) D(tickets_ret, rs::interface::get_tickets_return_type)
    D(rls_response, rs::rpc::response) D(rprepare, rs::rpc::replicated_prepare_request) D(repl_request, rs::rpc::replicated_request)
    D(rticket, rs::replicated_shard_interface::ticket_type) D(rtickets, rs::replicated_shard_interface::tickets_type)
    D(rtickets_ret, rs::replicated_shard_interface::get_tickets_return_type) D(repl_response, rs::rpc::replicated_response)
    D(agent_request, ag::rpc::request) D(agent_response, ag::rpc::response)
    D(trange, tmach::interface::ticket_number_range_type) D(ticket_request, tmach::rpc::request) D(ticket_response, tmach::rpc::response)
    D(rpc_lshard_request, rpc::request<ls::rpc::request>) D(lresp_opt, std::optional<ls::rpc::response>)
    D(rpc_lshard_response, rpc::response<ls::rpc::response>) D(tresp_opt, std::optional<tmach::rpc::response>)
    D(rpc_ticket_response, rpc::response<tmach::rpc::response>)
};

int main(int argc, char** argv) {
    return run(argc, argv, [](const op& o) {
        if(o.name == "reset") {
            emit(js().str("ev", "reset"));
        } else if(o.name == "dec") {
            std::vector<long long> in;
            if(o.a.size() > 1) {
                std::istringstream ss(o.a[1]);
                std::string t;
                while(std::getline(ss, t, ',')) {
                    in.push_back(std::stol(t));
                }
            }
            auto it = types.find(o.a[0]);
            if(it == types.end()) {
                emit(js().str("ev", "untyped-" + o.a[0]));
            } else {
                it->second(o.a[0], in);
            }
        } else if(o.name == "big") {
            bigs(o.a[0], o.i(1), o.i(2));
        }
    });
}
