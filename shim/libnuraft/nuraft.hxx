// A deterministic, in-process stand-in for the parts of NuRaft's interface the
// repository uses.  An appended entry waits in the server's pending queue
// until the driver commits it, so the driver decides every interleaving and
// every crash point.  Nothing here implements consensus: replication order and
// durability of committed entries are assumptions of the checks.
#ifndef VERIF_SHIM_NURAFT
#define VERIF_SHIM_NURAFT
#include <atomic>
#include <cassert>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <list>
#include <memory>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>

namespace nuraft {
    using ulong = uint64_t;
    using byte = uint8_t;
    using int32 = int32_t;
    template<typename T>
    using ptr = std::shared_ptr<T>;
    template<typename T, typename... A>
    ptr<T> cs_new(A&&... a) {
        return std::make_shared<T>(std::forward<A>(a)...);
    }

    class buffer {
      public:
        explicit buffer(size_t n) : m_data(n) {}
        static ptr<buffer> alloc(size_t n) {
            return std::make_shared<buffer>(n);
        }
        static ptr<buffer> copy(const buffer& b) {
            auto r = alloc(b.size() - b.pos());
            std::memcpy(r->data_begin(), b.m_data.data() + b.pos(), r->size());
            return r;
        }
        static ptr<buffer> clone(const buffer& b) {
            auto r = alloc(b.size());
            r->m_data = b.m_data;
            return r;
        }
        size_t size() const {
            return m_data.size();
        }
        size_t pos() const {
            return m_pos;
        }
        void pos(size_t p) {
            m_pos = p > m_data.size() ? m_data.size() : p;
        }
        byte* data_begin() const {
            return const_cast<byte*>(m_data.data());
        }
        byte* data() const {
            return const_cast<byte*>(m_data.data()) + m_pos;
        }
        void put_raw(const byte* b, size_t n) {
            assert(m_pos + n <= m_data.size());
            std::memcpy(m_data.data() + m_pos, b, n);
            m_pos += n;
        }
        byte* get_raw(size_t n) {
            assert(m_pos + n <= m_data.size());
            auto* r = m_data.data() + m_pos;
            m_pos += n;
            return r;
        }

      private:
        std::vector<byte> m_data;
        size_t m_pos{0};
    };

    class buffer_serializer {
      public:
        explicit buffer_serializer(buffer& b) : m_b(b) {
            m_b.pos(0);
        }
        explicit buffer_serializer(const ptr<buffer>& b) : m_b(*b) {
            m_b.pos(0);
        }
        void put_u64(uint64_t v) {
            m_b.put_raw(reinterpret_cast<byte*>(&v), sizeof(v));
        }
        uint64_t get_u64() {
            uint64_t v{};
            std::memcpy(&v, m_b.get_raw(sizeof(v)), sizeof(v));
            return v;
        }
        void put_raw(const void* p, size_t n) {
            m_b.put_raw(static_cast<const byte*>(p), n);
        }
        void* get_raw(size_t n) {
            return m_b.get_raw(n);
        }
        void get_buffer(ptr<buffer>& dst) {
            auto n = dst->size() - dst->pos();
            std::memcpy(dst->data(), m_b.get_raw(n), n);
        }

      private:
        buffer& m_b;
    };

    class srv_config {
      public:
        srv_config(int32 id, std::string ep) : m_id(id), m_ep(std::move(ep)) {}
        void set_priority(int32 p) {
            m_prio = p;
        }
        int32 get_id() const {
            return m_id;
        }
        const std::string& get_endpoint() const {
            return m_ep;
        }
        int32 m_id;
        std::string m_ep;
        int32 m_prio{1};
    };

    class cluster_config {
      public:
        explicit cluster_config(ulong log_idx = 0, ulong prev = 0) : m_idx(log_idx), m_prev(prev) {}
        std::list<ptr<srv_config>>& get_servers() {
            return m_srvs;
        }
        ulong get_log_idx() const {
            return m_idx;
        }
        ptr<buffer> serialize() const {
            size_t n = 24;
            for(auto& x : m_srvs) {
                n += 24 + x->m_ep.size();
            }
            auto b = buffer::alloc(n);
            buffer_serializer s(b);
            s.put_u64(m_idx);
            s.put_u64(m_prev);
            s.put_u64(m_srvs.size());
            for(auto& x : m_srvs) {
                s.put_u64(static_cast<ulong>(x->m_id));
                s.put_u64(static_cast<ulong>(x->m_prio));
                s.put_u64(x->m_ep.size());
                s.put_raw(x->m_ep.data(), x->m_ep.size());
            }
            b->pos(0);
            return b;
        }
        static ptr<cluster_config> deserialize(buffer& b) {
            buffer_serializer s(b);
            auto i = s.get_u64();
            auto r = cs_new<cluster_config>(i, s.get_u64());
            for(auto k = s.get_u64(); k > 0; k--) {
                auto id = static_cast<int32>(s.get_u64());
                auto pr = static_cast<int32>(s.get_u64());
                auto l = s.get_u64();
                auto x = cs_new<srv_config>(id, std::string(static_cast<const char*>(s.get_raw(l)), l));
                x->set_priority(pr);
                r->m_srvs.push_back(x);
            }
            return r;
        }

      private:
        ulong m_idx;
        ulong m_prev;
        std::list<ptr<srv_config>> m_srvs;
    };

    class srv_state {
      public:
        srv_state() = default;
        srv_state(ulong term, int32 vote) : m_term(term), m_vote(vote) {}
        ulong get_term() const {
            return m_term;
        }
        int32 get_voted_for() const {
            return m_vote;
        }
        ptr<buffer> serialize() const {
            auto b = buffer::alloc(16);
            buffer_serializer s(b);
            s.put_u64(m_term);
            s.put_u64(static_cast<ulong>(m_vote));
            b->pos(0);
            return b;
        }
        static ptr<srv_state> deserialize(buffer& b) {
            buffer_serializer s(b);
            auto t = s.get_u64();
            return cs_new<srv_state>(t, static_cast<int32>(s.get_u64()));
        }

      private:
        ulong m_term{0};
        int32 m_vote{-1};
    };

    class snapshot {
      public:
        snapshot(ulong idx, ulong term, ptr<cluster_config> c = nullptr, ulong size = 0)
            : m_idx(idx), m_term(term), m_cfg(std::move(c)), m_size(size) {}
        ulong get_last_log_idx() const {
            return m_idx;
        }
        ulong get_last_log_term() const {
            return m_term;
        }
        void set_size(ulong s) {
            m_size = s;
        }
        ptr<buffer> serialize() const {
            auto b = buffer::alloc(24);
            buffer_serializer s(b);
            s.put_u64(m_idx);
            s.put_u64(m_term);
            s.put_u64(m_size);
            b->pos(0);
            return b;
        }
        static ptr<snapshot> deserialize(buffer& b) {
            buffer_serializer s(b);
            auto i = s.get_u64();
            auto t = s.get_u64();
            auto z = s.get_u64();
            return cs_new<snapshot>(i, t, nullptr, z);
        }

      private:
        ulong m_idx;
        ulong m_term;
        ptr<cluster_config> m_cfg;
        ulong m_size;
    };

    class log_entry {
      public:
        log_entry(ulong term, const ptr<buffer>& b) : m_term(term), m_buf(b) {}
        ulong get_term() const {
            return m_term;
        }
        bool is_buf_null() const {
            return m_buf == nullptr;
        }
        buffer& get_buf() const {
            return *m_buf;
        }
        ptr<buffer> get_buf_ptr() const {
            return m_buf;
        }
        ptr<buffer> serialize() {
            auto n = m_buf ? m_buf->size() : 0;
            auto b = buffer::alloc(sizeof(ulong) + n);
            buffer_serializer s(b);
            s.put_u64(m_term);
            if(n != 0) {
                s.put_raw(m_buf->data_begin(), n);
            }
            b->pos(0);
            return b;
        }
        static ptr<log_entry> deserialize(buffer& b) {
            buffer_serializer s(b);
            auto t = s.get_u64();
            auto p = buffer::alloc(b.size() - sizeof(ulong));
            if(p->size() != 0) {
                std::memcpy(p->data_begin(), b.get_raw(p->size()), p->size());
            }
            return cs_new<log_entry>(t, p);
        }

      private:
        ulong m_term;
        ptr<buffer> m_buf;
    };

    template<typename T, typename E = ptr<std::exception>>
    class async_result {
      public:
        using handler_type = std::function<void(T&, E&)>;
    };

    class log_store {
      public:
        virtual ~log_store() = default;
        virtual ulong next_slot() const = 0;
        virtual ulong start_index() const = 0;
        virtual ptr<log_entry> last_entry() const = 0;
        virtual ulong append(ptr<log_entry>& entry) = 0;
        virtual void write_at(ulong index, ptr<log_entry>& entry) = 0;
        virtual ptr<std::vector<ptr<log_entry>>> log_entries(ulong start, ulong end) = 0;
        virtual ptr<log_entry> entry_at(ulong index) = 0;
        virtual ulong term_at(ulong index) = 0;
        virtual ptr<buffer> pack(ulong index, int32 cnt) = 0;
        virtual void apply_pack(ulong index, buffer& pack) = 0;
        virtual bool compact(ulong last_log_index) = 0;
        virtual bool flush() = 0;
    };

    class state_machine {
      public:
        virtual ~state_machine() = default;
        virtual ptr<buffer> commit(const ulong, buffer&) {
            return nullptr;
        }
        virtual void commit_config(const ulong, ptr<cluster_config>&) {}
        virtual ptr<buffer> pre_commit(const ulong, buffer&) {
            return nullptr;
        }
        virtual void rollback(const ulong, buffer&) {}
        virtual int read_logical_snp_obj(snapshot&, void*&, ulong, ptr<buffer>&, bool&) {
            return 0;
        }
        virtual void save_logical_snp_obj(snapshot&, ulong&, buffer&, bool, bool) {}
        virtual bool apply_snapshot(snapshot&) = 0;
        virtual ptr<snapshot> last_snapshot() = 0;
        virtual ulong last_commit_index() = 0;
        virtual void create_snapshot(snapshot&, async_result<bool>::handler_type&) = 0;
    };

    class logger {
      public:
        virtual ~logger() = default;
        virtual void put_details(int, const char*, const char*, size_t, const std::string&) {}
        virtual int get_level() {
            return 0;
        }
    };

    class state_mgr {
      public:
        virtual ~state_mgr() = default;
        virtual ptr<cluster_config> load_config() = 0;
        virtual void save_config(const cluster_config&) = 0;
        virtual void save_state(const srv_state&) = 0;
        virtual ptr<srv_state> read_state() = 0;
        virtual ptr<log_store> load_log_store() = 0;
        virtual int32 server_id() = 0;
        virtual void system_exit(const int) = 0;
    };

    struct raft_params {
        enum return_method_type { blocking, async_handler };
        int election_timeout_lower_bound_{};
        int election_timeout_upper_bound_{};
        int heart_beat_interval_{};
        int snapshot_distance_{};
        int max_append_size_{};
        int reserved_log_items_{};
        bool auto_forwarding_{};
        return_method_type return_method_{blocking};
    };

    struct cb_func {
        enum Type { BecomeLeader, BecomeFollower, Other };
        enum ReturnCode { Ok, ReturnNull };
        struct Param {
            int32 myId{};
            int32 leaderId{};
            void* ctx{};
        };
        using func_type = std::function<ReturnCode(Type, Param*)>;
    };

    enum cmd_result_code { OK = 0, CANCELLED = -1, TIMEOUT = -2, NOT_LEADER = -3, FAILED = -4 };

    template<typename T>
    class cmd_result {
      public:
        using handler_type = std::function<void(cmd_result<T>&, ptr<std::exception>&)>;
        bool get_accepted() const {
            return m_accepted;
        }
        cmd_result_code get_result_code() const {
            return m_code;
        }
        T get() {
            return m_val;
        }
        void when_ready(const handler_type& h) {
            if(m_done) {
                h(*this, m_err);
            } else {
                m_handler = h;
            }
        }
        void complete(T v, bool ok) {
            m_done = true;
            m_val = std::move(v);
            m_code = ok ? OK : FAILED;
            if(!ok) {
                m_err = std::make_shared<std::exception>();
            }
            if(m_handler) {
                m_handler(*this, m_err);
            }
        }
        bool m_accepted{true};
        bool m_done{false};
        cmd_result_code m_code{OK};
        T m_val{};
        ptr<std::exception> m_err;
        handler_type m_handler;
    };

    class raft_server {
      public:
        struct init_options {
            cb_func::func_type raft_callback_;
            bool skip_initial_election_timeout_{false};
        };
        using result = cmd_result<ptr<buffer>>;
        struct entry {
            ptr<buffer> m_buf;
            ptr<result> m_res;
        };

        bool is_initialized() const {
            return true;
        }
        bool is_leader() const {
            return m_leader;
        }
        void shutdown() {}

        ptr<result> append_entries(const std::vector<ptr<buffer>>& logs) {
            auto r = std::make_shared<result>();
            if(!m_leader) {
                r->m_accepted = false;
                r->m_code = NOT_LEADER;
                return r;
            }
            if(m_blocking && m_gate) {
                for(auto& b : logs) {
                    m_gate(*this, b, r);
                }
                return r;
            }
            for(auto& b : logs) {
                m_pending.push_back({b, r});
            }
            if(m_blocking) {
                while(!m_pending.empty()) {
                    commit_next(true);
                }
            }
            return r;
        }
        // Commits the oldest pending entry.  `notify` is false when the
        // replica that appended it is gone.
        bool commit_next(bool notify) {
            if(m_pending.empty()) {
                return false;
            }
            auto e = std::move(m_pending.front());
            m_pending.pop_front();
            e.m_buf->pos(0);
            auto v = m_sm->commit(m_sm->last_commit_index() + 1, *e.m_buf);
            if(v) {
                v->pos(0);
            }
            if(notify) {
                e.m_res->complete(v, true);
            }
            return true;
        }

        ptr<state_machine> m_sm;
        std::deque<entry> m_pending;
        std::atomic_bool m_leader{true};
        bool m_blocking{false};
        // If set, a blocking append is handed to the driver, which completes
        // the result before returning.
        std::function<void(raft_server&, ptr<buffer>, ptr<result>)> m_gate;
        cb_func::func_type m_cb;
    };

    struct asio_service {
        struct options {
            size_t thread_pool_size_{0};
        };
    };

    namespace fake {
        inline bool& start_as_follower() {
            static bool b{false};
            return b;
        }
        // The server of the node created last; what a driver works with.
        inline ptr<raft_server>& last() {
            static ptr<raft_server> p;
            return p;
        }
        inline bool& auto_leader() {
            static bool b{false};
            return b;
        }
    }

    class raft_launcher {
      public:
        ptr<raft_server> init(ptr<state_machine> sm,
                              ptr<state_mgr>,
                              ptr<logger>,
                              int,
                              const asio_service::options&,
                              const raft_params& p,
                              const raft_server::init_options& o) {
            m_srv = std::make_shared<raft_server>();
            m_srv->m_sm = std::move(sm);
            m_srv->m_blocking = p.return_method_ == raft_params::blocking;
            m_srv->m_cb = o.raft_callback_;
            m_srv->m_leader = !fake::start_as_follower();
            fake::last() = m_srv;
            return m_srv;
        }
        bool shutdown(size_t = 5) {
            m_srv.reset();
            return true;
        }
        ptr<raft_server> get_raft_server() const {
            return m_srv;
        }

      private:
        ptr<raft_server> m_srv;
    };
}
#endif
