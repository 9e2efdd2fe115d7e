// Stand-in for util/network/connection_manager.hpp: packets are handed to the
// conformance driver, which also calls the packet handlers.
#ifndef OPENCBDC_TX_SRC_NETWORK_CONNECTION_MANAGER_H_
#define OPENCBDC_TX_SRC_NETWORK_CONNECTION_MANAGER_H_
#include "util/common/blocking_queue.hpp"
#include "util/common/buffer.hpp"
#include "util/common/config.hpp"
#include "util/network/tcp_socket.hpp"
#include "util/serialization/buffer_serializer.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"

#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <thread>
#include <vector>

namespace cbdc::network {
    using peer_id_t = size_t;
    struct message_t {
        std::shared_ptr<buffer> m_pkt;
        peer_id_t m_peer_id{};
    };
    using packet_handler_t = std::function<std::optional<buffer>(message_t&&)>;

    class connection_manager {
      public:
        enum class kind { broadcast, one, peer };
        // Driver's view.
        using hook_t = std::function<bool(connection_manager&, kind, const std::shared_ptr<buffer>&, peer_id_t)>;
        static auto hook() -> hook_t& {
            static auto* f = new hook_t();
            return *f;
        }
        static auto all() -> std::vector<connection_manager*>& {
            static auto* v = new std::vector<connection_manager*>();
            return *v;
        }
        // Whether a peer (of add()) is connected.
        static auto is_connected() -> std::function<bool(connection_manager&, peer_id_t)>& {
            static auto* f = new std::function<bool(connection_manager&, peer_id_t)>();
            return *f;
        }
        std::vector<endpoint_t> m_eps;
        std::optional<endpoint_t> m_listen;
        packet_handler_t m_handler;

        connection_manager() {
            all().push_back(this);
        }
        connection_manager(const connection_manager&) = delete;
        auto operator=(const connection_manager&) -> connection_manager& = delete;
        ~connection_manager() {
            std::erase(all(), this);
        }
        auto add(std::unique_ptr<tcp_socket> sock) -> peer_id_t {
            m_eps.push_back(sock->peer());
            return m_eps.size() - 1;
        }
        auto cluster_connect(const std::vector<endpoint_t>& endpoints,
                             bool /* error_fatal */ = true) -> bool {
            m_eps = endpoints;
            return true;
        }
        [[nodiscard]] auto start_cluster_handler(const std::vector<endpoint_t>& endpoints,
                                                 const packet_handler_t& handler)
            -> std::optional<std::thread> {
            m_eps = endpoints;
            return start_handler(handler);
        }
        [[nodiscard]] auto start_server(const endpoint_t& ep, const packet_handler_t& handler)
            -> std::optional<std::thread> {
            m_listen = ep;
            return start_handler(handler);
        }
        [[nodiscard]] auto start_handler(const packet_handler_t& handler) -> std::thread {
            m_handler = handler;
            return std::thread([] {});
        }
        void broadcast(const std::shared_ptr<buffer>& data) {
            (void)hook()(*this, kind::broadcast, data, 0);
        }
        template<typename T>
        void broadcast(const T& data) {
            broadcast(make_shared_buffer(data));
        }
        void send(const std::shared_ptr<buffer>& data, peer_id_t peer) {
            (void)hook()(*this, kind::peer, data, peer);
        }
        template<typename T>
        void send(const T& data, peer_id_t peer) {
            send(make_shared_buffer(data), peer);
        }
        [[nodiscard]] auto send_to_one(const std::shared_ptr<buffer>& data) -> bool {
            return hook()(*this, kind::one, data, 0);
        }
        template<typename T>
        [[nodiscard]] auto send_to_one(const T& data) -> bool {
            return send_to_one(make_shared_buffer(data));
        }
        void close() {}
        void reset() {}
        [[nodiscard]] auto peer_count() -> size_t {
            return m_eps.size();
        }
        [[nodiscard]] auto connected(peer_id_t p) -> bool {
            return !is_connected() || is_connected()(*this, p);
        }
        [[nodiscard]] auto connected_to_one() -> bool {
            return true;
        }
    };
}
#endif
