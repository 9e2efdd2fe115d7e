// Stand-in for util/network/tcp_socket.hpp: a request-response connection that
// is answered by the conformance driver.
#ifndef OPENCBDC_TX_SRC_NETWORK_TCP_SOCKET_H_
#define OPENCBDC_TX_SRC_NETWORK_TCP_SOCKET_H_
#include "util/common/buffer.hpp"
#include "util/network/socket.hpp"
#include "util/serialization/util.hpp"

#include <atomic>
#include <functional>
#include <optional>

namespace cbdc::network {
    class tcp_socket {
      public:
        // Answers a request sent to an endpoint, nullopt: the connection fails.
        static auto answer() -> std::function<
            std::optional<buffer>(const endpoint_t&, const buffer&)>& {
            static auto* f = new std::function<
                std::optional<buffer>(const endpoint_t&, const buffer&)>();
            return *f;
        }
        tcp_socket() = default;
        ~tcp_socket() = default;
        auto connect(const endpoint_t& ep) -> bool {
            m_ep = ep;
            m_connected = true;
            return true;
        }
        auto connect(const ip_address& a, port_number_t p) -> bool {
            return connect(endpoint_t{a, p});
        }
        [[nodiscard]] auto send(const buffer& pkt) const -> bool {
            m_reply = answer()(m_ep, pkt);
            return true;
        }
        template<typename T>
        [[nodiscard]] auto send(const T& data) const -> bool {
            auto pkt = make_buffer(data);
            return send(pkt);
        }
        [[nodiscard]] auto receive(buffer& pkt) const -> bool {
            if(!m_reply.has_value()) {
                return false;
            }
            pkt = std::move(m_reply.value());
            m_reply.reset();
            return true;
        }
        void disconnect() {
            m_connected = false;
        }
        auto reconnect() -> bool {
            m_connected = true;
            return true;
        }
        [[nodiscard]] auto connected() const -> bool {
            return m_connected;
        }

        [[nodiscard]] auto peer() const -> const endpoint_t& {
            return m_ep;
        }

      private:
        endpoint_t m_ep;
        mutable std::optional<buffer> m_reply;
        std::atomic_bool m_connected{false};
    };
}
#endif
