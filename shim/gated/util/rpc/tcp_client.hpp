// Stand-in for the TCP RPC client: a call is handed to the driver as bytes
// (vf::net_call), which decides when and whether it is answered.
#ifndef VERIF_GATED_TCP_CLIENT
#define VERIF_GATED_TCP_CLIENT
#include "util/rpc/client.hpp"
#include "util/common/variant_overloaded.hpp"
#include "util/network/socket.hpp"
#include <condition_variable>
#include <mutex>
#include <optional>
#include <vector>
namespace vf {
    // Blocks until the driver answers, fails or `closed` becomes true.
    std::optional<cbdc::buffer>
    net_call(const void* who, unsigned short port, cbdc::buffer req);
    // Releases and waits for all calls of `who`.
    void net_close(const void* who);
    void net_async(unsigned short port,
                   cbdc::buffer req,
                   std::function<void(std::optional<cbdc::buffer>)> cb);
}
namespace cbdc::rpc {
    template<typename Request, typename Response>
    class tcp_client : public client<Request, Response> {
      public:
        explicit tcp_client(std::vector<network::endpoint_t> eps) : m_eps(std::move(eps)) {}
        ~tcp_client() override {
            vf::net_close(this);
        }
        using response_type = typename client<Request, Response>::response_type;
        using raw_callback_type = typename client<Request, Response>::raw_callback_type;
        [[nodiscard]] auto init(std::optional<bool> = std::nullopt) -> bool {
            return true;
        }

      private:
        std::vector<network::endpoint_t> m_eps;
        auto call_raw(cbdc::buffer buf, request_id_type, std::chrono::milliseconds)
            -> std::optional<response_type> override {
            auto r = vf::net_call(this, m_eps[0].second, std::move(buf));
            if(!r.has_value()) {
                return std::nullopt;
            }
            return from_buffer<response_type>(r.value());
        }
        auto call_raw(cbdc::buffer buf, request_id_type, raw_callback_type cb) -> bool override {
            vf::net_async(m_eps[0].second, std::move(buf), [cb](std::optional<cbdc::buffer> r) {
                if(r.has_value()) {
                    cb(from_buffer<response_type>(r.value()));
                } else {
                    cb(std::nullopt);
                }
            });
            return true;
        }
    };
}
#endif
