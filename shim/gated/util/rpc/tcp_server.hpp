// Stand-in for the TCP RPC server: requests are injected by the driver and
// handled, as by the original, on one handler thread of the server.
#ifndef VERIF_GATED_TCP_SERVER
#define VERIF_GATED_TCP_SERVER
#include "util/rpc/async_server.hpp"
#include "util/rpc/blocking_server.hpp"
#include "util/rpc/server.hpp"
#include "util/network/socket.hpp"
#include <condition_variable>
#include <deque>
#include <functional>
#include <map>
#include <mutex>
#include <thread>
namespace vf {
    struct handler_thread {
        std::mutex m;
        std::condition_variable cv;
        std::deque<std::function<void()>> q;
        bool closed{false};
        std::thread t;
        handler_thread() {
            t = std::thread([this]() {
                for(;;) {
                    std::function<void()> f;
                    {
                        std::unique_lock<std::mutex> l(m);
                        cv.wait(l, [&]() { return closed || !q.empty(); });
                        if(closed) {
                            return;
                        }
                        f = std::move(q.front());
                        q.pop_front();
                    }
                    f();
                }
            });
        }
        void post(std::function<void()> f) {
            {
                std::unique_lock<std::mutex> l(m);
                q.push_back(std::move(f));
            }
            cv.notify_one();
        }
        void close() {
            {
                std::unique_lock<std::mutex> l(m);
                closed = true;
            }
            cv.notify_one();
            if(t.joinable()) {
                t.join();
            }
        }
    };
    // A request arrives at a server: bytes and the continuation for the reply.
    using server_entry = std::function<void(cbdc::buffer, std::function<void(cbdc::buffer)>)>;
    void server_up(unsigned short port, const void* who, server_entry e);
    void server_down(const void* who);
}
namespace cbdc::rpc {
    template<typename Server>
    class tcp_server : public Server {
      public:
        explicit tcp_server(network::endpoint_t ep) : m_ep(std::move(ep)) {}
        ~tcp_server() override {
            vf::server_down(this);
            m_h.close();
        }
        [[nodiscard]] auto init() -> bool {
            vf::server_up(m_ep.second, this, [this](cbdc::buffer b, std::function<void(cbdc::buffer)> cb) {
                m_h.post([this, b, cb]() {
                    if constexpr(Server::handler == handler_type::async) {
                        auto r = Server::async_call(b, cb);
                        if(r.has_value()) {
                            cb(std::move(r.value()));
                        }
                    } else {
                        auto r = Server::blocking_call(b);
                        if(r.has_value()) {
                            cb(std::move(r.value()));
                        }
                    }
                });
            });
            return true;
        }

      private:
        network::endpoint_t m_ep;
        vf::handler_thread m_h;
    };
    template<typename Request, typename Response>
    using blocking_tcp_server = tcp_server<blocking_server<Request, Response>>;
    template<typename Request, typename Response>
    using async_tcp_server = tcp_server<async_server<Request, Response>>;
}
#endif
