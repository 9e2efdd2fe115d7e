// Conformance driver: the watchtower and its controller (block intake).
#include "ids.hpp"
#include "uhs/atomizer/archiver/client.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/watchtower/controller.hpp"
#include "uhs/atomizer/watchtower/watchtower.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"
#include <errno.h>
#include <time.h>

namespace wt = cbdc::watchtower;
namespace net = cbdc::network;

// Waiting is instantaneous.
extern "C" int clock_nanosleep(clockid_t, int, const timespec*, timespec*) {
    return 0;
}
extern "C" int nanosleep(const timespec*, timespec*) {
    return 0;
}

static std::unique_ptr<wt::watchtower> core;
static std::unique_ptr<wt::controller> ctl;
static std::vector<std::vector<long long>> chain; // block h is chain[h - 1]
static long archived{0};                          // blocks the archiver has
static long fails{0};                             // requests it refuses first
static std::vector<long long> asked;              // heights requested from it
static cbdc::config::options opts;

static std::optional<cbdc::buffer> archive(const net::endpoint_t&, const cbdc::buffer& pkt) {
    auto b = pkt;
    auto h = cbdc::from_buffer<uint64_t>(b);
    if(!h.has_value()) {
        asked.push_back(-1);
        return std::nullopt;
    }
    asked.push_back(static_cast<long long>(h.value()));
    if(asked.size() > 400) {
        vf::emit(vf::js().str("ev", "stall"));
        _exit(5);
    }
    std::optional<cbdc::atomizer::block> r;
    if(fails > 0) {
        fails--;
        if(fails % 2 == 1) {
            return std::nullopt;
        }
    } else if(h.value() >= 1 && static_cast<long>(h.value()) <= archived) {
        r = mkblk(h.value(), chain[h.value() - 1]);
    } else if(archived < static_cast<long>(chain.size())) {
        archived++;
    }
    return cbdc::make_buffer(r);
}
static net::connection_manager* find(unsigned short port) {
    for(auto* c : net::connection_manager::all()) {
        if((c->m_listen.has_value() && c->m_listen->second == port)
           || (!c->m_eps.empty() && c->m_eps[0].second == port)) {
            return c;
        }
    }
    return nullptr;
}
static std::optional<cbdc::buffer> deliver(unsigned short port, const cbdc::buffer& b) {
    return find(port)->m_handler(net::message_t{std::make_shared<cbdc::buffer>(b), 7});
}
static wt::tx_error mkerr(long t, const std::string& k, const std::vector<long long>& es) {
    if(k == "sync") {
        return {tid(t), wt::tx_error_sync{}};
    }
    if(k == "range") {
        return {tid(t), wt::tx_error_stxo_range{}};
    }
    if(k == "incomplete") {
        return {tid(t), wt::tx_error_incomplete{}};
    }
    if(k == "spent") {
        std::unordered_set<hash_t, cbdc::hashing::null> s;
        for(auto e : es) {
            s.insert(uid(e));
        }
        return {tid(t), wt::tx_error_inputs_spent{s}};
    }
    std::vector<hash_t> s;
    for(auto e : es) {
        s.push_back(uid(e));
    }
    return {tid(t), wt::tx_error_inputs_dne{s}};
}
static const char* names[] = {"none", "unspent", "spent", "rejected", "invalid", "internal"};

int main(int argc, char** argv) {
    net::tcp_socket::answer() = archive;
    net::connection_manager::hook() = [](auto&, auto, auto&, auto) {
        return true;
    };
    opts.m_archiver_endpoints = {{"a", 1}};
    opts.m_watchtower_internal_endpoints = {{"w", 2}};
    opts.m_watchtower_client_endpoints = {{"w", 3}};
    opts.m_atomizer_endpoints = {{"z", 4}};
    return vf::run(argc, argv, [](const vf::op& o) {
        if(o.name == "reset") {
            // reset core|ctl blocks errors
            ctl.reset();
            core.reset();
            defs.clear();
            chain.clear();
            archived = 0;
            fails = 0;
            if(o.a[0] == "core") {
                core = std::make_unique<wt::watchtower>(o.i(1), o.i(2));
            } else {
                opts.m_watchtower_block_cache_size = static_cast<size_t>(o.i(1));
                opts.m_watchtower_error_cache_size = static_cast<size_t>(o.i(2));
                ctl = std::make_unique<wt::controller>(0, opts, vf::logger());
                ctl->init();
            }
            vf::emit(vf::js().str("ev", "reset").num("k", o.i(1)).num("j", o.i(2)));
        } else if(o.name == "def") {
            defs[o.i(0)] = def{nums(o.a[1]), nums(o.a[2])};
        } else if(o.name == "mk") {
            // the atomizer makes the next block
            auto t = nums(o.a[0]);
            chain.push_back(t);
            if(core) {
                core->add_block(mkblk(chain.size(), t));
            }
            vf::emit(vf::js().str("ev", core ? "block" : "mk").num("h", static_cast<long>(chain.size())).raw("txs", txs_js(t)));
        } else if(o.name == "pkt") {
            // pkt H A F: block H arrives; the archiver has the blocks to A and refuses F times
            if(o.i(0) < 1 || o.i(0) > static_cast<long>(chain.size())) {
                return;
            }
            archived = std::max(archived, std::min(o.i(1), static_cast<long>(chain.size())));
            fails = o.i(2);
            asked.clear();
            deliver(4, cbdc::make_buffer(mkblk(o.u(0), chain[o.u(0) - 1])));
            vf::emit(vf::js().str("ev", "pkt").num("h", o.i(0)).nums("asked", asked).num("last", static_cast<long>(ctl->get_block_height())));
        } else if(o.name == "junk") {
            auto b = cbdc::buffer();
            auto x = static_cast<unsigned char>(o.i(0));
            for(long i = 0; i < o.i(0) % 12; i++) {
                b.append(&x, 1);
            }
            deliver(4, b);
            vf::emit(vf::js().str("ev", "junk").num("last", static_cast<long>(ctl->get_block_height())));
        } else if(o.name == "errs") {
            // errs t:kind:e,e ...
            std::vector<wt::tx_error> v;
            std::vector<std::string> es;
            for(auto& s : o.a) {
                auto p = s.find(':');
                auto q = s.find(':', p + 1);
                auto t = std::stol(s.substr(0, p));
                auto k = s.substr(p + 1, q - p - 1);
                auto e = nums(s.substr(q + 1));
                v.push_back(mkerr(t, k, e));
                es.push_back(vf::js().num("t", t).str("k", k).nums("es", e).done());
            }
            if(core) {
                core->add_errors(std::move(v));
            } else {
                deliver(2, cbdc::make_buffer(v));
            }
            vf::emit(vf::js().str("ev", "errs").list("es", es));
        } else if(o.name == "ask") {
            // ask t:x,x ...
            wt::tx_id_uhs_ids q;
            std::vector<std::string> qs;
            for(auto& s : o.a) {
                auto p = s.find(':');
                auto xs = nums(s.substr(p + 1));
                std::vector<hash_t> v;
                for(auto x : xs) {
                    v.push_back(uid(x));
                }
                auto t = std::stol(s.substr(0, p));
                q[tid(t)] = v;
                qs.push_back(vf::js().num("t", t).nums("xs", xs).done());
            }
            auto req = wt::status_update_request(q);
            std::unique_ptr<wt::response> r;
            if(core) {
                r = core->handle_status_update_request(req);
            } else {
                auto b = deliver(3, cbdc::make_buffer(wt::request{req}));
                auto d = cbdc::buffer_serializer(b.value());
                r = std::make_unique<wt::response>(d);
            }
            std::vector<std::string> as;
            for(auto& [t, st] : std::get<wt::status_request_check_success>(r->payload()).states()) {
                std::vector<std::string> ss;
                for(auto& s : st) {
                    ss.push_back(vf::js().num("x", num(s.uhs_id(), 1)).str("s", names[static_cast<int>(s.status())]).num("h", static_cast<long>(s.block_height())).done());
                }
                as.push_back(vf::js().num("t", num(t, 2)).list("st", ss).done());
            }
            vf::emit(vf::js().str("ev", "ask").list("q", qs).list("a", as));
        } else if(o.name == "best") {
            std::unique_ptr<wt::response> r;
            auto req = wt::best_block_height_request();
            if(core) {
                r = core->handle_best_block_height_request(req);
            } else {
                auto b = deliver(3, cbdc::make_buffer(wt::request{req}));
                auto d = cbdc::buffer_serializer(b.value());
                r = std::make_unique<wt::response>(d);
            }
            vf::emit(vf::js().str("ev", "best").num("h", static_cast<long>(std::get<wt::best_block_height_response>(r->payload()).height())));
        }
    });
}
