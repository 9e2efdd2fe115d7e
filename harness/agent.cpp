// Conformance driver: the agent (contract execution) with a scripted broker,
// alone with a scripted function, or behind its server with the real Lua
// runner on a stand-in for the Lua virtual machine.
#include "common.hpp"
#include "parsec/agent/format.hpp"
#include "parsec/agent/impl.hpp"
#include "parsec/agent/runners/lua/impl.hpp"
#include "parsec/agent/runners/lua/server.hpp"
#include "threads.hpp"
#include "util/rpc/format.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"
#include "crypto/sha256.h"
#include "util/common/keys.hpp"
#include <deque>
#include <dlfcn.h>
#include <list>
#include <lua.hpp>
#include <secp256k1_schnorrsig.h>

namespace ag = cbdc::parsec::agent;
namespace br = cbdc::parsec::broker;
namespace rs = cbdc::parsec::runtime_locking_shard;
namespace net = cbdc::network;
using bi = br::interface;

static std::mutex em;
static void say(const vf::js& j) {
    std::unique_lock<std::mutex> l(em);
    vf::emit(j);
}
static std::string upd_js(const br::state_update_type& u) {
    std::map<long, long> m;
    for(auto& x : u) {
        m[vf::val(x.first)] = vf::val(x.second);
    }
    std::string s = "[";
    for(auto& x : m) {
        s += (s.size() > 1 ? "," : "") + std::string("[") + std::to_string(x.first) + "," + std::to_string(x.second) + "]";
    }
    return s + "]";
}
static br::state_update_type upd(const vf::op& o, size_t from) {
    br::state_update_type u;
    for(auto i = from; i < o.a.size(); i++) {
        auto p = o.a[i].find('=');
        u[vf::mk(std::stol(o.a[i].substr(0, p)))] = vf::mk(std::stol(o.a[i].substr(p + 1)));
    }
    return u;
}
static const char* errname(ag::interface::error_code e) {
    static const char* n[] = {"broker_unreachable", "ticket_number_assignment", "function_retrieval", "function_execution", "commit_error", "finish_error", "rollback_error", "retry"};
    return n[static_cast<int>(e)];
}

static std::map<long, std::string> progs; // compiled
static bool srv_mode{false};
static long next_ticket{0};
// ---- the broker
static void rolled_back(long t);
struct call {
    long id;
    std::string op;
    long ticket;
    std::function<void(const std::string&, long)> answer;
};
static std::list<call> pend;
static std::mutex pm;
static std::deque<std::string> hows;
static long next_id{0};
// Decides about the call: false if it cannot be made.
static long reply_value(const std::string& op, const std::string& r, long v);
static bool decide(vf::js j, const std::string& op, long ticket, std::function<void(const std::string&, long)> f) {
    std::string how = "later";
    long id{};
    {
        std::unique_lock<std::mutex> l(pm);
        if(!hows.empty()) {
            how = hows.front();
            hows.pop_front();
            if(srv_mode && how == "fail" && (op == "finish" || op == "rollback")) {
                how = "later";
            }
        }
        id = ++next_id;
    }
    auto kind = how.substr(0, how.find(':'));
    say(j.num("id", id).str("how", kind));
    if(kind == "fail") {
        return false;
    }
    if(op == "run") {
        return true;
    }
    if(kind == "now") {
        auto r = how.substr(4);
        auto p = r.find(':');
        auto v = p == std::string::npos ? 0 : std::stol(r.substr(p + 1));
        r = r.substr(0, p);
        if(srv_mode && (op == "finish" || op == "rollback")) {
            r = "ok"; // an agent that cannot finish stops the server
        }
        v = reply_value(op, r, v);
        say(vf::js().str("ev", "reply").num("id", id).str("r", r).num("v", v));
        f(r, v);
        return true;
    }
    std::unique_lock<std::mutex> l(pm);
    pend.push_back({id, op, ticket, std::move(f)});
    return true;
}
// Functions have keys from 500 on, or the empty key.
static bool fnkey(const cbdc::buffer& k) {
    return vf::val(k) >= 500 || k.size() == 0;
}
static long fval(const cbdc::buffer& b) {
    return b.size() == 1 ? 999 : vf::val(b);
}
static long reply_value(const std::string& op, const std::string& r, long v) {
    return op == "begin" && r == "ok" && srv_mode ? ++next_ticket : v;
}
class broker : public bi {
  public:
    std::map<std::string, bi::error_code> codes{{"err", bi::error_code::shard_unreachable}, {"hazard", bi::error_code::commit_hazard}, {"unknown", bi::error_code::unknown_ticket}, {"prepare", bi::error_code::prepare_error}};
    bi::error_code code(const std::string& r) {
        auto it = codes.find(r);
        return it == codes.end() ? bi::error_code::commit_error : it->second;
    }
    static rs::shard_error shard(const std::string& r) {
        if(r == "wounded") {
            return {rs::error_code::wounded, std::nullopt};
        }
        return {rs::error_code::internal_error, std::nullopt};
    }
    bool begin(bi::begin_callback_type cb) override {
        return decide(vf::js().str("ev", "call").str("op", "begin"), "begin", 0, [=](auto& r, long v) {
            if(r == "ok") {
                cb(static_cast<br::ticket_number_type>(v));
            } else {
                cb(bi::error_code::ticket_number_assignment);
            }
        });
    }
    bool try_lock(br::ticket_number_type t, br::key_type key, br::lock_type ty, bi::try_lock_callback_type cb) override {
        auto isfn = fnkey(key);
        return decide(vf::js().str("ev", "call").str("op", "lock").num("t", static_cast<long>(t)).num("key", vf::val(key)).num("ty", ty == br::lock_type::write ? 1 : 0), isfn ? "fnlock" : "lock", static_cast<long>(t), [=](auto& r, long v) {
            if(r == "ok" && isfn && progs.contains(v)) {
                auto b = cbdc::buffer();
                b.append(progs[v].data(), progs[v].size());
                cb(b);
            } else if(r == "ok") {
                cb(vf::mk(v));
            } else if(r == "err") {
                cb(bi::error_code::shard_unreachable);
            } else {
                cb(shard(r));
            }
        });
    }
    bool commit(br::ticket_number_type t, br::state_update_type u, bi::commit_callback_type cb) override {
        return decide(vf::js().str("ev", "call").str("op", "commit").num("t", static_cast<long>(t)).raw("upd", upd_js(u)), "commit", static_cast<long>(t), [=, this](auto& r, long) {
            if(r == "ok") {
                cb(std::nullopt);
            } else if(r == "wounded" || r == "shard") {
                cb(bi::commit_return_type(shard(r)));
            } else {
                cb(bi::commit_return_type(code(r)));
            }
        });
    }
    bool finish(br::ticket_number_type t, bi::finish_callback_type cb) override {
        return decide(vf::js().str("ev", "call").str("op", "finish").num("t", static_cast<long>(t)), "finish", static_cast<long>(t), [=, this](auto& r, long) {
            if(r == "ok") {
                cb(std::nullopt);
            } else {
                cb(bi::finish_return_type(code(r)));
            }
        });
    }
    bool rollback(br::ticket_number_type t, bi::rollback_callback_type cb) override {
        return decide(vf::js().str("ev", "call").str("op", "rollback").num("t", static_cast<long>(t)), "rollback", static_cast<long>(t), [=, this](auto& r, long) {
            if(r == "ok") {
                std::unique_lock<std::mutex> l(pm);
                std::erase_if(pend, [&](auto& c) { return c.ticket == static_cast<long>(t) && (c.op == "lock" || c.op == "fnlock"); });
                l.unlock();
                rolled_back(static_cast<long>(t));
                cb(std::nullopt);
            } else {
                cb(bi::rollback_return_type(code(r)));
            }
        });
    }
    bool recover(bi::recover_callback_type) override {
        return false;
    }
    br::ticket_number_type highest_ticket() override {
        return 0;
    }
};

static void reply(const std::string& op, std::string r, long v, long n) {
    std::unique_lock<std::mutex> l(pm);
    for(auto it = pend.begin(); it != pend.end(); ++it) {
        if((op == "any" || it->op == op) && n-- == 0) {
            auto c = std::move(*it);
            pend.erase(it);
            l.unlock();
            if(srv_mode && (c.op == "finish" || c.op == "rollback")) {
                r = "ok";
            }
            v = reply_value(c.op, r, v);
            say(vf::js().str("ev", "reply").num("id", c.id).str("r", r).num("v", v));
            c.answer(r, v);
            return;
        }
    }
}

// ---- the function, in agent mode
struct attempt {
    ag::runner::interface::run_callback_type res;
    ag::runner::interface::try_lock_callback_type lock;
    bool on{false};
};
static std::shared_ptr<attempt> cur;
static void rolled_back(long) {
    if(cur) {
        cur->on = false;
    }
}
class mock_runner : public ag::runner::interface {
  public:
    mock_runner(std::shared_ptr<cbdc::logging::log> log, const cbdc::parsec::config& cfg, rs::value_type fn, ag::parameter_type p, bool ro, run_callback_type res, try_lock_callback_type lock, std::shared_ptr<secp256k1_context> secp, std::shared_ptr<cbdc::thread_pool> tp, ticket_number_type t)
        : ag::runner::interface(log, cfg, fn, p, ro, res, lock, secp, tp, t) {
        j.str("ev", "call").str("op", "run").num("t", static_cast<long>(t)).num("val", fval(fn)).num("par", vf::val(p)).num("ro", ro).num("again", tp == nullptr);
        a = std::make_shared<attempt>();
        a->res = res;
        a->lock = lock;
    }
    bool run() override {
        cur = a;
        a->on = true;
        if(!decide(j, "run", 0, [](auto&, long) {})) {
            a->on = false;
            return false;
        }
        return true;
    }
    vf::js j;
    std::shared_ptr<attempt> a;
};

// ---- the function, behind the server: a Lua program that tells what it sees
static std::string str(long v) {
    auto b = vf::mk(v);
    return {b.c_str(), b.size()};
}
static long num(const char* s, size_t n) {
    auto b = cbdc::buffer();
    b.append(s, n);
    return vf::val(b);
}
static long arg(lua_State* L, int i) {
    size_t n{};
    auto* c = lua_tolstring(L, i, &n);
    return c == nullptr ? 0 : num(c, n);
}
// note(prog, param, n, seen, key, end): what the function was given, and what
// it does next
static vf::js noted(lua_State* L) {
    return vf::js().str("ev", "vm").num("a", arg(L, 2) - 100).num("prog", lua_tointeger(L, 1)).num("n", lua_tointeger(L, 3)).num("v", arg(L, 4));
}
static int note(lua_State* L) {
    say(noted(L).num("y", lua_tointeger(L, 5)).str("end", "").raw("upd", "[]"));
    return 0;
}
// last(prog, param, n, seen, end, {keys}, {values}): returns the updates
static int last(lua_State* L) {
    br::state_update_type u;
    lua_len(L, 6);
    auto n = lua_tointeger(L, -1);
    lua_pop(L, 1);
    for(lua_Integer i = 1; i <= n; i++) {
        lua_geti(L, 6, i);
        lua_geti(L, 7, i);
        auto k = lua_tointeger(L, -2);
        u[vf::mk(k)] = vf::mk(arg(L, -1) * 10 + k);
        lua_pop(L, 2);
    }
    u[vf::mk(90)] = vf::mk(arg(L, 2));
    say(noted(L).num("y", 999).str("end", lua_tostring(L, 5)).raw("upd", upd_js(u)));
    lua_newtable(L);
    for(auto& x : u) {
        lua_pushlstring(L, x.first.c_str(), x.first.size());
        lua_pushlstring(L, x.second.c_str(), x.second.size());
        lua_settable(L, -3);
    }
    return 1;
}
extern "C" void luaL_openlibs(lua_State* L) {
    using fn = void (*)(lua_State*);
    reinterpret_cast<fn>(dlsym(RTLD_NEXT, "luaL_openlibs"))(L);
    lua_register(L, "note", note);
    lua_register(L, "last", last);
}
static std::shared_ptr<secp256k1_context> secp;
static std::string quote(const void* p, size_t n) {
    std::string r = "\"";
    for(size_t i = 0; i < n; i++) {
        char b[8];
        snprintf(b, sizeof(b), "\\x%02x", static_cast<const unsigned char*>(p)[i]);
        r += b;
    }
    return r + "\"";
}
static std::string quote(const std::string& s) {
    return quote(s.data(), s.size());
}
static int to_string(lua_State*, const void* p, size_t n, void* d) {
    static_cast<std::string*>(d)->append(static_cast<const char*>(p), n);
    return 0;
}
// A call of check_sig: right, or with one thing wrong.
static std::string sig(const std::string& what) {
    cbdc::privkey_t k{};
    k[5] = 9;
    auto pk = cbdc::pubkey_from_privkey(k, secp.get());
    std::string msg = "a message";
    cbdc::hash_t h{};
    CSHA256().Write(reinterpret_cast<const unsigned char*>(msg.data()), msg.size()).Finalize(h.data());
    secp256k1_keypair kp{};
    (void)secp256k1_keypair_create(secp.get(), &kp, k.data());
    cbdc::signature_t s{};
    (void)secp256k1_schnorrsig_sign(secp.get(), s.data(), h.data(), &kp, nullptr, nullptr);
    auto c = what.size() > 1 ? what[1] : '0';
    if(c == '1') {
        s[7] ^= 1;
    } else if(c == '2') {
        msg += "x";
    } else if(c == '3') {
        k[5] = 8;
        pk = cbdc::pubkey_from_privkey(k, secp.get());
    } else if(c == '4') {
        pk.fill(0xff);
    }
    auto q = quote(pk.data(), pk.size());
    auto g = quote(s.data(), s.size());
    if(c == '5') {
        q = quote(pk.data(), pk.size() - 1);
    } else if(c == '6') {
        g = quote(s.data(), s.size() - 1);
    } else if(c == '7') {
        return "check_sig(" + q + "," + g + ")\n";
    } else if(c == '8') {
        return "check_sig(" + q + "," + g + ",{})\n";
    }
    return "check_sig(" + q + "," + g + "," + quote(msg) + ")\n";
}
static void define(long id, const std::string& end, const std::vector<long>& ys) {
    auto me = std::to_string(id);
    std::string c = "local p = ...\nlocal v, s = {}, p\n";
    std::string ks;
    long n = 0;
    for(auto k : ys) {
        n++;
        auto i = std::to_string(n);
        c += "note(" + me + ",p," + i + ",s," + std::to_string(k) + ")\n";
        c += "s = coroutine.yield(" + quote(str(k)) + ") v[" + i + "] = s\n";
        ks += (n > 1 ? "," : "") + std::to_string(k);
    }
    c += "local t = last(" + me + ",p," + std::to_string(n + 1) + ",s,'" + (end == "S0" ? "R" : end) + "',{" + ks + "},v)\n";
    std::map<std::string, std::string> ends{
        {"R", "return t"}, {"E", "error('failed')"}, {"EN", "error(nil)"}, {"ET", "local x = nil + 1"}, {"R2", "return t, t"}, {"R0", "return"}, {"RS", "return '7'"}, {"RF", "return function() end"}, {"RK", "t[true] = '1' return t"}, {"RV", "t['x'] = false return t"}, {"RI", "return {'a', 'b'}"}, {"RT", "t['x'] = {} return t"}, {"Y2", "coroutine.yield('a', 'b') return t"}, {"Y0", "coroutine.yield() return t"}, {"YT", "coroutine.yield({}) return t"}, {"YN", "coroutine.yield(nil) return t"}};
    auto it = ends.find(end);
    c += it != ends.end() ? it->second : sig(end) + "return t";
    auto* L = luaL_newstate();
    if(luaL_loadbufferx(L, c.data(), c.size(), "x", "t") != LUA_OK) {
        fprintf(stderr, "%s\n", lua_tostring(L, -1));
        _exit(5);
    }
    std::string out;
    lua_dump(L, to_string, &out, 0);
    lua_close(L);
    progs[id] = out;
    say(vf::js().str("ev", "prog").num("p", id));
}

static std::shared_ptr<broker> the_broker;
static std::unique_ptr<ag::impl> the_agent;
static ag::rpc::server* the_server{nullptr};
static net::connection_manager* the_net{nullptr};
static cbdc::parsec::config cfg{};
static std::shared_ptr<cbdc::thread_pool> pool;
static long open_reqs{0};

static void emit_result(vf::js& j, const ag::interface::exec_return_type& r) {
    if(std::holds_alternative<ag::return_type>(r)) {
        say(j.str("k", "ok").raw("upd", upd_js(std::get<ag::return_type>(r))));
    } else {
        say(j.str("k", errname(std::get<ag::interface::error_code>(r))).raw("upd", "[]"));
    }
}
static void handle(const vf::op& o) {
    auto& n = o.name;
    if(n == "how") {
        hows.push_back(o.a[0]);
        return;
    }
    if(n == "prog") {
        std::vector<long> ys;
        for(size_t i = 2; i < o.a.size(); i++) {
            ys.push_back(o.i(i));
        }
        define(o.i(0), o.a[1], ys);
        return;
    }
    if(n == "reset") {
        hows.clear();
        pend.clear();
        cur.reset();
        progs.clear();
        next_ticket = 0;
        next_id = 0;
        open_reqs = 0;
        if(!the_broker) {
            the_broker = std::make_shared<broker>();
        }
        srv_mode = o.a[0] == "srv";
        say(vf::js().str("ev", "reset").num("srv", srv_mode));
        if(srv_mode) {
            auto s = std::make_unique<ag::rpc::server::server_type>(net::endpoint_t{"a", 1});
            the_server = new ag::rpc::server(std::move(s), the_broker, vf::logger(), cfg);
            if(!the_server->init()) {
                _exit(5);
            }
            the_net = net::connection_manager::all().back();
        } else {
            auto fn = o.a[1] == "key" ? vf::mk(500) : cbdc::buffer();
            if(o.a[1] == "byte") {
                fn.append("x", 1);
            }
            auto ini = o.i(2) != 0;
            auto ro = o.i(3) != 0;
            say(vf::js().str("ev", "new").num("a", 1).str("fn", o.a[1]).num("key", o.a[1] == "key" ? 500 : 0).num("ini", ini).num("ro", ro).num("par", 17));
            the_agent = std::make_unique<ag::impl>(
                vf::logger(),
                cfg,
                [](auto l, auto& c, auto f, auto p, bool r, auto res, auto lock, auto s, auto tp, auto t) -> std::unique_ptr<ag::runner::interface> {
                    return std::make_unique<mock_runner>(l, c, f, p, r, res, lock, s, tp, t);
                },
                the_broker,
                fn,
                vf::mk(17),
                [](ag::interface::exec_return_type r) {
                    auto j = vf::js().str("ev", "result").num("a", 1);
                    emit_result(j, r);
                },
                ini ? br::lock_type::write : br::lock_type::read,
                ro,
                secp,
                pool);
        }
        return;
    }
    if(n == "exec") {
        say(vf::js().str("ev", "exec").num("a", 1));
        the_agent->exec();
    } else if(n == "reply") {
        auto op = o.a[0] == "relock" || o.a[0] == "asklock" ? "lock" : o.a[0];
        reply(op, o.a[1], o.i(2), o.i(3));
    } else if(n == "runres") {
        if(!cur || !cur->on) {
            return;
        }
        cur->on = false;
        auto c = cur;
        auto& r = o.a[0];
        auto u = upd(o, 1);
        say(vf::js().str("ev", "runres").num("a", 1).str("r", r).raw("upd", upd_js(u)));
        using ec = ag::runner::interface::error_code;
        if(r == "ok") {
            c->res(u);
        } else {
            c->res(r == "wounded" ? ec::wounded : r == "exec" ? ec::exec_error : r == "internal" ? ec::internal_error : ec::lock_error);
        }
    } else if(n == "ask") {
        if(!cur || !cur->on) {
            return;
        }
        auto c = cur;
        say(vf::js().str("ev", "ask").num("a", 1).num("key", o.i(0)).num("ty", o.i(1)));
        auto ok = c->lock(vf::mk(o.i(0)), o.i(1) != 0 ? br::lock_type::write : br::lock_type::read, [](bi::try_lock_return_type r) {
            std::string k = "ok";
            long v = 0;
            if(std::holds_alternative<br::value_type>(r)) {
                v = vf::val(std::get<br::value_type>(r));
            } else if(std::holds_alternative<bi::error_code>(r)) {
                k = "err";
            } else {
                k = std::get<rs::shard_error>(r).m_error_code == rs::error_code::wounded ? "wounded" : "shard";
            }
            say(vf::js().str("ev", "lockres").num("a", 1).str("k", k).num("v", v));
        });
        say(vf::js().str("ev", "askret").num("a", 1).num("ok", ok));
    } else if(n == "req") {
        // req a fn ro
        auto a = o.i(0);
        auto fn = vf::mk(o.i(1));
        if(o.i(1) == 999) {
            fn = cbdc::buffer();
            fn.append("x", 1);
        }
        open_reqs++;
        say(vf::js().str("ev", "new").num("a", a).str("fn", o.i(1) == 0 ? "none" : o.i(1) == 999 ? "byte" : "key").num("key", o.i(1)).num("ini", 0).num("ro", o.i(2)).num("par", 100 + a));
        say(vf::js().str("ev", "exec").num("a", a));
        auto req = cbdc::rpc::request<ag::rpc::request>{{static_cast<uint64_t>(a)}, {fn, vf::mk(100 + a), o.i(2) != 0}};
        auto pkt = std::make_shared<cbdc::buffer>(cbdc::make_buffer(req));
        auto imm = the_net->m_handler({pkt, static_cast<net::peer_id_t>(40 + a)});
        if(imm.has_value()) {
            say(vf::js().str("ev", "resp").num("a", a).num("peer", 0).str("k", "refused").raw("upd", "[]"));
        }
    } else if(n == "junk") {
        auto pkt = std::make_shared<cbdc::buffer>();
        for(long i = 0; i < o.i(0); i++) {
            pkt->append("\xff\x01\x7f", 3);
        }
        say(vf::js().str("ev", "junk"));
        (void)the_net->m_handler({pkt, 3});
    } else if(n == "settle") {
        for(int i = 0; i < 300; i++) {
            if(srv_mode) {
                vf::quiesce();
            }
            if(!pend.empty()) {
                reply("any", "ok", o.i(0) != 0 ? o.i(0) : 3, 0);
            } else if(srv_mode) {
                break;
            } else if(cur && cur->on) {
                handle({"runres", {"ok", "1=7"}});
            } else {
                using st = ag::impl::state;
                auto x = the_agent->get_state();
                if(x == st::init || x == st::begin_failed || x == st::rollback_complete || x == st::rollback_failed || x == st::finish_failed) {
                    handle({"exec", {}});
                } else {
                    break;
                }
            }
            if(!srv_mode) {
                say(vf::js().str("ev", "q"));
            }
        }
    } else if(n == "end") {
        say(vf::js().str("ev", "end"));
        if(srv_mode) {
            if(open_reqs == 0) {
                delete the_server;
            }
            the_server = nullptr;
        } else {
            using st = ag::impl::state;
            auto x = the_agent->get_state();
            if(x == st::begin_failed || x == st::finish_complete) {
                the_agent.reset();
            } else {
                (void)the_agent.release();
            }
        }
        return;
    }
    if(srv_mode) {
        vf::quiesce();
    }
    say(vf::js().str("ev", "q"));
}

int main(int argc, char** argv) {
    pool = std::make_shared<cbdc::thread_pool>();
    secp = std::shared_ptr<secp256k1_context>(secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY), &secp256k1_context_destroy);
    net::connection_manager::hook() = [](net::connection_manager&, net::connection_manager::kind, const std::shared_ptr<cbdc::buffer>& b, net::peer_id_t peer) {
        auto r = cbdc::from_buffer<cbdc::rpc::response<ag::rpc::response>>(*b);
        if(!r.has_value()) {
            say(vf::js().str("ev", "resp").num("a", 0).num("peer", static_cast<long>(peer)).str("k", "garbage").raw("upd", "[]"));
            return true;
        }
        open_reqs--;
        auto j = vf::js().str("ev", "resp").num("a", static_cast<long>(r->m_header.m_request_id)).num("peer", static_cast<long>(peer) - 40);
        if(!r->m_payload.has_value()) {
            say(j.str("k", "null").raw("upd", "[]"));
        } else {
            emit_result(j, r->m_payload.value());
        }
        return true;
    };
    return vf::run(argc, argv, handle);
}
