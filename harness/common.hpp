// Common parts of the conformance drivers: each driver reads a script of
// operations from stdin, applies them to the real objects, and writes one JSON
// event per operation to the file descriptor given by argv[1] (stdout is left
// to the code under test).
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <cstring>
#include "util/common/buffer.hpp"
#include <unistd.h>
#include "util/common/logging.hpp"

namespace vf {
    struct op {
        std::string name;
        std::vector<std::string> a;
        [[nodiscard]] long i(size_t n) const {
            return n < a.size() ? std::atol(a[n].c_str()) : 0;
        }
        [[nodiscard]] unsigned long long u(size_t n) const {
            return n < a.size() ? std::strtoull(a[n].c_str(), nullptr, 10) : 0;
        }
    };

    // Minimal JSON object builder.
    struct js {
        std::string s{"{"};
        bool first{true};
        void key(const char* k) {
            if(!first) {
                s += ",";
            }
            first = false;
            s += "\"";
            s += k;
            s += "\":";
        }
        js& num(const char* k, long long v) {
            key(k);
            s += std::to_string(v);
            return *this;
        }
        js& str(const char* k, const std::string& v) {
            key(k);
            s += "\"" + v + "\"";
            return *this;
        }
        js& raw(const char* k, const std::string& v) {
            key(k);
            s += v;
            return *this;
        }
        js& nums(const char* k, const std::vector<long long>& v) {
            key(k);
            s += "[";
            for(size_t i = 0; i < v.size(); i++) {
                s += (i ? "," : "") + std::to_string(v[i]);
            }
            s += "]";
            return *this;
        }
        js& list(const char* k, const std::vector<std::string>& raws) {
            key(k);
            s += "[";
            for(size_t i = 0; i < raws.size(); i++) {
                s += (i ? "," : "") + raws[i];
            }
            s += "]";
            return *this;
        }
        std::string done() const {
            return s + "}";
        }
    };

    inline FILE*& out() {
        static FILE* f = nullptr;
        return f;
    }
    inline void emit(const js& j) {
        auto s = j.done();
        s += "\n";
        fwrite(s.data(), 1, s.size(), out());
        fflush(out());
    }

    inline std::shared_ptr<cbdc::logging::log> logger() {
        static auto l = std::make_shared<cbdc::logging::log>(
            cbdc::logging::log_level::fatal,
            false);
        return l;
    }

    // 0 is the empty buffer; other numbers have encodings of different lengths.
    inline cbdc::buffer mk(long v) {
        auto b = cbdc::buffer();
        if(v != 0) {
            int32_t x = static_cast<int32_t>(v);
            b.append(&x, sizeof(x));
            for(long n = 0; n < v % 7; n++) {
                b.append(&x, 1);
            }
        }
        return b;
    }
    inline long val(const cbdc::buffer& b) {
        if(b.size() == 0) {
            return 0;
        }
        if(b.size() < sizeof(int32_t)) {
            return -99;
        }
        int32_t x{};
        std::memcpy(&x, b.data(), sizeof(x));
        return b == mk(x) ? x : -98;
    }

    // Runs the script. `handler` is given every operation, including "reset"
    // (start of a new trace).
    inline int run(int argc, char** argv, const std::function<void(const op&)>& handler) {
        out() = argc > 1 ? fopen(argv[1], "a") : stdout;
        std::string line;
        while(std::getline(std::cin, line)) {
            std::istringstream ss(line);
            op o;
            if(!(ss >> o.name)) {
                continue;
            }
            std::string t;
            while(ss >> t) {
                o.a.push_back(t);
            }
            handler(o);
        }
        fclose(out());
        _exit(0);
    }
}
#endif
