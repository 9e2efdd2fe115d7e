// leveldb behind a proxy: mutations can be lost from some point on (a crash),
// those that were not synced can be undone (a power failure), and calls of
// chosen threads can be stopped at gates.
#ifndef VERIF_LDB_HPP
#define VERIF_LDB_HPP
#include <atomic>
#include <dlfcn.h>
#include <functional>
#include <leveldb/db.h>
#include <leveldb/write_batch.h>
#include <map>
#include <optional>
#include <vector>
#include <string>

extern "C" inline int fdatasync(int) {
    return 0;
}
extern "C" inline int fsync(int) {
    return 0;
}
namespace vf::ldb {
    inline std::atomic<long>& left() { // mutations until the crash, < 0: never
        static std::atomic<long> n{-1};
        return n;
    }
    inline std::atomic<bool>& dead() { // a mutation has been lost
        static std::atomic<bool> n{false};
        return n;
    }
    inline std::function<void(const char*)>& gate() {
        static auto* f = new std::function<void(const char*)>([](const char*) {});
        return *f;
    }
    inline bool lost() {
        auto& n = left();
        if(n.load() < 0) {
            return false;
        }
        if(n.load() == 0) {
            dead() = true;
            return true;
        }
        n--;
        return false;
    }
    class proxy;
    inline std::vector<proxy*>& open() {
        static auto* v = new std::vector<proxy*>();
        return *v;
    }
    class proxy : public leveldb::DB {
        // values before each mutation that is not synced yet
        std::vector<std::map<std::string, std::optional<std::string>>> undo;
        struct keys : leveldb::WriteBatch::Handler {
            std::vector<std::string> k;
            void Put(const leveldb::Slice& x, const leveldb::Slice&) override {
                k.push_back(x.ToString());
            }
            void Delete(const leveldb::Slice& x) override {
                k.push_back(x.ToString());
            }
        };
        leveldb::Status apply(const leveldb::WriteOptions& o, leveldb::WriteBatch& b) {
            gate()("write");
            auto r = leveldb::Status::OK();
            if(!lost()) {
                keys ks;
                b.Iterate(&ks);
                std::map<std::string, std::optional<std::string>> was;
                for(auto& k : ks.k) {
                    std::string v;
                    auto st = d->Get(leveldb::ReadOptions(), k, &v);
                    was[k] = st.ok() ? std::optional<std::string>(v) : std::nullopt;
                }
                r = d->Write(leveldb::WriteOptions(), &b);
                if(o.sync) {
                    undo.clear();
                } else {
                    undo.push_back(std::move(was));
                }
            }
            gate()("written");
            return r;
        }

      public:
        leveldb::DB* d;
        // Undoes all mutations after the last synced one but the first `keep`.
        void power_failure(size_t keep) {
            while(undo.size() > keep) {
                for(auto& u : undo.back()) {
                    if(u.second.has_value()) {
                        d->Put(leveldb::WriteOptions(), u.first, u.second.value());
                    } else {
                        d->Delete(leveldb::WriteOptions(), u.first);
                    }
                }
                undo.pop_back();
            }
        }
        explicit proxy(leveldb::DB* p) : d(p) {
            open().push_back(this);
        }
        ~proxy() override {
            std::erase(open(), this);
            delete d;
        }
        leveldb::Status Put(const leveldb::WriteOptions& o, const leveldb::Slice& k, const leveldb::Slice& v) override {
            leveldb::WriteBatch b;
            b.Put(k, v);
            return apply(o, b);
        }
        leveldb::Status Delete(const leveldb::WriteOptions& o, const leveldb::Slice& k) override {
            leveldb::WriteBatch b;
            b.Delete(k);
            return apply(o, b);
        }
        leveldb::Status Write(const leveldb::WriteOptions& o, leveldb::WriteBatch* b) override {
            return apply(o, *b);
        }
        leveldb::Status Get(const leveldb::ReadOptions& o, const leveldb::Slice& k, std::string* v) override {
            gate()("get");
            return d->Get(o, k, v);
        }
        leveldb::Iterator* NewIterator(const leveldb::ReadOptions& o) override {
            gate()("get");
            return d->NewIterator(o);
        }
        const leveldb::Snapshot* GetSnapshot() override {
            gate()("snap");
            auto* s = d->GetSnapshot();
            gate()("snapped");
            return s;
        }
        void ReleaseSnapshot(const leveldb::Snapshot* s) override {
            d->ReleaseSnapshot(s);
        }
        bool GetProperty(const leveldb::Slice& p, std::string* v) override {
            return d->GetProperty(p, v);
        }
        void GetApproximateSizes(const leveldb::Range* r, int n, uint64_t* s) override {
            d->GetApproximateSizes(r, n, s);
        }
        void CompactRange(const leveldb::Slice* a, const leveldb::Slice* b) override {
            d->CompactRange(a, b);
        }
    };
}
namespace leveldb {
    Status DB::Open(const Options& o, const std::string& n, DB** p) {
        using fn = Status (*)(const Options&, const std::string&, DB**);
        static auto real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "_ZN7leveldb2DB4OpenERKNS_7OptionsERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEPPS0_"));
        auto s = real(o, n, p);
        if(s.ok()) {
            *p = new vf::ldb::proxy(*p);
        }
        return s;
    }
}
#endif
