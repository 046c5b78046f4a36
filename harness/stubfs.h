// File systems that only note which instance was asked for what.
#pragma once
#include <atomic>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "paimon/factories/factory_creator.h"
#include "paimon/fs/file_system.h"
#include "paimon/fs/file_system_factory.h"

namespace stub {
using namespace paimon;  // NOLINT

struct Call {
    int instance;
    std::string op, path, more;
};
// Every thread notes its own calls: the stand-in must not order threads that the code under test leaves unordered.
inline std::vector<Call>& Calls() {
    static thread_local std::vector<Call> c;
    return c;
}
struct Made {
    std::string factory, path;
    std::map<std::string, std::string> options;
};
constexpr int kMax = 64;
inline Made* Instances() {
    static Made m[kMax];
    return m;
}
inline std::atomic<int> made{0};
inline std::atomic<int> fail_next{0};

class Fs : public FileSystem {
 public:
    explicit Fs(int id) : id_(id) {}
    Result<std::unique_ptr<InputStream>> Open(const std::string& p) const override { return Note("open", p); }
    Result<std::unique_ptr<OutputStream>> Create(const std::string& p, bool o) const override {
        return Note("create", p, o ? "overwrite" : "");
    }
    Status Mkdirs(const std::string& p) const override { return Note("mkdirs", p); }
    Status Rename(const std::string& p, const std::string& q) const override { return Note("rename", p, q); }
    Status Delete(const std::string& p, bool r) const override { return Note("delete", p, r ? "recursive" : ""); }
    Result<std::unique_ptr<FileStatus>> GetFileStatus(const std::string& p) const override { return Note("status", p); }
    Status ListDir(const std::string& p, std::vector<std::unique_ptr<BasicFileStatus>>*) const override {
        return Note("list", p);
    }
    Status ListFileStatus(const std::string& p, std::vector<std::unique_ptr<FileStatus>>*) const override {
        return Note("liststatus", p);
    }
    Result<bool> Exists(const std::string& p) const override { return Note("exists", p); }

 private:
    // the answer names the instance, so that the caller can tell whom it came from
    Status Note(const char* op, const std::string& p, const std::string& more = "") const {
        Calls().push_back({id_, op, p, more});
        return Status::NotImplemented("instance ", std::to_string(id_));
    }
    int id_;
};

class Factory : public FileSystemFactory {
 public:
    explicit Factory(std::string id, bool may_fail = false) : id_(std::move(id)), may_fail_(may_fail) {}
    const char* Identifier() const override { return id_.c_str(); }
    Result<std::unique_ptr<FileSystem>> Create(const std::string& path,
                                               const std::map<std::string, std::string>& o) const override {
        if (may_fail_ && fail_next.exchange(0, std::memory_order_relaxed)) {
            return Status::IOError("first attempt fails");
        }
        int n = made.fetch_add(1, std::memory_order_relaxed) % kMax;
        Instances()[n] = {id_, path, o};
        return std::unique_ptr<FileSystem>(new Fs(n));
    }

 private:
    std::string id_;
    bool may_fail_;
};

// Registers the stand-ins and forgets what was noted before.
inline void Start(bool fail) {
    static bool once = []() {
        auto* r = FactoryCreator::GetInstance();
        r->Register("fa", new Factory("fa", true));
        r->Register("fd", new Factory("fd"));
        r->Register("fl", new Factory("fl"));
        return true;
    }();
    (void)once;
    Calls().clear();
    made = 0;
    fail_next = fail;
}
}  // namespace stub
