// A file store shared by several simulated processes.
//
// World holds the durable state (a tree of files). Each simulated process reaches it through its
// own MemFs; every operation first goes through the process's gate, which decides whether the
// operation happens, fails, is torn, or whether the process stops there. Operations are atomic, as
// the store's interface promises for rename, create and delete; the content of a file becomes
// visible as it is written (so a reader may see a prefix of a file that is being written).
#pragma once
#include <ucontext.h>

#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "core/det.h"
#include "mc/mc.h"
#include "paimon/executor.h"
#include "paimon/factories/factory_creator.h"
#include "paimon/fs/file_system.h"
#include "paimon/fs/file_system_factory.h"

namespace w {

struct Node {
    bool dir = false;
    std::string data;
    int64_t mtime = 0;
};

enum Op { OPEN, CREATE, WRITE, CLOSE, MKDIRS, RENAME, DELETE, STATUS, LIST, EXISTS, READ };
inline const char* OpName(Op o) {
    static const char* n[] = {"open", "create", "write", "close", "mkdirs", "rename", "delete",
                              "status", "list", "exists", "read"};
    return n[o];
}
inline bool Mutates(Op o) {
    return o == CREATE || o == WRITE || o == MKDIRS || o == RENAME || o == DELETE;
}

// What the gate decides about an operation.
struct Act {
    enum Kind { GO, FAIL, FAIL_AFTER, TORN } kind = GO;  // TORN: a prefix is written, then failure
    size_t prefix = 0;
};

struct OpInfo {
    int proc;
    Op op;
    std::string path;
    std::string path2;
    size_t size;
};

struct World {
    std::map<std::string, Node> t;
    int64_t clock_ms = 1700000000000LL;

    static std::string Norm(std::string p) {
        auto s = p.find("://");
        if (s != std::string::npos) {
            auto e = p.find('/', s + 3);
            p = e == std::string::npos ? "/" : p.substr(e);
        } else if (p.compare(0, 5, "file:") == 0) {
            p = p.substr(5);
        }
        std::string out;
        for (char c : p) {
            if (c == '/' && !out.empty() && out.back() == '/') continue;
            out += c;
        }
        if (out.size() > 1 && out.back() == '/') out.pop_back();
        return out;
    }
    static std::string Parent(const std::string& p) {
        auto i = p.rfind('/');
        return i == std::string::npos || i == 0 ? "/" : p.substr(0, i);
    }
    bool Has(const std::string& p) const { return t.count(p) > 0 || p == "/"; }
    bool IsDir(const std::string& p) const {
        auto i = t.find(p);
        return p == "/" || (i != t.end() && i->second.dir);
    }
    bool MkParents(const std::string& p) {
        if (p == "/" || p.empty()) return true;
        auto i = t.find(p);
        if (i != t.end()) return i->second.dir;
        if (!MkParents(Parent(p))) return false;
        Node n;
        n.dir = true;
        n.mtime = clock_ms;
        t[p] = n;
        return true;
    }
    std::vector<std::string> Children(const std::string& dir) const {
        std::vector<std::string> r;
        std::string pre = dir == "/" ? "/" : dir + "/";
        for (auto i = t.lower_bound(pre); i != t.end() && i->first.compare(0, pre.size(), pre) == 0; ++i) {
            if (i->first.find('/', pre.size()) == std::string::npos) r.push_back(i->first);
        }
        return r;
    }
    std::vector<std::string> Files(const std::string& under) const {
        std::vector<std::string> r;
        for (auto& [p, n] : t) {
            if (!n.dir && p.compare(0, under.size(), under) == 0) r.push_back(p);
        }
        return r;
    }
    void Put(const std::string& p, const std::string& data) {
        MkParents(Parent(p));
        Node n;
        n.data = data;
        n.mtime = clock_ms;
        t[p] = n;
    }
};

// Decides the fate of each operation of a process.
struct Gate {
    virtual ~Gate() = default;
    virtual Act Before(const OpInfo& op) { return {}; }
    virtual void After(const OpInfo& op) {}
};

// A simulated process.
struct Proc {
    int id = 0;
    World* world = nullptr;
    Gate* gate = nullptr;
    bool dead = false;  // stopped: none of its operations has an effect any more
    int64_t ops = 0, dead_ops = 0;
    std::set<std::string> own;  // files created by this process
};

// The processes the file system factory can hand out (option "mc.proc").
inline std::map<int, Proc*>& Procs() {
    static std::map<int, Proc*> m;
    return m;
}

inline paimon::Status Err(const OpInfo& op) {
    return paimon::Status::IOError(std::string("injected failure: ") + OpName(op.op) + " " + op.path);
}

inline Act Enter(Proc* p, const OpInfo& op) {
    if (p->dead) {
        if (++p->dead_ops > 100000) mc::Fail("endless", "gives no answer while its store fails (%s)", op.path.c_str());
        return Act{Act::FAIL, 0};
    }
    p->ops++;
    mc::Steps();
    Act a;
    if (p->gate) a = p->gate->Before(op);
    if (mc::Replaying()) {
        mc::Log("p%d %s %s%s%s%s", op.proc, OpName(op.op), op.path.c_str(), op.path2.empty() ? "" : " -> ",
                op.path2.c_str(),
                p->dead ? "   [process stopped]"
                        : a.kind == Act::FAIL ? "   [fails]"
                                              : a.kind == Act::FAIL_AFTER ? "   [done, reported as failed]"
                                                                          : a.kind == Act::TORN ? "   [torn]" : "");
    }
    if (p->dead && a.kind == Act::GO) a.kind = Act::FAIL;
    return a;
}

class In : public paimon::InputStream {
 public:
    In(Proc* p, std::string path, std::string data) : p_(p), path_(std::move(path)), data_(std::move(data)) {}
    paimon::Status Seek(int64_t off, paimon::SeekOrigin o) override {
        int64_t n = o == paimon::FS_SEEK_SET ? off
                    : o == paimon::FS_SEEK_CUR ? static_cast<int64_t>(pos_) + off
                                               : static_cast<int64_t>(data_.size()) + off;
        if (n < 0 || n > static_cast<int64_t>(data_.size())) return paimon::Status::Invalid("seek out of range");
        pos_ = n;
        return paimon::Status::OK();
    }
    paimon::Result<int64_t> GetPos() const override { return static_cast<int64_t>(pos_); }
    paimon::Result<int32_t> Read(char* b, uint32_t n) override {
        auto r = Read(b, n, pos_);
        if (r.ok()) pos_ += r.value();
        return r;
    }
    paimon::Result<int32_t> Read(char* b, uint32_t n, uint64_t off) override {
        OpInfo op{p_->id, READ, path_, "", n};
        if (Enter(p_, op).kind != Act::GO) return Err(op);
        if (off > data_.size()) return 0;
        size_t k = std::min<size_t>(n, data_.size() - off);
        memcpy(b, data_.data() + off, k);
        return static_cast<int32_t>(k);
    }
    void ReadAsync(char* b, uint32_t n, uint64_t off, std::function<void(paimon::Status)>&& cb) override {
        auto r = Read(b, n, off);
        cb(r.ok() ? paimon::Status::OK() : r.status());
    }
    paimon::Result<std::string> GetUri() const override { return path_; }
    paimon::Result<uint64_t> Length() const override { return data_.size(); }
    paimon::Status Close() override { return paimon::Status::OK(); }

 private:
    Proc* p_;
    std::string path_, data_;
    size_t pos_ = 0;
};

class Out : public paimon::OutputStream {
 public:
    Out(Proc* p, std::string path) : p_(p), path_(std::move(path)) {}
    paimon::Result<int32_t> Write(const char* b, uint32_t n) override {
        OpInfo op{p_->id, WRITE, path_, "", n};
        Act a = Enter(p_, op);
        auto i = p_->world->t.find(path_);
        size_t k = a.kind == Act::GO || a.kind == Act::FAIL_AFTER ? n : a.kind == Act::TORN ? a.prefix : 0;
        // every writer has its own position in the file
        if (i != p_->world->t.end() && k) {
            std::string& d = i->second.data;
            if (d.size() < pos_ + k) d.resize(pos_ + k);
            memcpy(&d[pos_], b, k);
        }
        if (a.kind != Act::GO) return Err(op);
        if (p_->gate) p_->gate->After(op);
        pos_ += n;
        return static_cast<int32_t>(n);
    }
    paimon::Status Flush() override { return Sync(); }
    paimon::Status Close() override { return Sync(); }
    paimon::Result<int64_t> GetPos() const override { return pos_; }
    paimon::Result<std::string> GetUri() const override { return path_; }

 private:
    paimon::Status Sync() {
        OpInfo op{p_->id, CLOSE, path_, "", 0};
        if (Enter(p_, op).kind != Act::GO) return Err(op);
        return paimon::Status::OK();
    }
    Proc* p_;
    std::string path_;
    int64_t pos_ = 0;
};

struct Basic : public paimon::BasicFileStatus {
    Basic(std::string p, bool d) : path(std::move(p)), dir(d) {}
    bool IsDir() const override { return dir; }
    std::string GetPath() const override { return path; }
    std::string path;
    bool dir;
};
struct Full : public paimon::FileStatus {
    Full(std::string p, const Node& n) : path(std::move(p)), dir(n.dir), len(n.data.size()), mtime(n.mtime) {}
    uint64_t GetLen() const override { return len; }
    bool IsDir() const override { return dir; }
    std::string GetPath() const override { return path; }
    int64_t GetModificationTime() const override { return mtime; }
    std::string path;
    bool dir;
    uint64_t len;
    int64_t mtime;
};

class MemFs : public paimon::FileSystem {
 public:
    explicit MemFs(Proc* p) : p_(p) {}

    paimon::Result<std::unique_ptr<paimon::InputStream>> Open(const std::string& raw) const override {
        std::string path = World::Norm(raw);
        OpInfo op{p_->id, OPEN, path, "", 0};
        if (Enter(p_, op).kind != Act::GO) return Err(op);
        auto i = p_->world->t.find(path);
        if (i == p_->world->t.end()) return paimon::Status::NotExist("no such file: " + path);
        if (i->second.dir) return paimon::Status::IOError("is a directory: " + path);
        return std::unique_ptr<paimon::InputStream>(new In(p_, path, i->second.data));
    }
    paimon::Result<std::unique_ptr<paimon::OutputStream>> Create(const std::string& raw,
                                                                 bool overwrite) const override {
        std::string path = World::Norm(raw);
        OpInfo op{p_->id, CREATE, path, "", 0};
        Act a = Enter(p_, op);
        if (a.kind == Act::FAIL || a.kind == Act::TORN) return Err(op);
        World& w = *p_->world;
        if (w.Has(path)) {
            if (!overwrite) return paimon::Status::Exist("file exists: " + path);
            if (w.IsDir(path)) return paimon::Status::IOError("is a directory: " + path);
        }
        if (!w.MkParents(World::Parent(path))) return paimon::Status::IOError("parent is a file: " + path);
        Node n;
        n.mtime = w.clock_ms;
        w.t[path] = n;
        p_->own.insert(path);
        if (a.kind != Act::GO) return Err(op);
        if (p_->gate) p_->gate->After(op);
        return std::unique_ptr<paimon::OutputStream>(new Out(p_, path));
    }
    paimon::Status Mkdirs(const std::string& raw) const override {
        std::string path = World::Norm(raw);
        OpInfo op{p_->id, MKDIRS, path, "", 0};
        Act a = Enter(p_, op);
        if (a.kind == Act::FAIL || a.kind == Act::TORN) return Err(op);
        if (!p_->world->MkParents(path)) return paimon::Status::IOError("not a directory: " + path);
        if (a.kind != Act::GO) return Err(op);
        if (p_->gate) p_->gate->After(op);
        return paimon::Status::OK();
    }
    paimon::Status Rename(const std::string& rs, const std::string& rd) const override {
        std::string src = World::Norm(rs), dst = World::Norm(rd);
        OpInfo op{p_->id, RENAME, src, dst, 0};
        Act a = Enter(p_, op);
        if (a.kind == Act::FAIL || a.kind == Act::TORN) return Err(op);
        World& w = *p_->world;
        if (!w.Has(src)) return paimon::Status::NotExist("no such file: " + src);
        if (w.Has(dst)) return paimon::Status::Exist("file exists: " + dst);
        if (!w.MkParents(World::Parent(dst))) return paimon::Status::IOError("parent is a file: " + dst);
        std::vector<std::pair<std::string, Node>> moved;
        for (auto& [k, n] : w.t) {
            if (k == src || k.compare(0, src.size() + 1, src + "/") == 0) moved.emplace_back(k, n);
        }
        for (auto& [k, n] : moved) {
            w.t.erase(k);
            w.t[dst + k.substr(src.size())] = n;
        }
        if (p_->own.erase(src)) p_->own.insert(dst);
        if (a.kind != Act::GO) return Err(op);
        if (p_->gate) p_->gate->After(op);
        return paimon::Status::OK();
    }
    paimon::Status Delete(const std::string& raw, bool recursive) const override {
        std::string path = World::Norm(raw);
        OpInfo op{p_->id, DELETE, path, "", 0};
        Act a = Enter(p_, op);
        if (a.kind == Act::FAIL || a.kind == Act::TORN) return Err(op);
        World& w = *p_->world;
        if (!w.Has(path)) return paimon::Status::OK();
        if (w.IsDir(path)) {
            auto lo = w.t.lower_bound(path + "/");
            bool empty = lo == w.t.end() || lo->first.compare(0, path.size() + 1, path + "/") != 0;
            if (!empty && !recursive) return paimon::Status::IOError("directory not empty: " + path);
            while (!empty && lo != w.t.end() && lo->first.compare(0, path.size() + 1, path + "/") == 0) {
                lo = w.t.erase(lo);
            }
        }
        w.t.erase(path);
        if (a.kind != Act::GO) return Err(op);
        if (p_->gate) p_->gate->After(op);
        return paimon::Status::OK();
    }
    paimon::Result<std::unique_ptr<paimon::FileStatus>> GetFileStatus(const std::string& raw) const override {
        std::string path = World::Norm(raw);
        OpInfo op{p_->id, STATUS, path, "", 0};
        if (Enter(p_, op).kind != Act::GO) return Err(op);
        auto i = p_->world->t.find(path);
        if (i == p_->world->t.end()) return paimon::Status::NotExist("no such file: " + path);
        return std::unique_ptr<paimon::FileStatus>(new Full(path, i->second));
    }
    paimon::Status ListDir(const std::string& raw,
                           std::vector<std::unique_ptr<paimon::BasicFileStatus>>* out) const override {
        std::string path = World::Norm(raw);
        OpInfo op{p_->id, LIST, path, "", 0};
        if (Enter(p_, op).kind != Act::GO) return Err(op);
        World& w = *p_->world;
        if (!w.Has(path)) return paimon::Status::OK();
        if (!w.IsDir(path)) return paimon::Status::IOError("not a directory: " + path);
        for (auto& c : w.Children(path)) out->emplace_back(new Basic(c, w.IsDir(c)));
        return paimon::Status::OK();
    }
    paimon::Status ListFileStatus(const std::string& raw,
                                  std::vector<std::unique_ptr<paimon::FileStatus>>* out) const override {
        std::string path = World::Norm(raw);
        OpInfo op{p_->id, LIST, path, "", 0};
        if (Enter(p_, op).kind != Act::GO) return Err(op);
        World& w = *p_->world;
        if (!w.Has(path)) return paimon::Status::OK();
        if (!w.IsDir(path)) {
            out->emplace_back(new Full(path, w.t[path]));
            return paimon::Status::OK();
        }
        for (auto& c : w.Children(path)) out->emplace_back(new Full(c, w.t[c]));
        return paimon::Status::OK();
    }
    paimon::Result<bool> Exists(const std::string& raw) const override {
        std::string path = World::Norm(raw);
        OpInfo op{p_->id, EXISTS, path, "", 0};
        if (Enter(p_, op).kind != Act::GO) return Err(op);
        return p_->world->Has(path);
    }

 private:
    Proc* p_;
};

class MemFsFactory : public paimon::FileSystemFactory {
 public:
    const char* Identifier() const override { return "mcfs"; }
    paimon::Result<std::unique_ptr<paimon::FileSystem>> Create(
        const std::string&, const std::map<std::string, std::string>& options) const override {
        auto i = options.find("mc.proc");
        int id = i == options.end() ? 0 : atoi(i->second.c_str());
        auto p = Procs().find(id);
        if (p == Procs().end()) return paimon::Status::Invalid("unknown process");
        return std::unique_ptr<paimon::FileSystem>(new MemFs(p->second));
    }
};

// Runs tasks at once, in the caller.
class Inline : public paimon::Executor {
 public:
    void Add(std::function<void()> f) override { f(); }
};

// ---- fault injection in a single process ---------------------------------------------------

// Stops the process at any one operation (every operation is a crash point; a write may leave any
// of a set of prefixes), at a cost of one deviation.
struct CrashGate : Gate {
    Proc* p;
    int at = -1;
    explicit CrashGate(Proc* proc) : p(proc) {}
    Act Before(const OpInfo& op) override {
        if (!Mutates(op.op)) return {};  // stopping at a read is stopping before the next change
        if (op.op == WRITE && op.size > 0) {
            int c = mc::ChooseDev(4);
            if (c == 0) return {};
            p->dead = true;
            at = static_cast<int>(p->ops);
            size_t cut = c == 1 ? 0 : c == 2 ? op.size / 2 : op.size;
            return Act{Act::TORN, cut};
        }
        int c = mc::ChooseDev(2);
        if (c == 0) return {};
        p->dead = true;
        at = static_cast<int>(p->ops);
        return Act{Act::FAIL, 0};
    }
};

// Lets any operation fail (up to the deviation bound), with or without its effect.
struct FaultGate : Gate {
    int hits = 0;
    std::function<bool(const OpInfo&)> may = [](const OpInfo&) { return true; };
    OpInfo last;
    // After the first failure, every operation of that sort fails.
    bool forever = false;
    Act Before(const OpInfo& op) override {
        if (!may(op)) return {};
        if (forever && hits) {
            if (op.op != last.op) return {};
            if (++hits > 1000) mc::Fail("endless", "the process keeps trying without end");
            return Act{Act::FAIL, 0};
        }
        int c = mc::ChooseDev(op.op == WRITE ? 4 : Mutates(op.op) ? 3 : 2);
        if (c == 0) return {};
        hits++;
        last = op;
        if (c == 1) return Act{Act::FAIL, 0};
        if (c == 2) return Act{Act::FAIL_AFTER, 0};
        return Act{Act::TORN, op.size / 2};
    }
};

// ---- several processes, interleaved at their file operations -------------------------------

// Each process is a coroutine. It gives control back before every operation for which `visible`
// holds; the explorer then picks who goes on. Switching away from a process that could go on costs
// one deviation.
class Interleaving {
 public:
    explicit Interleaving(std::function<bool(const OpInfo&)> visible) : visible_(std::move(visible)) {}
    ~Interleaving() { Stop(); }
    // Also ask, at every visible mutating operation, whether the process stops there.
    bool crashes = false;

    void Spawn(Proc* p, std::function<void()> body) {
        auto t = std::make_unique<T>();
        t->p = p;
        t->gate.self = t.get();
        t->gate.ctl = this;
        t->body = std::move(body);
        t->ctl = this;
        p->gate = &t->gate;
        t->stack = Stacks().empty() ? static_cast<char*>(malloc(kStack)) : Stacks().back();
        if (!Stacks().empty()) Stacks().pop_back();
        getcontext(&t->ctx);
        t->ctx.uc_stack.ss_sp = t->stack;
        t->ctx.uc_stack.ss_size = kStack;
        t->ctx.uc_link = nullptr;
        auto v = reinterpret_cast<uintptr_t>(t.get());
        makecontext(&t->ctx, reinterpret_cast<void (*)()>(&Entry), 2, static_cast<unsigned>(v >> 32),
                    static_cast<unsigned>(v));
        threads_.push_back(std::move(t));
    }
    // Runs to completion; returns the number of switches.
    int Run() {
        int switches = 0;
        T* cur = nullptr;
        while (true) {
            std::vector<T*> ready;
            if (cur && !cur->done) ready.push_back(cur);
            for (auto& t : threads_) {
                if (!t->done && t.get() != cur) ready.push_back(t.get());
            }
            if (ready.empty()) break;
            size_t pick;
            if (cur && !cur->done) {
                pick = ready.size() > 1 ? mc::ChooseDev(static_cast<int>(ready.size())) : 0;
            } else {
                pick = ready.size() > 1 ? mc::Choose(static_cast<int>(ready.size())) : 0;
            }
            if (cur && ready[pick] != cur) switches++;
            cur = ready[pick];
            cur->act = {};
            if (crashes && cur->started && Mutates(cur->op.op) && mc::ChooseDev(2)) {
                cur->p->dead = true;
                cur->act.kind = Act::FAIL;
            }
            Give(cur);
        }
        for (auto& t : threads_) t->p->gate = nullptr;
        return switches;
    }

 private:
    struct T;
    struct G : Gate {
        T* self = nullptr;
        Interleaving* ctl = nullptr;
        Act Before(const OpInfo& op) override {
            if (!ctl->visible_(op)) return {};
            return ctl->Offer(self, op);
        }
    };
    struct T {
        Proc* p = nullptr;
        G gate;
        Interleaving* ctl = nullptr;
        std::function<void()> body;
        ucontext_t ctx;
        char* stack = nullptr;
        OpInfo op{0, EXISTS, "", "", 0};
        Act act;
        bool done = false;
        bool started = false;
    };
    static constexpr size_t kStack = 512 << 10;
    static std::vector<char*>& Stacks() {
        static std::vector<char*> v;
        return v;
    }
    static void Entry(unsigned hi, unsigned lo) {
        T* t = reinterpret_cast<T*>((static_cast<uintptr_t>(hi) << 32) | lo);
        t->body();
        t->done = true;
        swapcontext(&t->ctx, &t->ctl->main_);
    }
    Act Offer(T* t, const OpInfo& op) {
        t->op = op;
        t->started = true;
        swapcontext(&t->ctx, &main_);
        return t->act;
    }
    void Give(T* t) { swapcontext(&main_, &t->ctx); }
    void Stop() {
        for (auto& t : threads_) {
            if (!t->done) {
                t->p->dead = true;
                t->act.kind = Act::FAIL;
                while (!t->done) Give(t.get());
            }
            t->p->gate = nullptr;
            Stacks().push_back(t->stack);
        }
        threads_.clear();
    }
    std::function<bool(const OpInfo&)> visible_;
    std::vector<std::unique_ptr<T>> threads_;
    ucontext_t main_;
};

}  // namespace w
