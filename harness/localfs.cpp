// The local file system: what its operations do to a directory tree, and what is left of a file when
// an operation fails, the process dies, or others work on the same files.
//
// The real code runs on a scratch directory as an unprivileged user. The C library calls it makes are
// intercepted (linker --wrap): they are where executions are interleaved, stopped or made to fail.
// A call that would change anything outside the scratch directory is refused and reported.
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <sys/stat.h>
#include <ucontext.h>
#include <unistd.h>

#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "mc/mc.h"
#include "paimon/fs/local/local_file_system.h"

using namespace paimon;  // NOLINT

// ---- interception --------------------------------------------------------------------------------

extern "C" {
ssize_t __real_pread(int, void*, size_t, off_t);
int __real_open(const char*, int, ...);
}

namespace io {
enum Act { GO, FAIL, DEAD, SHORT };
// Asked before every intercepted call that the code under test makes.
std::function<Act(const char* call, const char* path, bool changes)> before;
bool active = false;
int error = EIO;   // what a failing call reports
int shorter = 0;   // how little a short read delivers: half, one byte, all but one
int uninvited = 0;

std::string& Root() {
    static std::string r;
    return r;
}
bool Inside(const char* p) {
    const std::string& r = Root();
    std::string s = p ? p : "";
    return s.compare(0, r.size(), r) == 0 && (s.size() == r.size() || s[r.size()] == '/') &&
           s.find("/..") == std::string::npos;
}
Act Ask(const char* call, const char* path, bool changes) {
    if (!active) return GO;
    if (changes && path && !Inside(path)) {
        mc::Fail("escape", "%s of %s, which lies outside of the directory worked on", call, path);
    }
    mc::Log("%s %s", call, path ? path : "");
    return before ? before(call, path, changes) : GO;
}
// What survives a power failure: the content at the last synchronisation of each file.
std::map<ino_t, std::string> durable;
std::string Slurp(int fd) {
    std::string s;
    char b[8192];
    off_t o = 0;
    ssize_t n;
    while ((n = __real_pread(fd, b, sizeof b, o)) > 0) {
        s.append(b, n);
        o += n;
    }
    return s;
}
void Synced(int fd) {
    struct stat st;
    if (fstat(fd, &st) != 0) return;
    int r = __real_open(("/proc/self/fd/" + std::to_string(fd)).c_str(), O_RDONLY);
    if (r < 0) return;
    durable[st.st_ino] = Slurp(r);
    close(r);
}
}  // namespace io

#define IO_ASK(call, path, changes, bad)          \
    switch (io::Ask(call, path, changes)) {       \
        case io::GO:                              \
            break;                                \
        default:                                  \
            errno = io::error;                    \
            return bad;                           \
    }

extern "C" {
int __real_access(const char*, int);
int __wrap_access(const char* p, int m) {
    IO_ASK("access", p, false, -1);
    return __real_access(p, m);
}
int __real_stat(const char*, struct stat*);
int __wrap_stat(const char* p, struct stat* b) {
    IO_ASK("stat", p, false, -1);
    return __real_stat(p, b);
}
int __real_lstat(const char*, struct stat*);
int __wrap_lstat(const char* p, struct stat* b) {
    IO_ASK("lstat", p, false, -1);
    return __real_lstat(p, b);
}
DIR* __real_opendir(const char*);
DIR* __wrap_opendir(const char* p) {
    IO_ASK("opendir", p, false, nullptr);
    return __real_opendir(p);
}
int __real_remove(const char*);
int __wrap_remove(const char* p) {
    IO_ASK("remove", p, true, -1);
    return __real_remove(p);
}
int __real_unlink(const char*);
int __wrap_unlink(const char* p) {
    IO_ASK("unlink", p, true, -1);
    return __real_unlink(p);
}
int __real_rmdir(const char*);
int __wrap_rmdir(const char* p) {
    IO_ASK("rmdir", p, true, -1);
    return __real_rmdir(p);
}
int __real_mkdir(const char*, mode_t);
int __wrap_mkdir(const char* p, mode_t m) {
    IO_ASK("mkdir", p, true, -1);
    return __real_mkdir(p, m);
}
int __real_rename(const char*, const char*);
int __wrap_rename(const char* a, const char* b) {
    IO_ASK("rename", a, true, -1);
    if (io::active && !io::Inside(b)) mc::Fail("escape", "rename to %s", b);
    return __real_rename(a, b);
}
int __real_renameat2(int, const char*, int, const char*, unsigned);
int __wrap_renameat2(int d, const char* a, int e, const char* b, unsigned f) {
    IO_ASK("renameat2", a, true, -1);
    if (io::active && !io::Inside(b)) mc::Fail("escape", "rename to %s", b);
    return __real_renameat2(d, a, e, b, f);
}
int __real_link(const char*, const char*);
int __wrap_link(const char* a, const char* b) {
    IO_ASK("link", b, true, -1);
    return __real_link(a, b);
}
FILE* __real_fopen(const char*, const char*);
FILE* __wrap_fopen(const char* p, const char* m) {
    IO_ASK("fopen", p, m[0] != 'r' || strchr(m, '+'), nullptr);
    return __real_fopen(p, m);
}
int __real_open(const char*, int, ...);
int __wrap_open(const char* p, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    mode_t m = (flags & O_CREAT) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    IO_ASK("open", p, (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0, -1);
    return __real_open(p, flags, m);
}
size_t __real_fread(void*, size_t, size_t, FILE*);
size_t __wrap_fread(void* b, size_t s, size_t n, FILE* f) {
    if (io::Ask("fread", nullptr, false) != io::GO) {
        errno = io::error;
        f->_flags |= 0x20;  // _IO_ERR_SEEN
        return 0;
    }
    return __real_fread(b, s, n, f);
}
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) {
    io::Act a = io::Ask("pread", nullptr, false);
    if (a == io::SHORT) {
        n = io::shorter == 0 ? (n + 1) / 2 : io::shorter == 1 ? std::min<size_t>(n, 1) : n > 1 ? n - 1 : n;
        return __real_pread(fd, b, n, o);
    }  // less than asked for, as it may
    if (a != io::GO) {
        errno = io::error;
        return -1;
    }
    return __real_pread(fd, b, n, o);
}
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
size_t __wrap_fwrite(const void* b, size_t s, size_t n, FILE* f) {
    if (f == stdout || f == stderr) return __real_fwrite(b, s, n, f);
    switch (io::Ask("fwrite", nullptr, true)) {
        case io::GO:
            return __real_fwrite(b, s, n, f);
        case io::FAIL: {  // the disk is full: half of it is accepted
            size_t k = s == 1 ? __real_fwrite(b, 1, n / 2, f) : 0;
            errno = ENOSPC;
            f->_flags |= 0x20;
            return k;
        }
        default:
            errno = EIO;
            f->_flags |= 0x20;
            return 0;
    }
}
ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_write(int fd, const void* b, size_t n) {
    if (fd <= 2) return __real_write(fd, b, n);
    IO_ASK("write", nullptr, true, -1);
    return __real_write(fd, b, n);
}
int __real_fflush(FILE*);
int __wrap_fflush(FILE* f) {
    if (f == nullptr || f == stdout || f == stderr) return __real_fflush(f);
    IO_ASK("fflush", nullptr, true, EOF);
    return __real_fflush(f);
}
int __real_fclose(FILE*);
int __wrap_fclose(FILE* f) {
    io::Act a = io::Ask("fclose", nullptr, true);
    if (a != io::GO) __fpurge(f);  // what was not written out yet is lost
    int r = __real_fclose(f);
    if (a != io::GO) {
        errno = io::error;
        return EOF;
    }
    return r;
}
int __real_fsync(int);
int __wrap_fsync(int fd) {
    IO_ASK("fsync", nullptr, true, -1);
    io::Synced(fd);
    return 0;  // nothing here needs a real disk
}
int __real_fdatasync(int);
int __wrap_fdatasync(int fd) {
    IO_ASK("fdatasync", nullptr, true, -1);
    io::Synced(fd);
    return 0;
}
}

namespace {

// ---- the scratch directory ------------------------------------------------------------------------

constexpr uid_t kNobody = 65534;

void Wipe(const std::string& p, bool self) {
    DIR* d = __real_opendir(p.c_str());
    if (d) {
        while (auto* e = readdir(d)) {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            std::string q = p + "/" + n;
            if (e->d_type == DT_DIR) {
                Wipe(q, true);
            } else {
                __real_unlink(q.c_str());
            }
        }
        closedir(d);
    }
    if (self) __real_rmdir(p.c_str());
}

// Gives up root for as long as it lives; every path below is in a fresh empty directory.
struct Scratch {
    Scratch() {
        if (io::Root().empty()) {
            const char* base = getenv("MC_SCRATCH");
            std::string b = base ? base : "/tmp";
            std::string t = b + "/fs-XXXXXX";
            if (!mkdtemp(t.data())) mc::Fail("setup", "cannot create a scratch directory in %s", b.c_str());
            if (geteuid() == 0 && chown(t.c_str(), kNobody, kNobody) != 0) mc::Fail("setup", "chown");
            io::Root() = t;
            pid_ = getpid();
        }
        root_ = geteuid() == 0;
        if (root_ && seteuid(kNobody) != 0) mc::Fail("setup", "seteuid");
        io::durable.clear();
        io::before = nullptr;
        Wipe(io::Root(), false);
        free_ = FirstFree();
    }
    ~Scratch() {
        io::active = false;
        io::before = nullptr;
        // all streams are gone
        if (std::uncaught_exceptions() == 0) {
            MC_CHECK(FirstFree() == free_, "still-open", "a file is still open although every stream is gone");
        }
        if (root_ && seteuid(0) != 0) abort();
    }
    static int FirstFree() {
        int fd = __real_open("/dev/null", O_RDONLY);
        if (fd >= 0) close(fd);
        return fd;
    }
    bool root_;
    int free_;
    static pid_t pid_;
};
pid_t Scratch::pid_ = 0;
__attribute__((destructor)) void Cleanup() {
    if (!io::Root().empty() && Scratch::pid_ == getpid()) Wipe(io::Root(), true);
}

std::string P(const std::string& rel) { return io::Root() + (rel.empty() ? "" : "/" + rel); }

using Tree = std::map<std::string, std::string>;  // relative path -> content, "<dir>" for directories
void ReadTree(const std::string& p, const std::string& rel, Tree* t) {
    DIR* d = __real_opendir(p.c_str());
    if (!d) return;
    while (auto* e = readdir(d)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string r = rel.empty() ? n : rel + "/" + n;
        if (e->d_type == DT_DIR) {
            (*t)[r] = "<dir>";
            ReadTree(p + "/" + n, r, t);
        } else {
            int fd = __real_open((p + "/" + n).c_str(), O_RDONLY);
            (*t)[r] = fd < 0 ? "<unreadable>" : io::Slurp(fd);
            if (fd >= 0) close(fd);
        }
    }
    closedir(d);
}
Tree Now() {
    bool a = io::active;
    io::active = false;
    Tree t;
    ReadTree(io::Root(), "", &t);
    io::active = a;
    return t;
}
std::string Show(const Tree& t) {
    std::string s;
    for (auto& [k, v] : t) {
        s += k + (v == "<dir>" ? "/ " : "=" + (v.size() > 12 ? "#" + std::to_string(v.size()) : v) + " ");
    }
    return s;
}
void Put(const std::string& rel, const std::string& content) {
    for (size_t i = rel.find('/'); i != std::string::npos; i = rel.find('/', i + 1)) {
        __real_mkdir(P(rel.substr(0, i)).c_str(), 0755);
    }
    if (content == "<dir>") {
        __real_mkdir(P(rel).c_str(), 0755);
        return;
    }
    int fd = __real_open(P(rel).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || __real_write(fd, content.data(), content.size()) != static_cast<ssize_t>(content.size())) {
        mc::Fail("setup", "cannot write %s", rel.c_str());
    }
    struct stat st;
    fstat(fd, &st);
    io::durable[st.st_ino] = content;
    close(fd);
}
// The power fails: of every file only what was synchronised is left.
void PowerFails(const std::string& p) {
    DIR* d = __real_opendir(p.c_str());
    while (auto* e = readdir(d)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string q = p + "/" + n;
        if (e->d_type == DT_DIR) {
            PowerFails(q);
            continue;
        }
        struct stat st;
        __real_stat(q.c_str(), &st);
        auto i = io::durable.find(st.st_ino);
        std::string keep = i == io::durable.end() ? "" : i->second;
        int fd = __real_open(q.c_str(), O_WRONLY | O_TRUNC);
        if (__real_write(fd, keep.data(), keep.size()) < 0) abort();
        close(fd);
    }
    closedir(d);
}

// ---- operation sequences against a model of a tree -----------------------------------------------

std::string Parent(const std::string& p) {
    auto i = p.rfind('/');
    return i == std::string::npos ? "" : p.substr(0, i);
}
bool IsDir(const Tree& t, const std::string& p) {
    if (p.empty()) return true;
    auto i = t.find(p);
    return i != t.end() && i->second == "<dir>";
}
bool MkdirsModel(Tree* t, const std::string& p) {
    if (p.empty()) return true;
    for (size_t i = p.find('/');; i = p.find('/', i + 1)) {
        std::string q = p.substr(0, i);
        if (t->count(q) && !IsDir(*t, q)) return false;
        if (i == std::string::npos) break;
    }
    for (size_t i = p.find('/');; i = p.find('/', i + 1)) {
        (*t)[p.substr(0, i)] = "<dir>";
        if (i == std::string::npos) break;
    }
    return true;
}
bool HasChildren(const Tree& t, const std::string& p) {
    auto i = t.upper_bound(p + "/");
    return i != t.end() && i->first.compare(0, p.size() + 1, p + "/") == 0;
}
// A name below a file can neither exist nor be created.
bool BelowFile(const Tree& t, const std::string& p) {
    for (size_t i = p.find('/'); i != std::string::npos; i = p.find('/', i + 1)) {
        if (t.count(p.substr(0, i)) && !IsDir(t, p.substr(0, i))) return true;
    }
    return false;
}

const std::vector<std::string>& Names() {
    static std::vector<std::string> n{"a", "a/b", "a/b/c", "d"};
    return n;
}
std::string Style(int s, const std::string& rel) {
    switch (s) {
        case 1:
            return "file:" + P(rel);
        case 2:
            return "file://" + P(rel);
        case 3:
            return P(rel) + "/";
        default:
            return P(rel);
    }
}

MC_SCENARIO(tree, mc::BOTH, 3,
            "all sequences of 2 (thorough 3) operations out of making directories, creating with and without "
            "overwriting, storing atomically, deleting with and without recursion and renaming, on 4 nested names in 5 "
            "starting trees and 4 spellings of a path, each followed by every query on every name") {
    Scratch scratch;
    static const std::vector<Tree> starts{
        {},
        {{"a", "x"}, {"d", "<dir>"}},
        {{"a", "<dir>"}, {"a/b", "yy"}},
        {{"a", "<dir>"}, {"a/b", "<dir>"}, {"a/b/c", "zzz"}, {"a/b/e", ""}, {"d", "w"}},
        {{"a", "<dir>"}, {"a/b", "<dir>"}, {"d", "<dir>"}, {"d/f", "q"}},
    };
    Tree m = starts[mc::Choose(5)];
    for (auto& [k, v] : m) Put(k, v);
    int style = mc::Choose(4);
    LocalFileSystem fs;
    io::active = true;
    int depth = mc::Thorough() ? 3 : 2;
    for (int d = 0; d < depth; d++) {
        int op = mc::Choose(8);
        const std::string& p = Names()[mc::Choose(4)];
        std::string path = Style(style, p), data = "n" + std::to_string(d);
        Tree want = m;
        bool ok = true;       // is it allowed?
        bool maybe = false;   // either answer is fine
        Status s;
        switch (op) {
            case 0:
                ok = MkdirsModel(&want, p);
                s = fs.Mkdirs(path);
                break;
            case 1:
            case 2: {
                bool over = op == 2;
                if (style == 3) mc::Prune();
                ok = !IsDir(m, p) && (over || !m.count(p)) && MkdirsModel(&want, Parent(p));
                if (ok) want[p] = data;
                s = fs.WriteFile(path, data, over);
                break;
            }
            case 3:
                if (style == 3) mc::Prune();
                ok = !m.count(p) && MkdirsModel(&want, Parent(p));
                if (ok) want[p] = data;
                s = fs.AtomicStore(path, data);
                break;
            case 4:
            case 5: {
                bool rec = op == 4;
                maybe = !m.count(p);
                ok = rec || !HasChildren(m, p);
                if (ok) {
                    for (auto i = want.begin(); i != want.end();) {
                        bool hit = i->first == p || i->first.compare(0, p.size() + 1, p + "/") == 0;
                        i = hit ? want.erase(i) : std::next(i);
                    }
                }
                s = fs.Delete(path, rec);
                break;
            }
            default: {
                const std::string q = mc::Choose(5) == 4 ? "n/m" : Names()[(p == "a" ? 3 : p == "d" ? 0 : op - 6)];
                bool inside = q.compare(0, p.size() + 1, p + "/") == 0 || q == p;
                if (style == 3 && m.count(p) && !IsDir(m, p)) {
                    // a file cannot be renamed to something spelled as a directory
                    ok = false;
                    maybe = false;
                } else {
                    ok = m.count(p) && !m.count(q) && !inside && !BelowFile(m, q) && MkdirsModel(&want, Parent(q));
                }
                if (ok) {
                    Tree moved;
                    for (auto& [k, v] : want) {
                        if (k == p || k.compare(0, p.size() + 1, p + "/") == 0) {
                            moved[q + k.substr(p.size())] = v;
                        } else {
                            moved[k] = v;
                        }
                    }
                    want = moved;
                }
                s = fs.Rename(path, Style(style, q));
                if (!s.ok() && !ok) {
                    // directories on the way to the new name may have been made
                    Tree alt = m;
                    if (MkdirsModel(&alt, Parent(q)) && Now() == alt) m = alt;
                }
                break;
            }
        }
        if (!ok) want = m;
        Tree now = Now();
        MC_CHECK(maybe || s.ok() == ok, ok ? "refused" : "accepted", "operation %d on %s: %s; the tree was {%s}", op,
                 path.c_str(), s.ToString().c_str(), Show(m).c_str());
        MC_CHECK(now == want, "tree", "operation %d on %s leaves {%s}, expected {%s}; before it was {%s}", op,
                 path.c_str(), Show(now).c_str(), Show(want).c_str(), Show(m).c_str());
        m = want;
    }
    mc::Nontrivial();
    // every query on every name
    for (auto& p : Names()) {
        std::string path = Style(style, p);
        bool there = m.count(p), dir = there && m[p] == "<dir>", below = BelowFile(m, p);
        std::string plain = P(p);
        auto ex = fs.Exists(path);
        MC_CHECK(below || (ex.ok() && ex.value() == there), "exists", "existence of %s in {%s}", path.c_str(),
                 Show(m).c_str());
        MC_CHECK(!below || !ex.ok() || !ex.value(), "exists", "%s below a file exists", path.c_str());
        auto st = fs.GetFileStatus(path);
        MC_CHECK(st.ok() == there, "status", "status of %s: %s", path.c_str(), st.status().ToString().c_str());
        if (there) {
            MC_CHECK(st.value()->IsDir() == dir && st.value()->GetPath() == plain, "status", "status of %s says %s",
                     path.c_str(), st.value()->GetPath().c_str());
            if (!dir) MC_CHECK(st.value()->GetLen() == m[p].size(), "status", "length of %s", path.c_str());
            struct stat sb;
            __real_stat(plain.c_str(), &sb);
            MC_CHECK(st.value()->GetModificationTime() / 1000 == sb.st_mtime, "status",
                     "modification time of %s is %ld ms", path.c_str(), st.value()->GetModificationTime());
        } else if (!below) {
            MC_CHECK(st.status().IsNotExist(), "status", "status of the absent %s: %s", path.c_str(),
                     st.status().ToString().c_str());
        }
        std::map<std::string, bool> kids;
        for (auto& [k, v] : m) {
            if (Parent(k) == p && k != p) kids[P(k)] = v == "<dir>";
        }
        std::vector<std::unique_ptr<BasicFileStatus>> l1;
        Status s1 = fs.ListDir(path, &l1);
        std::vector<std::unique_ptr<FileStatus>> l2;
        Status s2 = fs.ListFileStatus(path, &l2);
        if (!below) {
            MC_CHECK(s1.ok() == (!there || dir), "list", "listing %s: %s", path.c_str(), s1.ToString().c_str());
            MC_CHECK(s2.ok(), "list", "listing %s: %s", path.c_str(), s2.ToString().c_str());
        }
        std::map<std::string, bool> g1, g2;
        for (auto& x : l1) g1[x->GetPath()] = x->IsDir();
        for (auto& x : l2) {
            g2[x->GetPath()] = x->IsDir();
            std::string rel = x->GetPath().substr(std::min(x->GetPath().size(), io::Root().size() + 1));
            if (!x->IsDir()) MC_CHECK(m.count(rel) && x->GetLen() == m[rel].size(), "list", "length of %s", rel.c_str());
        }
        if (dir || !there) {
            MC_CHECK(g1 == kids && g1.size() == l1.size(), "list", "%s lists %zu entries, has %zu", path.c_str(), l1.size(),
                     kids.size());
            MC_CHECK(g2 == kids && g2.size() == l2.size(), "list", "%s lists %zu entries, has %zu", path.c_str(), l2.size(),
                     kids.size());
        } else {
            MC_CHECK(g2.size() == 1 && g2.count(plain), "list", "a file lists as %zu entries", g2.size());
        }
        std::string got;
        Status r = fs.ReadFile(path, &got);
        MC_CHECK(r.ok() == (there && !dir), "read", "reading %s: %s", path.c_str(), r.ToString().c_str());
        if (r.ok()) MC_CHECK(got == m[p], "read", "%s reads as '%s'", path.c_str(), got.c_str());
    }
    mc::State(mc::Hash().S(Show(m)).h);
}

MC_SCENARIO(tree_many, mc::BOTH, 2,
            "directories of up to 300 files with names of 1 to 255 characters, 1 to 20 levels down, listed in both ways, "
            "listed after others, renamed, and removed with all below them") {
    Scratch scratch;
    int files = mc::Pick({0, 1, 17, 64, 300}), levels = mc::Pick({1, 3, 20}), name = mc::Pick({3, 100, 201, 255});
    std::string dir = "t";
    for (int i = 1; i < levels; i++) dir += "/l" + std::to_string(i);
    Put(dir, "<dir>");
    std::map<std::string, size_t> want;
    for (int i = 0; i < files; i++) {
        std::string n = std::to_string(i);
        n = std::string(name - n.size(), 'f') + n;
        Put(dir + "/" + n, std::string(i % 5, 'x'));
        want[n] = i % 5;
    }
    LocalFileSystem fs;
    io::active = true;
    for (int round = 0; round < 2; round++) {
        std::vector<std::unique_ptr<BasicFileStatus>> l1;
        std::vector<std::unique_ptr<FileStatus>> l2;
        size_t before = round ? 1 : 0;
        if (round) {  // what is there already stays
            MC_CHECK(fs.ListDir(io::Root(), &l1).ok() && l1.size() == 1, "list-many", "%zu beside", l1.size());
            MC_CHECK(fs.ListFileStatus(io::Root(), &l2).ok() && l2.size() == 1, "list-many", "%zu beside", l2.size());
        }
        Status a = fs.ListDir(P(dir), &l1), b = fs.ListFileStatus(P(dir), &l2);
        MC_CHECK(a.ok() && b.ok(), "list-many", "%s %s", a.ToString().c_str(), b.ToString().c_str());
        MC_CHECK(l1.size() == want.size() + before && l2.size() == want.size() + before, "list-many", "%zu and %zu of %zu",
                 l1.size(), l2.size(), want.size() + before);
        std::set<std::string> seen1, seen2;
        for (size_t i = before; i < l1.size(); i++) {
            seen1.insert(l1[i]->GetPath());
            seen2.insert(l2[i]->GetPath());
            std::string n = l2[i]->GetPath().substr(l2[i]->GetPath().rfind('/') + 1);
            MC_CHECK(want.count(n) && l2[i]->GetLen() == want[n] && !l2[i]->IsDir() && !l1[i]->IsDir(), "list-many", "%s", n.c_str());
            MC_CHECK(l2[i]->GetPath() == P(dir + "/" + n), "list-many", "path %s", l2[i]->GetPath().c_str());
        }
        MC_CHECK(seen1.size() == want.size() && seen2 == seen1, "list-many", "entries repeat");
        if (round == 0) {
            MC_CHECK(fs.Rename(P("t"), P("u")).ok(), "rename-many", "renaming a directory");
            dir[0] = 'u';
        }
    }
    MC_CHECK(!fs.Delete(P("u"), false).ok() || (files == 0 && levels == 1), "delete-many", "removed with what is below");
    if (Now().count("u")) MC_CHECK(fs.Delete(P("u"), true).ok(), "delete-many", "removing a directory");
    MC_CHECK(Now().empty(), "delete-many", "%zu left", Now().size());
    mc::State(mc::Hash().U(files).U(levels).U(name).h);
    mc::Nontrivial();
}

MC_SCENARIO(wrong_scheme, mc::BOTH, 1, "each operation with a path of another scheme is refused and changes nothing") {
    Scratch scratch;
    Put("a", "x");
    LocalFileSystem fs;
    static const char* const schemes[] = {"oss:", "oss://b", "hdfs://h", "FILE:", "File:"};
    std::string scheme = schemes[mc::Choose(5)];
    std::string p = scheme + P("a"), q = scheme + P("b");
    bool local = scheme[0] == 'F';
    io::active = true;
    int op = mc::Choose(7);
    Status s;
    switch (op) {
        case 0: s = fs.Exists(p).status(); break;
        case 1: s = fs.Open(p).status(); break;
        case 2: s = fs.WriteFile(q, "y", true); break;
        case 3: s = fs.Mkdirs(q); break;
        case 4: s = fs.Delete(p); break;
        case 5: s = fs.Rename(p, q); break;
        default: s = fs.GetFileStatus(p).status(); break;
    }
    MC_CHECK(s.ok() == local, "scheme", "operation %d on %s: %s", op, p.c_str(), s.ToString().c_str());
    if (!local) MC_CHECK(Now() == (Tree{{"a", "x"}}), "scheme", "the tree is now {%s}", Show(Now()).c_str());
    mc::Nontrivial();
}

MC_SCENARIO(streams, mc::BOTH, 3,
            "all sequences of 3 (thorough 4) positioning and reading operations on files of 0..4 bytes, and all ways of "
            "writing up to 3 pieces of 0..5000 bytes with and without flushing") {
    Scratch scratch;
    LocalFileSystem fs;
    if (mc::ChooseBool()) {
        std::string all;
        io::active = true;
        if (mc::ChooseBool()) Put("f", "something that was there before");
        auto o = fs.Create(P("f"), true);
        MC_CHECK(o.ok(), "create", "%s", o.status().ToString().c_str());
        int n = mc::Choose(4);
        for (int i = 0; i < n; i++) {
            size_t len = mc::Pick<size_t>({0, 1, 4096, 5000});
            std::string piece(len, static_cast<char>('a' + i));
            auto w = o.value()->Write(piece.data(), piece.size());
            MC_CHECK(w.ok() && w.value() == static_cast<int32_t>(len), "write", "writing %zu bytes", len);
            all += piece;
            auto pos = o.value()->GetPos();
            MC_CHECK(pos.ok() && pos.value() == static_cast<int64_t>(all.size()), "pos", "position after %zu bytes",
                     all.size());
            if (mc::ChooseBool()) {
                MC_CHECK(o.value()->Flush().ok(), "flush", "flush");
                MC_CHECK(Now()["f"] == all, "flush", "after a flush the file has %zu of %zu bytes", Now()["f"].size(),
                         all.size());
            }
        }
        MC_CHECK(o.value()->Close().ok(), "close", "close");
        MC_CHECK(Now()["f"] == all, "content", "the file has %zu of %zu bytes", Now()["f"].size(), all.size());
        mc::Nontrivial();
        return;
    }
    int len = mc::Choose(5);
    std::string data = std::string("wxyz").substr(0, len);
    Put("f", data);
    io::active = true;
    auto in = fs.Open(P("f"));
    MC_CHECK(in.ok(), "open", "%s", in.status().ToString().c_str());
    auto l = in.value()->Length();
    MC_CHECK(l.ok() && l.value() == data.size(), "length", "length");
    int64_t pos = 0;
    bool known = true;
    int depth = mc::Thorough() ? 4 : 3;
    for (int d = 0; d < depth; d++) {
        int op = mc::Choose(6);
        if (op < 3) {
            int64_t off = mc::Choose(5) - (op == 0 ? 0 : 2);
            if (op == 1 && !known) mc::Prune();
            int64_t to = op == 0 ? off : op == 1 ? pos + off : len + off;
            Status s = in.value()->Seek(off, op == 0 ? FS_SEEK_SET : op == 1 ? FS_SEEK_CUR : FS_SEEK_END);
            MC_CHECK(s.ok() == (to >= 0), "seek", "seeking to %ld of %d: %s", to, len, s.ToString().c_str());
            if (s.ok()) {
                pos = to;
                known = true;
            }
        } else {
            uint32_t n = static_cast<uint32_t>(mc::Choose(4));
            int64_t at = op == 3 ? pos : mc::Choose(5);
            if (op == 3 && !known) mc::Prune();
            char buf[8] = "~~~~~~~";
            bool fits = at + n <= len || n == 0;
            Result<int32_t> r = 0;
            if (op == 3) {
                r = in.value()->Read(buf, n);
            } else if (op == 4) {
                r = in.value()->Read(buf, n, static_cast<uint64_t>(at));
            } else {
                int calls = 0;
                Status got;
                in.value()->ReadAsync(buf, n, static_cast<uint64_t>(at), [&](Status s) {
                    calls++;
                    got = s;
                });
                MC_CHECK(calls == 1, "async", "the callback is called %d times", calls);
                r = got.ok() ? Result<int32_t>(static_cast<int32_t>(n)) : Result<int32_t>(got);
            }
            MC_CHECK(r.ok() == fits, "read", "reading %u at %ld of %d: %s", n, at, len, r.status().ToString().c_str());
            if (fits) {
                MC_CHECK(r.value() == static_cast<int32_t>(n) && std::string(buf, n) == (n ? data.substr(at, n) : ""),
                         "read", "reading %u at %ld of %d gives other data", n, at, len);
            }
            MC_CHECK(buf[n] == '~', "overrun", "a read of %u bytes stores more", n);
            if (op == 3) {
                if (fits) {
                    pos += n;
                } else {
                    known = false;
                }
            }
        }
        auto now = in.value()->GetPos();
        MC_CHECK(now.ok(), "pos", "%s", now.status().ToString().c_str());
        if (known) MC_CHECK(now.value() == pos, "pos", "position is %ld, expected %ld", now.value(), pos);
    }
    MC_CHECK(in.value()->Close().ok(), "close", "close");
    mc::Nontrivial();
    mc::State(mc::Hash().U(len).U(pos + 10).U(known).h);
}

MC_SCENARIO(stream_faults, mc::BOTH, 2,
            "all sequences of 2 (thorough 3) reads of 0..4 bytes at a position or from the current one, or 2 (thorough 3) "
            "writes of 1, 300 or 5000 bytes with and without flushing, and closing, with every one of the C library calls "
            "made failing in 3 ways, or reading half, one byte or all but one byte of what is asked for") {
    Scratch scratch;
    LocalFileSystem fs;
    io::error = EIO;
    int depth = mc::Thorough() ? 3 : 2;
    bool failed = false, reading = mc::ChooseBool();
    int kind[3];  // chosen first: a run may not be split up inside of a library call
    for (int d = 0; d < depth; d++) kind[d] = mc::Choose(3);
    mc::SetDeviationBound(1);
    io::before = [&](const char* call, const char*, bool) {
        static const int errors[] = {EIO, EACCES, ENOSPC};
        int c = mc::ChooseDev(strcmp(call, "pread") == 0 ? 7 : 4);
        if (c == 0) return io::GO;
        if (c <= 3) {
            failed = true;
            io::error = errors[c - 1];
            return io::FAIL;
        }
        mc::Nontrivial();
        io::shorter = c - 4;
        return io::SHORT;
    };
    auto quiet = [&](auto& stream) {
        io::before = nullptr;
        if (stream.ok() && mc::ChooseBool()) (void)stream.value()->Close();  // or leave it to its end
    };
    // A failing call makes the operation that needed it fail, and nothing else does.
    auto answers = [&](const char* what, const Status& s) {
        MC_CHECK(s.ok() == !failed, "fault", "%s, with a call that fails %s: %s", what,
                 failed ? "during it" : "not at all", s.ToString().c_str());
        if (failed) mc::Nontrivial();
        return s.ok();
    };
    std::string data = "wxyz";
    if (reading) {
        Put("f", data);
        io::active = true;
        auto in = fs.Open(P("f"));
        if (!answers("opening", in.status())) return;
        int64_t pos = 0;
        for (int d = 0; d < depth; d++) {
            int op = kind[d];
            int64_t at = op == 0 ? pos : mc::Choose(5);
            uint32_t n = static_cast<uint32_t>(mc::Choose(static_cast<int>(data.size() - at) + 1));
            char buf[8] = "~~~~~~~";
            Result<int32_t> r = 0;
            if (op == 0) {
                r = in.value()->Read(buf, n);
                pos += n;
            } else if (op == 1) {
                r = in.value()->Read(buf, n, static_cast<uint64_t>(at));
            } else {
                int calls = 0;
                in.value()->ReadAsync(buf, n, static_cast<uint64_t>(at), [&](Status s) {
                    calls++;
                    r = s.ok() ? Result<int32_t>(static_cast<int32_t>(n)) : Result<int32_t>(s);
                });
                MC_CHECK(calls == 1, "async", "the callback is called %d times", calls);
            }
            if (!answers("reading", r.status())) return quiet(in);
            MC_CHECK(r.value() == static_cast<int32_t>(n) && std::string(buf, n) == data.substr(at, n), "read",
                     "reading %u at %ld gives other data", n, at);
            MC_CHECK(buf[n] == '~', "overrun", "a read of %u bytes stores more", n);
        }
        answers("closing", in.value()->Close());
        mc::State(mc::Hash().U(pos).h);
        return;
    }
    io::active = true;
    auto o = fs.Create(P("f"), true);
    if (!answers("creating", o.status())) return;
    std::string all;
    for (int i = 0; i < depth; i++) {
        std::string piece(kind[i] == 0 ? 1 : kind[i] == 1 ? 300 : 5000, static_cast<char>('a' + i));
        auto w = o.value()->Write(piece.data(), piece.size());
        if (!answers("writing", w.status())) return quiet(o);
        MC_CHECK(w.value() == static_cast<int32_t>(piece.size()), "write", "writing %zu bytes", piece.size());
        all += piece;
        if (mc::ChooseBool() && !answers("flushing", o.value()->Flush())) return quiet(o);
    }
    if (!answers("closing", o.value()->Close())) return;
    MC_CHECK(Now()["f"] == all, "content", "the file has %zu of %zu bytes", Now()["f"].size(), all.size());
    mc::State(mc::Hash().U(all.size()).h);
}

// ---- failures, crashes, power loss -----------------------------------------------------------------

MC_SCENARIO(store_crash, mc::BOTH, 2,
            "storing a file of 0, 1 or 5000 bytes atomically or plainly, or renaming one, with and without an existing "
            "target, missing directories and a leftover temporary file; the process stopping at, or any one call "
            "failing at, each C library call, followed by nothing or by a power failure that loses everything not "
            "synchronised; then the same again") {
    Scratch scratch;
    int what = mc::Choose(3);  // atomic store, rename, plain write over
    bool exists = mc::ChooseBool();
    size_t len = mc::Pick<size_t>({0, 1, 5000});
    bool deep = mc::ChooseBool();
    int how = mc::Choose(3);  // dies, dies with the power, one failing call
    std::string dst = deep ? "x/y/dst" : "dst", data(len, 'n');
    if (exists) Put(dst, "old");
    Put(".dst.00000000-0000-0000-0000-000000000000.tmp", "left over");
    if (what == 1) Put("src", data);
    Tree start = Now();
    LocalFileSystem fs;
    bool dead = false;
    int hits = 0, calls = 0;
    mc::SetDeviationBound(1);
    io::before = [&](const char*, const char*, bool changes) {
        calls++;
        if (dead) return io::DEAD;
        if (how < 2) {
            if (changes && mc::ChooseDev(2)) {
                dead = true;
                return io::DEAD;
            }
            return io::GO;
        }
        if (mc::ChooseDev(2)) {
            hits++;
            return io::FAIL;
        }
        return io::GO;
    };
    auto run = [&]() -> Status {
        io::active = true;
        Status s = what == 0 ? fs.AtomicStore(P(dst), data)
                   : what == 1 ? fs.Rename(P("src"), P(dst))
                               : fs.WriteFile(P(dst), data, true);
        io::active = false;
        return s;
    };
    Status s = run();
    io::before = nullptr;
    if (dead || hits) mc::Nontrivial();
    if (how == 1) PowerFails(io::Root());
    Tree now = Now();
    bool clean = !dead && !hits;
    MC_CHECK(!clean || s.ok() == (!exists || what == 2), "refused", "%s", s.ToString().c_str());
    if (what < 2) {
        // the target is as before or complete
        auto i = now.find(dst);
        if (exists) {
            MC_CHECK(i != now.end() && i->second == "old", "replaced", "an existing file was replaced or lost: {%s}",
                     Show(now).c_str());
            MC_CHECK(!s.ok() || dead, "replaced", "storing over an existing file is reported as done");
        } else {
            MC_CHECK(i == now.end() || i->second == data, "torn", "the file holds %zu of %zu bytes", i->second.size(),
                     len);
            MC_CHECK(dead || !s.ok() || i != now.end(), "lost", "the store reported success and there is no file");
            if (what == 1) {
                MC_CHECK((now.count("src") && now["src"] == data) != (i != now.end()), "moved",
                         "after a rename: {%s}", Show(now).c_str());
            }
        }
    } else if (!dead && s.ok()) {
        MC_CHECK(now[dst] == data, "torn", "writing reported success, the file holds %zu of %zu bytes", now[dst].size(),
                 len);
    }
    MC_CHECK(now[".dst.00000000-0000-0000-0000-000000000000.tmp"] == "left over", "foreign",
             "somebody else's temporary file was touched");
    if (!dead && what == 0 && !(exists && hits)) {
        // nothing is left behind, unless removing it may be what failed
        int extra = 0;
        for (auto& [k, v] : now) extra += !start.count(k) && v != "<dir>" && k != dst;
        MC_CHECK(extra == 0, "left-behind", "a temporary file is left: {%s}", Show(now).c_str());
    }
    // the same again
    if (what == 1 && !now.count("src")) Put("src", data);
    bool there = now.count(dst);
    s = run();
    MC_CHECK(s.ok() == (!there || what == 2), "again", "doing it again: %s", s.ToString().c_str());
    MC_CHECK(Now()[dst] == (there && what < 2 ? now[dst] : data), "again", "the file is wrong after doing it again");
    mc::State(mc::Hash().U(what).U(exists).U(len).U(deep).U(how).U(dead ? calls : 0).U(hits).h);
}

// ---- several processes on the same files -----------------------------------------------------------

class Coro {
 public:
    ~Coro() {
        for (auto& t : ts_) free(t->stack);
    }
    void Spawn(std::function<void()> body) {
        auto t = std::make_unique<T>();
        t->body = std::move(body);
        t->ctl = this;
        t->stack = static_cast<char*>(malloc(kStack));
        getcontext(&t->ctx);
        t->ctx.uc_stack.ss_sp = t->stack;
        t->ctx.uc_stack.ss_size = kStack;
        t->ctx.uc_link = nullptr;
        auto v = reinterpret_cast<uintptr_t>(t.get());
        makecontext(&t->ctx, reinterpret_cast<void (*)()>(&Entry), 2, static_cast<unsigned>(v >> 32),
                    static_cast<unsigned>(v));
        ts_.push_back(std::move(t));
    }
    int Run() {
        int switches = 0;
        T* cur = nullptr;
        io::before = [&](const char* c, const char*, bool) {
            if (c[0] == 'f' && c[1] != 'o') return io::GO;  // calls on an open file concern nobody else
            swapcontext(&cur->ctx, &main_);
            return io::GO;
        };
        io::active = true;
        while (true) {
            std::vector<T*> ready;
            if (cur && !cur->done) ready.push_back(cur);
            for (auto& t : ts_) {
                if (!t->done && t.get() != cur) ready.push_back(t.get());
            }
            if (ready.empty()) break;
            int n = static_cast<int>(ready.size());
            int pick = n == 1 ? 0 : (cur && !cur->done) ? mc::ChooseDev(n) : mc::Choose(n);
            if (cur && ready[pick] != cur) switches++;
            cur = ready[pick];
            swapcontext(&main_, &cur->ctx);
        }
        io::active = false;
        io::before = nullptr;
        return switches;
    }

 private:
    struct T {
        std::function<void()> body;
        Coro* ctl;
        ucontext_t ctx;
        char* stack;
        bool done = false;
    };
    static constexpr size_t kStack = 256 << 10;
    static void Entry(unsigned hi, unsigned lo) {
        T* t = reinterpret_cast<T*>((static_cast<uintptr_t>(hi) << 32) | lo);
        t->body();
        t->done = true;
        swapcontext(&t->ctx, &t->ctl->main_);
    }
    std::vector<std::unique_ptr<T>> ts_;
    ucontext_t main_;
};

MC_SCENARIO(store_race, mc::BOTH, 2,
            "2 and 3 processes giving one name to a file (atomic store, rename, creation without overwriting) and a "
            "reader of it, all interleavings of their C library calls with at most 3 (thorough 4) forced switches") {
    Scratch scratch;
    int procs = 2 + mc::Choose(2);
    int kind[3];
    for (int i = 0; i < procs; i++) kind[i] = mc::Choose(4);
    for (int i = 1; i < procs; i++) {
        if (kind[i] < kind[i - 1]) mc::Prune();
    }
    if (kind[0] == 3) mc::Prune();
    for (int i = 0; i < procs; i++) Put("src" + std::to_string(i), "data" + std::to_string(i));
    mc::SetDeviationBound(procs == 3 ? (mc::Thorough() ? 3 : 2) : (mc::Thorough() ? 4 : 3));
    Status s[3];
    std::string seen;
    Coro c;
    LocalFileSystem fs;
    for (int i = 0; i < procs; i++) {
        c.Spawn([&, i] {
            std::string mine = "data" + std::to_string(i);
            switch (kind[i]) {
                case 0:
                    s[i] = fs.AtomicStore(P("dst"), mine);
                    break;
                case 1:
                    s[i] = fs.Rename(P("src" + std::to_string(i)), P("dst"));
                    break;
                case 2:
                    s[i] = fs.WriteFile(P("dst"), mine, /*overwrite=*/false);
                    break;
                default:
                    s[i] = fs.ReadFile(P("dst"), &seen);
            }
        });
    }
    if (c.Run() > procs - 1) mc::Nontrivial();
    Tree now = Now();
    int won = 0, winner = -1, writers = 0;
    bool plain = false;
    for (int i = 0; i < procs; i++) {
        if (kind[i] == 3) {
            if (s[i].ok()) {
                bool any = plain && seen.empty();
                for (int j = 0; j < procs; j++) any = any || (kind[j] < 3 && seen == "data" + std::to_string(j));
                MC_CHECK(any, "torn-read", "a reader saw '%s'", seen.c_str());
            }
            continue;
        }
        writers++;
        plain = plain || kind[i] == 2;
        if (s[i].ok()) {
            won++;
            winner = i;
        } else if (kind[i] == 1) {
            MC_CHECK(now.count("src" + std::to_string(i)), "lost-source", "a refused rename lost its source");
        }
    }
    MC_CHECK(won <= 1, "two-winners", "%d of %d processes were told that they created the file", won, writers);
    MC_CHECK(won == 1, "no-winner", "nobody created the file: %s", s[0].ToString().c_str());
    MC_CHECK(now.count("dst") && now["dst"] == "data" + std::to_string(winner), "overwritten",
             "process %d created the file, it holds '%s'", winner, now["dst"].c_str());
    for (auto& [k, v] : now) MC_CHECK(k[0] != '.', "left-behind", "%s is left behind", k.c_str());
    mc::State(mc::Hash().S(Show(now)).h);
}

MC_SCENARIO(dir_race, mc::BOTH, 2,
            "2 processes making nested directories, listing a directory, removing files or whole directories in it, and "
            "adding files, all interleavings of their C library calls with at most 3 (thorough 5) forced switches") {
    Scratch scratch;
    Put("a/f1", "1");
    Put("a/f2", "2");
    Put("a/sub/g", "3");
    int k[2] = {mc::Choose(8), mc::Choose(8)};
    if (k[1] < k[0]) mc::Prune();
    mc::SetDeviationBound(mc::Thorough() ? 5 : 3);
    Status s[2];
    std::set<std::string> listed[2];
    LocalFileSystem fs;
    Coro c;
    for (int i = 0; i < 2; i++) {
        c.Spawn([&, i] {
            switch (k[i]) {
                case 0:
                    s[i] = fs.Mkdirs(P("n/m"));
                    break;
                case 1:
                    s[i] = fs.Mkdirs(P("n/m/o"));
                    break;
                case 2: {
                    std::vector<std::unique_ptr<BasicFileStatus>> l;
                    s[i] = fs.ListDir(P("a"), &l);
                    for (auto& x : l) listed[i].insert(x->GetPath());
                    break;
                }
                case 3: {
                    std::vector<std::unique_ptr<FileStatus>> l;
                    s[i] = fs.ListFileStatus(P("a"), &l);
                    for (auto& x : l) listed[i].insert(x->GetPath());
                    break;
                }
                case 4:
                    s[i] = fs.Delete(P("a/f1"));
                    break;
                case 5:
                    s[i] = fs.Delete(P("a/sub"), true);
                    break;
                case 6:
                    s[i] = fs.WriteFile(P("a/new" + std::to_string(i)), "4", false);
                    break;
                default:
                    s[i] = fs.WriteFile(P("n/m/o/deep"), "5", true);
                    break;
            }
        });
    }
    if (c.Run() > 1) mc::Nontrivial();
    Tree now = Now();
    bool del1 = k[0] == 4 || k[1] == 4, delsub = k[0] == 5 || k[1] == 5;
    for (int i = 0; i < 2; i++) {
        bool may_fail = (k[i] == 4 || k[i] == 5) && k[0] == k[1];
        MC_CHECK(s[i].ok() || may_fail, "failed", "operation %d next to operation %d fails: %s", k[i], k[1 - i],
                 s[i].ToString().c_str());
        if (k[i] == 2 || k[i] == 3) {
            MC_CHECK(listed[i].count(P("a/f2")), "list", "a file that was there all the time is not listed");
            MC_CHECK(del1 || listed[i].count(P("a/f1")), "list", "a file that was there all the time is not listed");
            MC_CHECK(delsub || listed[i].count(P("a/sub")), "list", "a directory that was there is not listed");
        }
    }
    MC_CHECK(s[0].ok() || s[1].ok(), "both-failed", "both fail: %s", s[0].ToString().c_str());
    Tree want{{"a", "<dir>"}, {"a/f1", "1"}, {"a/f2", "2"}, {"a/sub", "<dir>"}, {"a/sub/g", "3"}};
    for (int i = 0; i < 2; i++) {
        if (k[i] == 0) MkdirsModel(&want, "n/m");
        if (k[i] == 1 || k[i] == 7) MkdirsModel(&want, "n/m/o");
        if (k[i] == 4) want.erase("a/f1");
        if (k[i] == 5) {
            want.erase("a/sub");
            want.erase("a/sub/g");
        }
        if (k[i] == 6) want["a/new" + std::to_string(i)] = "4";
        if (k[i] == 7) want["n/m/o/deep"] = "5";
    }
    MC_CHECK(now == want, "tree", "operations %d and %d leave {%s}, expected {%s}", k[0], k[1], Show(now).c_str(),
             Show(want).c_str());
    mc::State(mc::Hash().S(Show(now)).h);
}

}  // namespace
