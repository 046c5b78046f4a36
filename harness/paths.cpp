// Paths and choosing a file system by path.
#include <set>

#include "mc/mc.h"
#include "paimon/common/fs/resolving_file_system.h"
#include "paimon/common/utils/path_util.h"
#include "stubfs.h"

namespace {
using namespace paimon;  // NOLINT

// ---- the file system that picks another one by scheme ----------------------------------------------

MC_SCENARIO(resolving, mc::BOTH, 3,
            "all histories of 2 (thorough 3) calls out of 9 operations on 9 paths of 4 schemes and 2 authorities, with "
            "and without a mapping for local files, a missing factory and one that fails once") {
    static const char* const paths[] = {"mca://h1/p", "mca://h1/q/r", "mca://h2/p", "mcb://h1/p", "/plain/p",
                                        "file:/plain/q", "mcc:/x",     "rel/p",      ""};
    bool map_local = mc::ChooseBool();
    bool fail = mc::ChooseBool();
    stub::Start(fail);
    std::map<std::string, std::string> schemes = {{"mca", "fa"}, {"mcc", "nobody"}};
    if (map_local) schemes["file"] = "fl";
    std::map<std::string, std::string> opts = {{"k", "v"}};
    ResolvingFileSystem fs(schemes, "fd", opts);
    std::map<std::string, int> root_of;  // scheme and authority -> instance
    bool failed_once = false;
    int depth = mc::Thorough() ? 3 : 2;
    for (int d = 0; d < depth; d++) {
        int op = mc::Choose(9);
        std::string p = paths[mc::Choose(9)], q = "mcb://h1/other";
        std::string scheme = p.rfind("mca:", 0) == 0   ? "mca"
                             : p.rfind("mcb:", 0) == 0 ? "mcb"
                             : p.rfind("mcc:", 0) == 0 ? "mcc"
                             : p.rfind("file:", 0) == 0 ? "file"
                                                        : "";
        std::string auth = p.find("//h1") != std::string::npos ? "h1" : p.find("//h2") != std::string::npos ? "h2" : "";
        std::string want_factory = scheme == "mca"   ? "fa"
                                   : scheme == "mcc" ? "nobody"
                                   : (scheme == "file" || scheme == "") && map_local ? "fl"
                                                                                     : "fd";
        size_t before = stub::Calls().size(), made = stub::made;
        Status s;
        std::string name, more;
        std::vector<std::unique_ptr<BasicFileStatus>> l1;
        std::vector<std::unique_ptr<FileStatus>> l2;
        switch (op) {
            case 0: name = "open"; s = fs.Open(p).status(); break;
            case 1: name = "create"; more = d % 2 ? "overwrite" : ""; s = fs.Create(p, d % 2 == 1).status(); break;
            case 2: name = "mkdirs"; s = fs.Mkdirs(p); break;
            case 3: name = "rename"; more = q; s = fs.Rename(p, q); break;
            case 4: name = "delete"; more = d % 2 ? "" : "recursive"; s = fs.Delete(p, d % 2 == 0); break;
            case 5: name = "status"; s = fs.GetFileStatus(p).status(); break;
            case 6: name = "list"; s = fs.ListDir(p, &l1); break;
            case 7: name = "liststatus"; s = fs.ListFileStatus(p, &l2); break;
            default: name = "exists"; s = fs.Exists(p).status(); break;
        }
        bool refuse = p.empty() || scheme == "mcc";
        std::string root = scheme + "|" + auth;
        bool once = fail && !failed_once && scheme == "mca";
        if (refuse || once) {
            MC_CHECK(!s.ok() && stub::Calls().size() == before, "refused", "'%s' is served by some file system", p.c_str());
            MC_CHECK(stub::made == static_cast<int>(made), "refused", "a file system was made for '%s'", p.c_str());
            if (once) failed_once = true;
            continue;
        }
        mc::Nontrivial();
        MC_CHECK(stub::Calls().size() == before + 1, "calls", "%s of '%s' makes %zu calls: %s", name.c_str(), p.c_str(),
                 stub::Calls().size() - before, s.ToString().c_str());
        auto& c = stub::Calls().back();
        MC_CHECK(c.op == name && c.path == p && c.more == more, "calls", "%s('%s','%s') arrives as %s('%s','%s')",
                 name.c_str(), p.c_str(), more.c_str(), c.op.c_str(), c.path.c_str(), c.more.c_str());
        auto& inst = stub::Instances()[c.instance];
        MC_CHECK(inst.factory == want_factory, "wrong-fs", "'%s' is served by %s, expected %s", p.c_str(),
                 inst.factory.c_str(), want_factory.c_str());
        MC_CHECK(inst.options == opts, "options", "the options do not reach the file system");
        auto i = root_of.emplace(root, c.instance).first;
        MC_CHECK(i->second == c.instance, "instance", "a second instance for %s", root.c_str());
        MC_CHECK(stub::made == static_cast<int>(root_of.size()), "instance", "%d instances for %zu roots",
                 stub::made.load(), root_of.size());
        for (auto& [r2, n] : root_of) {
            MC_CHECK(n != c.instance || r2 == root, "instance", "%s and %s share an instance", r2.c_str(), root.c_str());
        }
        MC_CHECK(s.ToString().find("instance " + std::to_string(c.instance)) != std::string::npos, "answer",
                 "the answer is not handed back: %s", s.ToString().c_str());
    }
    mc::State(mc::Hash().U(root_of.size()).U(stub::Calls().size()).U(fail).U(map_local).h);
}

// ---- path text ---------------------------------------------------------------------------------------

struct Split {
    std::string scheme, authority, path;
};
// scheme ":" "//" authority path; the path without doubled or trailing slashes.
Split Model(const std::string& s) {
    Split m;
    size_t i = 0;
    size_t colon = s.find(':'), slash = s.find('/');
    if (colon != std::string::npos && (slash == std::string::npos || colon < slash)) {
        m.scheme = s.substr(0, colon);
        i = colon + 1;
    }
    if (s.compare(i, 2, "//") == 0 && s.size() - i > 2) {
        size_t e = s.find('/', i + 2);
        if (e == std::string::npos) e = s.size();
        m.authority = s.substr(i + 2, e - i - 2);
        i = e;
    }
    for (; i < s.size(); i++) {
        if (s[i] == '/' && !m.path.empty() && m.path.back() == '/') continue;
        m.path += s[i];
    }
    if (m.path.size() > 1 && m.path.back() == '/') m.path.pop_back();
    return m;
}
std::string Text(int max, const char* alphabet, int n) {
    std::string s;
    int len = mc::Choose(max + 1);
    for (int i = 0; i < len; i++) s += alphabet[mc::Choose(n)];
    return s;
}

MC_SCENARIO(resolving_many, mc::BOTH, 2,
            "up to 40 authorities of 2 schemes asked for in 3 orders, then all of them again in 3 orders: each keeps its "
            "instance") {
    stub::Start(false);
    ResolvingFileSystem fs({{"mca", "fa"}}, "fd", {});
    int n = mc::Pick({3, 4, 5, 9, 17, 40});
    std::map<std::string, int> root_of;
    std::set<int> used;
    for (int round = 0; round < 3; round++) {
        int order = round == 0 ? 0 : mc::Choose(3);
        for (int i = 0; i < n; i++) {
            int k = order == 0 ? i : order == 1 ? n - 1 - i : (i * 7 + 3) % n;
            std::string root = std::string(k % 2 ? "mca" : "mcb") + "://host" + std::to_string(k);
            size_t before = stub::Calls().size();
            (void)fs.Mkdirs(root + "/p" + std::to_string(round));
            MC_CHECK(stub::Calls().size() == before + 1, "calls", "a request for %s is lost", root.c_str());
            int inst = stub::Calls().back().instance;
            auto [it, fresh] = root_of.emplace(root, inst);
            MC_CHECK(it->second == inst, "many-roots", "%s is served by another instance than before", root.c_str());
            if (fresh) MC_CHECK(used.insert(inst).second, "many-roots", "one instance serves two roots");
            MC_CHECK(stub::Instances()[inst].factory == (k % 2 ? "fa" : "fd"), "wrong-fs", "%s", root.c_str());
            mc::Steps();
        }
        mc::State(mc::Hash().U(n).U(round).U(order).h);
    }
    mc::Nontrivial();
}

MC_SCENARIO(path_parse, mc::BOTH, 4,
            "all texts of up to 7 (thorough 9) characters over letter, slash and colon: parsing, normalising, "
            "normalising again") {
    std::string s = Text(mc::Thorough() ? 9 : 7, "a/:", 3);
    auto p = PathUtil::ToPath(s);
    MC_CHECK(p.ok() == !s.empty(), "parse", "parsing '%s': %s", s.c_str(), p.status().ToString().c_str());
    auto n = PathUtil::NormalizePath(s);
    MC_CHECK(n.ok() == !s.empty(), "normalize", "normalising '%s'", s.c_str());
    if (!p.ok()) return;
    mc::Nontrivial();
    Split m = Model(s);
    MC_CHECK(p.value().scheme == m.scheme && p.value().authority == m.authority && p.value().path == m.path, "parse",
             "'%s' is taken apart as '%s' '%s' '%s', expected '%s' '%s' '%s'", s.c_str(), p.value().scheme.c_str(),
             p.value().authority.c_str(), p.value().path.c_str(), m.scheme.c_str(), m.authority.c_str(), m.path.c_str());
    std::string want = (m.scheme.empty() ? "" : m.scheme + ":") + (m.authority.empty() ? "" : "//" + m.authority) + m.path;
    MC_CHECK(n.value() == want, "normalize", "'%s' becomes '%s', expected '%s'", s.c_str(), n.value().c_str(),
             want.c_str());
    mc::State(mc::Hash().S(want).h);
}

MC_SCENARIO(path_parts, mc::BOTH, 4,
            "all pairs of texts of up to 4 characters over two letters and slash: joining, parent, last name, temporary "
            "names") {
    std::string a = Text(4, "ab/", 3), b = Text(mc::Thorough() ? 4 : 3, "ab/", 3);
    std::string j = PathUtil::JoinPath(a, b);
    if (a.empty() || b.empty()) {
        MC_CHECK(j == a + b, "join", "'%s' and '%s' join to '%s'", a.c_str(), b.c_str(), j.c_str());
    } else {
        // exactly one slash between the two
        std::string x = a, y = b;
        if (x.back() == '/') x.pop_back();
        if (y.front() == '/') y.erase(0, 1);
        MC_CHECK(j == x + "/" + y, "join", "'%s' and '%s' join to '%s'", a.c_str(), b.c_str(), j.c_str());
    }
    if (!b.empty()) return;
    mc::Nontrivial();
    // the name is what follows the last slash, one trailing slash aside
    std::string t = a;
    if (t.size() > 1 && t.back() == '/') t.pop_back();
    std::string name = t.substr(t.rfind('/') == std::string::npos ? 0 : t.rfind('/') + 1);
    MC_CHECK(PathUtil::GetName(a) == name, "name", "the name of '%s' is '%s', expected '%s'", a.c_str(),
             PathUtil::GetName(a).c_str(), name.c_str());
    // the parent is what precedes the last name, without slashes at its end
    std::string p = a;
    while (!p.empty() && p.back() == '/') p.pop_back();
    while (!p.empty() && p.back() != '/') p.pop_back();
    while (!p.empty() && p.back() == '/') p.pop_back();
    MC_CHECK(PathUtil::GetParentDirPath(a) == p, "parent", "the parent of '%s' is '%s', expected '%s'", a.c_str(),
             PathUtil::GetParentDirPath(a).c_str(), p.c_str());
    std::string trimmed = a;
    PathUtil::TrimLastDelim(&trimmed);
    MC_CHECK(trimmed == t, "trim", "'%s' is trimmed to '%s'", a.c_str(), trimmed.c_str());
    auto tmp1 = PathUtil::CreateTempPath("/r/" + a + "x"), tmp2 = PathUtil::CreateTempPath("/r/" + a + "x");
    MC_CHECK(tmp1.ok() && tmp2.ok() && tmp1.value() != tmp2.value(), "temp", "temporary names repeat");
    std::string full = "/r/" + a + "x", n2 = full.substr(full.rfind('/') + 1);
    std::string file = tmp1.value().substr(tmp1.value().rfind('/') + 1);
    MC_CHECK(PathUtil::GetParentDirPath(tmp1.value()) == PathUtil::GetParentDirPath(full), "temp",
             "the temporary name '%s' of '%s' is in another directory", tmp1.value().c_str(), full.c_str());
    MC_CHECK(file.rfind("." + n2 + ".", 0) == 0 && file.size() > 4 && file.substr(file.size() - 4) == ".tmp", "temp",
             "the temporary name of '%s' is '%s'", full.c_str(), file.c_str());
    mc::State(mc::Hash().S(a).h);
}

MC_SCENARIO(path_long, mc::BOTH, 2,
            "all pairs of 16 longer texts (schemes, colons, dots, 60 levels, names of 300 characters): joining, parent, last "
            "name, parsing and printing") {
    static const std::vector<std::string> texts = [] {
        std::string deep, odd(300, 'n');
        for (int i = 0; i < 60; i++) deep += "/d" + std::to_string(i);
        return std::vector<std::string>{"oss://bucket/a/b", "x://y", "k=a:b", "/k=a:b/c", "a/../b", ".hidden", "/", "/a.b.c/d.e",
                                        deep, deep + "/", odd, "/" + odd + "/" + odd, "hdfs://h:8020/w/t.db/x", "a b/ c",
                                        "file:/t/m", "%2F/q"};
    }();
    std::string a = mc::Pick(texts), b = mc::Pick(texts);
    std::string x = a, y = b;
    if (x.back() == '/') x.pop_back();
    if (y.front() == '/') y.erase(0, 1);
    std::string j = PathUtil::JoinPath(a, b);
    MC_CHECK(j == x + "/" + y, "join", "'%s' and '%s' join to '%s'", a.c_str(), b.c_str(), j.c_str());
    std::string t = j;
    if (t.size() > 1 && t.back() == '/') t.pop_back();
    std::string name = t.substr(t.rfind('/') + 1);
    MC_CHECK(PathUtil::GetName(j) == name, "name", "the name of '%s' is '%s'", j.c_str(), PathUtil::GetName(j).c_str());
    if (!name.empty()) {
        std::string parent = t.substr(0, t.size() - name.size());
        while (!parent.empty() && parent.back() == '/') parent.pop_back();
        MC_CHECK(PathUtil::GetParentDirPath(j) == parent, "parent", "the parent of '%s' is '%s'", j.c_str(),
                 PathUtil::GetParentDirPath(j).c_str());
    }
    auto once = PathUtil::NormalizePath(j);
    MC_CHECK(once.ok(), "normalize", "'%s'", j.c_str());
    auto twice = PathUtil::NormalizePath(once.value());
    MC_CHECK(twice.ok() && twice.value() == once.value(), "normalize", "'%s' becomes '%s' and then '%s'", j.c_str(),
             once.value().c_str(), twice.ok() ? twice.value().c_str() : "");
    mc::State(mc::Hash().S(j).h);
    mc::Nontrivial();
}

MC_SCENARIO(object_store, mc::BOTH, 1, "15 schemes in several spellings: which of them are object stores") {
    struct {
        const char* p;
        bool store;
    } t[] = {{"/x", false},        {"x", false},       {"file:/x", false},     {"FILE:/x", false}, {"hdfs://h/x", false},
             {"HDFS://h/x", false}, {"dfs://h/x", false}, {"oss://b/x", true},   {"s3://b/x", true}, {"OSS://b/x", true},
             {"files:/x", true},    {"fil:/x", true},   {"/oss:/x", false},      {"dfsx://h", true}, {"hdfs:/x", false}};
    auto& c = t[mc::Choose(15)];
    auto r = FileSystem::IsObjectStore(c.p);
    MC_CHECK(r.ok() && r.value() == c.store, "object-store", "%s", c.p);
    MC_CHECK(!FileSystem::IsObjectStore("").ok(), "object-store", "an empty path is accepted");
    mc::Nontrivial();
}

}  // namespace
