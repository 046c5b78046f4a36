// The file system that picks another one by scheme, used by several threads.
#include <functional>
#include <set>
#include <thread>

#include "mc/mc.h"
#include "mc/sched.h"
#include "paimon/common/fs/resolving_file_system.h"
#include "stubfs.h"

namespace {
using namespace paimon;  // NOLINT

MC_SCENARIO(resolving_threads, mc::BOTH | mc::FORK, 5,
            "three paths out of two schemes and two authorities asked for by two threads, the factory failing once or "
            "never; 2 preemptions (3 thorough)") {
    const char* paths[] = {"mca://h1/p", "mca://h1/q", "mca://h2/p", "mcb://h1/p", "/plain/p", "file:/plain/q"};
    int a = mc::Choose(6), b = mc::Choose(6), c = mc::Choose(6);
    mc::Assume(a <= b);
    bool fail = mc::ChooseBool();
    stub::Start(fail);
    mc::sched::Begin(mc::Thorough() ? 3 : 2);
    std::string got[3];
    std::vector<stub::Call> calls;
    std::map<std::string, std::string> schemes = {{"mca", "fa"}, {"file", "fl"}};
    ResolvingFileSystem fs(schemes, "fd", {});
    auto ask = [&](int i, int p) {
        auto e = fs.Mkdirs(paths[p]);
        got[i] = e.ToString();
    };
    {
        std::thread t([&]() {
            ask(2, c);
            calls = stub::Calls();
        });
        ask(0, a);
        ask(1, b);
        t.join();
    }
    mc::sched::End();
    calls.insert(calls.end(), stub::Calls().begin(), stub::Calls().end());
    auto key = [&](const std::string& p) {
        if (p.rfind("mca://", 0) == 0 || p.rfind("mcb://", 0) == 0) return p.substr(0, p.find('/', 6));
        return p.rfind("file:", 0) == 0 ? std::string("file") : std::string("plain");
    };
    std::map<std::string, std::set<int>> ids;
    for (auto& x : calls) ids[key(x.path)].insert(x.instance);
    std::set<int> all;
    for (auto& [k, s] : ids) {
        MC_CHECK(s.size() == 1, "resolving-instance", "%zu instances serve %s", s.size(), k.c_str());
        MC_CHECK(all.insert(*s.begin()).second, "resolving-instance", "one instance serves two roots");
    }
    int failed = 0;
    for (auto& g : got) failed += g.find("first attempt") != std::string::npos;
    int fa = (a < 3) + (b < 3) + (c < 3);
    MC_CHECK(failed == (fail && fa > 0 ? 1 : 0), "resolving-error", "%d requests failed, the factory failed %d times",
             failed, fail && fa > 0);
    MC_CHECK(calls.size() + failed == 3, "resolving-lost", "%zu of 3 requests arrived", calls.size());
    mc::Nontrivial();
    mc::State(mc::Hash().U(a * 36 + b * 6 + c).U(fail).h);
}
}  // namespace
