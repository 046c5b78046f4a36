// Small building blocks everything else rests on: ordered maps and collection helpers, memory pools
// and byte arrays, metrics, stored one-byte codes and names, deletion file lists, hashing and byte
// order, whole-file reads. Each is driven through every bounded operation sequence or input.
#include <climits>
#include <map>
#include <set>

#include "mc/mc.h"
#include "paimon/catalog/identifier.h"
#include "paimon/common/metrics/metrics_impl.h"
#include "paimon/common/types/row_kind.h"
#include "paimon/common/utils/linked_hash_map.h"
#include "paimon/common/utils/long_counter.h"
#include "paimon/common/utils/math.h"
#include "paimon/common/utils/murmurhash_utils.h"
#include "paimon/common/utils/object_utils.h"
#include "paimon/common/utils/scope_guard.h"
#include "paimon/common/utils/stream_utils.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/core/manifest/file_kind.h"
#include "paimon/core/manifest/file_source.h"
#include "paimon/core/table/source/deletion_file.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/table/source/startup_mode.h"

using namespace paimon;  // NOLINT
namespace {

using Map = LinkedHashMap<std::string, int>;
using Ref = std::vector<std::pair<std::string, int>>;

Ref::iterator RefFind(Ref& r, const std::string& k) {
    auto it = r.begin();
    while (it != r.end() && it->first != k) ++it;
    return it;
}

void SameMap(const Map& m, Ref& r, const char* who) {
    MC_CHECK(m.size() == r.size() && m.empty() == r.empty(), "map-size", "%s: %zu entries, expected %zu",
             who, m.size(), r.size());
    size_t i = 0;
    for (auto it = m.begin(); it != m.end(); ++it, ++i) {
        MC_CHECK(i < r.size() && it->first == r[i].first && it->second == r[i].second, "map-order",
                 "%s: entry %zu is %s=%d", who, i, it->first.c_str(), it->second);
    }
    std::vector<std::string> keys;
    for (auto& e : r) keys.push_back(e.first);
    MC_CHECK(m.key_vec() == keys, "map-keys", "%s: key_vec differs", who);
    MC_CHECK(m.key_set() == std::unordered_set<std::string>(keys.begin(), keys.end()), "map-keys",
             "%s: key_set differs", who);
    for (const char* k : {"a", "b", "c"}) {
        auto it = m.find(k);
        auto e = RefFind(r, k);
        MC_CHECK((it == m.end()) == (e == r.end()), "map-find", "%s: find(%s)", who, k);
        if (it != m.end()) {
            MC_CHECK(it->first == k && it->second == e->second, "map-find", "%s: find(%s)", who, k);
        }
    }
}

Map Build(const Ref& r) {
    Map m;
    for (auto& e : r) m.insert(e.first, e.second);
    return m;
}

MC_SCENARIO(map_history, mc::BOTH, 2,
            "all histories of 4 (thorough 5) inserts, assignments, erasures, copies and element accesses "
            "over 3 keys and 2 values, on a map and its copy") {
    Map m[2];
    Ref r[2];
    int n = mc::Thorough() ? 5 : 4;
    mc::Hash h;
    for (int i = 0; i < n; i++) {
        int op = mc::Choose(7);
        int t = op >= 5 ? 0 : (i == 0 ? 0 : mc::Choose(2));
        const char* keys[] = {"a", "b", "c"};
        mc::Steps();
        if (op <= 3) {
            std::string k = mc::Pick(keys);
            int v = op == 3 ? 0 : 1 + mc::Choose(2);
            auto e = RefFind(r[t], k);
            h.U(op * 100 + t * 10 + v).S(k);
            if (op == 0) {
                auto it = m[t].insert(k, v);
                if (e == r[t].end()) r[t].emplace_back(k, v), e = r[t].end() - 1;
                MC_CHECK(it->first == k && it->second == e->second, "map-insert", "insert returned %s=%d",
                         it->first.c_str(), it->second);
            } else if (op == 1) {
                auto it = m[t].insert_or_assign(k, v);
                if (e == r[t].end()) r[t].emplace_back(k, v);
                else e->second = v;
                MC_CHECK(it->first == k && it->second == v, "map-assign", "insert_or_assign returned %s=%d",
                         it->first.c_str(), it->second);
            } else if (op == 2) {
                int& x = m[t][k];
                if (e == r[t].end()) r[t].emplace_back(k, 0), e = r[t].end() - 1;
                MC_CHECK(x == e->second, "map-access", "[%s] = %d", k.c_str(), x);
                x = v;
                e->second = v;
            } else {
                auto it = m[t].erase(k);
                Map::ConstIteratorType cit = it;
                if (e == r[t].end()) {
                    MC_CHECK(cit == m[t].end(), "map-erase", "erase of an absent key");
                } else {
                    e = r[t].erase(e);
                    MC_CHECK((cit == m[t].end()) == (e == r[t].end()), "map-erase", "erase position");
                    if (e != r[t].end())
                        MC_CHECK(cit->first == e->first, "map-erase", "erase returned %s", cit->first.c_str());
                }
            }
        } else if (op == 4) {
            m[t] = m[1 - t];
            r[t] = r[1 - t];
        } else if (op == 5) {
            m[1].~Map();
            new (&m[1]) Map(m[0]);
            r[1] = r[0];
        } else {
            Map tmp(std::move(m[0]));
            m[0] = tmp;
        }
        SameMap(m[0], r[0], "first");
        SameMap(m[1], r[1], "second");
        MC_CHECK((m[0] == m[1]) == (r[0] == r[1]) && (m[0] != m[1]) == (r[0] != r[1]), "map-equal",
                 "equality of the maps");
        MC_CHECK(m[0] == Build(r[0]), "map-equal", "a map rebuilt with the same entries differs");
        for (auto& e : r[t]) h.S(e.first).U(e.second);
    }
    mc::State(h.h);
    mc::Nontrivial();
}

MC_SCENARIO(collections, mc::BOTH, 1,
            "containment, duplicates, positions and equality for all pairs of lists of up to 4 and 3 "
            "elements over 3 values") {
    auto list = [](int max) {
        std::vector<std::string> v;
        int n = mc::Choose(max + 1);
        const char* e[] = {"x", "y", ""};
        for (int i = 0; i < n; i++) v.push_back(mc::Pick(e));
        return v;
    };
    auto a = list(4), b = list(3);
    mc::Hash h;
    for (auto& x : a) h.S(x);
    h.U(9);
    for (auto& x : b) h.S(x);
    mc::State(h.h);
    mc::Steps(5);
    std::set<std::string> sa(a.begin(), a.end());
    bool all = true;
    for (auto& x : b) {
        all = all && sa.count(x);
        MC_CHECK(ObjectUtils::Contains(a, x) == (sa.count(x) > 0), "contains", "Contains(%s)", x.c_str());
    }
    MC_CHECK(ObjectUtils::ContainsAll(a, b) == all, "contains-all", "ContainsAll is %d", !all);
    std::unordered_set<std::string> dup;
    for (auto& x : sa)
        if (std::count(a.begin(), a.end(), x) > 1) dup.insert(x);
    MC_CHECK(ObjectUtils::DuplicateItems(a) == dup, "duplicates", "DuplicateItems of %zu items", a.size());
    MC_CHECK(ObjectUtils::Equal(a, b) == (a == b), "list-equal", "Equal is %d", a != b);
    std::vector<std::shared_ptr<std::string>> pa, pb;
    for (auto& x : a) pa.push_back(std::make_shared<std::string>(x));
    for (auto& x : b) pb.push_back(std::make_shared<std::string>(x));
    MC_CHECK(ObjectUtils::Equal(pa, pb) == (a == b), "list-equal", "Equal of pointers is %d", a != b);
    auto idx = ObjectUtils::CreateIdentifierToIndexMap(a);
    auto idx2 = ObjectUtils::CreateIdentifierToIndexMap(a, [](const std::string& s) { return s + "!"; });
    MC_CHECK(idx.size() == sa.size() && idx2.size() == sa.size(), "positions", "%zu positions", idx.size());
    for (auto& x : sa) {
        int last = -1;
        for (size_t i = 0; i < a.size(); i++)
            if (a[i] == x) last = static_cast<int>(i);
        MC_CHECK(idx[x] == last && idx2[x + "!"] == last, "positions", "position of %s", x.c_str());
    }
    int64_t sum = 0, m1 = 0;
    LongCounter c, d(7);
    for (auto& x : a) c.Add(x == "x" ? 5 : -3), sum += x == "x" ? 5 : -3;
    for (size_t i = 0; i < b.size(); i++) {
        c.Merge(d);
        m1 += 7;
    }
    MC_CHECK(c.GetValue() == sum + m1 && d.GetValue() == 7, "counter", "counter is %ld", (long)c.GetValue());
    MC_CHECK(c.ToString() == "LongCounter " + std::to_string(sum + m1), "counter", "%s", c.ToString().c_str());
    c.Reset();
    MC_CHECK(c.GetValue() == 0, "counter", "reset counter");
    int ran = 0;
    {
        ScopeGuard g([&] { ran++; });
        MC_CHECK(ran == 0, "guard", "guard ran early");
        if (!b.empty()) g.Release();
    }
    MC_CHECK(ran == (b.empty() ? 1 : 0), "guard", "guard ran %d times", ran);
    mc::Nontrivial();
}

// ---------------------------------------------------------------------------------- memory

struct Block {
    void* p;
    uint64_t size, align;
    uint8_t tag;
};

MC_SCENARIO(pool_history, mc::BOTH, 2,
            "all histories of 3 (thorough 4) allocations, resizes and frees with 6 sizes and 4 alignments") {
    auto pool = GetMemoryPool();
    std::vector<Block> live;
    uint64_t used = 0, peak = 0;
    uint8_t tag = 1;
    const uint64_t sizes[] = {0, 1, 24, 25, 48, 200};
    const uint64_t aligns[] = {0, 8, 64, 256};
    mc::Hash h;
    int n = mc::Thorough() ? 4 : 3;
    auto fill = [](Block& b, uint64_t from) {
        for (uint64_t i = from; i < b.size; i++) static_cast<uint8_t*>(b.p)[i] = b.tag + i;
    };
    auto intact = [](const Block& b, uint64_t size) {
        for (uint64_t i = 0; i < size; i++)
            if (static_cast<uint8_t*>(b.p)[i] != static_cast<uint8_t>(b.tag + i)) return false;
        return true;
    };
    for (int i = 0; i < n; i++) {
        int op = mc::Choose(live.empty() ? 2 : 4);
        mc::Steps();
        if (op <= 1) {
            Block b{nullptr, mc::Pick(sizes), mc::Pick(aligns), tag++};
            if (op == 0) {
                b.p = pool->Malloc(b.size, b.align);
            } else {
                b.p = pool->Realloc(nullptr, 0, b.size, b.align);
            }
            MC_CHECK(b.p || b.size == 0, "pool-null", "allocation of %lu bytes failed", (long)b.size);
            uint64_t want = b.align ? b.align : op == 0 ? 64 : 1;
            MC_CHECK(reinterpret_cast<uintptr_t>(b.p) % want == 0, "pool-align", "%lu bytes at %p, alignment %lu",
                     (long)b.size, b.p, (long)b.align);
            used += b.size;
            fill(b, 0);
            live.push_back(b);
            h.U(b.size).U(b.align).U(op);
        } else {
            int k = mc::Choose(static_cast<int>(live.size()));
            Block& b = live[k];
            if (op == 2) {
                uint64_t ns = mc::Pick(sizes);
                if (b.align == 0 && ns == 0) mc::Prune();  // frees, result unspecified
                uint64_t was = b.size;
                b.p = pool->Realloc(b.p, was, ns, b.align);
                MC_CHECK(b.p, "pool-null", "resize to %lu bytes failed", (long)ns);
                MC_CHECK(!b.align || reinterpret_cast<uintptr_t>(b.p) % b.align == 0, "pool-align",
                         "resized to %lu bytes at %p, alignment %lu", (long)ns, b.p, (long)b.align);
                MC_CHECK(intact(b, std::min(was, ns)), "pool-content", "resize %lu -> %lu changed the content",
                         (long)was, (long)ns);
                used += ns - was;
                b.size = ns;
                fill(b, 0);
                h.U(1000 + k).U(ns);
            } else {
                pool->Free(b.p, b.size);
                used -= b.size;
                live.erase(live.begin() + k);
                h.U(2000 + k);
            }
        }
        // a moving resize may hold both blocks for a moment
        uint64_t slack = 0;
        for (auto& b : live) {
            MC_CHECK(intact(b, b.size), "pool-overlap", "a block was overwritten");
            slack = std::max(slack, b.size);
        }
        peak = std::max(peak, used);
        MC_CHECK(pool->CurrentUsage() == used, "pool-usage", "usage %lu, outstanding %lu",
                 (long)pool->CurrentUsage(), (long)used);
        MC_CHECK(pool->MaxMemoryUsage() >= peak, "pool-peak", "peak %lu below %lu", (long)pool->MaxMemoryUsage(),
                 (long)peak);
        MC_CHECK(pool->MaxMemoryUsage() <= peak + 200, "pool-peak", "peak %lu above %lu",
                 (long)pool->MaxMemoryUsage(), (long)peak);
    }
    for (auto& b : live) pool->Free(b.p, b.size);
    MC_CHECK(pool->CurrentUsage() == 0, "pool-usage", "usage %lu after freeing everything",
             (long)pool->CurrentUsage());
    mc::State(h.h);
    mc::Nontrivial();
}

MC_SCENARIO(pool_exhausted, mc::BOTH, 1,
            "impossible allocations and resizes, with 4 alignments, of an empty and a live block") {
    auto pool = GetMemoryPool();
    uint64_t align = mc::Choose(4) * 32;
    if (align == 96) align = 256;
    bool live = mc::ChooseBool(), resize = mc::ChooseBool();
    mc::State(mc::Hash().U(align).U(live).U(resize).h);
    mc::Steps();
    void* p = live ? pool->Malloc(10, align) : nullptr;
    if (live) memset(p, 'x', 10);
    bool refused = false;
    try {
        void* q = resize ? pool->Realloc(p, live ? 10 : 0, 1ULL << 60, align) : pool->Malloc(1ULL << 60, align);
        refused = q == nullptr;
    } catch (const std::bad_alloc&) {
        refused = true;
    }
    MC_CHECK(refused, "pool-exhausted", "an impossible allocation succeeded");
    MC_CHECK(pool->CurrentUsage() == (live ? 10u : 0u), "pool-usage", "usage %lu after a failed allocation",
             (long)pool->CurrentUsage());
    if (live) {
        for (int i = 0; i < 10; i++)
            MC_CHECK(static_cast<char*>(p)[i] == 'x', "pool-content", "a failed resize changed the block");
        pool->Free(p, 10);
    }
    mc::Nontrivial();
}

MC_SCENARIO(pool_objects, mc::BOTH, 1,
            "byte arrays: construction, copies to every longer size, moves, ordering, for all pairs of "
            "strings of up to 3 bytes over 4 byte values") {
    auto text = [] {
        std::string s;
        const char e[] = {'\0', 'a', '\x7f', '\xff'};
        int n = mc::Choose(4);
        for (int i = 0; i < n; i++) s += mc::Pick(e);
        return s;
    };
    std::string s = text(), t = text();
    mc::State(mc::Hash().S(s).S(t).h);
    mc::Steps(6);
    auto pool = GetMemoryPool();
    auto str = [](const Bytes& b) { return b.size() ? std::string(b.data(), b.size()) : std::string(); };
    {
        auto a = Bytes::AllocateBytes(s, pool.get());
        Bytes b(t, pool.get());
        MC_CHECK(str(*a) == s && str(b) == t, "bytes-content", "content differs");
        auto sgn = [](int x) { return (x > 0) - (x < 0); };
        MC_CHECK((*a == b) == (s == t) && (*a < b) == (s < t) && sgn(a->compare(b)) == sgn(s.compare(t)),
                 "bytes-order", "comparison of the arrays");
        for (size_t i = 0; i < s.size(); i++) MC_CHECK((*a)[i] == s[i], "bytes-content", "byte %zu", i);
        for (size_t extra = 0; extra < 3; extra++) {
            auto c = Bytes::CopyOf(*a, s.size() + extra, pool.get());
            MC_CHECK(str(*c) == s + std::string(extra, '\0'), "bytes-copy", "copy to %zu bytes", s.size() + extra);
            if (c->size()) {
                (*c)[0] = 'z';
                MC_CHECK(str(*a) == s, "bytes-copy", "copy shares its source's memory");
            }
        }
        Bytes z(s.size(), pool.get());
        MC_CHECK(str(z) == std::string(s.size(), '\0'), "bytes-content", "new array is not zeroed");
        Bytes m(std::move(b));
        MC_CHECK(str(m) == t && b.size() == 0 && b.data() == nullptr, "bytes-move", "move construction");
        z = std::move(m);
        MC_CHECK(str(z) == t && m.size() == 0 && m.data() == nullptr, "bytes-move", "move assignment");
        Bytes& self = z;
        z = std::move(self);
        MC_CHECK(str(z) == t, "bytes-move", "self move");
        struct Base {
            virtual ~Base() = default;
            int n = 0;
        };
        struct Derived : Base {
            explicit Derived(bool ok) : text("some text that is not short") {
                if (!ok) throw 7;
            }
            std::string text;
        };
        uint64_t held = pool->CurrentUsage();
        bool thrown = false;
        try {
            auto never = pool->AllocateUnique<Derived>(false);
        } catch (int) {
            thrown = true;
        }
        MC_CHECK(thrown && pool->CurrentUsage() == held, "object-throw", "%lu bytes are kept after a failed construction",
                 (long)(pool->CurrentUsage() - held));
        {
            auto other = GetMemoryPool();
            std::unique_ptr<Base, MemoryPool::AllocatorDelete<Base>> base = other->AllocateUnique<Derived>(true);
            auto first = pool->AllocateUnique<Derived>(true), second = other->AllocateUnique<Derived>(true);
            MC_CHECK(pool->CurrentUsage() == held + sizeof(Derived) && other->CurrentUsage() == 2 * sizeof(Derived), "object-usage",
                     "usage of objects");
            base = std::move(first);
            MC_CHECK(pool->CurrentUsage() == held + sizeof(Derived) && other->CurrentUsage() == sizeof(Derived), "object-assign",
                     "usage after assigning an object");
            auto third = pool->AllocateUnique<Derived>(true);
            second = std::move(third);
            MC_CHECK(pool->CurrentUsage() == held + 2 * sizeof(Derived) && other->CurrentUsage() == 0, "object-assign",
                     "usage after assigning an object");
            second.reset();
            MC_CHECK(pool->CurrentUsage() == held + sizeof(Derived), "object-free", "usage after freeing an object");
            auto copy = base.get_deleter();
            MemoryPool::AllocatorDelete<Base> assigned(*other, 1);
            assigned = copy;
            MC_CHECK(assigned.GetSize() == sizeof(Derived) && &assigned.GetPool() == pool.get(), "object-deleter", "copied deleter");
        }
        MC_CHECK(pool->CurrentUsage() == held, "object-free", "%lu bytes leaked", (long)(pool->CurrentUsage() - held));
        auto big = pool->AllocateUnique<std::pair<std::string, int>>(s, 3);
        MC_CHECK(big->first == s && big->second == 3, "bytes-object", "object content");
        MC_CHECK(pool->CurrentUsage() == s.size() + t.size() + sizeof(*big) + sizeof(Bytes), "bytes-usage",
                 "usage %lu", (long)pool->CurrentUsage());
    }
    MC_CHECK(pool->CurrentUsage() == 0, "bytes-usage", "%lu bytes leaked", (long)pool->CurrentUsage());
    mc::Nontrivial();
}

MC_SCENARIO(pool_two, mc::BOTH, 1,
            "two byte arrays of 0..2 bytes of either of two pools, one moved over or into the other and the rest in any "
            "order: each pool gets back exactly what it gave") {
    auto p = GetMemoryPool(), q = GetMemoryPool();
    int na = mc::Choose(3), nb = mc::Choose(3);
    bool same = mc::ChooseBool();
    int how = mc::Choose(3);
    mc::State(mc::Hash().U(na).U(nb).U(same).U(how).h);
    mc::Nontrivial();
    mc::Steps(3);
    {
        Bytes a(std::string("ab").substr(0, na), p.get());
        Bytes b(std::string("cd").substr(0, nb), same ? p.get() : q.get());
        std::string want = std::string("cd").substr(0, nb);
        uint64_t in_p = same ? nb : 0, in_q = same ? 0 : nb;
        auto check = [&](const Bytes& x, const char* what) {
            MC_CHECK((x.size() ? std::string(x.data(), x.size()) : "") == want, "two-pools", "%s: other bytes", what);
            MC_CHECK(p->CurrentUsage() == in_p && q->CurrentUsage() == in_q, "two-pools", "%s: %ld and %ld bytes in use, want %ld and %ld",
                     what, (long)p->CurrentUsage(), (long)q->CurrentUsage(), (long)in_p, (long)in_q);
        };
        if (how == 0) {
            a = std::move(b);
            check(a, "moved over");
        } else if (how == 1) {
            Bytes c(std::move(b));
            a = Bytes();
            check(c, "moved into");
        } else {
            a = std::move(b);
            b = std::move(a);
            check(b, "moved there and back");
        }
    }
    MC_CHECK(p->CurrentUsage() == 0 && q->CurrentUsage() == 0, "two-pools", "%ld and %ld bytes are not given back",
             (long)p->CurrentUsage(), (long)q->CurrentUsage());
}

// --------------------------------------------------------------------------------- metrics

MC_SCENARIO(metrics_history, mc::BOTH, 2,
            "all histories of 4 (thorough 5) sets, merges and overwrites over 2 collections, 2 counters") {
    auto a = std::make_shared<MetricsImpl>();
    auto b = std::make_shared<MetricsImpl>();
    std::shared_ptr<MetricsImpl> m[2] = {a, b};
    std::map<std::string, uint64_t> r[2];
    int n = mc::Thorough() ? 5 : 4;
    mc::Hash h;
    for (int i = 0; i < n; i++) {
        int t = mc::Choose(2), op = mc::Choose(5);
        mc::Steps();
        if (op == 0) {
            std::string k = mc::ChooseBool() ? "x\"y" : "k";
            uint64_t v = mc::Choose(3) == 0 ? UINT64_MAX : mc::Choose(2) ? 7 : 0;
            m[t]->SetCounter(k, v);
            r[t][k] = v;
        } else if (op == 1) {
            m[t]->Merge(m[1 - t]);
            for (auto& e : r[1 - t]) r[t][e.first] += e.second;
        } else if (op == 2) {
            m[t]->Overwrite(m[1 - t]);
            r[t] = r[1 - t];
        } else if (op == 3) {
            m[t]->Merge(m[t]);
            m[t]->Merge(nullptr);
        } else {
            m[t]->Overwrite(m[t]);
            m[t]->Overwrite(nullptr);
        }
        for (int j = 0; j < 2; j++) {
            MC_CHECK(m[j]->GetAllCounters() == r[j], "metrics-value", "counters of collection %d differ", j);
            std::string json = "{";
            for (auto& e : r[j]) {
                std::string k = e.first == "k" ? "k" : "x\\\"y";
                json += (json.size() > 1 ? "," : "") + ("\"" + k + "\":") + std::to_string(e.second);
                h.S(e.first).U(e.second);
            }
            json += "}";
            MC_CHECK(m[j]->ToString() == json, "metrics-text", "rendered %s, expected %s",
                     m[j]->ToString().c_str(), json.c_str());
            for (const char* k : {"k", "x\"y", "none"}) {
                auto g = m[j]->GetCounter(k);
                MC_CHECK(g.ok() == (r[j].count(k) > 0), "metrics-value", "GetCounter(%s)", k);
                if (g.ok()) MC_CHECK(g.value() == r[j][k], "metrics-value", "GetCounter(%s)", k);
                else MC_CHECK(g.status().IsKeyError(), "metrics-value", "error kind for %s", k);
            }
            h.U(j);
        }
    }
    struct Reader {
        std::shared_ptr<Metrics> m;
        std::shared_ptr<Metrics> GetReaderMetrics() const { return m; }
    };
    std::vector<std::unique_ptr<Reader>> readers;
    std::map<std::string, uint64_t> sum;
    for (int i : {0, 2, 1, 3, 0}) {  // 2: no reader, 3: a reader without metrics
        readers.push_back(i == 2 ? nullptr : std::make_unique<Reader>(Reader{i < 2 ? m[i] : nullptr}));
        if (i < 2) {
            for (auto& e : r[i]) sum[e.first] += e.second;
        }
    }
    MC_CHECK(MetricsImpl::CollectReadMetrics(readers)->GetAllCounters() == sum, "metrics-readers", "the sum over readers");
    mc::State(h.h);
    mc::Nontrivial();
}

// ----------------------------------------------------------------------------- stored codes

MC_SCENARIO(codes_bytes, mc::BOTH, 1, "all 256 byte values of row kinds, file kinds and file sources") {
    int v = mc::Choose(256) - 128;
    mc::State(v + 1000);
    mc::Steps(3);
    auto rk = RowKind::FromByteValue(static_cast<int8_t>(v));
    auto fk = FileKind::FromByteValue(static_cast<int8_t>(v));
    auto fs = FileSource::FromByteValue(static_cast<int8_t>(v));
    MC_CHECK(rk.ok() == (v >= 0 && v < 4), "row-kind", "byte %d", v);
    MC_CHECK(fk.ok() == (v >= 0 && v < 2), "file-kind", "byte %d", v);
    MC_CHECK(fs.ok() == (v >= 0 && v < 2), "file-source", "byte %d", v);
    if (rk.ok()) {
        const RowKind* all[] = {RowKind::Insert(), RowKind::UpdateBefore(), RowKind::UpdateAfter(),
                                RowKind::Delete()};
        const char* names[] = {"INSERT", "UPDATE_BEFORE", "UPDATE_AFTER", "DELETE"};
        const char* shorts[] = {"+I", "-U", "+U", "-D"};
        const RowKind* k = rk.value();
        MC_CHECK(k == all[v] && k->ToByteValue() == v && k->Name() == names[v] && k->ShortString() == shorts[v],
                 "row-kind", "kind of byte %d is %s", v, k->Name().c_str());
        MC_CHECK(k->IsAdd() == (v == 0 || v == 2) && k->IsRetract() == (v == 1 || v == 3), "row-kind",
                 "classification of %s", k->Name().c_str());
        for (int o = 0; o < 4; o++) MC_CHECK((*k == *all[o]) == (o == v), "row-kind", "%d == %d", v, o);
    }
    if (fk.ok()) {
        MC_CHECK(fk.value() == (v ? FileKind::Delete() : FileKind::Add()), "file-kind", "byte %d", v);
        MC_CHECK(fk.value().ToByteValue() == v, "file-kind", "byte %d", v);
        MC_CHECK(!(fk.value() == (v ? FileKind::Add() : FileKind::Delete())), "file-kind", "byte %d", v);
    }
    if (fs.ok()) {
        MC_CHECK(fs.value() == (v ? FileSource::Compact() : FileSource::Append()), "file-source", "byte %d", v);
        MC_CHECK(fs.value() != (v ? FileSource::Append() : FileSource::Compact()), "file-source", "byte %d", v);
        MC_CHECK(fs.value() == fs.value() && !(fs.value() != fs.value()), "file-source", "byte %d and itself", v);
        MC_CHECK(fs.value().ToByteValue() == v && fs.value().ToString() == (v ? "COMPACT" : "APPEND"),
                 "file-source", "byte %d", v);
    }
    mc::Nontrivial();
}

MC_SCENARIO(codes_names, mc::BOTH, 1,
            "row kinds, startup modes and table identifiers from every name, every prefix, suffix, case "
            "change and one-letter change of it, and all strings of up to 2 bytes over the codes' letters") {
    const char* modes[] = {"default", "latest-full", "latest", "from-snapshot", "from-snapshot-full"};
    const char* kinds[] = {"+I", "-U", "+U", "-D"};
    std::string s;
    if (mc::ChooseBool()) {
        const char* letters = "+-IUDiud0 ";
        int n = mc::Choose(4);
        for (int i = 0; i < n; i++) s += letters[mc::Choose(10)];
    } else {
        s = modes[mc::Choose(5)];
        int edit = mc::Choose(5);
        int at = mc::Choose(static_cast<int>(s.size()));
        if (edit == 1) s.resize(at);
        if (edit == 2) s = s.substr(at);
        if (edit == 3) s[at] ^= 0x20;
        if (edit == 4) s.insert(at, "-");
    }
    mc::State(mc::Hash().S(s).h);
    mc::Steps(2);
    auto k = RowKind::FromShortString(s);
    int ki = -1, mi = -1;
    for (int i = 0; i < 4; i++)
        if (s == kinds[i]) ki = i;
    for (int i = 0; i < 5; i++)
        if (s == modes[i]) mi = i;
    MC_CHECK(k.ok() == (ki >= 0), "row-kind", "'%s'", s.c_str());
    if (ki >= 0) MC_CHECK(k.value()->ToByteValue() == ki, "row-kind", "'%s' is %d", s.c_str(), ki);
    auto m = StartupMode::FromString(s);
    MC_CHECK(m.ok() == (mi >= 0), "startup-mode", "'%s'", s.c_str());
    if (mi >= 0) {
        StartupMode all[] = {StartupMode::Default(), StartupMode::LatestFull(), StartupMode::Latest(),
                             StartupMode::FromSnapshot(), StartupMode::FromSnapshotFull()};
        MC_CHECK(m.value().ToString() == s, "startup-mode", "'%s' reads back as '%s'", s.c_str(),
                 m.value().ToString().c_str());
        for (int i = 0; i < 5; i++)
            MC_CHECK((m.value() == all[i]) == (i == mi), "startup-mode", "'%s' == %s", s.c_str(), modes[i]);
    }
    Identifier id(s, "t"), id2("t", s), id3(s, "t");
    MC_CHECK(id.GetDatabaseName() == s && id.GetTableName() == "t" && id2.GetTableName() == s, "identifier",
             "'%s'", s.c_str());
    MC_CHECK(id == id3 && (id == id2) == (s == "t"), "identifier", "equality for '%s'", s.c_str());
    MC_CHECK(id.ToString() == "Identifier{database='" + s + "', table='t'}", "identifier", "%s",
             id.ToString().c_str());
    mc::Nontrivial();
}

using Files = std::vector<std::optional<DeletionFile>>;

std::string Written(const Files& f) {
    auto pool = GetDefaultPool();
    MemorySegmentOutputStream out(64, pool);
    DeletionFile::SerializeList(f, &out);
    auto b = MemorySegmentUtils::CopyToBytes(out.Segments(), 0, out.CurrentSize(), pool.get());
    return b->size() ? std::string(b->data(), b->size()) : "";
}

Result<Files> ReadBack(const std::string& s, int version) {
    auto in = std::make_shared<ByteArrayInputStream>(s.data(), s.size());
    DataInputStream d(in);
    auto r = DeletionFile::DeserializeList(&d, version);
    return r;
}

std::string Be(int64_t v, int n) {
    std::string s;
    for (int i = n - 1; i >= 0; i--) s += static_cast<char>(static_cast<uint64_t>(v) >> (8 * i));
    return s;
}

// The reference layout: the same one other engines write.
std::string RefWritten(const Files& f, int version) {
    if (f.empty()) return std::string(1, '\0');
    std::string s = "\1" + Be(f.size(), 4);
    for (auto& e : f) {
        if (!e) {
            s += '\0';
            continue;
        }
        s += '\1' + Be(e->path.size(), 2) + e->path + Be(e->offset, 8) + Be(e->length, 8);
        if (version >= 4) s += Be(e->cardinality ? *e->cardinality : -1, 8);
    }
    return s;
}

Files SomeFiles() {
    Files f;
    int n = mc::Choose(4);
    const int64_t nums[] = {0, 1, INT64_MAX};
    for (int i = 0; i < n; i++) {
        if (mc::ChooseBool()) {
            f.push_back(std::nullopt);
            continue;
        }
        int k = mc::Choose(6);
        std::optional<int64_t> card;
        if (k % 3) card = k % 3 == 1 ? 0 : INT64_MAX;
        f.push_back(DeletionFile(k < 3 ? "" : "p/\xe4\xb8\xad", nums[(k + i) % 3], nums[(k + 1) % 3], card));
    }
    return f;
}

MC_SCENARIO(codes_deletion_files, mc::BOTH, 1,
            "all lists of up to 3 present or absent deletion files, every format version 0-5, every "
            "truncation") {
    Files f = SomeFiles();
    int version = mc::Choose(6);
    std::string v4 = Written(f);
    MC_CHECK(v4 == RefWritten(f, 4), "deletion-layout", "written bytes differ from the stored layout");
    std::string bytes = RefWritten(f, version);
    mc::State(mc::Hash().S(bytes).U(version).h);
    mc::Steps(2);
    auto r = ReadBack(bytes, version);
    if (version == 0 && !f.empty()) {
        MC_CHECK(!r.ok(), "deletion-version", "version 0 accepted");
        return;
    }
    MC_CHECK(r.ok(), "deletion-read", "%s", r.status().ToString().c_str());
    MC_CHECK(r.value().size() == f.size(), "deletion-read", "%zu entries", r.value().size());
    for (size_t i = 0; i < f.size(); i++) {
        auto want = f[i];
        if (want && version < 4) want->cardinality.reset();
        MC_CHECK(r.value()[i].has_value() == want.has_value() && (!want || *r.value()[i] == *want),
                 "deletion-read", "entry %zu differs", i);
        if (want) {
            DeletionFile o = *want;
            o.cardinality = o.cardinality ? std::nullopt : std::optional<int64_t>(4);
            MC_CHECK(!(o == *want), "deletion-equal", "cardinality ignored");
            o = *want;
            o.offset++;
            MC_CHECK(!(o == *want), "deletion-equal", "offset ignored");
            o = *want;
            o.length++;
            MC_CHECK(!(o == *want), "deletion-equal", "length ignored");
            o = *want;
            o.path += "x";
            MC_CHECK(!(o == *want) && o == o, "deletion-equal", "path ignored");
            std::string text = "{path = " + want->path + ", offset = " + std::to_string(want->offset) + ", length = " +
                               std::to_string(want->length) + ", cardinality = " +
                               (want->cardinality ? std::to_string(*want->cardinality) : "null") + "}";
            MC_CHECK(want->ToString() == text, "deletion-text", "%s", want->ToString().c_str());
        }
    }
    if (bytes.size() > 1) {
        auto cut = bytes.substr(0, mc::Choose(static_cast<int>(bytes.size())));
        MC_CHECK(!ReadBack(cut, version).ok(), "deletion-truncated", "%zu of %zu bytes accepted", cut.size(),
                 bytes.size());
    }
    mc::Nontrivial();
}

MC_SCENARIO(codes_deletion_corrupt, mc::BOTH, 1,
            "every value of every byte of the header and of the first entry of a stored deletion file list") {
    Files f{DeletionFile("ab", 3, 5, 7), std::nullopt};
    std::string s = RefWritten(f, 4);
    int at = mc::Choose(std::min<int>(s.size(), 12)), val = mc::Choose(256);
    s[at] = static_cast<char>(val);
    mc::State(at * 256 + val);
    mc::Steps();
    auto r = ReadBack(s, 4);  // an error or a value, never an exception or a crash
    if (r.ok()) mc::Outcome("accepted");
    mc::Nontrivial();
}

// ------------------------------------------------------------------------ hashing, byte order

uint32_t Rotl(uint32_t x, int r) { return (x << r) | (x >> (32 - r)); }
uint32_t RefMix(uint32_t h, uint32_t k) {
    k = Rotl(k * 0xcc9e2d51u, 15) * 0x1b873593u;
    return Rotl(h ^ k, 13) * 5 + 0xe6546b64u;
}
uint32_t RefMurmur(const std::string& s, uint32_t seed, bool words) {
    uint32_t h = seed;
    size_t i = 0;
    for (; i + 4 <= s.size(); i += 4) {
        uint32_t k = 0;
        for (int j = 3; j >= 0; j--) k = (k << 8) | static_cast<uint8_t>(s[i + j]);
        h = RefMix(h, k);
    }
    if (!words)
        for (; i < s.size(); i++) h = RefMix(h, static_cast<uint32_t>(static_cast<int8_t>(s[i])));
    h ^= static_cast<uint32_t>(s.size());
    h = (h ^ (h >> 16)) * 0x85ebca6bu;
    h = (h ^ (h >> 13)) * 0xc2b2ae35u;
    return h ^ (h >> 16);
}

MC_SCENARIO(hash_bytes, mc::BOTH, 2,
            "all byte strings of up to 6 (thorough 9) bytes over 3-4 byte values at 2 offsets, in plain "
            "memory, byte arrays and memory segments") {
    const char e[] = {'\0', '\x80', '\xff', 'a'};
    int max = mc::Thorough() ? 9 : 6, k = mc::Thorough() ? 3 : 4;
    std::string s;
    int n = mc::Choose(max + 1);
    for (int i = 0; i < n; i++) s += e[mc::Choose(k)];
    mc::State(mc::Hash().S(s).h);
    auto pool = GetDefaultPool();
    auto want = static_cast<int32_t>(RefMurmur(s, 42, false));
    for (int off : {0, 3}) {
        mc::Steps(3);
        std::string padded = std::string(off, 'q') + s + "q";
        MC_CHECK(MurmurHashUtils::HashUnsafeBytes(padded.data(), off, n) == want, "hash", "plain memory");
        std::shared_ptr<Bytes> pb = Bytes::AllocateBytes(padded, pool.get());
        MemorySegment seg = MemorySegment::Wrap(pb);
        MC_CHECK(MurmurHashUtils::HashBytes(seg, off, n) == want, "hash", "segment");
        for (uint32_t seed : {0u, 1u, 0xffffffffu}) {
            MC_CHECK(MurmurHashUtils::HashUnsafeBytes(padded.data(), off, n, static_cast<int32_t>(seed)) ==
                         static_cast<int32_t>(RefMurmur(s, seed, false)),
                     "hash", "seed %u", seed);
        }
        if (n % 4 == 0) {
            auto w = static_cast<int32_t>(RefMurmur(s, 42, true));
            MC_CHECK(MurmurHashUtils::HashUnsafeBytesByWords(padded.data(), off, n) == w, "hash", "words");
            MC_CHECK(MurmurHashUtils::HashBytesByWords(seg, off, n) == w, "hash", "words of a segment");
        }
    }
    std::shared_ptr<Bytes> b = Bytes::AllocateBytes(s, pool.get());
    MC_CHECK(MurmurHashUtils::HashBytes(b) == want, "hash", "byte array");
    MC_CHECK(MurmurHashUtils::HashBytesPositive(b) == (want & 0x7fffffff), "hash", "positive hash");
    mc::Nontrivial();
}

template <typename T>
void CheckSwap(uint64_t bits) {
    T v;
    memcpy(&v, &bits, sizeof(T));
    T w = EndianSwapValue(v);
    unsigned char a[sizeof(T)], b[sizeof(T)];
    memcpy(a, &v, sizeof(T));
    memcpy(b, &w, sizeof(T));
    for (size_t i = 0; i < sizeof(T); i++)
        MC_CHECK(a[i] == b[sizeof(T) - 1 - i], "swap", "byte %zu of a %zu-byte value", i, sizeof(T));
}

MC_SCENARIO(hash_swap, mc::BOTH, 1, "byte swaps of every numeric type for every byte at every position") {
    uint64_t bits = 0x0102030405060708ULL;
    int at = mc::Choose(8), v = mc::Choose(256);
    bits &= ~(0xffULL << (8 * at));
    bits |= static_cast<uint64_t>(v) << (8 * at);
    mc::State(bits);
    mc::Steps(8);
    CheckSwap<int8_t>(bits);
    CheckSwap<int16_t>(bits);
    CheckSwap<uint16_t>(bits);
    CheckSwap<int32_t>(bits);
    CheckSwap<uint32_t>(bits);
    CheckSwap<int64_t>(bits);
    CheckSwap<uint64_t>(bits);
    if ((bits & 0x7f800000u) != 0x7f800000u) CheckSwap<float>(bits);
    if ((bits >> 52 & 0x7ff) != 0x7ff) CheckSwap<double>(bits);
    struct Odd {
        char c[3];
    };
    CheckSwap<Odd>(bits);
    mc::Nontrivial();
}

// ------------------------------------------------------------------------------- whole files

struct SlowStream : InputStream {
    uint64_t length;
    int fail_at, order, calls = 0, pos = 1;
    int short_by;
    std::vector<std::function<void()>>* pending;
    Status Close() override { return Status::OK(); }
    Status Seek(int64_t o, SeekOrigin w) override {
        pos = w == FS_SEEK_SET ? o : pos + o;
        return Status::OK();
    }
    Result<int64_t> GetPos() const override { return pos; }
    static char At(uint64_t i) { return static_cast<char>(i * 7 + (i >> 20)); }
    Result<int32_t> Read(char* b, uint32_t n) override {
        if (calls++ == fail_at) return Status::IOError("injected");
        uint32_t k = std::min<uint64_t>(n, length - pos);
        k -= std::min<uint32_t>(k, short_by);
        for (uint32_t i = 0; i < k; i++) b[i] = At(pos + i);
        pos += k;
        return static_cast<int32_t>(k);
    }
    Result<int32_t> Read(char* b, uint32_t n, uint64_t off) override {
        for (uint32_t i = 0; i < n; i++) b[i] = At(off + i);
        return static_cast<int32_t>(n);
    }
    void ReadAsync(char* b, uint32_t n, uint64_t off, std::function<void(Status)>&& cb) override {
        bool bad = calls++ == fail_at;
        if (off + n > length || n == 0) {
            cb(Status::IOError("out of range"));
            return;
        }
        auto run = [b, n, off, bad, cb = std::move(cb)] {
            if (!bad)
                for (uint32_t i = 0; i < n; i++) b[i] = At(off + i);
            cb(bad ? Status::IOError("injected") : Status::OK());
        };
        // the completion order is the caller's only observable freedom: immediately, or all later
        // requests first
        if (order == 0) {
            run();
        } else {
            pending->push_back(run);
            if (off + n == length) {
                while (!pending->empty()) {
                    auto f = pending->back();
                    pending->pop_back();
                    f();
                }
            }
        }
    }
    Result<std::string> GetUri() const override { return std::string("slow"); }
    Result<uint64_t> Length() const override { return length; }
};

MC_SCENARIO(whole_file, mc::BOTH, 1,
            "whole-file reads, plain and asynchronous, of 9 lengths around the request size, with one failing "
            "request at each position, both completion orders, and short reads") {
    const uint64_t mb = 1 << 20;
    const uint64_t lens[] = {0, 1, 2, mb - 1, mb, mb + 1, 2 * mb - 1, 2 * mb, 2 * mb + 1};
    int li = mc::Choose(9);
    bool async = mc::ChooseBool();
    auto st = std::make_unique<SlowStream>();
    std::vector<std::function<void()>> pending;
    st->pending = &pending;
    st->length = lens[li];
    st->fail_at = mc::Choose(5) - 1;
    st->order = async ? mc::Choose(2) : 0;
    st->short_by = async ? 0 : mc::Choose(2);
    uint64_t requests = async ? (st->length + mb - 1) / mb : 1;
    bool fails = st->fail_at >= 0 && static_cast<uint64_t>(st->fail_at) < requests;
    bool shortened = st->short_by && st->length > 0;
    mc::State(mc::Hash().U(li).U(async).U(st->fail_at).U(st->order).U(st->short_by).h);
    mc::Steps();
    uint64_t length = st->length;
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    {
        auto r = async ? StreamUtils::ReadAsyncFully(std::move(st), pool)
                       : StreamUtils::ReadFully(std::move(st), pool);
        if (fails && (async || length > 0)) {
            MC_CHECK(!r.ok(), "read-failed", "a failed request was reported as success (length %lu)", (long)length);
        } else if (shortened) {
            MC_CHECK(!r.ok(), "read-short", "a short read was reported as success");
        } else if (!fails) {
            MC_CHECK(r.ok(), "read-ok", "%s", r.status().ToString().c_str());
            auto b = std::move(r).value();
            MC_CHECK(b->size() == length, "read-length", "%zu bytes of %lu", b->size(), (long)length);
            for (uint64_t i = 0; i < length; i++)
                if (b->data()[i] != SlowStream::At(i)) mc::Fail("read-content", "byte %lu", (long)i);
        }
    }
    MC_CHECK(pool->CurrentUsage() == 0, "read-leak", "memory leaked");
    mc::Nontrivial();
}

MC_SCENARIO(map_many, mc::BOTH, 2, "maps of 1..300 entries with every third, or one, entry erased, assigned or copied, then filled again") {
    int n = mc::Pick(std::vector<int>{1, 7, 8, 31, 32, 33, 100, 300});
    int step = mc::Pick(std::vector<int>{1, 3, 1000});
    int first = mc::Choose(std::min(n, 12));
    int copy = mc::Choose(3);
    mc::State(mc::Hash().U(n).U(step).U(first).U(copy).h);
    mc::Nontrivial();
    mc::Steps(3 * n);
    Map m;
    Ref r;
    auto key = [](int i) { return "key" + std::to_string(i * 7919 % 1000); };
    auto same = [&](const Map& x, const char* who) {
        MC_CHECK(x.size() == r.size(), "map-many", "%s: %zu entries, expected %zu", who, x.size(), r.size());
        size_t i = 0;
        for (auto it = x.begin(); it != x.end(); ++it, ++i)
            MC_CHECK(it->first == r[i].first && it->second == r[i].second, "map-many", "%s: entry %zu is %s=%d", who, i, it->first.c_str(), it->second);
        for (int k = 0; k < n + 2; k++) {
            auto it = x.find(key(k));
            auto e = RefFind(r, key(k));
            MC_CHECK((it == x.end()) == (e == r.end()) && (it == x.end() || it->second == e->second), "map-many", "%s: find(%s)", who, key(k).c_str());
        }
    };
    for (int i = 0; i < n; i++) m.insert(key(i), i), r.emplace_back(key(i), i);
    Map other;
    other.insert("key0", 99);
    if (copy == 1) other = m, m = other;
    if (copy == 2) other = Map(m), m = Map(other);
    for (int i = first; i < n; i += step) {
        m.erase(key(i));
        r.erase(RefFind(r, key(i)));
    }
    same(m, "after erasing");
    if (copy) MC_CHECK(other.size() == static_cast<size_t>(n), "map-many", "the copy lost entries");
    for (int i = first; i < n; i += step) m[key(i)] = -i, r.emplace_back(key(i), -i);
    for (int i = 0; i < n; i += 5) m.insert_or_assign(key(i), i + 1000), RefFind(r, key(i))->second = i + 1000;
    same(m, "after filling again");
    same(Map(m), "copy");
}

MC_SCENARIO(hash_long, mc::BOTH, 2, "byte strings of every length 0..140 at 5 offsets with one of 4 bytes at every place, in plain memory, byte arrays "
            "and segments of 3 sizes") {
    int n = mc::Choose(141);
    int at = n ? mc::Choose(n) : 0;
    std::string s;
    for (int i = 0; i < n; i++) s += static_cast<char>(i * 37 + 5);
    if (n) s[at] = static_cast<char>((const int[]){0, 0x80, 0xff, 'a'}[mc::Choose(4)]);
    mc::State(mc::Hash().S(s).h);
    mc::Nontrivial();
    auto pool = GetDefaultPool();
    auto want = static_cast<int32_t>(RefMurmur(s, 42, false));
    int off = n % 5;
    mc::Steps(4);
    std::string padded = std::string(off, 'q') + s + "q";
    MC_CHECK(MurmurHashUtils::HashUnsafeBytes(padded.data(), off, n) == want, "hash-long", "plain memory, %d bytes", n);
    std::shared_ptr<Bytes> pb = Bytes::AllocateBytes(padded, pool.get());
    MC_CHECK(MurmurHashUtils::HashBytes(MemorySegment::Wrap(pb), off, n) == want, "hash-long", "segment, %d bytes", n);
    std::shared_ptr<Bytes> b = Bytes::AllocateBytes(s, pool.get());
    MC_CHECK(MurmurHashUtils::HashBytes(b) == want, "hash-long", "byte array, %d bytes", n);
    for (int size : {4, 7, 64}) {
        std::vector<MemorySegment> segs;
        for (size_t i = 0; i < padded.size(); i += size) {
            std::string part = padded.substr(i, size);
            part.resize(size, '#');
            segs.push_back(MemorySegment::Wrap(std::make_shared<Bytes>(part, pool.get())));
        }
        MC_CHECK(MemorySegmentUtils::Hash(segs, off, n, pool.get()) == want, "hash-long", "segments of %d, %d bytes", size, n);
        if (n % 4 == 0) MC_CHECK(MemorySegmentUtils::HashByWords(segs, off, n, pool.get()) == want, "hash-long", "words in segments of %d, %d bytes", size, n);
    }
}

}  // namespace
