// Row-position bitmaps (32 and 64 bit) against the interval-set model: all operation sequences up
// to a depth over container-boundary values, all binary operations on all pairs of reachable
// values, serialization round trips at every stream position, every truncation.
#include "iset.h"
#include "mc/mc.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/utils/roaring_bitmap32.h"
#include "paimon/utils/roaring_bitmap64.h"

using namespace paimon;  // NOLINT

namespace {

struct T32 {
    using B = RoaringBitmap32;
    using V = int32_t;
    static constexpr const char* name = "bitmap32";
    static std::vector<int64_t> Points() {
        return {0, 1, 63, 64, 65535, 65536, 131072, INT32_MAX - 1, INT32_MAX};
    }
};
struct T64 {
    using B = RoaringBitmap64;
    using V = int64_t;
    static constexpr const char* name = "bitmap64";
    static std::vector<int64_t> Points() {
        return {0, 1, 65535, 65536, INT32_MAX, (1LL << 32) - 1, 1LL << 32, (1LL << 32) + 1,
                (5LL << 32) + 7};
    }
};

std::string S(const char* n, const char* what) { return std::string(n) + "-" + what; }

#define CHK(cond, what, ...)                                  \
    do {                                                      \
        if (!(cond)) {                                        \
            ::mc::Log("%s", ctx.c_str());                     \
            ::mc::Fail(S(T::name, what).c_str(), __VA_ARGS__); \
        }                                                     \
    } while (0)

// Everything observable about one bitmap equals the model.
template <typename T>
void Compare(const typename T::B& b, const ISet& m, const std::string& ctx, bool iterate = true) {
    using V = typename T::V;
    auto pts = T::Points();
    CHK(b.IsEmpty() == m.Empty(), "empty", "%s: IsEmpty=%d model %s", ctx.c_str(), b.IsEmpty(),
        m.Str().c_str());
    if (m.Card() <= INT32_MAX) {
        CHK(static_cast<uint64_t>(b.Cardinality()) == m.Card(), "cardinality",
            "%s: Cardinality=%lld model %s", ctx.c_str(),
            static_cast<long long>(b.Cardinality()), m.Str().c_str());
    }
    for (auto p : pts) {
        for (int d = -1; d <= 1; d++) {
            int64_t x = p + d;
            if (x < 0 || x > pts.back()) continue;
            CHK(b.Contains(static_cast<V>(x)) == m.Has(x), "contains",
                "%s: Contains(%lld)=%d model %s", ctx.c_str(), static_cast<long long>(x),
                b.Contains(static_cast<V>(x)), m.Str().c_str());
        }
    }
    auto end = b.End();
    for (auto p : pts) {
        int64_t want = -1;
        bool has = m.Ceil(p, &want);
        auto it = b.EqualOrLarger(static_cast<V>(p));
        CHK((it != end) == has, "seek-end", "%s: EqualOrLarger(%lld) end=%d model %s", ctx.c_str(),
            static_cast<long long>(p), it == end, m.Str().c_str());
        if (has) {
            CHK(static_cast<int64_t>(*it) == want, "seek", "%s: EqualOrLarger(%lld)=%lld want %lld",
                ctx.c_str(), static_cast<long long>(p), static_cast<long long>(*it),
                static_cast<long long>(want));
        }
    }
    for (size_t i = 0; i < pts.size(); i++) {
        for (size_t j = 0; j < pts.size(); j++) {
            CHK(b.ContainsAny(static_cast<V>(pts[i]), static_cast<V>(pts[j])) ==
                    m.AnyIn(pts[i], pts[j]),
                "containsany", "%s: ContainsAny(%lld,%lld) model %s", ctx.c_str(),
                static_cast<long long>(pts[i]), static_cast<long long>(pts[j]), m.Str().c_str());
        }
    }
    if (iterate) {
        const size_t kLimit = 70;
        auto want = m.Elements(kLimit);
        auto it = b.Begin();
        for (size_t k = 0; k < want.size(); k++) {
            CHK(it != end, "iterate-short", "%s: iteration ends after %zu", ctx.c_str(), k);
            CHK(static_cast<int64_t>(*it) == want[k], "iterate", "%s: element %zu is %lld want %lld",
                ctx.c_str(), k, static_cast<long long>(*it), static_cast<long long>(want[k]));
            ++it;
        }
        if (want.size() < kLimit) {
            CHK(it == end, "iterate-long", "%s: iteration has extra elements", ctx.c_str());
        }
    }
    mc::Steps(1);
}

template <typename T>
void StateOf(const ISet& m) {
    mc::Hash h;
    h.S(T::name);
    for (auto x : m.t) h.U(x);
    mc::State(h.h);
}

template <typename T>
void RoundTrip(const typename T::B& b, const ISet& m, const std::string& ctx) {
    auto pool = GetDefaultPool();
    auto bytes = b.Serialize(pool.get());
    Compare<T>(b, m, ctx + " after Serialize", false);
    CHK(bytes->size() == b.GetSizeInBytes(), "size", "%s: serialized %zu, GetSizeInBytes %zu",
        ctx.c_str(), bytes->size(), b.GetSizeInBytes());
    {
        typename T::B c;
        c.Add(3);  // old content must be replaced
        auto st = c.Deserialize(bytes->data(), bytes->size());
        CHK(st.ok(), "deserialize", "%s: Deserialize: %s", ctx.c_str(), st.ToString().c_str());
        Compare<T>(c, m, ctx + " round trip");
        CHK(c == b, "eq", "%s: round trip not equal", ctx.c_str());
    }
    // embedded in a stream at positions 0..3, followed by a second bitmap and trailing bytes
    auto second = T::B::From({1, 70000});
    auto bytes2 = second.Serialize(pool.get());
    int lead = mc::Choose(3);
    std::string buf(lead, 'x');
    buf.append(bytes->data(), bytes->size());
    buf.append(bytes2->data(), bytes2->size());
    buf += "tail";
    ByteArrayInputStream in(buf.data(), buf.size());
    CHK(in.Seek(lead, SeekOrigin::FS_SEEK_SET).ok(), "stream-seek", "seek");
    typename T::B c, d;
    auto st = c.Deserialize(&in);
    CHK(st.ok(), "stream-deserialize", "%s: %s", ctx.c_str(), st.ToString().c_str());
    Compare<T>(c, m, ctx + " stream round trip");
    CHK(in.GetPos().value() == static_cast<int64_t>(lead + bytes->size()), "stream-pos",
        "%s: position %lld after reading %zu bytes from %d", ctx.c_str(),
        static_cast<long long>(in.GetPos().value()), bytes->size(), lead);
    st = d.Deserialize(&in);
    CHK(st.ok() && d == second, "stream-second", "%s: second bitmap %s", ctx.c_str(),
        st.ToString().c_str());
    char tail[4];
    auto r = in.Read(tail, 4);
    CHK(r.ok() && std::string(tail, 4) == "tail", "stream-tail", "%s: tail", ctx.c_str());
}

// Applies one chosen mutation to both; returns its description.
template <typename T>
std::string Mutate(typename T::B* b, ISet* m) {
    using V = typename T::V;
    auto pts = T::Points();
    int op = mc::Choose(5);
    if (op <= 1) {
        int64_t x = mc::Pick(pts);
        if (op == 0) {
            b->Add(static_cast<V>(x));
        } else {
            bool want = !m->Has(x);
            bool got = b->CheckedAdd(static_cast<V>(x));
            std::string ctx = "CheckedAdd";
            CHK(got == want, "checkedadd", "CheckedAdd(%lld)=%d model %s", static_cast<long long>(x),
                got, m->Str().c_str());
        }
        m->Add(x, x + 1);
        return (op ? "CheckedAdd " : "Add ") + std::to_string(x);
    }
    int64_t lo = mc::Pick(pts), hi = mc::Pick(pts);
    // very wide ranges of the 64 bit map allocate one container per 65536 values; keep memory sane
    mc::Assume(hi - lo <= (1LL << 20));
    mc::Assume(lo - hi <= 65536);
    std::string d = "[" + std::to_string(lo) + "," + std::to_string(hi) + ")";
    if (op == 2) {
        b->AddRange(static_cast<V>(lo), static_cast<V>(hi));
        m->Add(lo, hi);
        return "AddRange " + d;
    }
    if (op == 3) {
        b->RemoveRange(static_cast<V>(lo), static_cast<V>(hi));
        m->Remove(lo, hi);
        return "RemoveRange " + d;
    }
    b->Flip(static_cast<V>(lo), static_cast<V>(hi));
    m->Flip(lo, hi);
    return "Flip " + d;
}

// A start value in each container representation: empty, sparse array, dense bitset, runs.
template <typename T>
std::string Start(typename T::B* b, ISet* m, int kind) {
    using V = typename T::V;
    switch (kind) {
        case 0:
            return "empty";
        case 1:
            for (int64_t x : {0, 2, 5, 64, 65536}) {
                b->Add(static_cast<V>(x));
                m->Add(x, x + 1);
            }
            return "array";
        case 2:
            b->AddRange(0, 65536 + 10);
            m->Add(0, 65536 + 10);
            return "run";
        default: {
            static ISet dense_m;
            static typename T::B dense;
            if (dense_m.Empty()) {
                for (int64_t x = 1; x < 9001; x += 2) {
                    dense.Add(static_cast<V>(x));
                    dense_m.Add(x, x + 1);
                }
            }
            *b = dense;
            *m = dense_m;
            return "bitset";
        }
    }
}

template <typename T>
void SequenceScenario(int depth, int starts) {
    typename T::B b;
    ISet m;
    std::string ctx = Start<T>(&b, &m, mc::Choose(starts));
    for (int i = 0; i < depth; i++) {
        ctx += "; " + Mutate<T>(&b, &m);
    }
    mc::Log("%s", ctx.c_str());
    StateOf<T>(m);
    Compare<T>(b, m, ctx);
    if (!m.Empty()) mc::Nontrivial();
    // wide run containers of 64-bit maps are slow to copy; the round trip is explored on the rest
    if (depth <= 2) RoundTrip<T>(b, m, ctx);
}

MC_SCENARIO(seq32, mc::QUICK, 4,
            "all sequences of <=2 mutations over 9 boundary values from empty/array/run/bitset") {
    SequenceScenario<T32>(mc::Choose(3), 4);
}
MC_SCENARIO(seq64, mc::QUICK, 3,
            "all sequences of <=2 mutations over 9 boundary values from empty/array/run/bitset") {
    SequenceScenario<T64>(mc::Choose(3), 4);
}
MC_SCENARIO(seq32_deep, mc::THOROUGH, 5, "all sequences of 3 mutations, all start kinds") {
    SequenceScenario<T32>(3, 4);
}
MC_SCENARIO(seq64_deep, mc::THOROUGH, 5, "all sequences of 3 mutations, all start kinds") {
    SequenceScenario<T64>(3, 4);
}

MC_SCENARIO(wide32, mc::BOTH, 2, "one mutation over a range of more than 2^30 values") {
    using T = T32;
    T32::B b;
    ISet m;
    int op = mc::Choose(3);
    int lo = mc::Choose(3), hi = INT32_MAX - mc::Choose(2);
    b.Add(65536);
    m.Add(65536, 65537);
    if (op == 0) {
        b.AddRange(lo, hi);
        m.Add(lo, hi);
    } else if (op == 1) {
        b.RemoveRange(lo, hi);
        m.Remove(lo, hi);
    } else {
        b.Flip(lo, hi);
        m.Flip(lo, hi);
    }
    std::string ctx = "wide op " + std::to_string(op);
    StateOf<T32>(m);
    Compare<T32>(b, m, ctx);
}

// ---- binary operations ---------------------------------------------------------------------

template <typename T>
std::vector<std::pair<typename T::B, ISet>> Operands() {
    using V = typename T::V;
    std::vector<std::pair<typename T::B, ISet>> out;
    auto add = [&](std::vector<std::pair<int64_t, int64_t>> rs) {
        typename T::B b;
        ISet m;
        for (auto [lo, hi] : rs) {
            b.AddRange(static_cast<V>(lo), static_cast<V>(hi));
            m.Add(lo, hi);
        }
        out.emplace_back(b, m);
    };
    int64_t top = sizeof(V) == 4 ? 1 << 20 : 1LL << 32;
    add({});
    add({{0, 1}});
    add({{1, 2}, {64, 65}, {top, top + 1}});
    add({{0, 100}});
    add({{50, 65600}});
    add({{65535, 65537}});
    add({{top - 2, top + 2}});
    add({{0, 1}, {65536, 65537}, {top, top + 3}});
    add({{top + 1, top + 2}});
    typename T::B b;
    ISet m;
    Start<T>(&b, &m, 3);
    out.emplace_back(b, m);
    return out;
}

template <typename T>
void BinaryScenario() {
    static const auto ops = Operands<T>();
    int i = mc::Choose(static_cast<int>(ops.size()));
    int j = mc::Choose(static_cast<int>(ops.size()));
    typename T::B a(ops[i].first), b(ops[j].first);
    ISet ma = ops[i].second, mb = ops[j].second;
    int op = mc::Choose(15);
    std::string ctx = std::string(T::name) + " op " + std::to_string(op) + " on " + ma.Str() + " , " +
                      mb.Str();
    mc::State(mc::Hash().S(T::name).U(op).U(i).U(j).h);
    mc::Nontrivial();
    mc::Log("%s", ctx.c_str());
    auto both = [&](const typename T::B& r, const ISet& mr) {
        Compare<T>(r, mr, ctx + " result");
        Compare<T>(a, ma, ctx + " left operand");
        Compare<T>(b, mb, ctx + " right operand");
    };
    switch (op) {
        case 0:
            both(T::B::And(a, b), ISet::And(ma, mb));
            break;
        case 1:
            both(T::B::Or(a, b), ISet::Or(ma, mb));
            break;
        case 2:
            both(T::B::AndNot(a, b), ISet::AndNot(ma, mb));
            break;
        case 3:
            a |= b;
            Compare<T>(a, ISet::Or(ma, mb), ctx);
            Compare<T>(b, mb, ctx + " right operand");
            break;
        case 4:
            a &= b;
            Compare<T>(a, ISet::And(ma, mb), ctx);
            Compare<T>(b, mb, ctx + " right operand");
            break;
        case 5:
            a -= b;
            Compare<T>(a, ISet::AndNot(ma, mb), ctx);
            Compare<T>(b, mb, ctx + " right operand");
            break;
        case 6: {
            CHK((a == b) == (ma == mb), "equality", "%s: ==", ctx.c_str());
            break;
        }
        case 7: {  // copies are independent
            typename T::B c(a);
            typename T::B d;
            d.Add(9);
            d = a;
            c.Add(77);
            ISet mc2 = ma;
            mc2.Add(77, 78);
            Compare<T>(c, mc2, ctx + " copy");
            a.Add(78);
            Compare<T>(d, ma, ctx + " assigned copy");
            typename T::B& self = d;
            d = self;
            Compare<T>(d, ma, ctx + " self assignment");
            break;
        }
        case 8: {  // moves transfer the content
            typename T::B c(std::move(a));
            Compare<T>(c, ma, ctx + " moved");
            b = std::move(c);
            Compare<T>(b, ma, ctx + " move assigned");
            break;
        }
        case 9: {
            int k = mc::Choose(static_cast<int>(ops.size()));
            std::vector<const typename T::B*> in{&a, &b, &ops[k].first};
            both(T::B::FastUnion(in), ISet::Or(ISet::Or(ma, mb), ops[k].second));
            break;
        }
        case 10: {
            std::vector<typename T::B> in{a, b};
            both(T::B::FastUnion(in), ISet::Or(ma, mb));
            both(T::B::FastUnion(std::vector<typename T::B>{}), ISet());
            both(T::B::FastUnion(std::vector<typename T::B>{a}), ma);
            break;
        }
        case 11: {
            std::vector<typename T::V> v;
            for (auto x : ma.Elements(50)) v.push_back(static_cast<typename T::V>(x));
            for (auto x : mb.Elements(50)) v.push_back(static_cast<typename T::V>(x));
            std::reverse(v.begin(), v.end());
            ISet want;
            for (auto x : v) want.Add(x, static_cast<int64_t>(x) + 1);
            both(T::B::From(v), want);
            break;
        }
        case 12: {  // iterators: copies advance independently, moves keep the position
            if (ma.Card() < 2) break;
            auto e = ma.Elements(2);
            auto it = a.Begin();
            auto cp = it;
            ++it;
            CHK(static_cast<int64_t>(*cp) == e[0] && static_cast<int64_t>(*it) == e[1],
                "iterator-copy", "%s: iterator copy", ctx.c_str());
            CHK(it != cp && !(it == cp), "iterator-ne", "%s: iterators", ctx.c_str());
            CHK(it == it && !(it != it), "iterator-self", "%s: iterator and itself", ctx.c_str());
            auto mv = std::move(it);
            CHK(static_cast<int64_t>(*mv) == e[1], "iterator-move", "%s", ctx.c_str());
            cp = mv;
            CHK(static_cast<int64_t>(*cp) == e[1] && cp == mv, "iterator-assign", "%s", ctx.c_str());
            mv = a.Begin();
            CHK(static_cast<int64_t>(*mv) == e[0], "iterator-move-assign", "%s", ctx.c_str());
            break;
        }
        case 13: {  // textual form
            std::string want = "{";
            auto e = ma.Elements(200);
            if (ma.Card() > 150) break;
            for (size_t k = 0; k < e.size(); k++) want += (k ? "," : "") + std::to_string(e[k]);
            want += "}";
            CHK(a.ToString() == want, "tostring", "%s: %s want %s", ctx.c_str(),
                a.ToString().c_str(), want.c_str());
            break;
        }
        case 14:
            RoundTrip<T>(a, ma, ctx);
            break;
    }
}

MC_SCENARIO(binary32, mc::BOTH, 3, "15 operations on all pairs of 10 operands") {
    BinaryScenario<T32>();
}
MC_SCENARIO(binary64, mc::BOTH, 3, "15 operations on all pairs of 10 operands") {
    BinaryScenario<T64>();
}

MC_SCENARIO(widen, mc::BOTH, 1, "64-bit copy of every 32-bit operand and of values above 2^31-1") {
    static const auto ops = Operands<T32>();
    int i = mc::Choose(static_cast<int>(ops.size()));
    RoaringBitmap32 a(ops[i].first);
    bool top = mc::ChooseBool();
    ISet m = ops[i].second;
    if (top) {
        a.Add(INT32_MAX);
        m.Add(INT32_MAX, 1LL + INT32_MAX);
    }
    using T = T64;
    std::string ctx = "widen " + m.Str();
    mc::State(mc::Hash().U(i).U(top).h);
    RoaringBitmap64 w(a);
    Compare<T64>(w, m, ctx);
    RoaringBitmap64 x;
    x.Add(5);
    x = a;
    Compare<T64>(x, m, ctx + " assigned");
    x.Add(1LL << 33);
    CHK(a.Cardinality() == static_cast<int64_t>(m.Card()), "widen-alias", "source changed");
}

// ---- longer histories and more operands ----------------------------------------------------

// Two bitmaps through all sequences of combinations, copies, moves, round trips and mutations.
template <typename T>
void ChainScenario(int depth) {
    using V = typename T::V;
    static const auto ops = Operands<T>();
    const int some[] = {0, 2, 4, 7, 9};
    int i = some[mc::Choose(5)], j = some[mc::Choose(5)];
    typename T::B a(ops[i].first), b(ops[j].first);
    ISet ma = ops[i].second, mb = ops[j].second;
    std::string ctx = std::string(T::name) + " chain from " + ma.Str() + " , " + mb.Str() + ":";
    auto pool = GetDefaultPool();
    for (int k = 0; k < depth; k++) {
        int op = mc::Choose(11);
        ctx += " " + std::to_string(op);
        mc::Steps();
        switch (op) {
            case 0:
                a |= b;
                ma = ISet::Or(ma, mb);
                break;
            case 1:
                a &= b;
                ma = ISet::And(ma, mb);
                break;
            case 2:
                a -= b;
                ma = ISet::AndNot(ma, mb);
                break;
            case 3:
                a = b;
                ma = mb;
                break;
            case 4: {
                typename T::B t(std::move(a));
                a = std::move(b);
                b = std::move(t);
                std::swap(ma, mb);
                break;
            }
            case 5: {
                auto bytes = a.Serialize(pool.get());
                auto st = b.Deserialize(bytes->data(), bytes->size());
                CHK(st.ok(), "deserialize", "%s: %s", ctx.c_str(), st.ToString().c_str());
                mb = ma;
                break;
            }
            case 6: {
                auto bytes = b.Serialize(pool.get());
                std::string buf = "xy" + std::string(bytes->data(), bytes->size());
                ByteArrayInputStream in(buf.data(), buf.size());
                CHK(in.Seek(2, SeekOrigin::FS_SEEK_SET).ok(), "stream-seek", "seek");
                auto st = a.Deserialize(&in);
                CHK(st.ok(), "stream-deserialize", "%s: %s", ctx.c_str(), st.ToString().c_str());
                ma = mb;
                break;
            }
            case 7:
                a.Add(static_cast<V>(65535));
                ma.Add(65535, 65536);
                break;
            case 8:
                a.Flip(0, 70000);
                ma.Flip(0, 70000);
                break;
            case 9:
                a.RemoveRange(1, 65536);
                ma.Remove(1, 65536);
                break;
            default:
                a = T::B::FastUnion(std::vector<typename T::B>{a, b, a});
                ma = ISet::Or(ma, mb);
                break;
        }
    }
    mc::Log("%s", ctx.c_str());
    StateOf<T>(ma);
    if (!ma.Empty()) mc::Nontrivial();
    Compare<T>(a, ma, ctx + " first");
    Compare<T>(b, mb, ctx + " second");
    CHK((a == b) == (ma == mb), "equality", "%s: ==", ctx.c_str());
    // neither is tied to the other any more
    a.Add(static_cast<V>(12345));
    Compare<T>(b, mb, ctx + " second after the first changed", false);
}
MC_SCENARIO(chain32, mc::BOTH, 3,
            "two bitmaps from 5 x 5 starts through all sequences of 3 of 11 combinations, copies, moves, "
            "round trips and mutations") {
    ChainScenario<T32>(3);
}
MC_SCENARIO(chain64, mc::BOTH, 3,
            "two bitmaps from 5 x 5 starts through all sequences of 3 of 11 combinations, copies, moves, "
            "round trips and mutations") {
    ChainScenario<T64>(3);
}

template <typename T>
void UnionScenario() {
    static const auto ops = Operands<T>();
    int n = 2 + mc::Choose(8);
    int first = mc::Choose(static_cast<int>(ops.size()));
    int step = mc::Choose(static_cast<int>(ops.size()));
    int odd = mc::Choose(n);  // one input with a value nobody else has
    std::vector<typename T::B> in;
    ISet want;
    std::string ctx = std::string(T::name) + " union of " + std::to_string(n);
    for (int i = 0; i < n; i++) {
        const auto& o = ops[(first + i * step) % ops.size()];
        in.push_back(o.first);
        want = ISet::Or(want, o.second);
        if (i == odd) {
            in.back().Add(200000);
            want.Add(200000, 200001);
        }
    }
    mc::State(mc::Hash().S(T::name).U(n).U(first).U(step).U(odd).h);
    mc::Nontrivial();
    std::vector<const typename T::B*> ptr;
    for (auto& b : in) ptr.push_back(&b);
    Compare<T>(T::B::FastUnion(in), want, ctx);
    Compare<T>(T::B::FastUnion(ptr), want, ctx + " (pointers)");
    for (int i = 0; i < n; i++) {
        ISet m = ops[(first + i * step) % ops.size()].second;
        if (i == odd) m.Add(200000, 200001);
        Compare<T>(in[i], m, ctx + " input", false);
    }
}
MC_SCENARIO(union32, mc::BOTH, 3,
            "union of 2..9 inputs out of 10 operands, one of them with a value of its own at any place") {
    UnionScenario<T32>();
}
MC_SCENARIO(union64, mc::BOTH, 3,
            "union of 2..9 inputs out of 10 operands, one of them with a value of its own at any place") {
    UnionScenario<T64>();
}

// Assignment in every direction: the target has any content before it.
template <typename T>
void AssignScenario() {
    static const auto ops = Operands<T>();
    std::vector<std::pair<typename T::B, ISet>> all(ops.begin(), ops.end());
    // pairs that agree in number, first or last value
    for (auto lo : {5, 50, 65600}) {
        typename T::B b;
        ISet m;
        b.AddRange(lo, lo + 100);
        m.Add(lo, lo + 100);
        all.emplace_back(b, m);
    }
    int n = static_cast<int>(all.size());
    int i = mc::Choose(n), j = mc::Choose(n), op = mc::Choose(4);
    typename T::B a(all[i].first), b(all[j].first);
    const ISet &ma = all[i].second, &mb = all[j].second;
    std::string ctx = std::string(T::name) + " assign " + std::to_string(op) + " " + ma.Str() + " = " +
                      mb.Str();
    mc::State(mc::Hash().S(T::name).U(i).U(j).U(op).h);
    mc::Nontrivial();
    mc::Steps();
    auto pool = GetDefaultPool();
    if (op == 0) {
        a = b;
        Compare<T>(a, mb, ctx);
        Compare<T>(b, mb, ctx + " source");
    } else if (op == 1) {
        a = std::move(b);
        Compare<T>(a, mb, ctx + " moved");
    } else if (op == 2) {
        auto bytes = b.Serialize(pool.get());
        CHK(a.Deserialize(bytes->data(), bytes->size()).ok(), "deserialize", "%s", ctx.c_str());
        Compare<T>(a, mb, ctx + " read");
    } else {
        // iterators of one are assigned from the other's
        if (ma.Empty() || mb.Card() < 2) return;
        auto it = a.Begin();
        auto other = b.Begin();
        ++other;
        it = other;
        auto want = mb.Elements(3);
        CHK(static_cast<int64_t>(*it) == want[1], "iterator-assign", "%s", ctx.c_str());
        ++it;
        CHK(static_cast<int64_t>(*other) == want[1], "iterator-tied", "%s", ctx.c_str());
        CHK((it == b.End()) == (mb.Card() == 2), "iterator-end", "%s", ctx.c_str());
    }
    CHK((a == all[j].first) == (op == 3 ? ma == mb : true), "equality", "%s", ctx.c_str());
}
MC_SCENARIO(assign32, mc::BOTH, 2, "13 x 13 bitmaps assigned, moved and read over each other") {
    AssignScenario<T32>();
}
MC_SCENARIO(assign64, mc::BOTH, 2, "13 x 13 bitmaps assigned, moved and read over each other") {
    AssignScenario<T64>();
}

// ---- malformed input -----------------------------------------------------------------------

template <typename T>
void TruncatedScenario() {
    static const auto ops = Operands<T>();
    auto pool = GetDefaultPool();
    int i = mc::Choose(static_cast<int>(ops.size()));
    auto bytes = ops[i].first.Serialize(pool.get());
    size_t n = bytes->size();
    size_t len = n > 400 ? (mc::ChooseBool() ? mc::Choose(200) : n - 1 - mc::Choose(200))
                         : static_cast<size_t>(mc::Choose(static_cast<int>(n)));
    int lead = mc::Choose(4) - 1;  // in memory, or in a stream behind this many bytes
    bool via_stream = lead >= 0;
    std::string ctx = std::string(T::name) + " truncated to " + std::to_string(len) + " of " +
                      std::to_string(n);
    mc::State(mc::Hash().S(T::name).U(i).U(len).h);
    mc::Nontrivial();
    // an exact-size heap copy, so that any read behind the end is seen by the address sanitizer
    std::vector<char> cut(std::max(lead * 5, 0), 'x');
    cut.insert(cut.end(), bytes->data(), bytes->data() + len);
    cut.shrink_to_fit();
    typename T::B c;
    c.Add(42);
    Status st;
    if (via_stream) {
        char dummy = 0;
        ByteArrayInputStream in(cut.empty() ? &dummy : cut.data(), cut.size());
        CHK(in.Seek(lead * 5, SeekOrigin::FS_SEEK_SET).ok(), "stream-seek", "seek");
        st = c.Deserialize(&in);
    } else {
        char dummy = 0;
        st = c.Deserialize(cut.empty() ? &dummy : cut.data(), cut.size());
    }
    mc::Steps();
    CHK(!st.ok(), "truncated-accepted", "%s: accepted", ctx.c_str());
}
MC_SCENARIO(truncated32, mc::BOTH, 2, "every truncation of the serialized form of 10 operands") {
    TruncatedScenario<T32>();
}
MC_SCENARIO(truncated64, mc::BOTH, 2, "every truncation of the serialized form of 10 operands") {
    TruncatedScenario<T64>();
}

}  // namespace
