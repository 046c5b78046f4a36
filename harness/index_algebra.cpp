// Index answers: the bit-slice index against the plain array of values, the combination of file
// index results and global index results against sets, the bloom filter against membership.
#include <climits>
#include <cmath>
#include <map>
#include <set>

#include "mc/mc.h"
#include "paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.h"
#include "paimon/common/utils/bloom_filter64.h"
#include "paimon/file_index/bitmap_index_result.h"
#include "paimon/file_index/file_index_result.h"
#include "paimon/global_index/bitmap_global_index_result.h"
#include "paimon/global_index/bitmap_vector_search_global_index_result.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"

using namespace paimon;  // NOLINT
namespace {

// ---- bit slice index ---------------------------------------------------------------------------

std::string Show(const RoaringBitmap32& b) { return b.ToString(); }

RoaringBitmap32 Want(const std::map<int32_t, int64_t>& rows, int op, int64_t lit) {
    RoaringBitmap32 r;
    for (auto& [id, v] : rows) {
        bool in = op == 0 ? v == lit : op == 1 ? v < lit : op == 2 ? v <= lit : op == 3 ? v > lit
                  : op == 4                                                     ? v >= lit
                                                                                : true;
        if (in) r.Add(id);
    }
    return r;
}
Result<RoaringBitmap32> Ask(const BitSliceIndexRoaringBitmap& b, int op, int64_t lit) {
    switch (op) {
        case 0:
            return b.Equal(lit);
        case 1:
            return b.LessThan(lit);
        case 2:
            return b.LessOrEqual(lit);
        case 3:
            return b.GreaterThan(lit);
        case 4:
            return b.GreaterOrEqual(lit);
        default:
            return b.IsNotNull();
    }
}

void CheckBsi(const BitSliceIndexRoaringBitmap& b, const std::map<int32_t, int64_t>& rows,
              const std::vector<int64_t>& lits, const char* what) {
    for (int op = 0; op < 6; op++) {
        for (int64_t lit : lits) {
            auto r = Ask(b, op, lit);
            MC_CHECK(r.ok(), "bsi-status", "%s op %d literal %lld", what, op,
                     static_cast<long long>(lit));
            RoaringBitmap32 w = Want(rows, op, lit);
            MC_CHECK(r.value() == w, "bsi-answer", "%s op %d literal %lld: %s want %s", what, op,
                     static_cast<long long>(lit), Show(r.value()).c_str(), Show(w).c_str());
            mc::Steps();
        }
    }
}

MC_SCENARIO(bsi, mc::BOTH, 4,
            "4 rows over all assignments of {absent, 0..7 scaled} x 6 value universes, all literals, "
            "before and after a round trip") {
    const std::vector<std::vector<int64_t>> universes{
        {0, 1, 2, 3, 4, 5, 6, 7},
        {5, 6, 7, 8, 9, 12, 13, 1000},
        {0, 1, 255, 256, 65535, 65536, 1LL << 32, INT64_MAX},
        {INT64_MAX - 9, INT64_MAX - 8, INT64_MAX - 4, INT64_MAX - 3, INT64_MAX - 2, INT64_MAX - 1,
         INT64_MAX},
        {42, 42},
        {7}};
    const auto& u = universes[mc::Choose(static_cast<int>(universes.size()))];
    int n = mc::Thorough() ? 5 : 4;
    const int32_t ids[] = {0, 3, 70000, INT32_MAX, 1};
    std::map<int32_t, int64_t> rows;
    mc::Hash h;
    h.U(u.front()).U(u.size());
    int64_t lo = INT64_MAX, hi = -1;
    for (int i = 0; i < n; i++) {
        int c = mc::Choose(static_cast<int>(u.size()) + 1);
        h.U(c);
        if (c) {
            rows[ids[i]] = u[c - 1];
            lo = std::min(lo, u[c - 1]);
            hi = std::max(hi, u[c - 1]);
        }
    }
    if (rows.empty()) {
        lo = u.front();
        hi = u.back();
    }
    // the declared bounds are those of the values, or wider
    int wide = mc::Choose(2);
    if (wide) {
        lo = std::min(lo, u.front());
        hi = std::max(hi, u.back());
    }
    h.U(wide);
    mc::State(h.h);
    if (!rows.empty()) mc::Nontrivial();
    auto app = BitSliceIndexRoaringBitmap::Appender::Create(lo, hi);
    MC_CHECK(app.ok(), "bsi-create", "bounds %lld %lld", static_cast<long long>(lo),
             static_cast<long long>(hi));
    for (auto& [id, v] : rows) {
        MC_CHECK(app.value()->Append(id, v).ok(), "bsi-append", "value %lld",
                 static_cast<long long>(v));
        mc::Steps();
    }
    MC_CHECK(app.value()->IsNotEmpty() == !rows.empty(), "bsi-empty", "IsNotEmpty");
    // refused values leave no trace
    if (!rows.empty()) {
        MC_CHECK(!app.value()->Append(rows.begin()->first, lo).ok(), "bsi-duplicate",
                 "a row was appended twice");
    }
    if (hi < INT64_MAX) {
        MC_CHECK(!app.value()->Append(99, hi + 1).ok(), "bsi-too-large", "value above the maximum");
    }
    if (lo > 0) {
        MC_CHECK(!app.value()->Append(98, lo - 1).ok(), "bsi-too-small", "value below the minimum");
    }
    std::set<int64_t> ls;
    for (int64_t v : u) {
        ls.insert(v);
        if (v < INT64_MAX) ls.insert(v + 1);
        if (v > 0) ls.insert(v - 1);
    }
    ls.insert({-1, INT64_MIN, INT64_MAX, 3});
    std::vector<int64_t> lits(ls.begin(), ls.end());
    CheckBsi(*app.value()->Build(), rows, lits, "built");
    auto pool = GetDefaultPool();
    auto bytes = app.value()->Serialize(pool);
    std::vector<char> exact(bytes->data(), bytes->data() + bytes->size());
    exact.shrink_to_fit();
    auto in = std::make_shared<ByteArrayInputStream>(exact.data(), exact.size());
    auto back = BitSliceIndexRoaringBitmap::Create(in);
    MC_CHECK(back.ok(), "bsi-read", "%s", back.status().ToString().c_str());
    MC_CHECK(*back.value() == *app.value()->Build(), "bsi-roundtrip", "round trip");
    MC_CHECK(*back.value() == *back.value(), "bsi-self", "an index differs from itself");
    if (!rows.empty() && lo < hi) {
        // the same rows and bounds, one value changed
        auto other = BitSliceIndexRoaringBitmap::Appender::Create(lo, hi);
        for (auto& [id, v] : rows) {
            bool last = id == rows.rbegin()->first;
            (void)other.value()->Append(id, !last ? v : v == lo ? hi : lo);
        }
        MC_CHECK(!(*back.value() == *other.value()->Build()), "bsi-differs",
                 "indexes with different values are equal");
    }
    MC_CHECK(in->GetPos().value() == static_cast<int64_t>(exact.size()), "bsi-consumed",
             "reading the index leaves the stream in the middle");
    if (rows.size() <= 2) CheckBsi(*back.value(), rows, lits, "read back");
}

MC_SCENARIO(bsi_many, mc::BOTH, 3,
            "60, 5000 and 40000 rows over 5 value ranges up to 63 bits, with or without gaps in the rows: "
            "answers to 5 operators for 12 literals, before and after a round trip") {
    int n = mc::Pick(std::vector<int>{60, 5000, 40000});
    int bits = mc::Pick(std::vector<int>{1, 7, 16, 33, 62});
    int gap = mc::Pick(std::vector<int>{1, 7});
    int64_t lo = mc::Pick(std::vector<int64_t>{0, 1, 1000});
    int64_t hi = lo + (1LL << bits) - 1;
    std::vector<std::pair<int32_t, int64_t>> rows;
    auto app = BitSliceIndexRoaringBitmap::Appender::Create(lo, hi);
    MC_CHECK(app.ok(), "bsi-create", "bounds");
    for (int i = 0; i < n; i++) {
        int64_t v = lo + static_cast<int64_t>((static_cast<uint64_t>(i + 1) * 0x9e3779b97f4a7c15ULL) >>
                                              (64 - bits));
        rows.emplace_back(i * gap, v);
        MC_CHECK(app.value()->Append(i * gap, v).ok(), "bsi-append", "row %d", i);
        mc::Steps();
    }
    mc::State(mc::Hash().U(n).U(bits).U(gap).U(lo).h);
    mc::Nontrivial();
    auto pool = GetDefaultPool();
    auto bytes = app.value()->Serialize(pool);
    auto in = std::make_shared<ByteArrayInputStream>(bytes->data(), bytes->size());
    auto back = BitSliceIndexRoaringBitmap::Create(in);
    MC_CHECK(back.ok(), "bsi-read", "%s", back.status().ToString().c_str());
    auto built = app.value()->Build();
    MC_CHECK(*back.value() == *built, "bsi-roundtrip", "round trip");
    for (int64_t lit : std::vector<int64_t>{lo - 1, lo, lo + 1, rows[0].second, rows[n / 2].second, rows[n / 2].second + 1,
                        rows[n - 1].second - 1, lo + (1LL << (bits - 1)), hi - 1, hi, hi + 1, INT64_MAX}) {
        for (int op = 0; op < 6; op++) {
            std::vector<int32_t> want;
            for (auto& [id, v] : rows) {
                bool in = op == 0 ? v == lit : op == 1 ? v < lit : op == 2 ? v <= lit : op == 3 ? v > lit
                          : op == 4                                                     ? v >= lit
                                                                                        : true;
                if (in) want.push_back(id);
            }
            for (const auto* x : {built.get(), back.value().get()}) {
                auto r = Ask(*x, op, lit);
                MC_CHECK(r.ok(), "bsi-status", "op %d", op);
                std::vector<int32_t> got;
                for (auto it = r.value().Begin(); it != r.value().End(); ++it) got.push_back(*it);
                MC_CHECK(got == want, "bsi-answer", "%d rows, %d bits, op %d literal %lld: %zu rows want %zu",
                         n, bits, op, static_cast<long long>(lit), got.size(), want.size());
                mc::Steps();
            }
        }
    }
}

MC_SCENARIO(bsi_bad, mc::BOTH, 2, "every truncation and every corrupted header byte of two indexes") {
    auto app = BitSliceIndexRoaringBitmap::Appender::Create(3, 900);
    int n = mc::Choose(4);
    for (int i = 0; i < n; i++) (void)app.value()->Append(i * 40000, 3 + i * 200);
    auto pool = GetDefaultPool();
    auto bytes = app.value()->Serialize(pool);
    std::vector<char> v(bytes->data(), bytes->data() + bytes->size());
    bool trunc = mc::ChooseBool();
    int at;
    if (trunc) {
        at = mc::Choose(static_cast<int>(v.size()));
        v.resize(at);
    } else {
        at = mc::Choose(static_cast<int>(v.size()));
        v[at] ^= static_cast<char>((const int[]){0x01, 0x03, 0x40, 0x80, 0xff}[mc::Choose(5)]);
    }
    std::vector<char> exact(v);
    exact.shrink_to_fit();
    char dummy;
    auto in = std::make_shared<ByteArrayInputStream>(exact.empty() ? &dummy : exact.data(),
                                                     exact.size());
    auto back = BitSliceIndexRoaringBitmap::Create(in);
    if (!trunc && at == 0 && static_cast<int8_t>(v[0]) > 1) {
        MC_CHECK(!back.ok(), "bsi-version", "accepted as version %d", static_cast<int>(v[0]));
    }
    mc::State(mc::Hash().U(n).U(trunc).U(at).h);
    mc::Nontrivial();
    mc::Steps();
    if (trunc) MC_CHECK(!back.ok(), "bsi-truncated", "accepted with %d of %zu bytes", at, bytes->size());
    mc::Outcome(back.ok() ? "corrupted index readable" : "corrupted index refused");
}

MC_SCENARIO(bsi_bounds, mc::BOTH, 2, "creation for all pairs of 7 bounds") {
    const std::vector<int64_t> b{INT64_MIN, -1, 0, 1, 5, INT64_MAX - 1, INT64_MAX};
    int64_t lo = mc::Pick(b), hi = mc::Pick(b);
    mc::State(mc::Hash().U(lo).U(hi).h);
    mc::Nontrivial();
    bool want = lo >= 0 && lo <= hi;
    MC_CHECK(BitSliceIndexRoaringBitmap::Appender::Create(lo, hi).ok() == want, "bsi-bounds",
             "%lld..%lld", static_cast<long long>(lo), static_cast<long long>(hi));
}

// ---- file index results ------------------------------------------------------------------------

// A result stands for a set of rows of the file: all, none, or a bitmap over 3 rows.
struct FModel {
    bool all = false;
    bool error = false;
    std::set<int> rows;
    bool remain() const { return all || !rows.empty(); }
};
struct FRes {
    std::shared_ptr<FileIndexResult> r;
    FModel m;
};
FRes Leaf(bool with_error) {
    int k = mc::Choose(with_error ? 11 : 10);
    if (k == 0) return {FileIndexResult::Remain(), {true, false, {}}};
    if (k == 1) return {FileIndexResult::Skip(), {false, false, {}}};
    if (k == 10) {
        return {std::make_shared<BitmapIndexResult>(
                    []() -> Result<RoaringBitmap32> { return Status::IOError("unreadable"); }),
                {false, true, {}}};
    }
    FModel m;
    for (int i = 0; i < 3; i++) {
        if ((k - 2) >> i & 1) m.rows.insert(i * 7);
    }
    auto rows = m.rows;
    return {std::make_shared<BitmapIndexResult>([rows]() -> Result<RoaringBitmap32> {
                RoaringBitmap32 b;
                for (int x : rows) b.Add(x);
                return b;
            }),
            m};
}

// Soundness: a row that may match is never lost. Exactness where both sides are row sets.
MC_SCENARIO(file_index, mc::BOTH, 3,
            "all and/or trees of 3 leaves over {all, none, 8 row sets, unreadable}") {
    auto combine = [](FRes a, FRes b, bool is_and, bool* failed) -> FRes {
        auto r = is_and ? a.r->And(b.r) : a.r->Or(b.r);
        mc::Steps();
        FModel m;
        if (!r.ok()) {
            MC_CHECK(a.m.error || b.m.error, "findex-status", "combination failed");
            *failed = true;
            return {nullptr, m};
        }
        m.error = a.m.error || b.m.error;
        if (is_and) {
            m.all = a.m.all && b.m.all;
            if (a.m.all) m.rows = b.m.rows;
            if (b.m.all) m.rows = a.m.rows;
            if (!a.m.all && !b.m.all) {
                for (int x : a.m.rows) {
                    if (b.m.rows.count(x)) m.rows.insert(x);
                }
            }
        } else {
            m.all = a.m.all || b.m.all;
            if (!m.all) {
                m.rows = a.m.rows;
                m.rows.insert(b.m.rows.begin(), b.m.rows.end());
            }
        }
        return {r.value(), m};
    };
    bool failed = false;
    FRes a = Leaf(true), b = Leaf(true), c = Leaf(true);
    bool o1 = mc::ChooseBool(), o2 = mc::ChooseBool(), left = mc::ChooseBool();
    FRes x = left ? combine(a, b, o1, &failed) : combine(b, c, o1, &failed);
    if (failed) return;
    FRes t = left ? combine(x, c, o2, &failed) : combine(a, x, o2, &failed);
    if (failed) return;
    mc::Nontrivial();
    mc::State(mc::Hash().U(t.m.all).U(t.m.error).U(t.m.rows.size()).U(t.m.rows.count(0)).U(t.m.rows.count(7)).h);
    auto rem = t.r->IsRemain();
    if (!rem.ok()) {
        MC_CHECK(t.m.error, "findex-remain-status", "IsRemain failed");
        return;
    }
    if (t.m.error) return;  // decided without the unreadable part: checked by the exact cases below
    MC_CHECK(rem.value() == t.m.remain(), "findex-remain", "remain %d want %d", rem.value(),
             t.m.remain());
    if (auto bm = std::dynamic_pointer_cast<BitmapIndexResult>(t.r)) {
        MC_CHECK(!t.m.all, "findex-all", "a result that keeps the whole file became a row set");
        std::set<int> got;
        auto b2 = bm->GetBitmap();
        MC_CHECK(b2.ok(), "findex-bitmap", "bitmap");
        for (auto it = b2.value()->Begin(); it != b2.value()->End(); ++it) got.insert(*it);
        MC_CHECK(got == t.m.rows, "findex-rows", "%zu rows want %zu", got.size(), t.m.rows.size());
    } else if (rem.value()) {
        MC_CHECK(t.m.all, "findex-widened", "a row set became the whole file");
    }
}

MC_SCENARIO(file_index_error, mc::BOTH, 2,
            "an unreadable row set never turns into a skipped file: all combinations with a leaf") {
    FRes a = Leaf(false);
    auto bad = std::make_shared<BitmapIndexResult>(
        []() -> Result<RoaringBitmap32> { return Status::IOError("unreadable"); });
    bool is_and = mc::ChooseBool(), first = mc::ChooseBool();
    Result<std::shared_ptr<FileIndexResult>> r =
        first ? (is_and ? bad->And(a.r) : bad->Or(a.r)) : (is_and ? a.r->And(bad) : a.r->Or(bad));
    mc::State(mc::Hash().U(is_and).U(first).U(a.m.all).U(a.m.rows.size()).h);
    mc::Nontrivial();
    mc::Steps();
    if (!r.ok()) return;
    auto rem = r.value()->IsRemain();
    if (!rem.ok()) return;
    if (!rem.value()) {
        MC_CHECK(is_and && !a.m.all && a.m.rows.empty(), "findex-lost",
                 "an unreadable index made a file be skipped");
    } else {
        MC_CHECK(!is_and && a.m.remain(), "findex-guessed", "an unreadable index was guessed");
    }
    // asking again after an error gives the same error
    auto again = bad->GetBitmap();
    MC_CHECK(!again.ok() && !bad->GetBitmap().ok(), "findex-sticky", "the error was forgotten");
}

// ---- global index results ----------------------------------------------------------------------

struct GModel {
    std::map<int64_t, float> rows;  // score, or NaN-free 0 when unscored
    bool scored = false;
};
struct GRes {
    std::shared_ptr<GlobalIndexResult> r;
    GModel m;
};

// A result type of a plugin: neither of the two built-in ones.
class PluginResult : public GlobalIndexResult {
 public:
    explicit PluginResult(std::vector<int64_t> rows) : rows_(std::move(rows)) {}
    class It : public GlobalIndexResult::Iterator {
     public:
        explicit It(const std::vector<int64_t>* v) : v_(v) {}
        bool HasNext() const override { return i_ < v_->size(); }
        int64_t Next() override { return (*v_)[i_++]; }

     private:
        const std::vector<int64_t>* v_;
        size_t i_ = 0;
    };
    Result<bool> IsEmpty() const override { return rows_.empty(); }
    Result<std::unique_ptr<Iterator>> CreateIterator() const override {
        return std::unique_ptr<Iterator>(std::make_unique<It>(&rows_));
    }
    Result<std::shared_ptr<GlobalIndexResult>> AddOffset(int64_t offset) override {
        auto v = rows_;
        for (auto& x : v) x += offset;
        return std::shared_ptr<GlobalIndexResult>(std::make_shared<PluginResult>(v));
    }
    std::string ToString() const override { return "plugin"; }

 private:
    std::vector<int64_t> rows_;
};

const int64_t kIds[] = {0, 1, 4294967296LL, 4294967297LL};

GRes GLeaf(int base_score, int ids_used = 4) {
    int kind = mc::Choose(4);
    int mask = mc::Choose(1 << ids_used);
    GModel m;
    std::vector<int64_t> ids;
    RoaringBitmap64 b;
    std::vector<float> scores;
    for (int i = 0; i < 4; i++) {
        if (mask >> i & 1) {
            ids.push_back(kIds[i]);
            b.Add(kIds[i]);
            scores.push_back(static_cast<float>(base_score + i));
            m.rows[kIds[i]] = static_cast<float>(base_score + i);
        }
    }
    if (kind == 0) {
        return {std::make_shared<BitmapGlobalIndexResult>(
                    [b]() -> Result<RoaringBitmap64> { return b; }),
                m};
    }
    if (kind == 1) {
        m.scored = true;
        return {std::make_shared<BitmapVectorSearchGlobalIndexResult>(std::move(b),
                                                                      std::move(scores)),
                m};
    }
    if (kind == 2) {
        std::vector<Range> rs;
        for (int64_t x : ids) {
            if (!rs.empty() && rs.back().to + 1 == x) {
                rs.back().to = x;
            } else {
                rs.emplace_back(x, x);
            }
        }
        return {BitmapGlobalIndexResult::FromRanges(rs), m};
    }
    return {std::make_shared<PluginResult>(ids), m};
}

void CheckG(const std::shared_ptr<GlobalIndexResult>& r, const GModel& m, const char* what) {
    auto e = r->IsEmpty();
    MC_CHECK(e.ok() && e.value() == m.rows.empty(), "gindex-empty", "%s", what);
    auto it = r->CreateIterator();
    MC_CHECK(it.ok(), "gindex-iterator", "%s", what);
    std::vector<int64_t> got, want;
    while (it.value()->HasNext()) {
        got.push_back(it.value()->Next());
        if (got.size() > m.rows.size() + 3) break;
    }
    for (auto& [id, s] : m.rows) want.push_back(id);
    MC_CHECK(got == want, "gindex-rows", "%s: %zu rows want %zu", what, got.size(), want.size());
    auto rs = r->ToRanges();
    MC_CHECK(rs.ok(), "gindex-ranges-status", "%s", what);
    std::vector<std::pair<int64_t, int64_t>> wr, gr;
    for (int64_t id : want) {
        if (!wr.empty() && wr.back().second + 1 == id) {
            wr.back().second = id;
        } else {
            wr.emplace_back(id, id);
        }
    }
    for (auto& x : rs.value()) gr.emplace_back(x.from, x.to);
    MC_CHECK(gr == wr, "gindex-ranges", "%s: %zu ranges want %zu", what, gr.size(), wr.size());
    if (auto v = std::dynamic_pointer_cast<VectorSearchGlobalIndexResult>(r)) {
        auto vi = v->CreateVectorSearchIterator();
        MC_CHECK(vi.ok(), "gindex-score-iterator", "%s", what);
        std::map<int64_t, float> scores;
        size_t k = 0;
        while (vi.value()->HasNext() && k < m.rows.size() + 3) {
            auto p = vi.value()->NextWithScore();
            MC_CHECK(k < want.size() && p.first == want[k], "gindex-score-order", "%s", what);
            scores[p.first] = p.second;
            k++;
        }
        MC_CHECK(scores == m.rows, "gindex-scores", "%s: scores moved to other rows", what);
    } else {
        MC_CHECK(!m.scored, "gindex-unscored", "%s: scores lost", what);
    }
    mc::Steps(4);
}

// a combined with b, checked against the sets of rows; the operands are as they were.
GRes Combine(const GRes& a, const GRes& b, bool is_and, bool* failed) {
    auto r = is_and ? a.r->And(b.r) : a.r->Or(b.r);
    GModel m;
    bool overlap = false;
    for (auto& [id, s] : a.m.rows) overlap = overlap || b.m.rows.count(id);
    bool both = a.m.scored && b.m.scored;
    if (!is_and && both && overlap) {
        MC_CHECK(!r.ok(), "gindex-ambiguous", "two scores for one row were accepted");
        *failed = true;
        return {nullptr, m};
    }
    MC_CHECK(r.ok(), "gindex-combine", "%s", r.status().ToString().c_str());
    for (auto& [id, s] : a.m.rows) {
        if (!is_and || b.m.rows.count(id)) m.rows[id] = s;
    }
    if (!is_and) {
        for (auto& [id, s] : b.m.rows) m.rows.emplace(id, s);
    }
    auto vr = std::dynamic_pointer_cast<VectorSearchGlobalIndexResult>(r.value());
    // scores survive exactly when every row of the result has one
    if (vr) {
        MC_CHECK(is_and ? (a.m.scored != b.m.scored) : both, "gindex-invented",
                 "a result without scores became a scored one");
        if (is_and && b.m.scored) {
            for (auto& [id, s] : m.rows) s = b.m.rows.at(id);
        }
        m.scored = true;
    }
    if (both && !is_and) m.scored = true;
    if (is_and && a.m.scored && !b.m.scored &&
        std::dynamic_pointer_cast<BitmapGlobalIndexResult>(b.r)) {
        m.scored = true;
    }
    CheckG(r.value(), m, is_and ? "and" : "or");
    CheckG(a.r, a.m, "left operand");
    CheckG(b.r, b.m, "right operand");
    return {r.value(), m};
}

MC_SCENARIO(global_index, mc::BOTH, 3,
            "and/or/offset/serialize of all pairs over 16 row sets x 4 kinds of result") {
    GRes a = GLeaf(10);
    int op = mc::Choose(4);
    auto pool = GetDefaultPool();
    if (op == 0) {
        CheckG(a.r, a.m, "leaf");
        int64_t off = mc::Pick(std::vector<int64_t>{0, 1, 4294967295LL, 1LL << 40});
        auto r = a.r->AddOffset(off);
        MC_CHECK(r.ok(), "gindex-offset-status", "offset");
        GModel m;
        m.scored = a.m.scored;
        for (auto& [id, s] : a.m.rows) m.rows[id + off] = s;
        mc::State(mc::Hash().U(1).U(off).U(a.m.rows.size()).U(a.m.scored).h);
        mc::Nontrivial();
        CheckG(r.value(), m, "offset");
        CheckG(a.r, a.m, "source of offset");
        return;
    }
    if (op == 3) {
        auto bytes = GlobalIndexResult::Serialize(a.r, pool);
        bool builtin = !std::dynamic_pointer_cast<PluginResult>(a.r);
        MC_CHECK(bytes.ok() == builtin, "gindex-serialize", "serialize ok=%d", bytes.ok());
        if (!builtin) return;
        std::vector<char> exact(bytes.value()->data(), bytes.value()->data() + bytes.value()->size());
        exact.shrink_to_fit();
        auto back = GlobalIndexResult::Deserialize(exact.data(), exact.size(), pool);
        MC_CHECK(back.ok(), "gindex-deserialize", "%s", back.status().ToString().c_str());
        GModel m = a.m;
        if (m.rows.empty()) m.scored = false;
        mc::State(mc::Hash().U(3).U(a.m.rows.size()).U(a.m.scored).h);
        mc::Nontrivial();
        CheckG(back.value(), m, "round trip");
        int cut = mc::Choose(static_cast<int>(exact.size()) + 1);
        int flip = -1;
        std::vector<char> bad(exact.begin(), exact.begin() + cut);
        if (cut == static_cast<int>(exact.size())) {
            flip = mc::Choose(cut);
            bad[flip] ^= static_cast<char>((const int[]){1, 0x80, 0xff}[mc::Choose(3)]);
        }
        bad.shrink_to_fit();
        char dummy;
        auto r = GlobalIndexResult::Deserialize(bad.empty() ? &dummy : bad.data(), bad.size(), pool);
        mc::Steps();
        if (flip < 0) {
            MC_CHECK(!r.ok(), "gindex-truncated", "accepted with %d of %zu bytes", cut, exact.size());
        } else if (flip < 4) {
            MC_CHECK(!r.ok(), "gindex-version", "a changed version was accepted");
        }
        return;
    }
    GRes b = GLeaf(50);
    bool failed = false;
    GRes r = Combine(a, b, op == 1, &failed);
    if (failed) return;
    mc::State(mc::Hash().U(op).U(r.m.rows.size()).U(r.m.scored).h);
    if (!a.m.rows.empty() && !b.m.rows.empty()) mc::Nontrivial();
}

MC_SCENARIO(global_index_error, mc::BOTH, 2,
            "an answer that cannot be computed, the first one or two times or ever, combined with any other or moved, asked three "
            "times in 4 ways: it is reported or, once it can be computed, right") {
    int fails = 1 + mc::Choose(3);  // 3: always
    auto left = std::make_shared<int>(fails == 3 ? 1000 : fails);
    auto bad = std::make_shared<BitmapGlobalIndexResult>([left]() -> Result<RoaringBitmap64> {
        if ((*left)-- > 0) return Status::IOError("unreadable");
        return RoaringBitmap64::From({1, 4294967296LL});
    });
    std::shared_ptr<GlobalIndexResult> r = bad;
    std::set<int64_t> want{1, 4294967296LL};
    int how = mc::Choose(6);
    if (how == 5) {
        auto o = bad->AddOffset(7);
        if (!o.ok()) return;
        r = o.value();
        want = {8, 4294967303LL};
    } else if (how > 0) {
        GRes a = GLeaf(10);
        if (a.m.rows.empty()) mc::Prune();
        bool is_and = how <= 2, first = how & 1;
        auto c = first ? (is_and ? bad->And(a.r) : bad->Or(a.r)) : (is_and ? a.r->And(bad) : a.r->Or(bad));
        if (!c.ok()) return;  // reported right away
        r = c.value();
        std::set<int64_t> other;
        for (auto& [id, score] : a.m.rows) other.insert(id);
        if (is_and) {
            for (auto it = want.begin(); it != want.end();) it = other.count(*it) ? std::next(it) : want.erase(it);
        } else {
            want.insert(other.begin(), other.end());
        }
    }
    auto pool = GetDefaultPool();
    mc::Nontrivial();
    for (int i = 0; i < 3; i++) {
        bool may = fails < 3;  // whether an answer may be given at all
        int ask = mc::Choose(4);
        mc::State(mc::Hash().U(fails).U(how).U(i).U(ask).U(want.size()).h);
        mc::Steps();
        if (ask == 0) {
            auto e = r->IsEmpty();
            if (e.ok()) MC_CHECK(may && e.value() == want.empty(), "gindex-error", "an unreadable answer is taken as %d", e.value());
            continue;
        }
        std::set<int64_t> got;
        if (ask == 1) {
            auto it = r->CreateIterator();
            if (!it.ok()) continue;
            while (it.value()->HasNext()) got.insert(it.value()->Next());
        } else if (ask == 2) {
            auto rs = r->ToRanges();
            if (!rs.ok()) continue;
            for (auto& x : rs.value()) {
                for (int64_t id = x.from; id <= x.to; id++) got.insert(id);
            }
        } else {
            auto bytes = GlobalIndexResult::Serialize(r, pool);
            if (!bytes.ok()) continue;
            auto back = GlobalIndexResult::Deserialize(bytes.value()->data(), bytes.value()->size(), pool);
            MC_CHECK(back.ok(), "gindex-error", "not read back");
            auto it = back.value()->CreateIterator();
            MC_CHECK(it.ok(), "gindex-error", "not read back");
            while (it.value()->HasNext()) got.insert(it.value()->Next());
        }
        MC_CHECK(may && got == want, "gindex-error", "an unreadable answer is taken as one of %zu rows, want %zu", got.size(), want.size());
    }
}

MC_SCENARIO(global_index_chain, mc::BOTH, 4,
            "three results over 8 row sets x 4 kinds, two combinations in both groupings, with the "
            "intermediate result used as it is, shifted back and forth, or read back from bytes; the "
            "third operand may be the first again") {
    GRes a = GLeaf(10, 3);
    GRes b = GLeaf(50, 3);
    bool and1 = mc::ChooseBool(), and2 = mc::ChooseBool();
    bool failed = false;
    GRes ab = Combine(a, b, and1, &failed);
    if (failed) return;
    int mid = mc::Choose(3);
    auto pool = GetDefaultPool();
    if (mid == 1) {
        int64_t off = 4294967295LL;
        auto up = ab.r->AddOffset(off);
        MC_CHECK(up.ok(), "gindex-offset-status", "offset");
        GModel shifted;
        shifted.scored = ab.m.scored;
        for (auto& [id, s] : ab.m.rows) shifted.rows[id + off] = s;
        CheckG(up.value(), shifted, "shifted combination");
        auto down = up.value()->AddOffset(-off);
        MC_CHECK(down.ok(), "gindex-offset-status", "offset back");
        ab.r = down.value();
        CheckG(ab.r, ab.m, "shifted back");
    } else if (mid == 2) {
        auto bytes = GlobalIndexResult::Serialize(ab.r, pool);
        MC_CHECK(bytes.ok(), "gindex-serialize", "%s", bytes.status().ToString().c_str());
        auto back = GlobalIndexResult::Deserialize(bytes.value()->data(), bytes.value()->size(), pool);
        MC_CHECK(back.ok(), "gindex-deserialize", "%s", back.status().ToString().c_str());
        ab.r = back.value();
        if (ab.m.rows.empty()) ab.m.scored = false;
        CheckG(ab.r, ab.m, "combination read back");
    }
    GRes c = mc::Thorough() || mc::ChooseBool() ? GLeaf(90, 2) : a;
    bool left = mc::ChooseBool();
    GRes abc = left ? Combine(ab, c, and2, &failed) : Combine(c, ab, and2, &failed);
    mc::State(mc::Hash().U(and1 * 2 + and2).U(mid).U(left).U(abc.m.rows.size()).U(abc.m.scored)
                  .U(a.m.rows.size()).U(b.m.rows.size()).U(c.m.rows.size()).h);
    if (failed) return;
    if (!abc.m.rows.empty()) mc::Nontrivial();
    CheckG(ab.r, ab.m, "intermediate result afterwards");
    CheckG(a.r, a.m, "first operand afterwards");
}

MC_SCENARIO(global_index_many, mc::BOTH, 3,
            "results of 0, 1, 255, 256, 3000 and 70000 rows, dense, with a gap or every 3rd, scored or not: "
            "round trip, offset, and combinations of all pairs") {
    auto make = [](int salt, GRes* out) {
        int n = mc::Pick(std::vector<int>{0, 1, 255, 256, 3000, 70000});
        int shape = mc::Choose(3);
        out->m.scored = mc::ChooseBool();
        RoaringBitmap64 b;
        std::vector<float> scores;
        for (int i = 0; i < n; i++) {
            int64_t id = shape == 0 ? i : shape == 1 ? (i < n / 2 ? i : i + 4294967000LL) : 3LL * i + 1;
            b.Add(id);
            auto s = static_cast<float>(i % 1000 + salt);
            scores.push_back(s);
            out->m.rows[id] = s;
        }
        if (out->m.scored) {
            out->r = std::make_shared<BitmapVectorSearchGlobalIndexResult>(std::move(b),
                                                                          std::move(scores));
        } else {
            out->r = std::make_shared<BitmapGlobalIndexResult>(
                [b]() -> Result<RoaringBitmap64> { return b; });
        }
        return n;
    };
    GRes a;
    int n = make(0, &a);
    auto pool = GetDefaultPool();
    mc::Nontrivial();
    int op = mc::Choose(3);
    mc::State(mc::Hash().U(n).U(op).U(a.m.scored).U(a.m.rows.empty() ? 0 : a.m.rows.rbegin()->first).h);
    if (op == 0) {
        auto bytes = GlobalIndexResult::Serialize(a.r, pool);
        MC_CHECK(bytes.ok(), "gindex-serialize", "%s", bytes.status().ToString().c_str());
        auto back = GlobalIndexResult::Deserialize(bytes.value()->data(), bytes.value()->size(), pool);
        MC_CHECK(back.ok(), "gindex-deserialize", "%s", back.status().ToString().c_str());
        GModel m = a.m;
        if (m.rows.empty()) m.scored = false;
        CheckG(back.value(), m, "round trip");
        auto r = a.r->AddOffset(65535);
        MC_CHECK(r.ok(), "gindex-offset-status", "offset");
        GModel o;
        o.scored = a.m.scored;
        for (auto& [id, s] : a.m.rows) o.rows[id + 65535] = s;
        CheckG(r.value(), o, "offset");
        return;
    }
    GRes b;
    int nb = make(2000, &b);
    mc::Assume(n + nb <= 6000 || mc::Thorough());
    mc::State(mc::Hash().U(n).U(nb).U(op).U(a.m.scored).U(b.m.scored)
                  .U(b.m.rows.empty() ? 0 : b.m.rows.rbegin()->first).h);
    bool failed = false;
    Combine(a, b, op == 1, &failed);
}

// ---- bloom filter ------------------------------------------------------------------------------

const std::vector<int64_t>& Hashes() {
    static const std::vector<int64_t> v{0,
                                        1,
                                        -1,
                                        INT64_MIN,
                                        INT64_MAX,
                                        0x00000000ffffffffLL,
                                        static_cast<int64_t>(0xffffffff00000000ULL),
                                        static_cast<int64_t>(0x80000000ffffffffULL),
                                        0x7fffffff80000000LL,
                                        static_cast<int64_t>(0x8000000080000000ULL),
                                        0x123456789abcdefLL,
                                        static_cast<int64_t>(0xdeadbeefcafebabeULL)};
    return v;
}

MC_SCENARIO(bloom, mc::BOTH, 3,
            "12 boundary hashes, all subsets of <=3 added, 5 sizes x 6 rates: every added hash is "
            "found, directly and through the serialized bits; an empty filter finds nothing") {
    int64_t items = mc::Pick(std::vector<int64_t>{1, 2, 7, 100, 1000});
    double fpp = mc::Pick(std::vector<double>{0.9, 0.5, 0.1, 0.01, 0.0001, 0.000001});
    auto pool = GetDefaultPool();
    BloomFilter64 f(items, fpp, pool);
    int bits = f.GetBitSet().BitSize();
    MC_CHECK(bits > 0 && bits % 8 == 0, "bloom-size", "%d bits", bits);
    double need = -static_cast<double>(items) * std::log(fpp) / (std::log(2) * std::log(2));
    MC_CHECK(bits + 1 >= need && bits <= need + 9, "bloom-sizing", "%d bits for %f", bits, need);
    int n = mc::Choose(4);
    std::vector<int64_t> added;
    for (int i = 0; i < n; i++) added.push_back(mc::Pick(Hashes()));
    if (n == 0) {
        for (int64_t h : Hashes()) {
            MC_CHECK(!f.TestHash(h), "bloom-empty", "an empty filter contains %llx",
                     static_cast<unsigned long long>(h));
        }
    } else {
        mc::Nontrivial();
    }
    std::string image(bits / 8, '\0');
    for (int64_t h : added) {
        f.AddHash(h);
        // reference bits
        auto h1 = static_cast<uint32_t>(h), h2 = static_cast<uint32_t>(static_cast<uint64_t>(h) >> 32);
        for (uint32_t i = 1; i <= static_cast<uint32_t>(f.GetNumHashFunctions()); i++) {
            auto c = static_cast<int32_t>(h1 + i * h2);
            if (c < 0) c = ~c;
            int p = c % bits;
            image[p / 8] |= static_cast<char>(1 << (p % 8));
        }
        mc::Steps();
    }
    for (int p = 0; p < bits; p++) {
        MC_CHECK(f.GetBitSet().Get(p) == ((image[p / 8] >> (p % 8)) & 1), "bloom-bits", "bit %d", p);
    }
    int lead = mc::Choose(2) * 4;
    auto raw = std::make_shared<Bytes>(std::string(lead, '\0') + image, pool.get());
    BloomFilter64 g(f.GetNumHashFunctions(), std::make_unique<BloomFilter64::BitSet>(raw, lead));
    mc::State(mc::Hash().S(image).U(lead).h);
    for (int64_t h : added) {
        MC_CHECK(f.TestHash(h), "bloom-miss", "added hash %llx is not found",
                 static_cast<unsigned long long>(h));
        MC_CHECK(g.TestHash(h), "bloom-miss-read", "added hash %llx is not found after reading",
                 static_cast<unsigned long long>(h));
    }
    for (int64_t h : Hashes()) {
        MC_CHECK(f.TestHash(h) == g.TestHash(h), "bloom-read", "answers differ after reading");
        mc::Steps();
    }
}

MC_SCENARIO(bloom_many, mc::BOTH, 3,
            "filters for 1000..20000 items at 4 rates, filled with as many hashes of 3 shapes: every one is "
            "found before and after reading, and of 20000 others at most three times the promised share") {
    int64_t items = mc::Pick(std::vector<int64_t>{1000, 5000, 20000});
    double fpp = mc::Pick(std::vector<double>{0.3, 0.1, 0.01, 0.001});
    int shape = mc::Choose(3);
    auto pool = GetDefaultPool();
    BloomFilter64 f(items, fpp, pool);
    auto at = [shape](int64_t i) {
        auto x = static_cast<uint64_t>(i);
        if (shape == 2) x = ~x;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
        x ^= x >> 31;
        // shape 1: both halves have the sign bit
        return static_cast<int64_t>(shape == 1 ? x | 0x8000000080000000ULL : x);
    };
    mc::State(mc::Hash().U(items).U(static_cast<uint64_t>(fpp * 1e6)).U(shape).h);
    mc::Nontrivial();
    for (int64_t i = 1; i <= items; i++) f.AddHash(at(i));
    mc::Steps(items);
    int bits = f.GetBitSet().BitSize();
    auto raw = std::make_shared<Bytes>(bits / 8, pool.get());
    memset(raw->data(), 0, raw->size());
    for (int p = 0; p < bits; p++) {
        if (f.GetBitSet().Get(p)) raw->data()[p / 8] |= static_cast<char>(1 << (p % 8));
    }
    BloomFilter64 g(f.GetNumHashFunctions(), std::make_unique<BloomFilter64::BitSet>(raw, 0));
    for (int64_t i = 1; i <= items; i++) {
        MC_CHECK(f.TestHash(at(i)) && g.TestHash(at(i)), "bloom-miss",
                 "%lld items, rate %f: added hash %llx is not found", static_cast<long long>(items), fpp,
                 static_cast<unsigned long long>(at(i)));
    }
    int wrong = 0;
    for (int64_t i = 1; i <= 20000; i++) wrong += f.TestHash(at(items + i));
    MC_CHECK(wrong <= 3 * fpp * 20000 + 20, "bloom-rate", "%lld items, rate %f: %d of 20000 wrong",
             static_cast<long long>(items), fpp, wrong);
}

}  // namespace
