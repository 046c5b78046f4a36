// File indexes: whatever an index answers for a condition, no row that meets the condition is left out, whichever way
// the index was written, placed in its container and combined with others.
#include <algorithm>
#include <climits>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "arrow/api.h"
#include "arrow/c/bridge.h"
#include "mc/mc.h"
#include "paimon/common/file_index/bitmap/bitmap_file_index.h"
#include "paimon/common/file_index/bitmap/bitmap_file_index_factory.h"
#include "paimon/common/file_index/bloomfilter/bloom_filter_file_index.h"
#include "paimon/common/file_index/bloomfilter/bloom_filter_file_index_factory.h"
#include "paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.h"
#include "paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index_factory.h"
#include "paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.h"
#include "paimon/common/global_index/bitmap/bitmap_global_index.h"
#include "paimon/common/utils/bloom_filter64.h"
#include "paimon/core/io/data_file_meta.h"
#include "paimon/core/io/data_file_path_factory.h"
#include "paimon/core/io/file_index_evaluator.h"
#include "paimon/core/manifest/file_source.h"
#include "paimon/core/stats/simple_stats.h"
#include "paimon/data/timestamp.h"
#include "paimon/factories/factory_creator.h"
#include "paimon/file_index/bitmap_index_result.h"
#include "paimon/file_index/file_index_format.h"
#include "paimon/file_index/file_index_reader.h"
#include "paimon/file_index/file_index_writer.h"
#include "paimon/fs/file_system.h"
#include "paimon/global_index/bitmap_global_index_result.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/predicate/literal.h"
#include "paimon/predicate/predicate_builder.h"
#include "xxhash.h"

using namespace paimon;  // NOLINT

namespace {
using Strs = std::map<std::string, std::string>;

std::shared_ptr<MemoryPool> Pool() {
    static std::shared_ptr<MemoryPool> p = GetDefaultPool();
    return p;
}
template <typename T>
T Must(Result<T>&& r, const char* what) {
    if (!r.ok()) mc::Fail("status", "%s: %s", what, r.status().ToString().c_str());
    return std::move(r).value();
}

// ---- columns ------------------------------------------------------------------------------------------------------
// A value is a number (times in nanoseconds) or a text.
struct Val {
    __int128 n = 0;
    std::string s;
    bool operator<(const Val& o) const {
        return n != o.n ? n < o.n : s < o.s;
    }
    bool operator==(const Val& o) const {
        return n == o.n && s == o.s;
    }
};
using Cell = std::optional<Val>;
using Column = std::vector<Cell>;

Val N(__int128 n) {
    Val v;
    v.n = n;
    return v;
}
Val S(std::string s) {
    Val v;
    v.s = std::move(s);
    return v;
}

struct Kind {
    const char* name;
    FieldType type;
    std::shared_ptr<arrow::DataType> arrow;
    __int128 unit;  // of the stored number, in nanoseconds, for times
    std::vector<Val> values;
    std::vector<Val> literals;  // asked about
    bool exact;                 // the index keeps the value as it is
};

const std::vector<Kind>& Kinds() {
    static const std::vector<Kind> kinds = [] {
        std::vector<Kind> k;
        auto nums = [&](const char* name, FieldType t, std::shared_ptr<arrow::DataType> a, std::vector<int64_t> vs) {
            Kind x{name, t, a, 1, {}, {}, true};
            std::set<Val> lits;
            __int128 lo = INT64_MIN, hi = INT64_MAX;
            if (t == FieldType::TINYINT) lo = -128, hi = 127;
            if (t == FieldType::SMALLINT) lo = -32768, hi = 32767;
            if (t == FieldType::INT || t == FieldType::DATE) lo = INT32_MIN, hi = INT32_MAX;
            for (auto v : vs) {
                x.values.push_back(N(v));
                for (__int128 d : {-1, 0, 1}) {
                    if (v + d >= lo && v + d <= hi) lits.insert(N(v + d));
                }
            }
            lits.insert(N(lo));
            lits.insert(N(hi));
            x.literals.assign(lits.begin(), lits.end());
            k.push_back(x);
        };
        k.push_back({"boolean", FieldType::BOOLEAN, arrow::boolean(), 1, {N(0), N(1)}, {N(0), N(1)}, true});
        nums("tinyint", FieldType::TINYINT, arrow::int8(), {-128, 0, 127});
        nums("smallint", FieldType::SMALLINT, arrow::int16(), {-3, 5, 300});
        nums("int", FieldType::INT, arrow::int32(), {-70000, -1, INT32_MAX});
        nums("date", FieldType::DATE, arrow::date32(), {-1, 0, 20000});
        nums("bigint", FieldType::BIGINT, arrow::int64(), {-INT64_MAX, -1, 1LL << 40});
        k.push_back({"string", FieldType::STRING, arrow::utf8(), 1, {S(""), S("a"), S("ab")},
                     {S(""), S("a"), S("aa"), S("ab"), S("b"), S(std::string("a\0", 2))}, true});
        auto time = [&](const char* name, arrow::TimeUnit::type u, __int128 unit, bool exact) {
            Kind x{name, FieldType::TIMESTAMP, arrow::timestamp(u), unit, {}, {}, exact};
            std::set<Val> lits;
            for (__int128 v : {-2, 0, 1}) {
                x.values.push_back(N(v * unit));
                for (__int128 d : {-1, 0, 1}) lits.insert(N(v * unit + d));
            }
            x.literals.assign(lits.begin(), lits.end());
            k.push_back(x);
        };
        time("timestamp(0)", arrow::TimeUnit::SECOND, 1000000000, true);
        time("timestamp(3)", arrow::TimeUnit::MILLI, 1000000, true);
        time("timestamp(6)", arrow::TimeUnit::MICRO, 1000, true);
        time("timestamp(9)", arrow::TimeUnit::NANO, 1, false);
        return k;
    }();
    return kinds;
}

Timestamp Time(__int128 ns) {
    __int128 ms = ns / 1000000, rest = ns % 1000000;
    if (rest < 0) {
        ms--;
        rest += 1000000;
    }
    return Timestamp(static_cast<int64_t>(ms), static_cast<int32_t>(rest));
}
Literal Lit(const Kind& k, const Val& v) {
    switch (k.type) {
        case FieldType::BOOLEAN:
            return Literal(v.n != 0);
        case FieldType::TINYINT:
            return Literal(static_cast<int8_t>(v.n));
        case FieldType::SMALLINT:
            return Literal(static_cast<int16_t>(v.n));
        case FieldType::INT:
            return Literal(static_cast<int32_t>(v.n));
        case FieldType::DATE:
            return Literal(FieldType::DATE, static_cast<int32_t>(v.n));
        case FieldType::BIGINT:
            return Literal(static_cast<int64_t>(v.n));
        case FieldType::STRING:
            return Literal(FieldType::STRING, v.s.data(), v.s.size());
        default:
            return Literal(Time(v.n));
    }
}

template <typename B, typename F>
void Append(arrow::ArrayBuilder* b, const Column& col, F f) {
    for (auto& c : col) {
        if (!c) {
            (void)b->AppendNull();
        } else {
            (void)static_cast<B*>(b)->Append(f(*c));
        }
    }
}
std::shared_ptr<arrow::Array> Build(const Kind& k, const Column& col) {
    std::unique_ptr<arrow::ArrayBuilder> b;
    auto* p = arrow::default_memory_pool();
    switch (k.type) {
        case FieldType::BOOLEAN:
            b = std::make_unique<arrow::BooleanBuilder>();
            Append<arrow::BooleanBuilder>(b.get(), col, [](const Val& v) { return v.n != 0; });
            break;
        case FieldType::TINYINT:
            b = std::make_unique<arrow::Int8Builder>();
            Append<arrow::Int8Builder>(b.get(), col, [](const Val& v) { return static_cast<int8_t>(v.n); });
            break;
        case FieldType::SMALLINT:
            b = std::make_unique<arrow::Int16Builder>();
            Append<arrow::Int16Builder>(b.get(), col, [](const Val& v) { return static_cast<int16_t>(v.n); });
            break;
        case FieldType::INT:
            b = std::make_unique<arrow::Int32Builder>();
            Append<arrow::Int32Builder>(b.get(), col, [](const Val& v) { return static_cast<int32_t>(v.n); });
            break;
        case FieldType::DATE:
            b = std::make_unique<arrow::Date32Builder>();
            Append<arrow::Date32Builder>(b.get(), col, [](const Val& v) { return static_cast<int32_t>(v.n); });
            break;
        case FieldType::BIGINT:
            b = std::make_unique<arrow::Int64Builder>();
            Append<arrow::Int64Builder>(b.get(), col, [](const Val& v) { return static_cast<int64_t>(v.n); });
            break;
        case FieldType::STRING:
            b = std::make_unique<arrow::StringBuilder>();
            Append<arrow::StringBuilder>(b.get(), col, [](const Val& v) { return std::string_view(v.s); });
            break;
        default:
            b = std::make_unique<arrow::TimestampBuilder>(k.arrow, p);
            Append<arrow::TimestampBuilder>(b.get(), col,
                                            [&](const Val& v) { return static_cast<int64_t>(v.n / k.unit); });
    }
    return b->Finish().ValueOrDie();
}

// ---- conditions ---------------------------------------------------------------------------------------------------
enum Op { EQ, NE, LT, LE, GT, GE, IN, NOT_IN, IS_NULL, NOT_NULL };
const char* kOps[] = {"=", "<>", "<", "<=", ">", ">=", "in", "not in", "is null", "is not null"};

struct Cond {
    Op op;
    std::vector<Val> lits;
    bool Holds(const Cell& c) const {
        if (op == IS_NULL) return !c;
        if (op == NOT_NULL) return c.has_value();
        if (!c) return false;
        bool in = std::find(lits.begin(), lits.end(), *c) != lits.end();
        switch (op) {
            case EQ:
            case IN:
                return in;
            case NE:
            case NOT_IN:
                return !in;
            case LT:
                return *c < lits[0];
            case LE:
                return !(lits[0] < *c);
            case GT:
                return lits[0] < *c;
            default:
                return !(*c < lits[0]);
        }
    }
    std::string Text() const {
        std::string t = kOps[op];
        for (auto& l : lits) {
            t += " " + (l.s.empty() ? std::to_string(static_cast<double>(l.n)) : "'" + l.s + "'");
        }
        return t;
    }
};
std::vector<Cond> Conds(const Kind& k) {
    std::vector<Cond> out;
    for (auto& l : k.literals) {
        for (Op o : {EQ, NE, LT, LE, GT, GE, IN, NOT_IN}) out.push_back({o, {l}});
    }
    for (size_t a = 0; a < k.literals.size(); a++) {
        for (size_t b = a + 1; b < k.literals.size(); b++) {
            // the literals are asked in either order
            auto x = k.literals[a], y = k.literals[b];
            if ((a + b) & 1) std::swap(x, y);
            out.push_back({IN, {x, y}});
            out.push_back({NOT_IN, {x, y}});
        }
    }
    out.push_back({IN, k.literals});
    out.push_back({NOT_IN, k.literals});
    out.push_back({IS_NULL, {}});
    out.push_back({NOT_NULL, {}});
    return out;
}

// The indexes keep times in milliseconds up to precision 3, else in microseconds.
__int128 KeptUnit(const Kind& k) {
    return k.type != FieldType::TIMESTAMP ? 1 : k.unit >= 1000000 ? 1000000 : 1000;
}
int64_t Kept(const Kind& k, const Val& v) {
    __int128 u = KeptUnit(k);
    __int128 q = v.n / u;
    if (q * u > v.n) q--;
    return static_cast<int64_t>(q);
}
bool AllKept(const Kind& k, const Cond& c) {
    for (auto& l : c.lits) {
        if (l.n % KeptUnit(k) != 0) return false;
    }
    return k.exact;
}
// The known finding: a time of precision 9 equals a literal as far as the index keeps it, but not below.
bool BelowKept(const Kind& k, const Cond& c, const Cell& cell) {
    if (k.exact || !cell || (c.op != NE && c.op != NOT_IN && c.op != GT)) return false;
    for (auto& l : c.lits) {
        if (!(l == *cell) && Kept(k, l) == Kept(k, *cell)) return true;
    }
    return false;
}
void LostRow(const char* what, const std::string& got, const std::string& about, int row, bool below_kept) {
    if (below_kept) {
        mc::FailUnlessKnown("lost-row-nanoseconds", "%s answers %s to %s, which row %d meets", what, got.c_str(),
                            about.c_str(), row);
    } else {
        mc::Fail("lost-row", "%s answers %s to %s, which row %d meets", what, got.c_str(), about.c_str(), row);
    }
}

template <typename R, typename V>
R Ask(V* r, const Kind& k, const Cond& c) {
    std::vector<Literal> ls;
    for (auto& l : c.lits) ls.push_back(Lit(k, l));
    switch (c.op) {
        case EQ:
            return r->VisitEqual(ls[0]);
        case NE:
            return r->VisitNotEqual(ls[0]);
        case LT:
            return r->VisitLessThan(ls[0]);
        case LE:
            return r->VisitLessOrEqual(ls[0]);
        case GT:
            return r->VisitGreaterThan(ls[0]);
        case GE:
            return r->VisitGreaterOrEqual(ls[0]);
        case IN:
            return r->VisitIn(ls);
        case NOT_IN:
            return r->VisitNotIn(ls);
        case IS_NULL:
            return r->VisitIsNull();
        default:
            return r->VisitIsNotNull();
    }
}
using Answer = Result<std::shared_ptr<FileIndexResult>>;

// The rows an answer leaves, and whether it named them.
std::set<int> Rows(const std::shared_ptr<FileIndexResult>& r, size_t rows, bool* named) {
    std::set<int> out;
    *named = false;
    if (auto b = std::dynamic_pointer_cast<BitmapIndexResult>(r)) {
        *named = true;
        auto m = Must(b->GetBitmap(), "rows of an answer");
        for (auto i = m->Begin(); i != m->End(); ++i) {
            MC_CHECK(*i >= 0 && *i < static_cast<int>(rows), "row-range", "row %d of %zu", *i, rows);
            out.insert(*i);
        }
        bool remain = Must(r->IsRemain(), "remain");
        MC_CHECK(remain == !out.empty(), "remain", "remain %d with %zu rows", remain, out.size());
        return out;
    }
    if (Must(r->IsRemain(), "remain")) {
        for (size_t i = 0; i < rows; i++) out.insert(static_cast<int>(i));
    }
    return out;
}
std::string Show(const std::set<int>& s) {
    std::string t = "{";
    for (int i : s) t += std::to_string(i) + " ";
    return t + "}";
}
std::string Show(const Column& c) {
    std::string t = "[";
    for (auto& x : c) {
        t += !x ? "null " : x->s.empty() ? std::to_string(static_cast<double>(x->n)) + " " : "'" + x->s + "' ";
    }
    return t + "]";
}
// exact: the answer names exactly the rows when it names rows
void Judge(const char* what, const std::shared_ptr<FileIndexResult>& r, const std::set<int>& want, size_t rows,
           bool exact, const std::string& about, const std::function<bool(int)>& below_kept = nullptr) {
    MC_CHECK(r != nullptr, "no-answer", "%s gives no answer to %s", what, about.c_str());
    bool named;
    auto got = Rows(r, rows, &named);
    for (int w : want) {
        if (!got.count(w)) LostRow(what, Show(got), about, w, below_kept && below_kept(w));
    }
    MC_CHECK(!exact || !named || got == want, "inexact", "%s answers %s to %s instead of %s", what, Show(got).c_str(),
             about.c_str(), Show(want).c_str());
    mc::Steps();
}
std::set<int> Meets(const Column& col, const Cond& c) {
    std::set<int> out;
    for (size_t i = 0; i < col.size(); i++) {
        if (c.Holds(col[i])) out.insert(static_cast<int>(i));
    }
    return out;
}

// ---- writing indexes ----------------------------------------------------------------------------------------------
struct Out {
    std::string b;
    void I(uint64_t v, int n) {
        for (int i = n - 1; i >= 0; i--) b.push_back(static_cast<char>(v >> (8 * i)));
    }
    void U(const std::string& s) {
        I(s.size(), 2);
        b += s;
    }
};
::ArrowSchema SchemaOf(const std::string& name, const Kind& k) {
    ::ArrowSchema s;
    if (!arrow::ExportSchema(*arrow::schema({arrow::field(name, k.arrow)}), &s).ok()) mc::Fail("setup", "schema");
    return s;
}
void AddTo(FileIndexWriter* w, const Kind& k, const Column& col, size_t from, size_t to, const std::string& name) {
    auto a = Build(k, Column(col.begin() + from, col.begin() + to));
    auto s = arrow::StructArray::Make({a}, std::vector<std::string>{name}).ValueOrDie();
    ::ArrowArray c;
    if (!arrow::ExportArray(*s, &c).ok()) mc::Fail("setup", "array");
    auto st = w->AddBatch(&c);
    if (!st.ok()) mc::Fail("status", "add batch: %s", st.ToString().c_str());
}
std::string BitmapBytes(const Kind& k, const Column& col, const Strs& opts, size_t cut, const std::string& name = "c") {
    BitmapFileIndex idx(opts);
    auto s = SchemaOf(name, k);
    auto w = Must(idx.CreateWriter(&s, Pool()), "writer");
    AddTo(w.get(), k, col, 0, cut, name);
    if (cut < col.size()) AddTo(w.get(), k, col, cut, col.size(), name);
    auto b = Must(w->SerializedBytes(), "index bytes");
    return std::string(b->data(), b->size());
}
std::string BsiBytes(const Kind& k, const Column& col) {
    Out o;
    o.I(1, 1);
    o.I(col.size(), 4);
    for (bool neg : {false, true}) {
        int64_t lo = INT64_MAX, hi = -1;
        for (auto& c : col) {
            if (!c) continue;
            int64_t v = Kept(k, *c);
            if ((v < 0) != neg) continue;
            v = neg ? -v : v;
            lo = std::min(lo, v);
            hi = std::max(hi, v);
        }
        o.I(hi >= 0, 1);
        if (hi < 0) continue;
        auto a = Must(BitSliceIndexRoaringBitmap::Appender::Create(lo, hi), "appender");
        for (size_t i = 0; i < col.size(); i++) {
            if (!col[i]) continue;
            int64_t v = Kept(k, *col[i]);
            if ((v < 0) != neg) continue;
            if (!a->Append(static_cast<int32_t>(i), neg ? -v : v).ok()) mc::Fail("setup", "append");
        }
        auto b = a->Serialize(Pool());
        o.b.append(b->data(), b->size());
    }
    return o.b;
}
// The published hash of the bloom filter index.
int64_t HashOf(const Kind& k, const Val& v) {
    if (k.type == FieldType::STRING) return static_cast<int64_t>(XXH64(v.s.data(), v.s.size(), 0));
    uint64_t x = static_cast<uint64_t>(Kept(k, v));
    auto sra = [](uint64_t a, int n) { return static_cast<uint64_t>(static_cast<int64_t>(a) >> n); };
    x = (~x) + (x << 21);
    x ^= sra(x, 24);
    x = x + (x << 3) + (x << 8);
    x ^= sra(x, 14);
    x = x + (x << 2) + (x << 4);
    x ^= sra(x, 28);
    x += x << 31;
    return static_cast<int64_t>(x);
}
std::string BloomBytes(const Kind& k, const Column& col, int hashes, int bytes) {
    Out o;
    o.I(hashes, 4);
    std::string bits(bytes, 0);
    for (auto& c : col) {
        if (!c) continue;
        uint64_t h = static_cast<uint64_t>(HashOf(k, *c));
        uint32_t h1 = static_cast<uint32_t>(h), h2 = static_cast<uint32_t>(h >> 32);
        for (int i = 1; i <= hashes; i++) {
            int32_t p = static_cast<int32_t>(h1 + i * h2);
            if (p < 0) p = ~p;
            p %= 8 * bytes;
            bits[p / 8] |= static_cast<char>(1 << (p % 8));
        }
    }
    return o.b + bits;
}

// Index bytes somewhere within a file.
struct Placed {
    std::string bytes;
    int start, length;
    std::shared_ptr<InputStream> in;
    Placed(const std::string& idx, int before, int after) {
        std::string b = std::string(before, '\x55') + idx + std::string(after, '\xaa');
        bytes.assign(b.data(), b.size());
        bytes.shrink_to_fit();
        start = before;
        length = static_cast<int>(idx.size());
        in = std::make_shared<ByteArrayInputStream>(bytes.data(), bytes.size());
    }
};
Column SomeColumn(const Kind& k, int rows) {
    Column c;
    for (int i = 0; i < rows; i++) {
        int v = mc::Choose(static_cast<int>(k.values.size()) + 1);
        c.push_back(v ? Cell(k.values[v - 1]) : Cell());
    }
    return c;
}
void Note(const Kind& k, const Column& c, uint64_t more) {
    mc::Nontrivial();
    mc::State(mc::Hash().S(k.name).S(Show(c)).U(more).h);
}
int RowsMax() {
    return mc::Thorough() ? 5 : 4;
}

MC_SCENARIO(bitmap, mc::BOTH, 4,
            "columns of 0-4 (thorough 5) rows over null and 2-3 values in 11 types, both versions of the format, one "
            "entry or many in a block, in one batch or two, at an offset in the file or not; all conditions over the "
            "values and their neighbours, asked twice in opposite orders") {
    auto& k = Kinds()[mc::Choose(static_cast<int>(Kinds().size()))];
    int rows = mc::Choose(RowsMax() + 1);
    Column col = SomeColumn(k, rows);
    Strs opts;
    int form = mc::Choose(4);
    opts["version"] = form == 0 ? "1" : "2";
    // room for one entry of the type, or for two
    if (form >= 2) opts["index-block-size"] = form == 2 ? "20" : "36";
    int place = mc::Choose(2);
    Placed p(BitmapBytes(k, col, opts, rows / 2 + (form & 1 ? rows - rows / 2 : 0)), place ? 7 : 0, place ? 9 : 0);
    BitmapFileIndex idx({});
    auto s = SchemaOf("c", k);
    auto r = Must(idx.CreateReader(&s, p.start, p.length, p.in, Pool()), "reader");
    auto conds = Conds(k);
    std::vector<std::shared_ptr<FileIndexResult>> first;
    for (auto& c : conds) {
        auto a = Ask<Answer>(r.get(), k, c);
        MC_CHECK(a.ok(), "status", "%s: %s", c.Text().c_str(), a.status().ToString().c_str());
        first.push_back(a.value());
    }
    // answers are worked out when they are used
    for (size_t i = conds.size(); i-- > 0;) {
        std::string about = conds[i].Text() + " of " + k.name + " " + Show(col);
        auto below = [&](int row) { return BelowKept(k, conds[i], col[row]); };
        bool exact = AllKept(k, conds[i]);
        Judge("the bitmap index", first[i], Meets(col, conds[i]), col.size(), exact, about, below);
        auto again = Ask<Answer>(r.get(), k, conds[i]);
        Judge("the bitmap index asked again", again.ok() ? again.value() : nullptr, Meets(col, conds[i]), col.size(),
              exact, about, below);
    }
    Note(k, col, form * 2 + place);
}

// Columns of thousands of rows, whose bitmaps take several kilobytes each.
Column LongColumn(const Kind& k, int rows, int shape) {
    Column c;
    int n = static_cast<int>(k.values.size()) + 1;
    for (int i = 0; i < rows; i++) {
        int v = shape == 0 ? i % n : shape == 1 ? i * n / rows : shape == 2 ? (i * 7919 % 1009) % n : i == rows - 1 ? 0 : 1;
        c.push_back(v ? Cell(k.values[v - 1]) : Cell());
    }
    return c;
}

MC_SCENARIO(bitmap_long, mc::BOTH, 3,
            "columns of 3000, 9000 and 70000 rows in 3 types and 4 arrangements of null and the values, both versions of "
            "the format, and a bit slice index of them; 20 conditions") {
    std::vector<const Kind*> ks;
    for (auto& k : Kinds()) {
        if (k.type == FieldType::INT || k.type == FieldType::BIGINT || k.type == FieldType::STRING) ks.push_back(&k);
    }
    auto& k = *ks[mc::Choose(static_cast<int>(ks.size()))];
    int rows = mc::Pick({3000, 9000, 70000}), shape = mc::Choose(4), form = mc::Choose(3);
    if (form == 2 && k.type == FieldType::STRING) mc::Prune();
    Column col = LongColumn(k, rows, shape);
    Strs opts{{"version", form == 0 ? "1" : "2"}};
    Placed p(form == 2 ? BsiBytes(k, col) : BitmapBytes(k, col, opts, rows / 3), 5, 4);
    auto s = SchemaOf("c", k);
    BitmapFileIndex idx({});
    BitSliceIndexBitmapFileIndex bsi({});
    auto r = form == 2 ? Must(bsi.CreateReader(&s, p.start, p.length, p.in, Pool()), "reader")
                       : Must(idx.CreateReader(&s, p.start, p.length, p.in, Pool()), "reader");
    auto conds = Conds(k);
    size_t step = std::max<size_t>(1, conds.size() / 20);
    for (size_t i = 0; i < conds.size(); i += step) {
        std::string about = conds[i].Text() + " of " + std::to_string(rows) + " rows of " + k.name;
        auto a = Ask<Answer>(r.get(), k, conds[i]);
        MC_CHECK(a.ok(), "status", "%s: %s", about.c_str(), a.status().ToString().c_str());
        Judge("an index of many rows", a.value(), Meets(col, conds[i]), col.size(), false, about,
              [&](int row) { return BelowKept(k, conds[i], col[row]); });
        mc::Steps();
    }
    mc::Nontrivial();
    mc::State(mc::Hash().S(k.name).U(rows).U(shape).U(form).h);
}

// Fails one read.
class Faulty : public InputStream {
 public:
    Faulty(std::shared_ptr<InputStream> in, int fail_at, bool shorter)
        : in_(std::move(in)), fail_at_(fail_at), shorter_(shorter) {}
    Status Seek(int64_t o, SeekOrigin w) override {
        return in_->Seek(o, w);
    }
    Result<int64_t> GetPos() const override {
        return in_->GetPos();
    }
    Result<int32_t> Read(char* b, uint32_t n) override {
        if (reads++ == fail_at_) {
            if (!shorter_) return Status::IOError("read");
            return in_->Read(b, n / 2);
        }
        return in_->Read(b, n);
    }
    Result<int32_t> Read(char* b, uint32_t n, uint64_t o) override {
        if (reads++ == fail_at_) return Status::IOError("read");
        return in_->Read(b, n, o);
    }
    void ReadAsync(char* b, uint32_t n, uint64_t o, std::function<void(Status)>&& f) override {
        in_->ReadAsync(b, n, o, std::move(f));
    }
    Result<uint64_t> Length() const override {
        return in_->Length();
    }
    Status Close() override {
        return in_->Close();
    }
    Result<std::string> GetUri() const override {
        return in_->GetUri();
    }
    int reads = 0;

 private:
    std::shared_ptr<InputStream> in_;
    int fail_at_;
    bool shorter_;
};

MC_SCENARIO(read_fault, mc::BOTH, 2,
            "bitmap indexes of both versions over 4 rows with null and 3 values, small and large blocks; the first to "
            "eighth read fails or is cut short; 6 conditions asked twice in either order: an error or all rows, and "
            "all rows once reads succeed") {
    auto& k = Kinds()[mc::Pick({3, 6})];
    Column col;
    for (int i = 0; i < 4; i++) {
        int v = mc::Choose(4);
        col.push_back(v ? Cell(k.values[v - 1]) : Cell());
    }
    Strs opts;
    int form = mc::Choose(3);
    opts["version"] = form == 0 ? "1" : "2";
    if (form == 1) opts["index-block-size"] = "36";
    Placed p(BitmapBytes(k, col, opts, 4), 0, 0);
    int at = mc::Choose(8);
    bool shorter = mc::ChooseBool(), back = mc::ChooseBool();
    auto in = std::make_shared<Faulty>(p.in, at, shorter);
    BitmapFileIndex idx({});
    auto s = SchemaOf("c", k);
    auto made = idx.CreateReader(&s, p.start, p.length, in, Pool());
    mc::State(mc::Hash().S(k.name).S(Show(col)).U(form).U(at).U(shorter).U(back).h);
    if (!made.ok()) {
        mc::Outcome("no reader");
        return;
    }
    std::vector<Cond> conds = {{IS_NULL, {}},           {EQ, {k.values[0]}},
                               {NE, {k.values[1]}},     {IN, {k.values[2], k.values[0]}},
                               {NOT_IN, {k.values[2]}}, {NOT_NULL, {}}};
    if (back) std::reverse(conds.begin(), conds.end());
    bool failed = false;
    for (int round = 0; round < 2; round++) {
        for (auto& c : conds) {
            std::string about = c.Text() + " of " + k.name + " " + Show(col) + " after read " + std::to_string(at) +
                                (shorter ? " was cut short" : " failed");
            bool before = in->reads > at;
            auto a = Ask<Answer>(made.value().get(), k, c);
            bool ok = a.ok();
            if (ok) {
                if (auto m = std::dynamic_pointer_cast<BitmapIndexResult>(a.value())) ok = m->GetBitmap().ok();
            }
            if (!ok) {
                failed = true;
                MC_CHECK(!before && in->reads > at, "still-failing", "an error without a failing read: %s",
                         about.c_str());
                continue;
            }
            Judge("the bitmap index", a.value(), Meets(col, c), col.size(), true, about);
        }
    }
    if (failed) {
        mc::Outcome("error");
        mc::Nontrivial();
    }
}

MC_SCENARIO(bit_slices, mc::BOTH, 4,
            "columns of 0-4 (thorough 5) rows over null and 3 values, negative ones among them, in 9 types; all "
            "conditions over the values, their neighbours and the ends of the range") {
    std::vector<const Kind*> ks;
    for (auto& k : Kinds()) {
        if (k.type != FieldType::BOOLEAN && k.type != FieldType::STRING) ks.push_back(&k);
    }
    auto& k = *ks[mc::Choose(static_cast<int>(ks.size()))];
    int rows = mc::Choose(RowsMax() + 1);
    Column col = SomeColumn(k, rows);
    int place = mc::Choose(2);
    Placed p(BsiBytes(k, col), place ? 5 : 0, place ? 3 : 0);
    BitSliceIndexBitmapFileIndex idx({});
    auto s = SchemaOf("c", k);
    auto r = Must(idx.CreateReader(&s, p.start, p.length, p.in, Pool()), "reader");
    for (auto& c : Conds(k)) {
        std::string about = c.Text() + " of " + k.name + " " + Show(col);
        auto a = Ask<Answer>(r.get(), k, c);
        MC_CHECK(a.ok(), "status", "%s: %s", about.c_str(), a.status().ToString().c_str());
        Judge("the bit slice index", a.value(), Meets(col, c), col.size(), AllKept(k, c), about,
              [&](int row) { return BelowKept(k, c, col[row]); });
    }
    Note(k, col, place);
}

MC_SCENARIO(bloom_filter, mc::BOTH, 4,
            "columns of 0-4 (thorough 5) rows over null and 3 values in 10 types, filters of 1 to 9 bytes and 1 to 30 "
            "hash functions; all conditions over the values and their neighbours; a filter that keeps nothing out of "
            "1 byte but does out of 64") {
    std::vector<const Kind*> ks;
    for (auto& k : Kinds()) {
        if (k.type != FieldType::BOOLEAN) ks.push_back(&k);
    }
    auto& k = *ks[mc::Choose(static_cast<int>(ks.size()))];
    int rows = mc::Choose(RowsMax() + 1);
    Column col = SomeColumn(k, rows);
    static const int shapes[][2] = {{1, 1}, {2, 9}, {30, 3}, {3, 64}};
    int f = mc::Choose(4);
    Placed p(BloomBytes(k, col, shapes[f][0], shapes[f][1]), f ? 5 : 0, f ? 3 : 0);
    BloomFilterFileIndex idx({});
    auto s = SchemaOf("c", k);
    auto r = Must(idx.CreateReader(&s, p.start, p.length, p.in, Pool()), "reader");
    bool skipped = false;
    for (auto& c : Conds(k)) {
        std::string about = c.Text() + " of " + k.name + " " + Show(col);
        auto a = Ask<Answer>(r.get(), k, c);
        MC_CHECK(a.ok(), "status", "%s: %s", about.c_str(), a.status().ToString().c_str());
        Judge("the bloom filter", a.value(), Meets(col, c), col.size(), false, about);
        if (!Must(a.value()->IsRemain(), "remain")) skipped = true;
    }
    for (Op o : {IN, NOT_IN}) {  // refused, or answered soundly
        Cond none{o, {}};
        auto a = Ask<Answer>(r.get(), k, none);
        if (a.ok()) Judge("the bloom filter", a.value(), Meets(col, none), col.size(), false, none.Text());
    }
    for (Op o : {EQ, NE, LT, LE, GT, GE}) {  // compared with null: no row to lose, but an answer
        Literal null(k.type);
        auto a = o == EQ   ? r->VisitEqual(null)
                 : o == NE ? r->VisitNotEqual(null)
                 : o == LT ? r->VisitLessThan(null)
                 : o == LE ? r->VisitLessOrEqual(null)
                 : o == GT ? r->VisitGreaterThan(null)
                           : r->VisitGreaterOrEqual(null);
        if (a.ok()) Judge("the bloom filter", a.value(), {}, col.size(), false, "a comparison with null");
    }
    MC_CHECK(!(f == 3 && rows == 0) || skipped, "useless", "an empty filter lets every value of %s pass", k.name);
    Note(k, col, f);
}

// ---- an index that can only tell equal from different ----------------------------------------------------------------
// Answers for the value i of a file of 3 rows with the i-th of its answers, as an index supplied by a plugin may.
class Plugin : public FileIndexReader {
 public:
    std::vector<Answer> equal, different;
    Answer VisitEqual(const Literal& l) override {
        return equal[l.GetValue<int32_t>()];
    }
    Answer VisitNotEqual(const Literal& l) override {
        return different[l.GetValue<int32_t>()];
    }
};
class Silent : public FileIndexReader {};

MC_SCENARIO(reader_lists, mc::BOTH, 3,
            "lists of up to 3 (thorough 4) of 3 values, repeated or not, asked of an index that only knows about single "
            "values, which answers all rows, none, one of 5 sets of rows, or fails; and all conditions asked of an index "
            "that knows nothing") {
    if (mc::Choose(8) == 7) {
        Silent r;
        static const Kind k{"int", FieldType::INT, arrow::int32(), 1, {N(-1), N(1)}, {N(-1), N(1)}, true};
        Column col = SomeColumn(k, 2);
        for (auto& c : Conds(k)) {
            auto a = Ask<Answer>(&r, k, c);
            MC_CHECK(a.ok(), "status", "%s: %s", c.Text().c_str(), a.status().ToString().c_str());
            Judge("an index that knows nothing", a.value(), Meets(col, c), col.size(), false, c.Text());
        }
        Literal text(FieldType::STRING, "a", 1);
        for (int i = 0; i < 3; i++) {
            auto a = i == 0 ? r.VisitStartsWith(text) : i == 1 ? r.VisitEndsWith(text) : r.VisitContains(text);
            MC_CHECK(a.ok() && Must(a.value()->IsRemain(), "remain"), "status", "a condition on a text");
        }
        mc::Nontrivial();
        return;
    }
    auto r = std::make_shared<Plugin>();
    std::vector<std::set<int>> want(3);
    std::vector<bool> bad(3);
    bool in = mc::ChooseBool();
    for (int v = 0; v < 3; v++) {
        int what = mc::Choose(8);
        Answer a = FileIndexResult::Skip();
        if (what == 0) {
            a = FileIndexResult::Remain();
            want[v] = {0, 1, 2};
        } else if (what == 2) {
            a = Status::IOError("unreadable");
            bad[v] = true;
        } else if (what > 2) {
            static const std::set<int> sets[5] = {{}, {0}, {1, 2}, {0, 2}, {0, 1, 2}};
            auto rows = want[v] = sets[what - 3];
            std::shared_ptr<FileIndexResult> b =
                std::make_shared<BitmapIndexResult>([rows]() -> Result<RoaringBitmap32> {
                    RoaringBitmap32 m;
                    for (int x : rows) m.Add(x);
                    return m;
                });
            a = b;
        }
        (in ? r->equal : r->different).push_back(a);
        (in ? r->different : r->equal).push_back(Status::Invalid("asked for the other answer"));
    }
    std::vector<Literal> list;
    std::set<int> all = in ? std::set<int>{} : std::set<int>{0, 1, 2};
    bool failing = false;
    std::string about = in ? "in" : "not in";
    for (int n = mc::Choose(mc::Thorough() ? 5 : 4); n > 0; n--) {
        int v = mc::Choose(3);
        list.push_back(Literal(v));
        failing = failing || bad[v];
        for (int row = 0; row < 3; row++) {
            if (in && want[v].count(row)) all.insert(row);
            if (!in && !want[v].count(row)) all.erase(row);
        }
        about += " " + std::to_string(v);
    }
    auto a = in ? r->VisitIn(list) : r->VisitNotIn(list);
    mc::State(mc::Hash().U(in).U(failing).S(Show(all)).h);
    mc::Nontrivial();
    if (!a.ok()) {
        MC_CHECK(failing || list.empty(), "status", "%s: %s", about.c_str(), a.status().ToString().c_str());
        return;
    }
    if (failing) return;  // judged where every answer is known
    Judge("the list", a.value(), all, 3, true, about);
    bool remain = Must(a.value()->IsRemain(), "remain");
    MC_CHECK(remain == !all.empty(), "remain", "%s: remain %d", about.c_str(), remain);
}

MC_SCENARIO(reader_lists_long, mc::BOTH, 3,
            "lists of 4 to 40 values, each of which stands for other rows or for none, in 3 orders, with one value whose "
            "answer is all rows or none at any of 4 places") {
    bool in = mc::ChooseBool();
    int n = mc::Pick({4, 5, 6, 7, 8, 9, 16, 17, 32, 40}), order = mc::Choose(3), odd = mc::Choose(5);
    auto r = std::make_shared<Plugin>();
    std::set<int> all;
    if (!in) for (int i = 0; i < n; i++) all.insert(i);
    std::vector<Literal> list;
    for (int v = 0; v < n; v++) {
        // "equal" keeps row v, "different" drops it; every third value is unknown to the column
        std::set<int> rows;
        for (int i = 0; i < n; i++) {
            if ((in && i == v && v % 3 != 1) || (!in && (i != v || v % 3 == 1))) rows.insert(i);
        }
        Answer a = FileIndexResult::Skip();
        int place = odd == 0 ? -1 : odd == 1 ? 0 : odd == 2 ? n - 1 : odd == 3 ? n / 2 : n - 2;
        if (v == place) {
            a = in ? FileIndexResult::Skip() : FileIndexResult::Remain();
            rows.clear();
            if (!in) for (int i = 0; i < n; i++) rows.insert(i);
        } else {
            std::shared_ptr<FileIndexResult> b =
                std::make_shared<BitmapIndexResult>([rows]() -> Result<RoaringBitmap32> {
                    RoaringBitmap32 m;
                    for (int x : rows) m.Add(x);
                    return m;
                });
            a = b;
        }
        for (int i = 0; i < n; i++) {
            if (in && rows.count(i)) all.insert(i);
            if (!in && !rows.count(i)) all.erase(i);
        }
        (in ? r->equal : r->different).push_back(a);
        (in ? r->different : r->equal).push_back(Status::Invalid("asked for the other answer"));
    }
    for (int i = 0; i < n; i++) list.push_back(Literal(order == 0 ? i : order == 1 ? n - 1 - i : (i + n / 2) % n));
    auto a = in ? r->VisitIn(list) : r->VisitNotIn(list);
    std::string about = std::to_string(n) + " values";
    MC_CHECK(a.ok(), "status", "%s: %s", about.c_str(), a.status().ToString().c_str());
    Judge("the long list", a.value(), all, n, true, about);
    mc::State(mc::Hash().U(in).U(n).U(order).U(odd).h);
    mc::Nontrivial();
}

// ---- containers and conditions over several columns ------------------------------------------------------------------
enum Which { NONE, EMPTY, BITMAP, BSI, BLOOM, UNKNOWN, BITMAP_BLOOM, BSI_UNKNOWN, kWhich };

std::vector<std::pair<std::string, std::optional<std::string>>> IndexesOf(Which w, const Kind& k, const Column& col,
                                                                          const std::string& name) {
    auto bm = [&] { return BitmapBytes(k, col, {{"index-block-size", "16"}}, col.size(), name); };
    switch (w) {
        case NONE:
            return {};
        case EMPTY:
            return {{"bitmap", std::nullopt}};
        case BITMAP:
            return {{"bitmap", bm()}};
        case BSI:
            return {{"bsi", BsiBytes(k, col)}};
        case BLOOM:
            return {{"bloom-filter", BloomBytes(k, col, 2, 8)}};
        case UNKNOWN:
            return {{"yet-another", std::string("zz")}};
        case BITMAP_BLOOM:
            return {{"bloom-filter", BloomBytes(k, col, 2, 8)}, {"bitmap", bm()}};
        default:
            return {{"yet-another", std::string("zz")}, {"bsi", BsiBytes(k, col)}};
    }
}
using ColumnIndexes = std::vector<std::pair<std::string, std::vector<std::pair<std::string, std::optional<std::string>>>>>;
std::string Container(const ColumnIndexes& cols, int redundant) {
    int head = 8 + 4 + 4 + 4 + 4 + redundant;
    for (auto& [n, l] : cols) {
        head += 2 + static_cast<int>(n.size()) + 4;
        for (auto& [t, b] : l) head += 2 + static_cast<int>(t.size()) + 8;
    }
    Out o;
    std::string body;
    o.I(1493475289347502ULL, 8);
    o.I(1, 4);
    o.I(head, 4);
    o.I(cols.size(), 4);
    for (auto& [n, l] : cols) {
        o.U(n);
        o.I(l.size(), 4);
        for (auto& [t, b] : l) {
            o.U(t);
            if (!b) {
                o.I(static_cast<uint32_t>(-1), 4);
                o.I(0, 4);
            } else {
                o.I(head + body.size(), 4);
                o.I(b->size(), 4);
                body += *b;
            }
        }
    }
    o.I(redundant, 4);
    o.b += std::string(redundant, 'r');
    return o.b + body;
}

// Naming the factories makes them part of the program; they register themselves.
void Register() {
    BitmapFileIndexFactory a;
    BitSliceIndexBitmapFileIndexFactory b;
    BloomFilterFileIndexFactory c;
    std::string n = std::string(a.Identifier()) + b.Identifier() + c.Identifier();
    MC_CHECK(n == "bitmapbsibloom-filter", "names", "%s", n.c_str());
}

// A file system that holds one file.
class OneFile : public FileSystem {
 public:
    OneFile(std::string path, const std::string* data) : path_(std::move(path)), data_(data) {}
    Result<std::unique_ptr<InputStream>> Open(const std::string& p) const override {
        if (p != path_) return Status::NotExist(p);
        return std::unique_ptr<InputStream>(new ByteArrayInputStream(data_->data(), data_->size()));
    }
    Result<std::unique_ptr<OutputStream>> Create(const std::string&, bool) const override {
        return Status::NotImplemented("");
    }
    Status Mkdirs(const std::string&) const override {
        return Status::NotImplemented("");
    }
    Status Rename(const std::string&, const std::string&) const override {
        return Status::NotImplemented("");
    }
    Status Delete(const std::string&, bool) const override {
        return Status::NotImplemented("");
    }
    Result<std::unique_ptr<FileStatus>> GetFileStatus(const std::string&) const override {
        return Status::NotImplemented("");
    }
    Status ListDir(const std::string&, std::vector<std::unique_ptr<BasicFileStatus>>*) const override {
        return Status::NotImplemented("");
    }
    Status ListFileStatus(const std::string&, std::vector<std::unique_ptr<FileStatus>>*) const override {
        return Status::NotImplemented("");
    }
    Result<bool> Exists(const std::string& p) const override {
        return p == path_;
    }

 private:
    std::string path_;
    const std::string* data_;
};

std::shared_ptr<DataFileMeta> FileMeta(const std::vector<std::optional<std::string>>& extra,
                                       const std::shared_ptr<Bytes>& embedded,
                                       const std::optional<std::string>& external) {
    return std::make_shared<DataFileMeta>("data-0.orc", 100, 3, BinaryRow::EmptyRow(), BinaryRow::EmptyRow(),
                                          SimpleStats::EmptyStats(), SimpleStats::EmptyStats(), 0, 0, 0, 0, extra,
                                          Timestamp(0, 0), 0, embedded, FileSource::Append(), std::nullopt, external,
                                          std::nullopt, std::nullopt);
}

struct Pred {
    std::string text;
    std::shared_ptr<Predicate> p;
    std::function<bool(const std::vector<Cell>&)> holds;
};
std::vector<Pred> SomeLeaves(const std::vector<std::string>& names) {
    std::vector<Pred> out;
    for (size_t c = 0; c < names.size(); c++) {
        int i = static_cast<int>(c);
        auto T = FieldType::INT;
        auto add = [&](std::shared_ptr<Predicate> p, Cond cond) {
            out.push_back({names[c] + " " + cond.Text(), std::move(p),
                           [c, cond](const std::vector<Cell>& r) { return cond.Holds(r[c]); }});
        };
        add(PredicateBuilder::Equal(i, names[c], T, Literal(1)), {EQ, {N(1)}});
        add(PredicateBuilder::NotEqual(i, names[c], T, Literal(1)), {NE, {N(1)}});
        add(PredicateBuilder::LessThan(i, names[c], T, Literal(1)), {LT, {N(1)}});
        add(PredicateBuilder::LessOrEqual(i, names[c], T, Literal(1)), {LE, {N(1)}});
        add(PredicateBuilder::GreaterThan(i, names[c], T, Literal(1)), {GT, {N(1)}});
        add(PredicateBuilder::GreaterOrEqual(i, names[c], T, Literal(1)), {GE, {N(1)}});
        add(PredicateBuilder::In(i, names[c], T, {Literal(-1), Literal(2)}), {IN, {N(-1), N(2)}});
        add(PredicateBuilder::NotIn(i, names[c], T, {Literal(-1), Literal(2)}), {NOT_IN, {N(-1), N(2)}});
        add(PredicateBuilder::IsNull(i, names[c], T), {IS_NULL, {}});
        add(PredicateBuilder::IsNotNull(i, names[c], T), {NOT_NULL, {}});
    }
    return out;
}
Pred Both(const Pred& x, const Pred& y, bool conj) {
    auto p = conj ? PredicateBuilder::And({x.p, y.p}) : PredicateBuilder::Or({x.p, y.p});
    if (!p.ok()) mc::Fail("setup", "predicate");
    return {"(" + x.text + (conj ? " and " : " or ") + y.text + ")", p.value(),
            [x, y, conj](const std::vector<Cell>& r) {
                return conj ? x.holds(r) && y.holds(r) : x.holds(r) || y.holds(r);
            }};
}

MC_SCENARIO(evaluate, mc::BOTH, 4,
            "2 columns of 2 (thorough 3) rows over null and 2 values, each column with one of 8 sets of indexes; the "
            "container within the metadata of the file, in an index file beside it, at an external place, or absent; "
            "20 simple conditions and 40 (thorough 140) combinations of two or three") {
    Register();
    static const Kind k{"int", FieldType::INT, arrow::int32(), 1, {N(-1), N(1)}, {}, true};
    static const std::vector<std::string> names = {"alpha", "b"};
    int rows = mc::Thorough() ? 3 : 2;
    int place = mc::Choose(4);
    Column cols[2];
    Which which[2];
    ColumnIndexes idx;
    for (int c = 0; c < 2; c++) {
        which[c] = static_cast<Which>(mc::Choose(kWhich));
        if (which[c] == EMPTY) {
            cols[c] = Column(rows);  // nothing indexed
        } else {
            cols[c] = SomeColumn(k, rows);
        }
        if (which[c] != NONE) idx.push_back({names[c], IndexesOf(which[c], k, cols[c], names[c])});
    }
    if (place == 3 && (which[0] != BITMAP || which[1] != NONE)) mc::Prune();
    std::string file = Container(idx, place == 1 ? 3 : 0);
    std::shared_ptr<Bytes> embedded;
    std::vector<std::optional<std::string>> extra = {std::nullopt, "data-0.orc.blob"};
    std::optional<std::string> external;
    std::string path = "/t/bucket-0/data-0.orc.index";
    if (place == 0) {
        embedded = std::make_shared<Bytes>(file.size(), Pool().get());
        memcpy(embedded->data(), file.data(), file.size());
    } else if (place != 3) {
        extra.push_back("data-0.orc.index");
        if (place == 2) {
            external = "/x/y/data-0.orc";
            path = "/x/y/data-0.orc.index";
        }
    }
    auto meta = FileMeta(extra, embedded, external);
    auto fs = std::make_shared<OneFile>(path, &file);
    auto factory = std::make_shared<DataFilePathFactory>();
    if (!factory->Init("/t/bucket-0", "orc", "data-", nullptr).ok()) mc::Fail("setup", "paths");
    auto schema = arrow::schema({arrow::field("alpha", k.arrow), arrow::field("b", k.arrow)});
    static const std::vector<Pred> preds = [] {
        auto l = SomeLeaves(names);
        std::vector<Pred> out = l;
        for (size_t a = 0; a < l.size(); a++) {
            for (size_t b = 0; b < l.size(); b += mc::Thorough() ? 3 : 9) {
                if ((a + b) % 2) continue;
                out.push_back(Both(l[a], l[(b + 1) % l.size()], true));
                out.push_back(Both(l[a], l[b], false));
                out.push_back(Both(Both(l[a], l[b], false), l[(a * 7 + b) % l.size()], true));
                out.push_back(Both(Both(l[a], l[b], true), l[(a * 3 + b + 1) % l.size()], false));
            }
        }
        return out;
    }();
    auto about = [&](const Pred& p) {
        return p.text + " with indexes " + std::to_string(which[0]) + "," + std::to_string(which[1]) + " of " +
               Show(cols[0]) + " " + Show(cols[1]);
    };
    for (auto& p : preds) {
        std::set<int> want;
        for (int i = 0; i < rows; i++) {
            if (p.holds({cols[0][i], cols[1][i]})) want.insert(i);
        }
        auto a = FileIndexEvaluator::Evaluate(schema, p.p, factory, meta, fs, Pool());
        MC_CHECK(a.ok(), "status", "%s: %s", about(p).c_str(), a.status().ToString().c_str());
        Judge("evaluation", a.value(), want, rows, false, about(p));
        // what is only within the metadata can be used before the file is opened
        auto e = FileIndexEvaluator::Evaluate(schema, p.p, meta, Pool());
        MC_CHECK(e.ok(), "status", "%s: %s", about(p).c_str(), e.status().ToString().c_str());
        Judge("evaluation of metadata", e.value(), want, rows, false, about(p));
        if (place != 0) {
            MC_CHECK(Must(e.value()->IsRemain(), "remain"), "invented", "an answer without an index: %s",
                     about(p).c_str());
        }
        // both columns in full: the indexes decide
        auto full = [](Which w) { return w == BITMAP || w == BITMAP_BLOOM; };
        if (full(which[0]) && full(which[1]) && place != 3 && want.empty() && p.text.find('<') == std::string::npos &&
            p.text.find('>') == std::string::npos) {
            MC_CHECK(!Must(a.value()->IsRemain(), "remain"), "useless", "nothing meets %s but the file remains",
                     about(p).c_str());
        }
    }
    auto none = FileIndexEvaluator::Evaluate(schema, nullptr, factory, meta, fs, Pool());
    MC_CHECK(none.ok() && Must(none.value()->IsRemain(), "remain"), "no-condition", "without a condition");
    mc::Nontrivial();
    mc::State(mc::Hash().S(Show(cols[0])).S(Show(cols[1])).U(which[0] * 8 + which[1]).U(place).h);
}

MC_SCENARIO(torn_container, mc::BOTH, 2,
            "containers of 2 columns with 3 indexes, cut at every byte of the head and below: an error, not an answer "
            "that loses rows") {
    Register();
    static const Kind k{"int", FieldType::INT, arrow::int32(), 1, {N(-1), N(1)}, {}, true};
    Column a = {N(1), Cell(), N(1)}, b = {N(-1), N(1), N(-1)};
    int w = mc::Choose(2);
    std::string file = Container({{"a", IndexesOf(w ? BITMAP_BLOOM : BITMAP, k, a, "a")},
                                  {"b", IndexesOf(w ? BSI : BLOOM, k, b, "b")}},
                                 0);
    int cut = mc::Choose(static_cast<int>(file.size()) + 1);
    std::string torn(file.data(), cut);
    torn.shrink_to_fit();
    auto in = std::make_shared<ByteArrayInputStream>(torn.data(), torn.size());
    auto rd = FileIndexFormat::CreateReader(in, Pool());
    mc::State(mc::Hash().U(cut).U(w).h);
    if (!rd.ok()) {
        mc::Outcome("refused");
        return;
    }
    mc::Nontrivial();
    for (auto& [name, col] : {std::make_pair(std::string("a"), a), std::make_pair(std::string("b"), b)}) {
        auto s = SchemaOf(name, k);
        auto list = rd.value()->ReadColumnIndex(name, &s);
        if (!list.ok()) {
            mc::Outcome("no index");
            continue;
        }
        for (auto& r : list.value()) {
            for (auto& c : std::vector<Cond>{{EQ, {N(1)}}, {NE, {N(1)}}, {IS_NULL, {}}, {GT, {N(-1)}}}) {
                auto x = Ask<Answer>(r.get(), k, c);
                if (!x.ok()) continue;
                if (auto m = std::dynamic_pointer_cast<BitmapIndexResult>(x.value())) {
                    auto got = m->GetBitmap();
                    if (!got.ok()) {
                        mc::Outcome("refused late");
                        continue;
                    }
                }
                Judge("a torn container", x.value(), Meets(col, c), col.size(), false, c.Text());
            }
        }
    }
}

// ---- the bitmap index over all files of a table --------------------------------------------------------------------
struct Files : GlobalIndexFileWriter, GlobalIndexFileReader {
    std::map<std::string, std::string> files;
    int fail_at = -1, calls = 0;
    bool Fails() {
        return calls++ == fail_at;
    }
    class O : public OutputStream {
     public:
        O(Files* f, std::string n) : f_(f), n_(std::move(n)) {}
        Result<int64_t> GetPos() const override {
            return static_cast<int64_t>(f_->files[n_].size());
        }
        Result<int32_t> Write(const char* b, uint32_t n) override {
            if (f_->Fails()) return Status::IOError("write");
            f_->files[n_].append(b, n);
            return static_cast<int32_t>(n);
        }
        Status Flush() override {
            if (f_->Fails()) return Status::IOError("flush");
            return Status::OK();
        }
        Status Close() override {
            if (f_->Fails()) return Status::IOError("close");
            return Status::OK();
        }
        Result<std::string> GetUri() const override {
            return n_;
        }

     private:
        Files* f_;
        std::string n_;
    };
    Result<std::string> NewFileName(const std::string& prefix) const override {
        return prefix + "-" + std::to_string(files.size());
    }
    Result<std::unique_ptr<OutputStream>> NewOutputStream(const std::string& n) const override {
        auto* me = const_cast<Files*>(this);
        if (me->Fails()) return Status::IOError("create");
        me->files[n];
        return std::unique_ptr<OutputStream>(new O(me, n));
    }
    Result<int64_t> GetFileSize(const std::string& n) const override {
        return static_cast<int64_t>(files.at(n).size());
    }
    Result<std::unique_ptr<InputStream>> GetInputStream(const std::string& n) const override {
        auto i = files.find(n);
        if (i == files.end()) return Status::NotExist(n);
        return std::unique_ptr<InputStream>(new ByteArrayInputStream(i->second.data(), i->second.size()));
    }
};

MC_SCENARIO(global_bitmap, mc::BOTH, 4,
            "columns of 0-3 (thorough 4) rows in 11 types in one batch or two; a failure at any call that writes the "
            "file; all conditions over the values and their neighbours") {
    auto& k = Kinds()[mc::Choose(static_cast<int>(Kinds().size()))];
    int rows = mc::Choose(RowsMax());
    Column col = SomeColumn(k, rows);
    auto files = std::make_shared<Files>();
    files->fail_at = mc::Choose(5) - 1;
    BitmapGlobalIndex idx(std::make_shared<BitmapFileIndex>(Strs{}));
    auto s = SchemaOf("c", k);
    auto w = Must(idx.CreateWriter("c", &s, files, Pool()), "writer");
    for (int half = 0; half < 2; half++) {
        int from = half ? rows / 2 : 0, to = half ? rows : rows / 2;
        if (from == to) continue;
        auto a = Build(k, Column(col.begin() + from, col.begin() + to));
        auto st = arrow::StructArray::Make({a}, std::vector<std::string>{"c"}).ValueOrDie();
        ::ArrowArray c;
        if (!arrow::ExportArray(*st, &c).ok()) mc::Fail("setup", "array");
        auto r = w->AddBatch(&c);
        MC_CHECK(r.ok(), "status", "add: %s", r.ToString().c_str());
    }
    auto metas = w->Finish();
    bool failed = files->fail_at >= 0 && files->calls > files->fail_at;
    MC_CHECK(metas.ok() == !failed, "failure", "finish is %d with a failure %d", metas.ok(), failed);
    mc::State(mc::Hash().S(k.name).S(Show(col)).U(files->fail_at).h);
    if (failed) {
        mc::Outcome("failed");
        return;
    }
    if (rows == 0) {
        MC_CHECK(metas.value().empty(), "empty", "a file for no rows");
        return;
    }
    MC_CHECK(metas.value().size() == 1, "files", "%zu files", metas.value().size());
    auto& m = metas.value()[0];
    MC_CHECK(m.range_end == rows - 1 && m.file_size == static_cast<int64_t>(files->files[m.file_name].size()), "meta",
             "range end %lld, size %lld", static_cast<long long>(m.range_end), static_cast<long long>(m.file_size));
    auto s2 = SchemaOf("c", k);
    auto r = Must(idx.CreateReader(&s2, files, metas.value(), Pool()), "reader");
    for (auto& c : Conds(k)) {
        std::string about = c.Text() + " of " + k.name + " " + Show(col);
        auto a = Ask<Result<std::shared_ptr<GlobalIndexResult>>>(r.get(), k, c);
        MC_CHECK(a.ok(), "status", "%s: %s", about.c_str(), a.status().ToString().c_str());
        auto b = std::dynamic_pointer_cast<BitmapGlobalIndexResult>(a.value());
        MC_CHECK(b != nullptr, "kind", "%s", about.c_str());
        auto bits = Must(b->GetBitmap(), "rows");
        std::set<int> got, want = Meets(col, c);
        for (auto i = bits->Begin(); i != bits->End(); ++i) got.insert(static_cast<int>(*i));
        for (int x : want) {
            if (!got.count(x)) LostRow("the index of the table", Show(got), about, x, BelowKept(k, c, col[x]));
        }
        for (int x : got) MC_CHECK(x >= 0 && x < rows, "row-range", "row %d of %d", x, rows);
        bool ordered = c.op == LT || c.op == LE || c.op == GT || c.op == GE;
        MC_CHECK(!AllKept(k, c) || ordered || got == want, "inexact", "%s to %s",
                 Show(got).c_str(), about.c_str());
        mc::Steps();
    }
    mc::Nontrivial();
}

}  // namespace
