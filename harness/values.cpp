// Value types every interface passes around: error statuses, results, column statistics, and the contexts that
// callers configure scans and commits with.
#include <algorithm>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "mc/mc.h"
#include "paimon/commit_context.h"
#include "paimon/common/utils/path_util.h"
#include "paimon/core/table/source/plan_impl.h"
#include "paimon/data/decimal.h"
#include "paimon/data/timestamp.h"
#include "paimon/executor.h"
#include "paimon/format/column_stats.h"
#include "paimon/global_index/bitmap_global_index_result.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/predicate/predicate.h"
#include "paimon/predicate/vector_search.h"
#include "paimon/result.h"
#include "paimon/scan_context.h"
#include "paimon/status.h"
#include "paimon/utils/roaring_bitmap64.h"

// Contexts make executors; one that runs tasks at once spares the threads.
struct Inline : paimon::Executor {
    void Add(std::function<void()> f) override {
        f();
    }
};
namespace paimon {
std::shared_ptr<Executor> GetGlobalDefaultExecutor() {
    static std::shared_ptr<Executor> e = std::make_shared<Inline>();
    return e;
}
std::unique_ptr<Executor> CreateDefaultExecutor() {
    return std::make_unique<Inline>();
}
std::unique_ptr<Executor> CreateDefaultExecutor(uint32_t) {
    return std::make_unique<Inline>();
}
}  // namespace paimon

namespace {
using paimon::Result;
using paimon::Status;
using paimon::StatusCode;

// ---- statuses -----------------------------------------------------------------------------------------------------
struct Note : paimon::StatusDetail {
    explicit Note(std::string t) : text(std::move(t)) {
        live++;
    }
    ~Note() override {
        live--;
    }
    const char* type_id() const override {
        return "note";
    }
    std::string ToString() const override {
        return text;
    }
    std::string text;
    static inline int live = 0;
};
struct S {  // what a status should be
    int code = 0;
    std::string msg, note;
    bool ok() const {
        return code == 0;
    }
    bool operator==(const S& o) const {
        return code == o.code && (code == 0 || (msg == o.msg && note == o.note));
    }
};
const int kCodes[] = {1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13};

Status Make(const S& s) {
    if (s.ok()) return Status::OK();
    if (!s.note.empty()) {
        return Status::FromDetailAndArgs(static_cast<StatusCode>(s.code), std::make_shared<Note>(s.note), s.msg);
    }
    switch (s.code) {
        case 1: return Status::OutOfMemory(s.msg);
        case 2: return Status::KeyError(s.msg);
        case 3: return Status::TypeError(s.msg);
        case 4: return Status::Invalid(s.msg);
        case 5: return Status::IOError(s.msg);
        case 6: return Status::CapacityError(s.msg);
        case 7: return Status::IndexError(s.msg);
        case 9: return Status::UnknownError(s.msg);
        case 10: return Status::NotImplemented(s.msg);
        case 11: return Status::SerializationError(s.msg);
        case 12: return Status::NotExist(s.msg);
        default: return Status::Exist(s.msg);
    }
}
void Same(const Status& s, const S& m, const char* what) {
    MC_CHECK(s.ok() == m.ok(), "ok", "%s: ok is %d", what, s.ok());
    MC_CHECK(static_cast<int>(s.code()) == m.code, "code", "%s: code %d instead of %d", what, static_cast<int>(s.code()),
             m.code);
    MC_CHECK(s.message() == (m.ok() ? "" : m.msg), "message", "%s: message '%s' instead of '%s'", what,
             s.message().c_str(), m.msg.c_str());
    MC_CHECK((s.detail() ? s.detail()->ToString() : "") == (m.ok() ? "" : m.note), "detail", "%s: detail", what);
    bool is[] = {s.IsOutOfMemory(), s.IsKeyError(),       s.IsTypeError(),          s.IsInvalid(),
                 s.IsIOError(),     s.IsCapacityError(),  s.IsIndexError(),         s.IsUnknownError(),
                 s.IsNotImplemented(), s.IsSerializationError(), s.IsNotExist(),    s.IsExist()};
    for (int i = 0; i < 12; i++) {
        MC_CHECK(is[i] == (m.code == kCodes[i]), "kind", "%s: of kind %d: %d, code is %d", what, kCodes[i], is[i], m.code);
    }
    std::string text = s.ToString();
    MC_CHECK(m.ok() ? text == "OK" : text.find(m.msg) != std::string::npos, "text", "%s: prints '%s'", what, text.c_str());
    MC_CHECK(m.ok() || text != "OK", "text", "%s: an error prints as OK", what);
    if (!m.ok() && !m.note.empty()) {
        MC_CHECK(text.find(m.note) != std::string::npos, "text", "%s: prints '%s' without its detail", what, text.c_str());
    }
    std::ostringstream os;
    os << s;
    MC_CHECK(os.str() == text, "text", "%s: streams '%s', prints '%s'", what, os.str().c_str(), text.c_str());
}
S PickStatus() {
    int c = mc::Choose(mc::Thorough() ? 14 : 7);
    if (c == 0) return {};
    if (c == 1) return {4, "a", ""};
    if (c == 2) return {5, "a", ""};
    if (c == 3) return {5, "b", ""};
    if (c == 4) return {5, "a", "n"};
    if (c == 5) return {12, "a", "n"};
    if (c == 6) return {5, "b", "m"};
    return {kCodes[c - 7 + 5], "", ""};
}

MC_SCENARIO(status_kinds, mc::BOTH, 1, "every error kind, with and without a message and a detail, copied, moved, rewritten") {
    S m{kCodes[mc::Choose(12)], mc::ChooseBool() ? "why" : "", mc::ChooseBool() ? "note" : ""};
    Status s = Make(m);
    Same(s, m, "made");
    Status c(s);
    Same(c, m, "copied");
    Status v(std::move(c));
    Same(v, m, "moved");
    Same(s, m, "source of a copy");
    Same(s.WithMessage("other ", 5), S{m.code, "other 5", m.note}, "with another message");
    Same(s.WithDetail(std::make_shared<Note>("zz")), S{m.code, m.msg, "zz"}, "with another detail");
    Same(Status::OK(), S{}, "OK");
    Same(Status::FromArgs(static_cast<StatusCode>(m.code), "x", 1, 'c'), S{m.code, "x1c", ""}, "from pieces");
    std::set<std::string> names;
    for (int code : kCodes) {
        if (code < 12) names.insert(Status::CodeAsString(static_cast<StatusCode>(code)));
    }
    MC_CHECK(names.size() == 10 && !names.count("OK"), "name", "%zu names for 10 kinds", names.size());
    mc::Nontrivial();
}

MC_SCENARIO(status_ops, mc::BOTH, 2,
            "3 statuses, all of 7 (thorough 14) values each, all sequences of 2 of: copy, move, combine, combine in "
            "place, over all pairs of them") {
    S m[3];
    int live = Note::live;
    std::vector<Status> s(3);
    for (int i = 0; i < 3; i++) {
        m[i] = PickStatus();
        s[i] = Make(m[i]);
    }
    for (int step = 0; step < 2; step++) {
        int a = mc::Choose(3), b = mc::Choose(3);
        switch (mc::Choose(7)) {
            case 0: s[a] = s[b]; m[a] = m[b]; break;
            case 1:
                if (a == b) mc::Prune();
                s[a] = std::move(s[b]);
                m[a] = m[b];
                m[b] = {};
                s[b] = Status::OK();
                break;
            case 2: {
                Status r = s[a] & s[b];
                Same(r, m[a].ok() ? m[b] : m[a], "a & b");
                break;
            }
            case 3: {
                Status copy = s[b];
                Status r = s[a] & std::move(copy);
                Same(r, m[a].ok() ? m[b] : m[a], "a & moved b");
                break;
            }
            case 4:
                s[a] &= s[b];
                if (m[a].ok()) m[a] = m[b];
                break;
            case 5: {
                Status copy = s[b];
                s[a] &= std::move(copy);
                if (m[a].ok()) m[a] = m[b];
                break;
            }
            default: {
                Status t(s[a]);
                s[a] = s[b];
                s[b] = t;
                std::swap(m[a], m[b]);
            }
        }
        for (int i = 0; i < 3; i++) Same(s[i], m[i], "after an operation");
    }
    for (int i = 0; i < 3; i++) {
        for (int j = 0; j < 3; j++) {
            MC_CHECK(s[i].Equals(s[j]) == (m[i] == m[j]), "equal", "'%s' and '%s' compare %s", s[i].ToString().c_str(),
                     s[j].ToString().c_str(), s[i].Equals(s[j]) ? "equal" : "different");
            MC_CHECK((s[i] == s[j]) == (m[i] == m[j]) && (s[i] != s[j]) == !(m[i] == m[j]), "equal", "== and !=");
        }
    }
    mc::Nontrivial();
    mc::State(mc::Hash().U(m[0].code).S(m[0].msg + m[1].msg).U(m[1].code).U(m[2].code).h);
    s.clear();
    MC_CHECK(Note::live == live, "status-leak", "%d details are still held by statuses that are gone", Note::live - live);
}

// ---- results ------------------------------------------------------------------------------------------------------
int live = 0;
struct Tracked {
    explicit Tracked(int v) : value(std::make_unique<int>(v)) {
        live++;
    }
    Tracked(const Tracked& o) : value(std::make_unique<int>(o.value ? *o.value : -1)) {
        live++;
    }
    Tracked(Tracked&& o) noexcept : value(std::move(o.value)) {
        live++;
    }
    Tracked& operator=(const Tracked& o) {
        value = std::make_unique<int>(o.value ? *o.value : -1);
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept {
        value = std::move(o.value);
        return *this;
    }
    ~Tracked() {
        live--;
    }
    std::unique_ptr<int> value;
};
struct R {
    bool ok = false;
    int value = 0;
    S st;
    bool moved = false;  // the value has been taken out
};
void Same(const Result<Tracked>& r, const R& m, const char* what) {
    MC_CHECK(r.ok() == m.ok, "ok", "%s: ok is %d", what, r.ok());
    Same(r.status(), m.ok ? S{} : m.st, what);
    if (m.ok && !m.moved) {
        MC_CHECK(r.value().value && *r.value().value == m.value, "value", "%s: value %d instead of %d", what,
                 r.value().value ? *r.value().value : -1, m.value);
    }
}
R PickResult(int i) {
    int c = mc::Choose(4);
    if (c < 2) return {true, 10 * i + c, {}};
    if (c == 2) return {false, 0, {5, "io", ""}};
    return {false, 0, {4, "bad", "n"}};
}
Result<Tracked> MakeResult(const R& m) {
    if (m.ok) return Tracked(m.value);
    return Make(m.st);
}
Result<int> Chain(const Result<Tracked>& a, const Status& b, int* reached) {
    *reached = 1;
    PAIMON_ASSIGN_OR_RAISE(Tracked t, a);
    *reached = 2;
    PAIMON_RETURN_NOT_OK(b);
    *reached = 3;
    PAIMON_RETURN_NOT_OK(a);
    *reached = 4;
    return *t.value;
}
Status Else(const Status& b, int* ran) {
    PAIMON_RETURN_NOT_OK_ELSE(b, *ran = 1);
    PAIMON_RETURN_IF(*ran == 7, Status::Invalid("seven"));
    return Status::OK();
}

MC_SCENARIO(results, mc::BOTH, 2,
            "3 results, values or errors, all sequences of 3 of: copy and move construction and assignment, taking the "
            "value, over all pairs; no value is lost, leaked or destroyed twice") {
    live = 0;
    {
        R m[3];
        std::vector<std::unique_ptr<Result<Tracked>>> r(3);
        for (int i = 0; i < 3; i++) {
            m[i] = PickResult(i);
            r[i] = std::make_unique<Result<Tracked>>(MakeResult(m[i]));
        }
        for (int step = 0; step < (mc::Thorough() ? 3 : 2); step++) {
            int a = mc::Choose(3), b = mc::Choose(3);
            switch (mc::Choose(6)) {
                case 0:
                    *r[a] = *r[b];
                    m[a] = m[b];
                    break;
                case 1:
                    *r[a] = std::move(*r[b]);
                    if (a != b) {
                        m[a] = m[b];
                        m[b].moved = true;
                    }
                    break;
                case 2:
                    r[a] = std::make_unique<Result<Tracked>>(*r[b]);
                    m[a] = m[b];
                    break;
                case 3:
                    if (a == b) mc::Prune();
                    r[a] = std::make_unique<Result<Tracked>>(std::move(*r[b]));
                    m[a] = m[b];
                    m[b].moved = true;
                    break;
                case 4: {
                    if (m[a].moved) mc::Prune();
                    Tracked t = r[a]->value_or(Tracked(99));
                    MC_CHECK(t.value && *t.value == (m[a].ok ? m[a].value : 99), "value-or", "value_or");
                    break;
                }
                default: {
                    if (m[a].moved) mc::Prune();
                    if (m[a].ok) {
                        Tracked t = std::move(*r[a]).value();
                        MC_CHECK(t.value && *t.value == m[a].value, "value", "taken value");
                        m[a].moved = true;
                    } else {
                        Tracked t = std::move(*r[a]).value_or(Tracked(98));
                        MC_CHECK(t.value && *t.value == 98, "value-or", "value_or of an error");
                    }
                }
            }
            int values = 0;
            for (int i = 0; i < 3; i++) {
                Same(*r[i], m[i], "after an operation");
                values += m[i].ok;
            }
            MC_CHECK(live == values, "lifetime", "%d values alive for %d results that hold one", live, values);
        }
        int a = mc::Choose(3);
        if (!m[a].moved) {
            S b = mc::ChooseBool() ? S{} : S{7, "second", ""};
            int reached = 0, ran = 0;
            auto c = Chain(*r[a], Make(b), &reached);
            MC_CHECK(c.ok() == (m[a].ok && b.ok()), "propagate", "chained calls: ok is %d", c.ok());
            if (c.ok()) {
                MC_CHECK(c.value() == m[a].value && reached == 4, "propagate", "chained calls: value %d", c.value());
            } else {
                Same(c.status(), m[a].ok ? b : m[a].st, "a passed-on error");
                MC_CHECK(reached == (m[a].ok ? 2 : 1), "propagate", "went on after an error");
            }
            Same(Else(Make(b), &ran), b, "an error passed on with an action");
            MC_CHECK(ran == !b.ok(), "propagate", "the action ran %d times", ran);
        }
        mc::State(mc::Hash().U(m[0].ok).U(m[1].ok).U(m[2].ok).U(m[0].value).h);
    }
    MC_CHECK(live == 0, "lifetime", "%d values alive after all results are gone", live);
    mc::Nontrivial();
}

struct Base {
    virtual ~Base() {
        live--;
    }
    int v = 1;
};
struct Derived : Base {
    explicit Derived(int x) {
        v = x;
        live++;
    }
};
MC_SCENARIO(result_pointers, mc::BOTH, 1, "results of pointers to a derived type taken as results of pointers to the base") {
    live = 0;
    {
        bool shared = mc::ChooseBool(), good = mc::ChooseBool();
        S st{5, "io", "n"};
        if (shared) {
            auto make = [&]() -> Result<std::shared_ptr<Derived>> {
                if (good) return std::make_shared<Derived>(7);
                return Make(st);
            };
            Result<std::shared_ptr<Base>> r = make();
            MC_CHECK(r.ok() == good, "ok", "converted result");
            if (good) MC_CHECK(r.value()->v == 7 && r.value().use_count() == 1, "value", "converted value");
            if (!good) Same(r.status(), st, "converted error");
        } else {
            auto make = [&]() -> Result<std::unique_ptr<Derived>> {
                if (good) return std::make_unique<Derived>(7);
                return Make(st);
            };
            Result<std::unique_ptr<Base>> r = make();
            MC_CHECK(r.ok() == good, "ok", "converted result");
            if (good) MC_CHECK(r.value()->v == 7, "value", "converted value");
            if (!good) Same(r.status(), st, "converted error");
            auto direct = [&]() -> Result<std::unique_ptr<Base>> {
                auto p = std::make_unique<Derived>(8);
                return p;
            };
            auto d = direct();
            MC_CHECK(d.ok() && d.value()->v == 8, "value", "converted pointer");
        }
    }
    MC_CHECK(live == 0, "lifetime", "%d objects left", live);
    mc::Nontrivial();
}

// ---- column statistics ------------------------------------------------------------------------------------------------
template <typename T, typename C, typename Col, typename Less>
void Stats(const std::vector<T>& universe, C create, Col collect, Less less, paimon::FieldType type) {
    int n = mc::Choose(mc::Thorough() ? 6 : 5);
    int init = mc::Choose(4);  // nothing known, counts known, bounds and counts known, only bounds known
    std::optional<T> min, max;
    std::optional<int64_t> nulls;
    if (init == 1 || init == 2) nulls = 2;
    if (init >= 2) min = universe[1], max = universe[universe.size() > 2 ? 2 : 1];
    auto s = create(min, max, nulls);
    MC_CHECK(s->GetFieldType() == type, "type", "type %d instead of %d", static_cast<int>(s->GetFieldType()),
             static_cast<int>(type));
    auto same = [&](const std::optional<T>& a, const std::optional<T>& b) {
        return a.has_value() == b.has_value() && (!a || (!less(*a, *b) && !less(*b, *a)));
    };
    auto check = [&](int i) {
        auto lo = collect(*s, nullptr, 0), hi = collect(*s, nullptr, 1);
        MC_CHECK(same(lo, min), "minimum", "type %d: wrong minimum after %d values", static_cast<int>(type), i);
        MC_CHECK(same(hi, max), "maximum", "type %d: wrong maximum after %d values", static_cast<int>(type), i);
        MC_CHECK(s->NullCount() == nulls, "nulls", "type %d: %ld nulls instead of %ld", static_cast<int>(type),
                 static_cast<long>(s->NullCount().value_or(-1)), static_cast<long>(nulls.value_or(-1)));
        std::string t = s->ToString();
        mc::State(mc::Hash().U(static_cast<int>(type)).U(i).S(t).h);
        MC_CHECK(!t.empty() && (!nulls || t.find(std::to_string(*nulls)) != std::string::npos), "text", "prints '%s'",
                 t.c_str());
    };
    check(0);
    for (int i = 0; i < n; i++) {
        int c = mc::Choose(static_cast<int>(universe.size()) + 1);
        std::optional<T> v;
        if (c) v = universe[c - 1];
        collect(*s, &v, 2);
        if (!nulls) nulls = 0;
        if (!v) {
            nulls = *nulls + 1;
        } else {
            if (!min || less(*v, *min)) min = v;
            if (!max || less(*max, *v)) max = v;
        }
        check(i + 1);
    }
    mc::Nontrivial();
}
#define STATS(KIND, T, TYPE, UNIVERSE, CREATE)                                                                   \
    Stats<T>(                                                                                                      \
        UNIVERSE, [](auto& a, auto& b, auto& c) { return paimon::ColumnStats::CREATE; },                             \
        [](paimon::ColumnStats& s, const std::optional<T>* v, int what) -> std::optional<T> {                        \
            auto* p = dynamic_cast<paimon::KIND*>(&s);                                                               \
            MC_CHECK(p, "type", "not a " #KIND);                                                                     \
            if (what == 2) p->Collect(*v);                                                                           \
            if (what == 0) return p->Min();                                                                          \
            return p->Max();                                                                                         \
        },                                                                                                           \
        [](const T& a, const T& b) { return a < b; }, paimon::FieldType::TYPE)
#define VALS(T, ...) (std::vector<T>{__VA_ARGS__})

MC_SCENARIO(column_stats, mc::BOTH, 2,
            "all 11 column types, all sequences of up to 4 (thorough 5) values of 3 or 4 boundary values and missing, "
            "starting from nothing, from counts, from bounds") {
    using paimon::Decimal;
    using paimon::Timestamp;
    switch (mc::Choose(11)) {
        case 0: STATS(BooleanColumnStats, bool, BOOLEAN, VALS(bool, true, false), CreateBooleanColumnStats(a, b, c)); break;
        case 1: STATS(TinyIntColumnStats, int8_t, TINYINT, VALS(int8_t, 0, -128, 127), CreateTinyIntColumnStats(a, b, c)); break;
        case 2: STATS(SmallIntColumnStats, int16_t, SMALLINT, VALS(int16_t, 0, -32768, 32767), CreateSmallIntColumnStats(a, b, c)); break;
        case 3: STATS(IntColumnStats, int32_t, INT, VALS(int32_t, 0, INT32_MIN, INT32_MAX), CreateIntColumnStats(a, b, c)); break;
        case 4: STATS(BigIntColumnStats, int64_t, BIGINT, VALS(int64_t, 0, INT64_MIN, INT64_MAX), CreateBigIntColumnStats(a, b, c)); break;
        case 5: STATS(FloatColumnStats, float, FLOAT, VALS(float, 0, -1.5f, 3e38f), CreateFloatColumnStats(a, b, c)); break;
        case 6: STATS(DoubleColumnStats, double, DOUBLE, VALS(double, 0, -1e-300, 1e300), CreateDoubleColumnStats(a, b, c)); break;
        case 7: STATS(StringColumnStats, std::string, STRING, VALS(std::string, "b", "", "ba", "\x7f"), CreateStringColumnStats(a, b, c)); break;
        case 8: {
            std::vector<Timestamp> ts = {Timestamp(0, 1), Timestamp(-1, 999999), Timestamp(0, 0), Timestamp(1, 0)};
            STATS(TimestampColumnStats, Timestamp, TIMESTAMP, ts, CreateTimestampColumnStats(a, b, c, 9));
            break;
        }
        case 9: {
            std::vector<Decimal> ds = {Decimal(10, 2, 5), Decimal(10, 2, -500), Decimal(10, 2, 500)};
            Stats<Decimal>(
                ds, [](auto& a, auto& b, auto& c) { return paimon::ColumnStats::CreateDecimalColumnStats(a, b, c, 10, 2); },
                [](paimon::ColumnStats& s, const std::optional<Decimal>* v, int what) -> std::optional<Decimal> {
                    auto* p = dynamic_cast<paimon::DecimalColumnStats*>(&s);
                    MC_CHECK(p, "type", "not decimal");
                    MC_CHECK(p->GetPrecision() == 10 && p->GetScale() == 2, "scale", "decimal(%d, %d)", p->GetPrecision(),
                             p->GetScale());
                    if (what == 2) p->Collect(*v);
                    if (what == 0) return p->Min();
                    return p->Max();
                },
                [](const Decimal& a, const Decimal& b) { return a.ToUnscaledLong() < b.ToUnscaledLong(); },
                paimon::FieldType::DECIMAL);
            break;
        }
        default: STATS(DateColumnStats, int32_t, DATE, VALS(int32_t, 0, -719162, 2932896), CreateDateColumnStats(a, b, c));
    }
}

MC_SCENARIO(column_stats_long, mc::BOTH, 2,
            "an integer and a text column of up to 1000 values, missing every first to third time, rising, falling, "
            "swinging and in other orders, judged after every value") {
    int rows = mc::Pick({130, 260, 1000}), shape = mc::Choose(5), gap = mc::Choose(4);
    auto ints = paimon::ColumnStats::CreateBigIntColumnStats(std::nullopt, std::nullopt, std::nullopt);
    auto texts = paimon::ColumnStats::CreateStringColumnStats(std::nullopt, std::nullopt, std::nullopt);
    auto* n = dynamic_cast<paimon::BigIntColumnStats*>(ints.get());
    auto* t = dynamic_cast<paimon::StringColumnStats*>(texts.get());
    MC_CHECK(n && t, "type", "types of the statistics");
    std::optional<int64_t> lo, hi;
    std::optional<std::string> tlo, thi;
    int64_t nulls = 0;
    for (int i = 0; i < rows; i++) {
        std::optional<int64_t> v;
        std::optional<std::string> w;
        if (gap == 0 || i % gap != 0) {
            v = shape == 0 ? i : shape == 1 ? -i : shape == 2 ? (i % 2 ? i : -i) : shape == 3 ? i * 7919 % 1009 - 500 : 1;
            w = std::string(shape == 4 ? 40 : static_cast<size_t>(i % 37), 'x') + std::to_string(*v);
            lo = lo ? std::min(*lo, *v) : *v;
            hi = hi ? std::max(*hi, *v) : *v;
            tlo = tlo ? std::min(*tlo, *w) : *w;
            thi = thi ? std::max(*thi, *w) : *w;
        } else {
            nulls++;
        }
        n->Collect(v);
        t->Collect(w);
        MC_CHECK(n->Min() == lo && n->Max() == hi && n->NullCount() == nulls, "long", "integers after %d values", i + 1);
        MC_CHECK(t->Min() == tlo && t->Max() == thi && t->NullCount() == nulls, "long", "texts after %d values", i + 1);
        mc::Steps();
    }
    mc::State(mc::Hash().U(rows).U(shape).U(gap).h);
    mc::Nontrivial();
}

MC_SCENARIO(nested_stats, mc::BOTH, 1, "statistics of nested columns and precision of timestamps") {
    auto type = mc::Pick({paimon::FieldType::ARRAY, paimon::FieldType::MAP, paimon::FieldType::STRUCT});
    std::optional<int64_t> nulls;
    if (int c = mc::Choose(3)) nulls = c - 1;
    auto s = paimon::ColumnStats::CreateNestedColumnStats(type, nulls);
    MC_CHECK(s->GetFieldType() == type && s->NullCount() == nulls, "nested", "nested statistics");
    int p = mc::Pick({0, 3, 6, 9});
    auto t = paimon::ColumnStats::CreateTimestampColumnStats(std::nullopt, std::nullopt, nulls, p);
    auto* tp = dynamic_cast<paimon::TimestampColumnStats*>(t.get());
    MC_CHECK(tp && tp->GetPrecision() == p && tp->NullCount() == nulls, "precision", "precision of a timestamp column");
    mc::Nontrivial();
}

// ---- contexts ---------------------------------------------------------------------------------------------------------
struct Pred : paimon::Predicate {
    explicit Pred(int i) : id(i) {}
    std::shared_ptr<paimon::Predicate> Negate() const override {
        return nullptr;
    }
    std::string ToString() const override {
        return std::to_string(id);
    }
    bool operator==(const paimon::Predicate& o) const override {
        return this == &o;
    }
    const paimon::Function& GetFunction() const override {
        abort();
    }
    int id;
};
const char* kPaths[] = {"/t", "/t/", "file:///a//b/", "", "/"};

struct ScanModel {
    bool streaming = false;
    std::optional<int> limit, bucket;
    std::vector<std::map<std::string, std::string>> parts;
    std::shared_ptr<paimon::Predicate> pred;
    std::shared_ptr<paimon::VectorSearch> vec;
    std::shared_ptr<paimon::GlobalIndexResult> gi;
    std::shared_ptr<paimon::MemoryPool> pool;
    std::shared_ptr<paimon::Executor> exec;
    std::map<std::string, std::string> opts;
};

MC_SCENARIO(scan_context, mc::BOTH, 2,
            "5 paths, all sequences of up to 3 (thorough 4) of 17 settings, finishing, then one more setting and "
            "finishing again: nothing set before the first result is left over in the second") {
    std::string path = kPaths[mc::Choose(5)];
    paimon::ScanContextBuilder b(path);
    ScanModel m;
    auto pool = std::shared_ptr<paimon::MemoryPool>(paimon::GetMemoryPool());
    auto exec = std::make_shared<Inline>();
    std::shared_ptr<paimon::Predicate> preds[2] = {std::make_shared<Pred>(0), std::make_shared<Pred>(1)};
    auto vec = std::make_shared<paimon::VectorSearch>("f", 3, std::vector<float>{1, 2}, nullptr, nullptr);
    auto gi = std::make_shared<paimon::BitmapGlobalIndexResult>([]() -> Result<paimon::RoaringBitmap64> { return paimon::RoaringBitmap64(); });
    auto set = [&](int op) {
        paimon::ScanContextBuilder* r = nullptr;
        switch (op) {
            case 0: r = &b.WithStreamingMode(true); m.streaming = true; break;
            case 1: r = &b.WithStreamingMode(false); m.streaming = false; break;
            case 2: r = &b.SetLimit(0); m.limit = 0; break;
            case 3: r = &b.SetLimit(7); m.limit = 7; break;
            case 4: r = &b.SetBucketFilter(0); m.bucket = 0; break;
            case 5: r = &b.SetBucketFilter(3); m.bucket = 3; break;
            case 6: m.parts = {{{"p", "1"}}, {{"p", "2"}, {"q", "3"}}}; r = &b.SetPartitionFilter(m.parts); break;
            case 7: m.parts = {}; r = &b.SetPartitionFilter(m.parts); break;
            case 8: m.pred = preds[0]; r = &b.SetPredicate(preds[0]); break;
            case 9: m.pred = preds[1]; r = &b.SetPredicate(preds[1]); break;
            case 10: m.vec = vec; r = &b.SetVectorSearch(vec); break;
            case 11: m.gi = gi; r = &b.SetGlobalIndexResult(gi); break;
            case 12: m.opts["a"] = "1"; r = &b.AddOption("a", "1"); break;
            case 13: m.opts["a"] = "2"; r = &b.AddOption("a", "2"); break;
            case 14: m.opts = {{"b", "3"}}; r = &b.SetOptions(m.opts); break;
            case 15: m.pool = pool; r = &b.WithMemoryPool(pool); break;
            default: m.exec = exec; r = &b.WithExecutor(exec);
        }
        MC_CHECK(r == &b, "chain", "setting %d returns another builder", op);
    };
    auto finish = [&](const char* what) {
        auto c = b.Finish();
        auto norm = paimon::PathUtil::NormalizePath(path);
        if (path.empty()) {
            MC_CHECK(!c.ok(), "empty-path", "a context without a path");
            return;
        }
        MC_CHECK(c.ok(), "refused", "%s: %s", what, c.status().ToString().c_str());
        auto& x = *c.value();
        mc::Hash h;
        h.S(path).U(m.streaming).U(m.limit.value_or(-1)).U(m.bucket.value_or(-1)).U(m.parts.size());
        h.U(m.pred ? 1 + (m.pred == preds[1]) : 0).U(m.vec != nullptr).U(m.gi != nullptr).U(m.pool != nullptr);
        h.U(m.exec != nullptr);
        for (auto& [k, v] : m.opts) h.S(k).S(v);
        mc::State(h.h);
        MC_CHECK(x.GetPath() == norm.value(), "path", "%s: path '%s'", what, x.GetPath().c_str());
        MC_CHECK(x.IsStreamingMode() == m.streaming, "streaming", "%s: streaming %d", what, x.IsStreamingMode());
        MC_CHECK(x.GetLimit() == m.limit, "limit", "%s: limit", what);
        MC_CHECK(x.GetOptions() == m.opts, "options", "%s: %zu options", what, x.GetOptions().size());
        MC_CHECK(x.GetGlobalIndexResult() == m.gi, "index-result", "%s: global index result", what);
        auto f = x.GetScanFilters();
        MC_CHECK(f, "filters", "%s: no filters", what);
        MC_CHECK(f->GetPredicate() == m.pred, "predicate", "%s: predicate", what);
        MC_CHECK(f->GetVectorSearch() == m.vec, "vector-search", "%s: vector search", what);
        MC_CHECK(f->GetBucketFilter() == m.bucket, "bucket", "%s: bucket %d", what, f->GetBucketFilter().value_or(-1));
        MC_CHECK(f->GetPartitionFilters() == m.parts, "partitions", "%s: %zu partitions", what,
                 f->GetPartitionFilters().size());
        MC_CHECK(x.GetMemoryPool() && (m.pool ? x.GetMemoryPool() == m.pool : x.GetMemoryPool() == paimon::GetDefaultPool()),
                 "pool", "%s: memory pool", what);
        MC_CHECK(x.GetExecutor() && (m.exec ? x.GetExecutor() == m.exec : x.GetExecutor() != exec), "executor",
                 "%s: executor", what);
        m = {};
    };
    int n = mc::Choose(mc::Thorough() ? 5 : 4);
    for (int i = 0; i < n; i++) set(mc::Choose(17));
    finish("first");
    if (!path.empty()) {
        int c = mc::Choose(18);
        if (c) set(c - 1);
        finish("second");
    }
    mc::Nontrivial();
}

struct CommitModel {
    bool ignore = true, rest = false;
    std::shared_ptr<paimon::MemoryPool> pool;
    std::shared_ptr<paimon::Executor> exec;
    std::map<std::string, std::string> opts;
};
MC_SCENARIO(commit_context, mc::BOTH, 2,
            "5 paths, all sequences of up to 3 (thorough 4) of 9 settings, finishing, one more setting, finishing again") {
    std::string path = kPaths[mc::Choose(5)], user = mc::ChooseBool() ? "u" : "";
    paimon::CommitContextBuilder b(path, user);
    CommitModel m;
    auto pool = std::shared_ptr<paimon::MemoryPool>(paimon::GetMemoryPool());
    auto exec = std::make_shared<Inline>();
    auto set = [&](int op) {
        paimon::CommitContextBuilder* r = nullptr;
        switch (op) {
            case 0: m.ignore = true; r = &b.IgnoreEmptyCommit(true); break;
            case 1: m.ignore = false; r = &b.IgnoreEmptyCommit(false); break;
            case 2: m.rest = true; r = &b.UseRESTCatalogCommit(true); break;
            case 3: m.rest = false; r = &b.UseRESTCatalogCommit(false); break;
            case 4: m.opts["a"] = "1"; r = &b.AddOption("a", "1"); break;
            case 5: m.opts["a"] = "2"; r = &b.AddOption("a", "2"); break;
            case 6: m.opts = {{"b", "3"}}; r = &b.SetOptions(m.opts); break;
            case 7: m.pool = pool; r = &b.WithMemoryPool(pool); break;
            default: m.exec = exec; r = &b.WithExecutor(exec);
        }
        MC_CHECK(r == &b, "chain", "setting %d returns another builder", op);
    };
    auto finish = [&](const char* what) {
        auto c = b.Finish();
        if (path.empty()) {
            MC_CHECK(!c.ok(), "empty-path", "a context without a path");
            return;
        }
        MC_CHECK(c.ok(), "refused", "%s: %s", what, c.status().ToString().c_str());
        auto& x = *c.value();
        mc::Hash h;
        h.S(path).S(user).U(m.ignore).U(m.rest).U(m.pool != nullptr).U(m.exec != nullptr);
        for (auto& [k, v] : m.opts) h.S(k).S(v);
        mc::State(h.h);
        MC_CHECK(x.GetRootPath() == paimon::PathUtil::NormalizePath(path).value(), "path", "%s: path", what);
        MC_CHECK(x.GetCommitUser() == user, "user", "%s: user '%s'", what, x.GetCommitUser().c_str());
        MC_CHECK(x.IgnoreEmptyCommit() == m.ignore, "ignore-empty", "%s: ignore empty commits %d", what,
                 x.IgnoreEmptyCommit());
        MC_CHECK(x.UseRESTCatalogCommit() == m.rest, "rest", "%s: REST catalog %d", what, x.UseRESTCatalogCommit());
        MC_CHECK(x.GetOptions() == m.opts, "options", "%s: %zu options", what, x.GetOptions().size());
        MC_CHECK(x.GetMemoryPool() && (m.pool ? x.GetMemoryPool() == m.pool : x.GetMemoryPool() == paimon::GetDefaultPool()),
                 "pool", "%s: memory pool", what);
        MC_CHECK(x.GetExecutor() && (m.exec ? x.GetExecutor() == m.exec : x.GetExecutor() != exec), "executor",
                 "%s: executor", what);
        m = {};
    };
    int n = mc::Choose(mc::Thorough() ? 5 : 4);
    for (int i = 0; i < n; i++) set(mc::Choose(9));
    finish("first");
    if (!path.empty()) {
        int c = mc::Choose(10);
        if (c) set(c - 1);
        finish("second");
    }
    mc::Nontrivial();
}

struct ASplit : paimon::Split {};
MC_SCENARIO(plans, mc::BOTH, 1, "plans of 0 to 2 splits, with and without a snapshot") {
    std::optional<int64_t> id;
    if (int c = mc::Choose(3)) id = c == 1 ? 1 : INT64_MAX;
    std::vector<std::shared_ptr<paimon::Split>> splits;
    for (int n = mc::Choose(3); n > 0; n--) splits.push_back(std::make_shared<ASplit>());
    paimon::PlanImpl p(id, splits);
    MC_CHECK(p.SnapshotId() == id && p.Splits() == splits, "plan", "plan");
    auto e = paimon::PlanImpl::EmptyPlan();
    MC_CHECK(e && e->Splits().empty() && !e->SnapshotId(), "empty-plan", "the empty plan is not empty");
    mc::Nontrivial();
}
}  // namespace
