// Column types with the values worth trying in each, and the forms a value takes: a literal, a cell of an Arrow array,
// a field of a generic or binary row.
#pragma once
#include <climits>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "arrow/api.h"
#include "arrow/util/decimal.h"
#include "paimon/common/data/binary_array.h"
#include "paimon/common/data/binary_array_writer.h"
#include "paimon/common/data/binary_row.h"
#include "paimon/common/data/binary_row_writer.h"
#include "paimon/common/data/binary_string.h"
#include "paimon/common/data/data_define.h"
#include "paimon/common/data/generic_row.h"
#include "paimon/data/decimal.h"
#include "paimon/data/timestamp.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/predicate/literal.h"

namespace kd {
using paimon::FieldType;

inline std::shared_ptr<paimon::MemoryPool> Pool() {
    static std::shared_ptr<paimon::MemoryPool> p = paimon::GetDefaultPool();
    return p;
}

// A number (times in nanoseconds, decimals unscaled, floating point numbers in quarters) or a text.
struct Val {
    __int128 n = 0;
    std::string s;
    bool operator<(const Val& o) const {
        return n != o.n ? n < o.n : s < o.s;
    }
    bool operator==(const Val& o) const {
        return n == o.n && s == o.s;
    }
};
using Cell = std::optional<Val>;
using Column = std::vector<Cell>;

inline Val N(__int128 n) {
    Val v;
    v.n = n;
    return v;
}
inline Val S(std::string s) {
    Val v;
    v.s = std::move(s);
    return v;
}
inline std::string Text(const Cell& c) {
    if (!c) return "null";
    if (!c->s.empty() || c->n == 0) {
        std::string t = c->n == 0 && c->s.empty() ? "0/''" : "'";
        for (unsigned char ch : c->s) {
            char b[8];
            snprintf(b, sizeof b, ch >= 32 && ch < 127 ? "%c" : "\\x%02x", ch);
            t += b;
        }
        return c->s.empty() ? t : t + "'";
    }
    std::string t;
    bool neg = c->n < 0;
    for (__int128 n = c->n; n != 0; n /= 10) t.insert(t.begin(), static_cast<char>('0' + (n % 10 < 0 ? -(n % 10) : n % 10)));
    return (neg ? "-" : "") + t;
}

struct Kind {
    const char* name;
    FieldType type;
    std::shared_ptr<arrow::DataType> arrow;
    int precision;  // of times and decimals
    int scale;
    std::vector<Val> values;  // in ascending order
    std::vector<Val> near;    // the values and what lies beside them
    bool Decimal() const {
        return type == FieldType::DECIMAL;
    }
    bool Time() const {
        return type == FieldType::TIMESTAMP;
    }
    __int128 Unit() const {  // of the stored number, in nanoseconds
        __int128 u = 1;
        for (int i = precision; i < 9; i++) u *= 10;
        return u;
    }
};

inline const std::vector<Kind>& Kinds() {
    static const std::vector<Kind> kinds = [] {
        std::vector<Kind> k;
        auto add = [&](const char* name, FieldType t, std::shared_ptr<arrow::DataType> a, int p, int s,
                       std::vector<__int128> vs, __int128 lo, __int128 hi, __int128 step) {
            Kind x{name, t, a, p, s, {}, {}};
            std::set<Val> near;
            for (auto v : vs) {
                x.values.push_back(N(v));
                for (__int128 d : {-step, static_cast<__int128>(0), step}) {
                    if (v + d >= lo && v + d <= hi) near.insert(N(v + d));
                }
            }
            x.near.assign(near.begin(), near.end());
            k.push_back(x);
        };
        const __int128 big = static_cast<__int128>(1) << 70, ten18 = 1000000000000000000LL;
        add("boolean", FieldType::BOOLEAN, arrow::boolean(), 0, 0, {0, 1}, 0, 1, 1);
        add("tinyint", FieldType::TINYINT, arrow::int8(), 0, 0, {-128, 0, 127}, -128, 127, 1);
        add("smallint", FieldType::SMALLINT, arrow::int16(), 0, 0, {-32768, 5, 300}, -32768, 32767, 1);
        add("int", FieldType::INT, arrow::int32(), 0, 0, {INT32_MIN, -1, INT32_MAX}, INT32_MIN, INT32_MAX, 1);
        add("bigint", FieldType::BIGINT, arrow::int64(), 0, 0, {INT64_MIN, 1, INT64_MAX}, INT64_MIN, INT64_MAX, 1);
        add("float", FieldType::FLOAT, arrow::float32(), 0, 0, {-6, 0, 1 << 20}, -big, big, 1);
        add("double", FieldType::DOUBLE, arrow::float64(), 0, 0, {-6, 0, 1LL << 40}, -big, big, 1);
        add("date", FieldType::DATE, arrow::date32(), 0, 0, {-1, 0, 20000}, INT32_MIN, INT32_MAX, 1);
        add("timestamp(0)", FieldType::TIMESTAMP, arrow::timestamp(arrow::TimeUnit::SECOND), 0, 0,
            {-1000000000, 0, 1700000000 * static_cast<__int128>(1000000000)}, -big, big, 1);
        add("timestamp(3)", FieldType::TIMESTAMP, arrow::timestamp(arrow::TimeUnit::MILLI), 3, 0,
            {-1000000, 0, 1700000000123 * static_cast<__int128>(1000000)}, -big, big, 1);
        add("timestamp(6)", FieldType::TIMESTAMP, arrow::timestamp(arrow::TimeUnit::MICRO), 6, 0,
            {-1000, 0, 1700000000123456 * static_cast<__int128>(1000)}, -big, big, 1);
        add("timestamp(9)", FieldType::TIMESTAMP, arrow::timestamp(arrow::TimeUnit::NANO), 9, 0,
            {-1, 0, 1700000000123456789}, -big, big, 1);
        add("decimal(5,2)", FieldType::DECIMAL, arrow::decimal128(5, 2), 5, 2, {-99999, 0, 12345}, -99999, 99999, 1);
        add("decimal(38,3)", FieldType::DECIMAL, arrow::decimal128(38, 3), 38, 3,
            {-ten18 * ten18 * 99, -1, ten18 * ten18 * 99}, -ten18 * ten18 * 100 + 1, ten18 * ten18 * 100 - 1, 1);
        Kind str{"string", FieldType::STRING, arrow::utf8(), 0, 0, {S(""), S("a"), S("abcdefgh"), S("\xc3\xbc")}, {}};
        str.near = {S(""), S(std::string("\0", 1)), S("a"), S(std::string("a\0", 2)), S("abcdefg"), S("abcdefgh"),
                    S("abcdefghi"), S("\xc3"), S("\xc3\xbc")};
        k.push_back(str);
        Kind bin = str;
        bin.name = "binary";
        bin.type = FieldType::BINARY;
        bin.arrow = arrow::binary();
        k.push_back(bin);
        return k;
    }();
    return kinds;
}

inline paimon::Timestamp Time(__int128 ns) {
    __int128 ms = ns / 1000000, rest = ns % 1000000;
    if (rest < 0) {
        ms--;
        rest += 1000000;
    }
    return paimon::Timestamp(static_cast<int64_t>(ms), static_cast<int32_t>(rest));
}
inline __int128 Nanos(const paimon::Timestamp& t) {
    return static_cast<__int128>(t.GetMillisecond()) * 1000000 + t.GetNanoOfMillisecond();
}
inline __int128 Unscaled(const paimon::Decimal& d) {
    return static_cast<__int128>((static_cast<unsigned __int128>(d.HighBits()) << 64) | d.LowBits());
}
inline double Quarters(const Val& v) {
    return static_cast<double>(v.n) / 4;
}

inline paimon::Literal Lit(const Kind& k, const Cell& c, bool own = true) {
    using paimon::Literal;
    if (!c) return Literal(k.type);
    const Val& v = *c;
    switch (k.type) {
        case FieldType::BOOLEAN:
            return Literal(v.n != 0);
        case FieldType::TINYINT:
            return Literal(static_cast<int8_t>(v.n));
        case FieldType::SMALLINT:
            return Literal(static_cast<int16_t>(v.n));
        case FieldType::INT:
            return Literal(static_cast<int32_t>(v.n));
        case FieldType::DATE:
            return Literal(FieldType::DATE, static_cast<int32_t>(v.n));
        case FieldType::BIGINT:
            return Literal(static_cast<int64_t>(v.n));
        case FieldType::FLOAT:
            return Literal(static_cast<float>(Quarters(v)));
        case FieldType::DOUBLE:
            return Literal(Quarters(v));
        case FieldType::STRING:
        case FieldType::BINARY:
            return Literal(k.type, v.s.data(), v.s.size(), own);
        case FieldType::DECIMAL:
            return Literal(paimon::Decimal(k.precision, k.scale, v.n));
        default:
            return Literal(Time(v.n));
    }
}
inline Cell FromLit(const Kind& k, const paimon::Literal& l) {
    if (l.IsNull()) return std::nullopt;
    switch (k.type) {
        case FieldType::BOOLEAN:
            return N(l.GetValue<bool>());
        case FieldType::TINYINT:
            return N(l.GetValue<int8_t>());
        case FieldType::SMALLINT:
            return N(l.GetValue<int16_t>());
        case FieldType::INT:
        case FieldType::DATE:
            return N(l.GetValue<int32_t>());
        case FieldType::BIGINT:
            return N(l.GetValue<int64_t>());
        case FieldType::FLOAT:
            return N(static_cast<__int128>(l.GetValue<float>() * 4));
        case FieldType::DOUBLE:
            return N(static_cast<__int128>(l.GetValue<double>() * 4));
        case FieldType::STRING:
        case FieldType::BINARY:
            return S(l.GetValue<std::string>());
        case FieldType::DECIMAL:
            return N(Unscaled(l.GetValue<paimon::Decimal>()));
        default:
            return N(Nanos(l.GetValue<paimon::Timestamp>()));
    }
}

namespace detail {
template <typename B, typename F>
void Append(arrow::ArrayBuilder* b, const Column& col, F f) {
    for (auto& c : col) {
        if (!c) {
            (void)b->AppendNull();
        } else {
            (void)static_cast<B*>(b)->Append(f(*c));
        }
    }
}
}  // namespace detail

inline std::shared_ptr<arrow::Array> Build(const Kind& k, const Column& col) {
    using detail::Append;
    std::unique_ptr<arrow::ArrayBuilder> b;
    auto* p = arrow::default_memory_pool();
    switch (k.type) {
        case FieldType::BOOLEAN:
            b = std::make_unique<arrow::BooleanBuilder>();
            Append<arrow::BooleanBuilder>(b.get(), col, [](const Val& v) { return v.n != 0; });
            break;
        case FieldType::TINYINT:
            b = std::make_unique<arrow::Int8Builder>();
            Append<arrow::Int8Builder>(b.get(), col, [](const Val& v) { return static_cast<int8_t>(v.n); });
            break;
        case FieldType::SMALLINT:
            b = std::make_unique<arrow::Int16Builder>();
            Append<arrow::Int16Builder>(b.get(), col, [](const Val& v) { return static_cast<int16_t>(v.n); });
            break;
        case FieldType::INT:
            b = std::make_unique<arrow::Int32Builder>();
            Append<arrow::Int32Builder>(b.get(), col, [](const Val& v) { return static_cast<int32_t>(v.n); });
            break;
        case FieldType::DATE:
            b = std::make_unique<arrow::Date32Builder>();
            Append<arrow::Date32Builder>(b.get(), col, [](const Val& v) { return static_cast<int32_t>(v.n); });
            break;
        case FieldType::BIGINT:
            b = std::make_unique<arrow::Int64Builder>();
            Append<arrow::Int64Builder>(b.get(), col, [](const Val& v) { return static_cast<int64_t>(v.n); });
            break;
        case FieldType::FLOAT:
            b = std::make_unique<arrow::FloatBuilder>();
            Append<arrow::FloatBuilder>(b.get(), col, [](const Val& v) { return static_cast<float>(Quarters(v)); });
            break;
        case FieldType::DOUBLE:
            b = std::make_unique<arrow::DoubleBuilder>();
            Append<arrow::DoubleBuilder>(b.get(), col, [](const Val& v) { return Quarters(v); });
            break;
        case FieldType::STRING:
            b = std::make_unique<arrow::StringBuilder>();
            Append<arrow::StringBuilder>(b.get(), col, [](const Val& v) { return std::string_view(v.s); });
            break;
        case FieldType::BINARY:
            b = std::make_unique<arrow::BinaryBuilder>();
            Append<arrow::BinaryBuilder>(b.get(), col, [](const Val& v) { return std::string_view(v.s); });
            break;
        case FieldType::DECIMAL:
            b = std::make_unique<arrow::Decimal128Builder>(k.arrow, p);
            Append<arrow::Decimal128Builder>(b.get(), col, [](const Val& v) {
                return arrow::Decimal128(static_cast<int64_t>(v.n >> 64), static_cast<uint64_t>(v.n));
            });
            break;
        default:
            b = std::make_unique<arrow::TimestampBuilder>(k.arrow, p);
            Append<arrow::TimestampBuilder>(b.get(), col,
                                            [&](const Val& v) { return static_cast<int64_t>(v.n / k.Unit()); });
    }
    return b->Finish().ValueOrDie();
}

inline paimon::VariantType Variant(const Kind& k, const Cell& c) {
    using V = paimon::VariantType;
    if (!c) return V(paimon::NullType());
    const Val& v = *c;
    switch (k.type) {
        case FieldType::BOOLEAN:
            return V(v.n != 0);
        case FieldType::TINYINT:
            return V(static_cast<char>(v.n));
        case FieldType::SMALLINT:
            return V(static_cast<int16_t>(v.n));
        case FieldType::INT:
        case FieldType::DATE:
            return V(static_cast<int32_t>(v.n));
        case FieldType::BIGINT:
            return V(static_cast<int64_t>(v.n));
        case FieldType::FLOAT:
            return V(static_cast<float>(Quarters(v)));
        case FieldType::DOUBLE:
            return V(Quarters(v));
        case FieldType::STRING:
            return V(paimon::BinaryString::FromString(v.s, Pool().get()));
        case FieldType::BINARY:
            return V(std::make_shared<paimon::Bytes>(v.s, Pool().get()));
        case FieldType::DECIMAL:
            return V(paimon::Decimal(k.precision, k.scale, v.n));
        default:
            return V(Time(v.n));
    }
}
inline Cell FromVariant(const Kind& k, const paimon::VariantType& v) {
    if (std::holds_alternative<paimon::NullType>(v)) return std::nullopt;
    switch (k.type) {
        case FieldType::BOOLEAN:
            return N(std::get<bool>(v));
        case FieldType::TINYINT:
            return N(static_cast<int8_t>(std::get<char>(v)));
        case FieldType::SMALLINT:
            return N(std::get<int16_t>(v));
        case FieldType::INT:
        case FieldType::DATE:
            return N(std::get<int32_t>(v));
        case FieldType::BIGINT:
            return N(std::get<int64_t>(v));
        case FieldType::FLOAT:
            return N(static_cast<__int128>(std::get<float>(v) * 4));
        case FieldType::DOUBLE:
            return N(static_cast<__int128>(std::get<double>(v) * 4));
        case FieldType::STRING:
            if (auto* view = std::get_if<std::string_view>(&v)) return S(std::string(*view));
            return S(std::get<paimon::BinaryString>(v).ToString());
        case FieldType::BINARY: {
            if (auto* view = std::get_if<std::string_view>(&v)) return S(std::string(*view));
            auto& b = std::get<std::shared_ptr<paimon::Bytes>>(v);
            return S(std::string(b->data(), b->size()));
        }
        case FieldType::DECIMAL:
            return N(Unscaled(std::get<paimon::Decimal>(v)));
        default:
            return N(Nanos(std::get<paimon::Timestamp>(v)));
    }
}

// Writes a field of a binary row or array by the type's own call.
inline void Write(paimon::BinaryWriter* w, int pos, const Kind& k, const Val& v) {
    switch (k.type) {
        case FieldType::BOOLEAN:
            return w->WriteBoolean(pos, v.n != 0);
        case FieldType::TINYINT:
            return w->WriteByte(pos, static_cast<int8_t>(v.n));
        case FieldType::SMALLINT:
            return w->WriteShort(pos, static_cast<int16_t>(v.n));
        case FieldType::INT:
        case FieldType::DATE:
            return w->WriteInt(pos, static_cast<int32_t>(v.n));
        case FieldType::BIGINT:
            return w->WriteLong(pos, static_cast<int64_t>(v.n));
        case FieldType::FLOAT:
            return w->WriteFloat(pos, static_cast<float>(Quarters(v)));
        case FieldType::DOUBLE:
            return w->WriteDouble(pos, Quarters(v));
        case FieldType::STRING:
            return w->WriteString(pos, paimon::BinaryString::FromString(v.s, Pool().get()));
        case FieldType::BINARY:
            return w->WriteBinary(pos, paimon::Bytes(v.s, Pool().get()));
        case FieldType::DECIMAL:
            return w->WriteDecimal(pos, paimon::Decimal(k.precision, k.scale, v.n), k.precision);
        default:
            return w->WriteTimestamp(pos, Time(v.n), k.precision);
    }
}
inline Cell Read(const paimon::DataGetters& g, int pos, const Kind& k) {
    if (g.IsNullAt(pos)) return std::nullopt;
    switch (k.type) {
        case FieldType::BOOLEAN:
            return N(g.GetBoolean(pos));
        case FieldType::TINYINT:
            return N(static_cast<int8_t>(g.GetByte(pos)));
        case FieldType::SMALLINT:
            return N(g.GetShort(pos));
        case FieldType::INT:
            return N(g.GetInt(pos));
        case FieldType::DATE:
            return N(g.GetDate(pos));
        case FieldType::BIGINT:
            return N(g.GetLong(pos));
        case FieldType::FLOAT:
            return N(static_cast<__int128>(g.GetFloat(pos) * 4));
        case FieldType::DOUBLE:
            return N(static_cast<__int128>(g.GetDouble(pos) * 4));
        case FieldType::STRING:
            return S(g.GetString(pos).ToString());
        case FieldType::BINARY: {
            auto b = g.GetBinary(pos);
            return S(std::string(b->data(), b->size()));
        }
        case FieldType::DECIMAL:
            return N(Unscaled(g.GetDecimal(pos, k.precision, k.scale)));
        default:
            return N(Nanos(g.GetTimestamp(pos, k.precision)));
    }
}
// A null is written the way the row format asks for: the widths that carry more than their slot have their own null.
inline void WriteCell(paimon::BinaryWriter* w, int pos, const Kind& k, const Cell& c) {
    if (c) return Write(w, pos, k, *c);
    if (k.Decimal() && !paimon::Decimal::IsCompact(k.precision)) return w->WriteDecimal(pos, std::nullopt, k.precision);
    if (k.Time() && !paimon::Timestamp::IsCompact(k.precision)) return w->WriteTimestamp(pos, std::nullopt, k.precision);
    w->SetNullAt(pos);
}
inline paimon::BinaryRow Row(const std::vector<const Kind*>& kinds, const std::vector<Cell>& cells, int initial = 0) {
    paimon::BinaryRow row(static_cast<int>(kinds.size()));
    paimon::BinaryRowWriter w(&row, initial, Pool().get());
    w.Reset();
    for (size_t i = 0; i < kinds.size(); i++) WriteCell(&w, static_cast<int>(i), *kinds[i], cells[i]);
    w.Complete();
    return row;
}
inline std::unique_ptr<paimon::GenericRow> Generic(const std::vector<const Kind*>& kinds,
                                                   const std::vector<Cell>& cells) {
    auto row = std::make_unique<paimon::GenericRow>(static_cast<int>(kinds.size()));
    for (size_t i = 0; i < kinds.size(); i++) row->SetField(static_cast<int>(i), Variant(*kinds[i], cells[i]));
    return row;
}
}  // namespace kd
