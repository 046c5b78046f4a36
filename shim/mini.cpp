#include "arrow/mini.h"

#include <algorithm>
#include <cinttypes>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <ostream>

namespace arrow {

std::string Status::CodeAsString() const {
    switch (code()) {
        case StatusCode::OK: return "OK";
        case StatusCode::OutOfMemory: return "Out of memory";
        case StatusCode::KeyError: return "Key error";
        case StatusCode::TypeError: return "Type error";
        case StatusCode::Invalid: return "Invalid";
        case StatusCode::IOError: return "IOError";
        case StatusCode::CapacityError: return "Capacity error";
        case StatusCode::IndexError: return "Index error";
        case StatusCode::Cancelled: return "Cancelled";
        case StatusCode::NotImplemented: return "NotImplemented";
        case StatusCode::SerializationError: return "Serialization error";
        default: return "Unknown error";
    }
}
std::ostream& operator<<(std::ostream& os, const Status& s) { return os << s.ToString(); }

namespace internal {
uint32_t crc32(uint32_t prev, const void* data, size_t length) {
    struct Table {
        uint32_t t[256];
        Table() {
            for (uint32_t i = 0; i < 256; i++) {
                uint32_t c = i;
                for (int k = 0; k < 8; k++) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1;
                t[i] = c;
            }
        }
    };
    static const Table tab;
    uint32_t c = ~prev;
    auto p = static_cast<const uint8_t*>(data);
    for (size_t i = 0; i < length; i++) c = tab.t[(c ^ p[i]) & 0xff] ^ (c >> 8);
    return ~c;
}
static bool Real(const char* s, size_t n, double* d, float* f) {
    std::string t(s, n);
    if (t.empty() || isspace((unsigned char)t[0]) || t.find_first_of("xXpP") != std::string::npos) return false;
    char* e = nullptr;
    if (d) *d = strtod(t.c_str(), &e);
    else *f = strtof(t.c_str(), &e);
    return e == t.c_str() + t.size();
}
bool StringToFloat(const char* s, size_t n, char, float* out) { return Real(s, n, nullptr, out); }
bool StringToFloat(const char* s, size_t n, char, double* out) { return Real(s, n, out, nullptr); }

std::string ToString(Type::type id) {
    switch (id) {
        case Type::NA: return "null";
        case Type::BOOL: return "bool";
        case Type::UINT8: return "uint8";
        case Type::INT8: return "int8";
        case Type::UINT16: return "uint16";
        case Type::INT16: return "int16";
        case Type::UINT32: return "uint32";
        case Type::INT32: return "int32";
        case Type::UINT64: return "uint64";
        case Type::INT64: return "int64";
        case Type::FLOAT: return "float";
        case Type::DOUBLE: return "double";
        case Type::STRING: return "string";
        case Type::BINARY: return "binary";
        case Type::FIXED_SIZE_BINARY: return "fixed_size_binary";
        case Type::DATE32: return "date32";
        case Type::TIMESTAMP: return "timestamp";
        case Type::DECIMAL128: return "decimal128";
        case Type::LIST: return "list";
        case Type::STRUCT: return "struct";
        case Type::DICTIONARY: return "dictionary";
        case Type::MAP: return "map";
        case Type::LARGE_STRING: return "large_string";
        case Type::LARGE_BINARY: return "large_binary";
        default: return "other";
    }
}
std::string ToString(TimeUnit::type u) {
    static const char* n[] = {"s", "ms", "us", "ns"};
    return n[u];
}
}  // namespace internal
std::ostream& operator<<(std::ostream& os, TimeUnit::type u) { return os << internal::ToString(u); }

// -------------------------------------------------------------------------------------- memory

namespace {
class SystemPool : public MemoryPool {
 public:
    Status Allocate(int64_t size, int64_t alignment, uint8_t** out) override {
        void* p = nullptr;
        if (posix_memalign(&p, std::max<int64_t>(alignment, 8), std::max<int64_t>(size, 1)))
            return Status::OutOfMemory("allocation failed");
        *out = static_cast<uint8_t*>(p);
        return Status::OK();
    }
    Status Reallocate(int64_t o, int64_t n, int64_t alignment, uint8_t** ptr) override {
        uint8_t* p;
        ARROW_RETURN_NOT_OK(Allocate(n, alignment, &p));
        memcpy(p, *ptr, std::min(o, n));
        free(*ptr);
        *ptr = p;
        return Status::OK();
    }
    void Free(uint8_t* b, int64_t, int64_t) override { free(b); }
    int64_t bytes_allocated() const override { return 0; }
    std::string backend_name() const override { return "system"; }
};
}  // namespace
MemoryPool* default_memory_pool() {
    static SystemPool* p = new SystemPool;
    return p;
}
std::shared_ptr<Buffer> Buffer::FromString(std::string s) {
    auto o = std::make_shared<std::string>(std::move(s));
    return std::make_shared<Buffer>(reinterpret_cast<const uint8_t*>(o->data()), o->size(), o);
}
Result<std::unique_ptr<Buffer>> AllocateBuffer(int64_t size, MemoryPool* pool) {
    uint8_t* p = nullptr;
    if (!pool) pool = default_memory_pool();
    ARROW_RETURN_NOT_OK(pool->Allocate(size, &p));
    return std::unique_ptr<Buffer>(new PoolBuffer(p, size, pool));
}
std::shared_ptr<Buffer> SliceBuffer(const std::shared_ptr<Buffer>& b, int64_t off, int64_t len) {
    return std::make_shared<Buffer>(b->data() + off, len, b);
}
std::shared_ptr<Buffer> MakeBuffer(const void* p, int64_t size, MemoryPool* pool) {
    std::shared_ptr<Buffer> b = std::move(AllocateBuffer(size, pool)).ValueOrDie();
    if (size) memcpy(b->mutable_data(), p, size);
    return b;
}

// --------------------------------------------------------------------------------------- types

KeyValueMetadata::KeyValueMetadata(const std::unordered_map<std::string, std::string>& m) {
    std::map<std::string, std::string> sorted(m.begin(), m.end());
    for (auto& [k, v] : sorted) Append(k, v);
}
void KeyValueMetadata::ToUnorderedMap(std::unordered_map<std::string, std::string>* out) const {
    for (size_t i = 0; i < keys_.size(); i++) out->insert({keys_[i], values_[i]});
}
std::shared_ptr<KeyValueMetadata> KeyValueMetadata::Merge(const KeyValueMetadata& o) const {
    auto r = Copy();
    for (size_t i = 0; i < o.keys_.size(); i++) (void)r->Set(o.keys_[i], o.values_[i]);
    return r;
}
bool KeyValueMetadata::Equals(const KeyValueMetadata& o) const {
    std::multimap<std::string, std::string> a, b;
    for (size_t i = 0; i < keys_.size(); i++) a.insert({keys_[i], values_[i]});
    for (size_t i = 0; i < o.keys_.size(); i++) b.insert({o.keys_[i], o.values_[i]});
    return a == b;
}
std::string KeyValueMetadata::ToString() const {
    std::string s = "\n-- metadata --";
    for (size_t i = 0; i < keys_.size(); i++) s += "\n" + keys_[i] + ": " + values_[i];
    return s;
}
std::shared_ptr<KeyValueMetadata> key_value_metadata(const std::unordered_map<std::string, std::string>& m) {
    return std::make_shared<KeyValueMetadata>(m);
}
static bool MetaEq(const std::shared_ptr<const KeyValueMetadata>& a, const std::shared_ptr<const KeyValueMetadata>& b) {
    bool ha = a && a->size(), hb = b && b->size();
    return ha == hb && (!ha || a->Equals(*b));
}
bool DataType::Equals(const DataType& o, bool meta) const {
    if (this == &o) return true;
    if (id_ != o.id_ || children_.size() != o.children_.size()) return false;
    switch (id_) {
        case Type::TIMESTAMP: {
            auto& a = static_cast<const TimestampType&>(*this);
            auto& b = static_cast<const TimestampType&>(o);
            return a.unit() == b.unit() && a.timezone() == b.timezone();
        }
        case Type::DECIMAL128: {
            auto& a = static_cast<const Decimal128Type&>(*this);
            auto& b = static_cast<const Decimal128Type&>(o);
            return a.precision() == b.precision() && a.scale() == b.scale();
        }
        case Type::FIXED_SIZE_BINARY:
            return bit_width() == o.bit_width();
        case Type::DICTIONARY: {
            auto& a = static_cast<const DictionaryType&>(*this);
            auto& b = static_cast<const DictionaryType&>(o);
            return a.index_type()->Equals(b.index_type()) && a.value_type()->Equals(b.value_type());
        }
        case Type::MAP: {
            // The names of the entry fields do not matter.
            auto& a = static_cast<const MapType&>(*this);
            auto& b = static_cast<const MapType&>(o);
            return a.key_type()->Equals(*b.key_type(), meta) && a.item_type()->Equals(*b.item_type(), meta) &&
                   a.item_field()->nullable() == b.item_field()->nullable();
        }
        case Type::LIST:  // nor does the name of the element field
            if (!meta) {
                return children_[0]->nullable() == o.children_[0]->nullable() && children_[0]->type()->Equals(*o.children_[0]->type());
            }
            [[fallthrough]];
        default:
            for (size_t i = 0; i < children_.size(); i++)
                if (!children_[i]->Equals(*o.children_[i], meta)) return false;
            return true;
    }
}
std::ostream& operator<<(std::ostream& os, const DataType& t) { return os << t.ToString(); }
bool Field::Equals(const Field& o, bool meta) const {
    return name_ == o.name_ && nullable_ == o.nullable_ && type_->Equals(*o.type_, meta) &&
           (!meta || MetaEq(meta_, o.meta_));
}
std::string Field::ToString(bool meta) const {
    std::string s = name_ + ": " + type_->ToString(meta) + (nullable_ ? "" : " not null");
    if (meta && meta_) s += meta_->ToString();
    return s;
}
std::vector<std::string> Schema::field_names() const {
    std::vector<std::string> r;
    for (auto& f : fields_) r.push_back(f->name());
    return r;
}
static int IndexOf(const FieldVector& fs, const std::string& n) {
    int r = -1;
    for (size_t i = 0; i < fs.size(); i++)
        if (fs[i]->name() == n) {
            if (r >= 0) return -1;
            r = static_cast<int>(i);
        }
    return r;
}
static FieldVector AllOf(const FieldVector& fs, const std::string& n) {
    FieldVector r;
    for (auto& f : fs)
        if (f->name() == n) r.push_back(f);
    return r;
}
int Schema::GetFieldIndex(const std::string& n) const { return IndexOf(fields_, n); }
std::shared_ptr<Field> Schema::GetFieldByName(const std::string& n) const {
    int i = GetFieldIndex(n);
    return i < 0 ? nullptr : fields_[i];
}
FieldVector Schema::GetAllFieldsByName(const std::string& n) const { return AllOf(fields_, n); }
std::vector<int> Schema::GetAllFieldIndices(const std::string& n) const {
    std::vector<int> r;
    for (size_t i = 0; i < fields_.size(); i++)
        if (fields_[i]->name() == n) r.push_back(static_cast<int>(i));
    return r;
}
Result<std::shared_ptr<Schema>> Schema::AddField(int i, const std::shared_ptr<Field>& f) const {
    if (i < 0 || i > num_fields()) return Status::Invalid("Invalid column index to add field.");
    auto v = fields_;
    v.insert(v.begin() + i, f);
    return schema(v, meta_);
}
Result<std::shared_ptr<Schema>> Schema::SetField(int i, const std::shared_ptr<Field>& f) const {
    if (i < 0 || i >= num_fields()) return Status::Invalid("Invalid column index to set field.");
    auto v = fields_;
    v[i] = f;
    return schema(v, meta_);
}
Result<std::shared_ptr<Schema>> Schema::RemoveField(int i) const {
    if (i < 0 || i >= num_fields()) return Status::Invalid("Invalid column index to remove field.");
    auto v = fields_;
    v.erase(v.begin() + i);
    return schema(v, meta_);
}
bool Schema::Equals(const Schema& o, bool meta) const {
    if (num_fields() != o.num_fields()) return false;
    for (int i = 0; i < num_fields(); i++)
        if (!fields_[i]->Equals(*o.fields_[i], meta)) return false;
    return !meta || MetaEq(meta_, o.meta_);
}
std::string Schema::ToString(bool meta) const {
    std::string s;
    for (size_t i = 0; i < fields_.size(); i++) s += (i ? "\n" : "") + fields_[i]->ToString(meta);
    if (meta && meta_) s += meta_->ToString();
    return s;
}
std::string TimestampType::ToString(bool) const {
    return "timestamp[" + internal::ToString(unit_) + (tz_.empty() ? "" : ", tz=" + tz_) + "]";
}
std::string Decimal128Type::ToString(bool) const {
    return "decimal128(" + std::to_string(precision()) + ", " + std::to_string(scale()) + ")";
}
std::string ListType::ToString(bool m) const { return "list<" + children_[0]->ToString(m) + ">"; }
std::string MapType::ToString(bool m) const {
    return "map<" + key_type()->ToString(m) + ", " + item_type()->ToString(m) +
           (item_field()->nullable() ? "" : " not null") + (sorted_ ? ", keys_sorted" : "") + ">";
}
std::string StructType::ToString(bool m) const {
    std::string s = "struct<";
    for (size_t i = 0; i < children_.size(); i++) s += (i ? ", " : "") + children_[i]->ToString(m);
    return s + ">";
}
std::string DictionaryType::ToString(bool) const {
    return "dictionary<values=" + v_->ToString() + ", indices=" + i_->ToString() + ", ordered=0>";
}
MapType::MapType(std::shared_ptr<Field> k, std::shared_ptr<Field> v, bool sorted) : ListType(Type::MAP), sorted_(sorted) {
    children_ = {arrow::field("entries", struct_({std::move(k), std::move(v)}), false)};
}
MapType::MapType(std::shared_ptr<DataType> k, std::shared_ptr<Field> v, bool sorted)
    : MapType(arrow::field("key", std::move(k), false), std::move(v), sorted) {}
MapType::MapType(std::shared_ptr<DataType> k, std::shared_ptr<DataType> v, bool sorted)
    : MapType(arrow::field("key", std::move(k), false), arrow::field("value", std::move(v)), sorted) {}
MapType::MapType(std::shared_ptr<Field> entries, bool sorted) : ListType(Type::MAP), sorted_(sorted) {
    children_ = {std::move(entries)};
}
int StructType::GetFieldIndex(const std::string& n) const { return IndexOf(children_, n); }
std::shared_ptr<Field> StructType::GetFieldByName(const std::string& n) const {
    int i = GetFieldIndex(n);
    return i < 0 ? nullptr : children_[i];
}
FieldVector StructType::GetAllFieldsByName(const std::string& n) const { return AllOf(children_, n); }

#define MINI_SINGLETON(FN, T)                                                  \
    const std::shared_ptr<DataType>& FN() {                                    \
        static const auto* t = new std::shared_ptr<DataType>(new T);           \
        return *t;                                                             \
    }
MINI_SINGLETON(null, NullType)
MINI_SINGLETON(boolean, BooleanType)
MINI_SINGLETON(int8, Int8Type)
MINI_SINGLETON(int16, Int16Type)
MINI_SINGLETON(int32, Int32Type)
MINI_SINGLETON(int64, Int64Type)
MINI_SINGLETON(uint8, UInt8Type)
MINI_SINGLETON(uint16, UInt16Type)
MINI_SINGLETON(uint32, UInt32Type)
MINI_SINGLETON(uint64, UInt64Type)
MINI_SINGLETON(float32, FloatType)
MINI_SINGLETON(float64, DoubleType)
MINI_SINGLETON(utf8, StringType)
MINI_SINGLETON(large_utf8, LargeStringType)
MINI_SINGLETON(binary, BinaryType)
MINI_SINGLETON(large_binary, LargeBinaryType)
MINI_SINGLETON(date32, Date32Type)
std::shared_ptr<DataType> timestamp(TimeUnit::type u) { return std::make_shared<TimestampType>(u); }
std::shared_ptr<DataType> timestamp(TimeUnit::type u, const std::string& tz) {
    return std::make_shared<TimestampType>(u, tz);
}
std::shared_ptr<DataType> decimal128(int32_t p, int32_t s) { return std::make_shared<Decimal128Type>(p, s); }
std::shared_ptr<DataType> list(const std::shared_ptr<Field>& f) { return std::make_shared<ListType>(f); }
std::shared_ptr<DataType> list(const std::shared_ptr<DataType>& t) { return std::make_shared<ListType>(t); }
std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<DataType> v, bool s) {
    return std::make_shared<MapType>(std::move(k), std::move(v), s);
}
std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<Field> v, bool s) {
    return std::make_shared<MapType>(std::move(k), std::move(v), s);
}
std::shared_ptr<DataType> struct_(const FieldVector& f) { return std::make_shared<StructType>(f); }
std::shared_ptr<DataType> dictionary(const std::shared_ptr<DataType>& i, const std::shared_ptr<DataType>& v, bool o) {
    return std::make_shared<DictionaryType>(i, v, o);
}
std::shared_ptr<DataType> fixed_size_binary(int32_t w) { return std::make_shared<FixedSizeBinaryType>(w); }

// ------------------------------------------------------------------------------------- decimal

namespace {
struct Pow10 {
    BasicDecimal128 p[39], half[39];
    Pow10() {
        __int128 v = 1;
        for (int i = 0; i < 39; i++) {
            p[i] = BasicDecimal128::Of(v);
            half[i] = BasicDecimal128::Of(v / 2);
            if (i < 38) v *= 10;
        }
    }
};
const Pow10& P10() {
    static const Pow10 p;
    return p;
}
}  // namespace
const BasicDecimal128& BasicDecimal128::GetMaxSentinel() {
    static const BasicDecimal128 v(INT64_MAX, UINT64_MAX);
    return v;
}
const BasicDecimal128& BasicDecimal128::GetMinSentinel() {
    static const BasicDecimal128 v(INT64_MIN, 0);
    return v;
}
const BasicDecimal128& BasicDecimal128::GetScaleMultiplier(int32_t s) { return P10().p[s]; }
const BasicDecimal128& BasicDecimal128::GetHalfScaleMultiplier(int32_t s) { return P10().half[s]; }
const BasicDecimal128& BasicDecimal128::GetMaxValue() {
    static const BasicDecimal128 v = GetMaxValue(38);
    return v;
}
BasicDecimal128 BasicDecimal128::GetMaxValue(int32_t p) { return Of(P10().p[p].raw() - 1); }
bool BasicDecimal128::FitsInPrecision(int32_t p) const {
    BasicDecimal128 a = *this;
    a.Abs();
    return a < P10().p[p];
}
void BasicDecimal128::GetWholeAndFraction(int32_t s, BasicDecimal128* w, BasicDecimal128* f) const {
    *w = Of(v_ / P10().p[s].raw());
    *f = Of(v_ % P10().p[s].raw());
}
BasicDecimal128 BasicDecimal128::IncreaseScaleBy(int32_t by) const { return *this * P10().p[by]; }
BasicDecimal128 BasicDecimal128::ReduceScaleBy(int32_t by, bool round) const {
    if (!by) return *this;
    __int128 m = P10().p[by].raw(), q = v_ / m, r = v_ % m;
    if (round && (r < 0 ? -r : r) >= m / 2) q += v_ < 0 ? -1 : 1;
    return Of(q);
}
std::string Decimal128::ToIntegerString() const {
    unsigned __int128 u = v_ < 0 ? -static_cast<unsigned __int128>(v_) : static_cast<unsigned __int128>(v_);
    std::string s;
    do {
        s.push_back(static_cast<char>('0' + static_cast<int>(u % 10)));
        u /= 10;
    } while (u);
    if (v_ < 0) s.push_back('-');
    std::reverse(s.begin(), s.end());
    return s;
}
std::string Decimal128::ToString(int32_t scale) const {
    std::string s = ToIntegerString();
    if (scale == 0) return s;
    int neg = s[0] == '-', len = static_cast<int>(s.size()), digits = len - neg, adj = digits - 1 - scale;
    if (scale < 0 || adj < -6) {
        s.insert(s.begin() + 1 + neg, '.');
        s += 'E';
        if (adj >= 0) s += '+';
        return s + std::to_string(adj);
    }
    if (digits > scale) {
        s.insert(s.begin() + (len - scale), '.');
        return s;
    }
    s.insert(neg, scale - digits + 2, '0');
    s[neg + 1] = '.';
    return s;
}
Status Decimal128::FromString(std::string_view t, Decimal128* out, int32_t* precision, int32_t* scale) {
    auto bad = [&] { return Status::Invalid("The string '", t, "' is not a valid decimal128 number"); };
    size_t i = 0, n = t.size();
    if (!n) return Status::Invalid("Empty string cannot be converted to decimal128");
    bool neg = false;
    if (t[i] == '+' || t[i] == '-') neg = t[i++] == '-';
    std::string whole, frac;
    while (i < n && isdigit((unsigned char)t[i])) whole += t[i++];
    if (i < n && t[i] == '.') {
        i++;
        while (i < n && isdigit((unsigned char)t[i])) frac += t[i++];
    }
    if (whole.empty() && frac.empty()) return bad();
    int32_t exp = 0;
    if (i < n && (t[i] == 'e' || t[i] == 'E')) {
        i++;
        bool eneg = false;
        if (i < n && (t[i] == '+' || t[i] == '-')) eneg = t[i++] == '-';
        size_t b = i;
        int64_t e = 0;
        while (i < n && isdigit((unsigned char)t[i])) e = std::min<int64_t>(e * 10 + (t[i++] - '0'), 100000);
        if (i == b) return bad();
        exp = static_cast<int32_t>(eneg ? -e : e);
    }
    if (i != n) return bad();
    size_t nz = whole.find_first_not_of('0');
    int32_t p = static_cast<int32_t>(frac.size() + (nz == std::string::npos ? 0 : whole.size() - nz));
    int32_t s = static_cast<int32_t>(frac.size()) - exp;
    if (p > 38) return Status::Invalid("The string '", t, "' cannot be represented as decimal128");
    __int128 v = 0;
    for (char c : whole + frac) v = v * 10 + (c - '0');
    if (neg) v = -v;
    if (s < 0) {
        if (-s > 38) return Status::Invalid("The string '", t, "' cannot be represented as decimal128");
        v = static_cast<__int128>(static_cast<unsigned __int128>(v) * static_cast<unsigned __int128>(P10().p[-s].raw()));
        p -= s;
        s = 0;
    }
    if (out) *out = Decimal128(BasicDecimal128::Of(v));
    if (precision) *precision = p;
    if (scale) *scale = s;
    return Status::OK();
}
Result<Decimal128> Decimal128::FromString(std::string_view s) {
    Decimal128 d;
    ARROW_RETURN_NOT_OK(FromString(s, &d, nullptr, nullptr));
    return d;
}
Decimal128::Decimal128(const std::string& s) { *this = FromString(s).ValueOrDie(); }
template <typename T>
static Result<Decimal128> Real(T real, int32_t p, int32_t s) {
    if (!std::isfinite(real)) return Status::Invalid("Cannot convert ", real, " to Decimal128");
    __float128 v = real, m = 1;
    for (int i = 0; i < std::abs(s); i++) m *= 10;
    v = s >= 0 ? v * m : v / m;
    __float128 lim = 1;
    for (int i = 0; i < p; i++) lim *= 10;
    if (v >= lim || v <= -lim) return Status::Invalid("Cannot convert ", real, " to Decimal128(precision = ", p, ", scale = ", s, "): overflow");
    __int128 q = static_cast<__int128>(v);
    __float128 r = v - static_cast<__float128>(q);
    __float128 a = r < 0 ? -r : r;
    if (a > 0.5 || (a == 0.5 && (q & 1))) q += v < 0 ? -1 : 1;
    if (!BasicDecimal128::Of(q).FitsInPrecision(p)) return Status::Invalid("Cannot convert ", real, " to Decimal128: overflow");
    return Decimal128(BasicDecimal128::Of(q));
}
Result<Decimal128> Decimal128::FromReal(double r, int32_t p, int32_t s) { return Real(r, p, s); }
Result<Decimal128> Decimal128::FromReal(float r, int32_t p, int32_t s) { return Real(r, p, s); }
Result<Decimal128> Decimal128::Rescale(int32_t o, int32_t n) const {
    int32_t d = n - o;
    if (!d) return *this;
    bool loss = std::abs(d) > 38;
    Decimal128 r;
    if (!loss) {
        const BasicDecimal128& m = P10().p[std::abs(d)];
        if (d < 0) {
            loss = v_ % m.raw() != 0;
            r = BasicDecimal128::Of(v_ / m.raw());
        } else {
            r = *this * m;
            loss = v_ < 0 ? r.raw() > v_ : r.raw() < v_;
        }
    }
    if (loss)
        return Status::Invalid("Rescaling Decimal128 value would cause data loss");
    return r;
}
double Decimal128::ToDouble(int32_t s) const {
    __float128 v = v_;
    for (int i = 0; i < std::abs(s); i++) v = s > 0 ? v / 10 : v * 10;
    return static_cast<double>(v);
}
float Decimal128::ToFloat(int32_t s) const {
    __float128 v = v_;
    for (int i = 0; i < std::abs(s); i++) v = s > 0 ? v / 10 : v * 10;
    return static_cast<float>(v);
}

// -------------------------------------------------------------------------------------- arrays

std::shared_ptr<ArrayData> ArrayData::Make(std::shared_ptr<DataType> t, int64_t n,
                                           std::vector<std::shared_ptr<Buffer>> b, int64_t nulls, int64_t off) {
    return Make(std::move(t), n, std::move(b), {}, nulls, off);
}
std::shared_ptr<ArrayData> ArrayData::Make(std::shared_ptr<DataType> t, int64_t n,
                                           std::vector<std::shared_ptr<Buffer>> b,
                                           std::vector<std::shared_ptr<ArrayData>> c, int64_t nulls, int64_t off) {
    auto d = std::make_shared<ArrayData>();
    d->type = std::move(t);
    d->length = n;
    d->buffers = std::move(b);
    d->child_data = std::move(c);
    d->null_count = nulls;
    d->offset = off;
    return d;
}
int64_t ArrayData::GetNullCount() const {
    if (type->id() == Type::NA) return length;
    if (null_count < 0) {
        int64_t n = 0;
        for (int64_t i = 0; i < length; i++) n += !IsValid(i);
        null_count = n;
    }
    return null_count;
}
std::shared_ptr<ArrayData> ArrayData::Slice(int64_t off, int64_t len) const {
    auto c = Copy();
    len = std::min(length - off, len);
    c->offset = offset + off;
    c->length = len;
    c->null_count = null_count == 0 ? 0 : kUnknownNullCount;
    return c;
}
std::shared_ptr<Array> MakeArray(const std::shared_ptr<ArrayData>& d) {
    switch (d->type->id()) {
        case Type::NA: return std::make_shared<NullArray>(d);
        case Type::BOOL: return std::make_shared<BooleanArray>(d);
        case Type::UINT8: return std::make_shared<UInt8Array>(d);
        case Type::INT8: return std::make_shared<Int8Array>(d);
        case Type::UINT16: return std::make_shared<UInt16Array>(d);
        case Type::INT16: return std::make_shared<Int16Array>(d);
        case Type::UINT32: return std::make_shared<UInt32Array>(d);
        case Type::INT32: return std::make_shared<Int32Array>(d);
        case Type::UINT64: return std::make_shared<UInt64Array>(d);
        case Type::INT64: return std::make_shared<Int64Array>(d);
        case Type::FLOAT: return std::make_shared<FloatArray>(d);
        case Type::DOUBLE: return std::make_shared<DoubleArray>(d);
        case Type::STRING: return std::make_shared<StringArray>(d);
        case Type::BINARY: return std::make_shared<BinaryArray>(d);
        case Type::LARGE_STRING: return std::make_shared<LargeStringArray>(d);
        case Type::LARGE_BINARY: return std::make_shared<LargeBinaryArray>(d);
        case Type::FIXED_SIZE_BINARY: return std::make_shared<FixedSizeBinaryArray>(d);
        case Type::DATE32: return std::make_shared<Date32Array>(d);
        case Type::TIMESTAMP: return std::make_shared<TimestampArray>(d);
        case Type::DECIMAL128: return std::make_shared<Decimal128Array>(d);
        case Type::LIST: return std::make_shared<ListArray>(d);
        case Type::MAP: return std::make_shared<MapArray>(d);
        case Type::STRUCT: return std::make_shared<StructArray>(d);
        case Type::DICTIONARY: return std::make_shared<DictionaryArray>(d);
        default: abort();
    }
}
std::shared_ptr<Array> Array::Slice(int64_t off, int64_t len) const { return MakeArray(data_->Slice(off, len)); }
Result<std::shared_ptr<Array>> Array::SliceSafe(int64_t off, int64_t len) const {
    if (off < 0 || len < 0 || off > length() || len > length() - off) return Status::IndexError("slice out of range");
    return Slice(off, len);
}
static Result<std::shared_ptr<ArrayData>> ViewData(const ArrayData& d, const std::shared_ptr<DataType>& t) {
    auto layout = [](const DataType& x) -> int {
        switch (x.id()) {
            case Type::STRING:
            case Type::BINARY: return -1;
            case Type::LARGE_STRING:
            case Type::LARGE_BINARY: return -2;
            case Type::LIST:
            case Type::MAP: return -3;
            case Type::STRUCT: return -4;
            case Type::NA: return -5;
            default: return x.bit_width();
        }
    };
    if (layout(*d.type) != layout(*t) || d.type->num_fields() != t->num_fields())
        return Status::Invalid("Can't view array of type ", d.type->ToString(), " as ", t->ToString(), ": incompatible layouts");
    auto c = d.Copy();
    c->type = t;
    for (size_t i = 0; i < c->child_data.size(); i++) {
        ARROW_ASSIGN_OR_RAISE(c->child_data[i], ViewData(*d.child_data[i], t->field(static_cast<int>(i))->type()));
    }
    return c;
}
Result<std::shared_ptr<Array>> Array::View(const std::shared_ptr<DataType>& t) const {
    ARROW_ASSIGN_OR_RAISE(auto d, ViewData(*data_, t));
    return MakeArray(d);
}
static std::shared_ptr<DataType> Plain(const Array& a) {
    return a.type_id() == Type::DICTIONARY ? checked_cast<const DictionaryType&>(*a.type()).value_type() : a.type();
}
static bool EqualRange(const Array& a, int64_t ai, const Array& b, int64_t bi, int64_t n);
static bool EqualAt(const Array& a, int64_t i, const Array& b, int64_t j) {
    if (a.IsNull(i) || b.IsNull(j)) return a.IsNull(i) == b.IsNull(j);
    switch (a.type_id()) {
        case Type::BOOL:
            return checked_cast<const BooleanArray&>(a).Value(i) == checked_cast<const BooleanArray&>(b).Value(j);
        case Type::STRING:
        case Type::BINARY:
            return checked_cast<const BinaryArray&>(a).GetView(i) == checked_cast<const BinaryArray&>(b).GetView(j);
        case Type::LARGE_STRING:
        case Type::LARGE_BINARY:
            return checked_cast<const LargeBinaryArray&>(a).GetView(i) ==
                   checked_cast<const LargeBinaryArray&>(b).GetView(j);
        case Type::LIST: {
            auto &x = checked_cast<const ListArray&>(a), &y = checked_cast<const ListArray&>(b);
            return x.value_length(i) == y.value_length(j) &&
                   EqualRange(*x.values(), x.value_offset(i), *y.values(), y.value_offset(j), x.value_length(i));
        }
        case Type::MAP: {
            auto &x = checked_cast<const MapArray&>(a), &y = checked_cast<const MapArray&>(b);
            return x.value_length(i) == y.value_length(j) &&
                   EqualRange(*x.keys(), x.value_offset(i), *y.keys(), y.value_offset(j), x.value_length(i)) &&
                   EqualRange(*x.items(), x.value_offset(i), *y.items(), y.value_offset(j), x.value_length(i));
        }
        case Type::STRUCT: {
            auto &x = checked_cast<const StructArray&>(a), &y = checked_cast<const StructArray&>(b);
            for (int k = 0; k < x.num_fields(); k++)
                if (!EqualAt(*x.field(k), i, *y.field(k), j)) return false;
            return true;
        }
        case Type::FLOAT:
            return checked_cast<const FloatArray&>(a).Value(i) == checked_cast<const FloatArray&>(b).Value(j);
        case Type::DOUBLE:
            return checked_cast<const DoubleArray&>(a).Value(i) == checked_cast<const DoubleArray&>(b).Value(j);
        case Type::DICTIONARY: {
            auto &x = checked_cast<const DictionaryArray&>(a), &y = checked_cast<const DictionaryArray&>(b);
            return EqualAt(*x.dictionary(), x.GetValueIndex(i), *y.dictionary(), y.GetValueIndex(j));
        }
        case Type::NA: return true;
        default: {
            int w = a.type()->bit_width() / 8;
            return !memcmp(a.data()->buffers[1]->data() + (i + a.offset()) * w,
                           b.data()->buffers[1]->data() + (j + b.offset()) * w, w);
        }
    }
}
static bool EqualRange(const Array& a, int64_t ai, const Array& b, int64_t bi, int64_t n) {
    for (int64_t k = 0; k < n; k++)
        if (!EqualAt(a, ai + k, b, bi + k)) return false;
    return true;
}
bool Array::Equals(const Array& o) const {
    return type()->Equals(*o.type()) && length() == o.length() && EqualRange(*this, 0, o, 0, length());
}
static std::string TextAt(const Array& a, int64_t i) {
    if (a.IsNull(i)) return "null";
    switch (a.type_id()) {
        case Type::LIST: {
            auto& l = checked_cast<const ListArray&>(a);
            std::string s = "[";
            for (int k = 0; k < l.value_length(i); k++) s += (k ? ", " : "") + TextAt(*l.values(), l.value_offset(i) + k);
            return s + "]";
        }
        case Type::MAP: {
            auto& l = checked_cast<const MapArray&>(a);
            std::string s = "[";
            for (int k = 0; k < l.value_length(i); k++)
                s += (k ? ", [" : "[") + TextAt(*l.keys(), l.value_offset(i) + k) + ", " +
                     TextAt(*l.items(), l.value_offset(i) + k) + "]";
            return s + "]";
        }
        case Type::STRUCT: {
            auto& t = checked_cast<const StructArray&>(a);
            std::string s = "[";
            for (int k = 0; k < t.num_fields(); k++) s += (k ? ", " : "") + TextAt(*t.field(k), i);
            return s + "]";
        }
        case Type::DICTIONARY: {
            auto& d = checked_cast<const DictionaryArray&>(a);
            return TextAt(*d.dictionary(), d.GetValueIndex(i));
        }
        case Type::STRING:
        case Type::BINARY:
        case Type::LARGE_STRING:
        case Type::LARGE_BINARY:
            return "\"" + a.GetScalar(i).ValueOrDie()->Text() + "\"";
        default: return a.GetScalar(i).ValueOrDie()->Text();
    }
}
std::string Array::ToString() const {
    std::string s = "[";
    for (int64_t i = 0; i < length(); i++) s += (i ? ", " : "") + TextAt(*this, i);
    return s + "]";
}
Result<std::shared_ptr<Scalar>> Array::GetScalar(int64_t i) const {
    if (i < 0 || i >= length()) return Status::IndexError("scalar index out of range");
    if (IsNull(i)) return MakeNullScalar(type());
    switch (type_id()) {
        case Type::BOOL: return std::shared_ptr<Scalar>(new BooleanScalar(checked_cast<const BooleanArray&>(*this).Value(i)));
#define MINI_GET(ID, N) \
    case Type::ID: return std::shared_ptr<Scalar>(new N##Scalar(checked_cast<const N##Array&>(*this).Value(i), type()));
        MINI_GET(INT8, Int8)
        MINI_GET(INT16, Int16)
        MINI_GET(INT32, Int32)
        MINI_GET(INT64, Int64)
        MINI_GET(UINT8, UInt8)
        MINI_GET(UINT16, UInt16)
        MINI_GET(UINT32, UInt32)
        MINI_GET(UINT64, UInt64)
        MINI_GET(FLOAT, Float)
        MINI_GET(DOUBLE, Double)
        MINI_GET(DATE32, Date32)
        MINI_GET(TIMESTAMP, Timestamp)
#undef MINI_GET
        case Type::STRING:
            return std::shared_ptr<Scalar>(new StringScalar(std::string(checked_cast<const BinaryArray&>(*this).GetView(i))));
        case Type::BINARY:
            return std::shared_ptr<Scalar>(new BinaryScalar(std::string(checked_cast<const BinaryArray&>(*this).GetView(i))));
        case Type::LARGE_STRING:
        case Type::LARGE_BINARY:
            return std::shared_ptr<Scalar>(new BaseBinaryScalar(
                Buffer::FromString(std::string(checked_cast<const LargeBinaryArray&>(*this).GetView(i))), type()));
        case Type::DECIMAL128:
            return std::shared_ptr<Scalar>(
                new Decimal128Scalar(Decimal128(checked_cast<const Decimal128Array&>(*this).GetValue(i)), type()));
        default: return Status::NotImplemented("GetScalar ", type()->ToString());
    }
}
ListArray::ListArray(std::shared_ptr<DataType> t, int64_t n, const std::shared_ptr<Buffer>& offs,
                     const std::shared_ptr<Array>& values, const std::shared_ptr<Buffer>& nulls, int64_t nc, int64_t off)
    : ListArray(ArrayData::Make(std::move(t), n, {nulls, offs}, {values->data()}, nc, off)) {}
void StructArray::Check() {
    assert(data_->type->id() == Type::STRUCT);
    assert(data_->type->num_fields() == num_fields());
    boxed_.resize(num_fields());
}
StructArray::StructArray(const std::shared_ptr<DataType>& t, int64_t n, const ArrayVector& c,
                         std::shared_ptr<Buffer> nulls, int64_t nc, int64_t off)
    : Array(ArrayData::Make(t, n, {std::move(nulls)}, {}, nc, off)) {
    for (auto& x : c) data_->child_data.push_back(x->data());
    Check();
}
Result<std::shared_ptr<StructArray>> StructArray::Make(const ArrayVector& c, const std::vector<std::string>& names,
                                                       std::shared_ptr<Buffer> nulls, int64_t nc, int64_t off) {
    if (c.size() != names.size()) return Status::Invalid("Mismatching number of field names and child arrays");
    FieldVector f;
    for (size_t i = 0; i < c.size(); i++) f.push_back(arrow::field(names[i], c[i]->type()));
    return Make(c, f, std::move(nulls), nc, off);
}
Result<std::shared_ptr<StructArray>> StructArray::Make(const ArrayVector& c, const FieldVector& f,
                                                       std::shared_ptr<Buffer> nulls, int64_t nc, int64_t off) {
    if (c.size() != f.size()) return Status::Invalid("Mismatching number of fields and child arrays");
    if (c.empty()) return Status::Invalid("Can't infer struct array length with 0 child arrays");
    int64_t n = c[0]->length();
    for (auto& x : c)
        if (x->length() != n) return Status::Invalid("Mismatching child array lengths");
    if (off > n) return Status::IndexError("Offset greater than length of child arrays");
    if (!nulls && nc > 0) return Status::Invalid("null_count = ", nc, " but no null bitmap given");
    return std::make_shared<StructArray>(struct_(f), n - off, c, nulls, nulls ? nc : 0, off);
}
const std::shared_ptr<Array>& StructArray::field(int i) const {
    if (!boxed_[i]) {
        auto d = data_->child_data[i];
        if (data_->offset != 0 || d->length != data_->length) d = d->Slice(data_->offset, data_->length);
        boxed_[i] = MakeArray(d);
    }
    return boxed_[i];
}
const ArrayVector& StructArray::fields() const {
    for (int i = 0; i < num_fields(); i++) field(i);
    return boxed_;
}
std::shared_ptr<Array> StructArray::GetFieldByName(const std::string& n) const {
    int i = struct_type()->GetFieldIndex(n);
    return i < 0 ? nullptr : field(i);
}
Result<ArrayVector> StructArray::Flatten(MemoryPool* pool) const {
    if (!null_count()) return fields();
    ArrayVector out;
    for (int k = 0; k < num_fields(); k++) {
        std::unique_ptr<ArrayBuilder> b;
        ARROW_RETURN_NOT_OK(MakeBuilder(pool, field(k)->type(), &b));
        for (int64_t i = 0; i < length(); i++)
            ARROW_RETURN_NOT_OK(IsNull(i) ? b->AppendNull() : AppendElement(b.get(), *field(k), i));
        std::shared_ptr<Array> a;
        ARROW_RETURN_NOT_OK(b->Finish(&a));
        out.push_back(a);
    }
    return out;
}
MapArray::MapArray(std::shared_ptr<ArrayData> d) : ListArray(std::move(d)) {
    auto& e = data_->child_data[0];
    keys_ = MakeArray(e->child_data[0]->Slice(e->offset, e->length));
    items_ = MakeArray(e->child_data[1]->Slice(e->offset, e->length));
}
MapArray::MapArray(const std::shared_ptr<DataType>& t, int64_t n, const std::shared_ptr<Buffer>& offs,
                   const std::shared_ptr<Array>& k, const std::shared_ptr<Array>& v,
                   const std::shared_ptr<Buffer>& nulls, int64_t nc, int64_t off)
    : MapArray(ArrayData::Make(t, n, {nulls, offs},
                               {ArrayData::Make(checked_cast<const MapType&>(*t).value_type(), k->length(), {nullptr},
                                                {k->data(), v->data()}, 0)},
                               nc, off)) {}
DictionaryArray::DictionaryArray(std::shared_ptr<ArrayData> d) : Array(std::move(d)) {
    auto i = data_->Copy();
    i->type = checked_cast<const DictionaryType&>(*data_->type).index_type();
    i->dictionary = nullptr;
    indices_ = MakeArray(i);
    dict_ = MakeArray(data_->dictionary);
}
static std::shared_ptr<ArrayData> DictData(const std::shared_ptr<DataType>& t, const std::shared_ptr<Array>& i,
                                           const std::shared_ptr<Array>& dict) {
    auto d = i->data()->Copy();
    d->type = t;
    d->dictionary = dict->data();
    return d;
}
DictionaryArray::DictionaryArray(const std::shared_ptr<DataType>& t, const std::shared_ptr<Array>& i,
                                 const std::shared_ptr<Array>& dict)
    : DictionaryArray(DictData(t, i, dict)) {}
Result<std::shared_ptr<Array>> DictionaryArray::FromArrays(const std::shared_ptr<DataType>& t,
                                                           const std::shared_ptr<Array>& i,
                                                           const std::shared_ptr<Array>& dict) {
    return std::shared_ptr<Array>(std::make_shared<DictionaryArray>(t, i, dict));
}
int64_t DictionaryArray::GetValueIndex(int64_t i) const {
    switch (indices_->type_id()) {
        case Type::INT8: return checked_cast<const Int8Array&>(*indices_).Value(i);
        case Type::INT16: return checked_cast<const Int16Array&>(*indices_).Value(i);
        case Type::INT32: return checked_cast<const Int32Array&>(*indices_).Value(i);
        case Type::INT64: return checked_cast<const Int64Array&>(*indices_).Value(i);
        case Type::UINT8: return checked_cast<const UInt8Array&>(*indices_).Value(i);
        case Type::UINT32: return checked_cast<const UInt32Array&>(*indices_).Value(i);
        default: abort();
    }
}

Result<std::shared_ptr<Array>> MakeArrayOfNull(const std::shared_ptr<DataType>& t, int64_t n, MemoryPool* pool) {
    if (t->id() == Type::DICTIONARY) {
        auto& dt = checked_cast<const DictionaryType&>(*t);
        ARROW_ASSIGN_OR_RAISE(auto i, MakeArrayOfNull(dt.index_type(), n, pool));
        ARROW_ASSIGN_OR_RAISE(auto d, MakeArrayOfNull(dt.value_type(), 0, pool));
        return DictionaryArray::FromArrays(t, i, d);
    }
    std::unique_ptr<ArrayBuilder> b;
    ARROW_RETURN_NOT_OK(MakeBuilder(pool, t, &b));
    ARROW_RETURN_NOT_OK(b->AppendNulls(n));
    return b->Finish();
}
Result<std::shared_ptr<Array>> MakeArrayFromScalar(const Scalar& s, int64_t n, MemoryPool* pool) {
    if (!s.is_valid) return MakeArrayOfNull(s.type, n, pool);
    std::unique_ptr<ArrayBuilder> b;
    ARROW_RETURN_NOT_OK(MakeBuilder(pool, s.type, &b));
    for (int64_t i = 0; i < n; i++) ARROW_RETURN_NOT_OK(s.AppendTo(b.get()));
    return b->Finish();
}
Result<std::shared_ptr<Array>> MakeEmptyArray(std::shared_ptr<DataType> t, MemoryPool* pool) {
    return MakeArrayOfNull(t, 0, pool);
}
Result<std::shared_ptr<Array>> Concatenate(const ArrayVector& as, MemoryPool* pool) {
    if (as.empty()) return Status::Invalid("Must pass at least one array");
    std::unique_ptr<ArrayBuilder> b;
    ARROW_RETURN_NOT_OK(MakeBuilder(pool, Plain(*as[0]), &b));
    for (auto& a : as) {
        if (!a->type()->Equals(*as[0]->type()))
            return Status::Invalid("arrays to be concatenated must be identically typed, but ", as[0]->type()->ToString(),
                                   " and ", a->type()->ToString(), " were encountered.");
        for (int64_t i = 0; i < a->length(); i++) ARROW_RETURN_NOT_OK(AppendElement(b.get(), *a, i));
    }
    return b->Finish();
}

// ------------------------------------------------------------------------------------ builders

std::shared_ptr<Buffer> ArrayBuilder::Validity(int64_t* nulls) {
    *nulls = null_count();
    if (!*nulls) return nullptr;
    std::vector<uint8_t> bits(bit_util::BytesForBits(length()));
    for (int64_t i = 0; i < length(); i++)
        if (valid_[i]) bit_util::SetBit(bits.data(), i);
    return MakeBuffer(bits.data(), bits.size(), pool_);
}
Status BooleanBuilder::FinishData(std::shared_ptr<ArrayData>* out) {
    int64_t nulls;
    auto b = Validity(&nulls);
    std::vector<uint8_t> bits(bit_util::BytesForBits(length()));
    for (int64_t i = 0; i < length(); i++)
        if (v_[i]) bit_util::SetBit(bits.data(), i);
    *out = ArrayData::Make(boolean(), length(), {b, MakeBuffer(bits.data(), bits.size(), pool_)}, nulls);
    return Status::OK();
}
Status ListBuilder::FinishData(std::shared_ptr<ArrayData>* out) {
    int64_t nulls;
    auto b = Validity(&nulls);
    auto offs = offs_;
    offs.push_back(static_cast<int32_t>(v_->length()));
    std::shared_ptr<ArrayData> c;
    ARROW_RETURN_NOT_OK(v_->FinishData(&c));
    *out = ArrayData::Make(type(), length(), {b, MakeBuffer(offs.data(), offs.size() * 4, pool_)}, {c}, nulls);
    return Status::OK();
}
Status MapBuilder::FinishData(std::shared_ptr<ArrayData>* out) {
    int64_t nulls;
    auto b = Validity(&nulls);
    auto offs = offs_;
    offs.push_back(static_cast<int32_t>(k_->length()));
    if (k_->length() != v_->length()) return Status::Invalid("keys and items builders don't have the same size in MapBuilder");
    std::shared_ptr<ArrayData> k, v;
    ARROW_RETURN_NOT_OK(k_->FinishData(&k));
    ARROW_RETURN_NOT_OK(v_->FinishData(&v));
    auto entries = ArrayData::Make(checked_cast<const MapType&>(*t_).value_type(), k->length, {nullptr}, {k, v}, 0);
    *out = ArrayData::Make(t_, length(), {b, MakeBuffer(offs.data(), offs.size() * 4, pool_)}, {entries}, nulls);
    return Status::OK();
}
Status StructBuilder::FinishData(std::shared_ptr<ArrayData>* out) {
    int64_t nulls;
    auto b = Validity(&nulls);
    std::vector<std::shared_ptr<ArrayData>> c(f_.size());
    for (size_t i = 0; i < f_.size(); i++) {
        if (f_[i]->length() != length())
            return Status::Invalid("struct child ", i, " has length ", f_[i]->length(), ", expected ", length());
        ARROW_RETURN_NOT_OK(f_[i]->FinishData(&c[i]));
    }
    *out = ArrayData::Make(t_, length(), {b}, c, nulls);
    return Status::OK();
}
Status MakeBuilder(MemoryPool* p, const std::shared_ptr<DataType>& t, std::unique_ptr<ArrayBuilder>* out) {
    if (!p) p = default_memory_pool();
    switch (t->id()) {
#define MINI_MAKE(ID, B) \
    case Type::ID: out->reset(new B(t, p)); return Status::OK();
        MINI_MAKE(BOOL, BooleanBuilder)
        MINI_MAKE(UINT8, UInt8Builder)
        MINI_MAKE(INT8, Int8Builder)
        MINI_MAKE(UINT16, UInt16Builder)
        MINI_MAKE(INT16, Int16Builder)
        MINI_MAKE(UINT32, UInt32Builder)
        MINI_MAKE(INT32, Int32Builder)
        MINI_MAKE(UINT64, UInt64Builder)
        MINI_MAKE(INT64, Int64Builder)
        MINI_MAKE(FLOAT, FloatBuilder)
        MINI_MAKE(DOUBLE, DoubleBuilder)
        MINI_MAKE(DATE32, Date32Builder)
        MINI_MAKE(TIMESTAMP, TimestampBuilder)
        MINI_MAKE(STRING, StringBuilder)
        MINI_MAKE(BINARY, BinaryBuilder)
        MINI_MAKE(LARGE_STRING, LargeStringBuilder)
        MINI_MAKE(LARGE_BINARY, LargeBinaryBuilder)
        MINI_MAKE(FIXED_SIZE_BINARY, FixedSizeBinaryBuilder)
        MINI_MAKE(DECIMAL128, Decimal128Builder)
#undef MINI_MAKE
        case Type::NA: out->reset(new NullBuilder(p)); return Status::OK();
        case Type::LIST: {
            std::unique_ptr<ArrayBuilder> v;
            ARROW_RETURN_NOT_OK(MakeBuilder(p, t->field(0)->type(), &v));
            out->reset(new ListBuilder(p, std::shared_ptr<ArrayBuilder>(std::move(v)), t));
            return Status::OK();
        }
        case Type::MAP: {
            auto& m = checked_cast<const MapType&>(*t);
            std::unique_ptr<ArrayBuilder> k, v;
            ARROW_RETURN_NOT_OK(MakeBuilder(p, m.key_type(), &k));
            ARROW_RETURN_NOT_OK(MakeBuilder(p, m.item_type(), &v));
            out->reset(new MapBuilder(p, std::shared_ptr<ArrayBuilder>(std::move(k)),
                                      std::shared_ptr<ArrayBuilder>(std::move(v)), t));
            return Status::OK();
        }
        case Type::STRUCT: {
            std::vector<std::shared_ptr<ArrayBuilder>> f;
            for (auto& x : t->fields()) {
                std::unique_ptr<ArrayBuilder> b;
                ARROW_RETURN_NOT_OK(MakeBuilder(p, x->type(), &b));
                f.emplace_back(std::move(b));
            }
            out->reset(new StructBuilder(t, p, std::move(f)));
            return Status::OK();
        }
        default: return Status::NotImplemented("MakeBuilder: ", t->ToString());
    }
}
Result<std::unique_ptr<ArrayBuilder>> MakeBuilder(const std::shared_ptr<DataType>& t, MemoryPool* p) {
    std::unique_ptr<ArrayBuilder> b;
    ARROW_RETURN_NOT_OK(MakeBuilder(p, t, &b));
    return b;
}
Status AppendElement(ArrayBuilder* b, const Array& a, int64_t i) {
    if (a.IsNull(i)) return b->AppendNull();
    switch (a.type_id()) {
        case Type::LIST: {
            auto& l = checked_cast<const ListArray&>(a);
            auto* lb = checked_cast<ListBuilder*>(b);
            ARROW_RETURN_NOT_OK(lb->Append());
            for (int k = 0; k < l.value_length(i); k++)
                ARROW_RETURN_NOT_OK(AppendElement(lb->value_builder(), *l.values(), l.value_offset(i) + k));
            return Status::OK();
        }
        case Type::MAP: {
            auto& l = checked_cast<const MapArray&>(a);
            auto* mb = checked_cast<MapBuilder*>(b);
            ARROW_RETURN_NOT_OK(mb->Append());
            for (int k = 0; k < l.value_length(i); k++) {
                ARROW_RETURN_NOT_OK(AppendElement(mb->key_builder(), *l.keys(), l.value_offset(i) + k));
                ARROW_RETURN_NOT_OK(AppendElement(mb->item_builder(), *l.items(), l.value_offset(i) + k));
            }
            return Status::OK();
        }
        case Type::STRUCT: {
            auto& s = checked_cast<const StructArray&>(a);
            auto* sb = checked_cast<StructBuilder*>(b);
            ARROW_RETURN_NOT_OK(sb->Append());
            for (int k = 0; k < s.num_fields(); k++) ARROW_RETURN_NOT_OK(AppendElement(sb->field_builder(k), *s.field(k), i));
            return Status::OK();
        }
        case Type::DICTIONARY: {
            auto& d = checked_cast<const DictionaryArray&>(a);
            return AppendElement(b, *d.dictionary(), d.GetValueIndex(i));
        }
        case Type::FIXED_SIZE_BINARY:
            return checked_cast<FixedSizeBinaryBuilder*>(b)->Append(checked_cast<const FixedSizeBinaryArray&>(a).GetValue(i));
        default: {
            ARROW_ASSIGN_OR_RAISE(auto s, a.GetScalar(i));
            return s->AppendTo(b);
        }
    }
}

// ------------------------------------------------------------------------------------- scalars

std::string Scalar::ToString() const { return is_valid ? Text() : "null"; }
template <typename T>
static std::string FormatRealT(T v) {
    if (std::isnan(v)) return "nan";
    if (std::isinf(v)) return v < 0 ? "-inf" : "inf";
    // Shortest digits that read back as the same value, in the layout of Arrow's formatter.
    char buf[64];
    int p = 1;
    for (; p <= 17; p++) {
        snprintf(buf, sizeof buf, "%.*e", p - 1, static_cast<double>(v));
        if (static_cast<T>(std::is_same_v<T, float> ? strtof(buf, nullptr) : strtod(buf, nullptr)) == v) break;
    }
    std::string s = buf, digits;
    bool neg = s[0] == '-';
    size_t e = s.find('e');
    int exp = atoi(s.c_str() + e + 1);
    for (size_t i = neg; i < e; i++)
        if (s[i] != '.') digits += s[i];
    while (digits.size() > 1 && digits.back() == '0') digits.pop_back();
    std::string r = neg ? "-" : "";
    int n = static_cast<int>(digits.size());
    if (exp >= -6 && exp < 10) {
        if (exp < 0) r += "0." + std::string(-exp - 1, '0') + digits;
        else if (n <= exp + 1) r += digits + std::string(exp + 1 - n, '0') + ".0";
        else r += digits.substr(0, exp + 1) + "." + digits.substr(exp + 1);
    } else {
        r += digits.substr(0, 1);
        if (n > 1) r += "." + digits.substr(1);
        r += "e" + std::string(exp < 0 ? "-" : "+") + (std::abs(exp) < 10 ? "0" : "") + std::to_string(std::abs(exp));
    }
    return r;
}
std::string FormatReal(double v) { return FormatRealT(v); }
std::string FormatReal(float v) { return FormatRealT(v); }
Status BaseBinaryScalar::AppendTo(ArrayBuilder* b) const {
    if (auto* s = dynamic_cast<BaseBinaryBuilder<BinaryType>*>(b)) return s->Append(view());
    return checked_cast<BaseBinaryBuilder<LargeBinaryType>*>(b)->Append(view());
}
std::string Decimal128Scalar::Text() const {
    return value.ToString(checked_cast<const Decimal128Type&>(*type).scale());
}
std::shared_ptr<Scalar> MakeNullScalar(std::shared_ptr<DataType> t) {
    // The typed scalars' value member must be reachable after a cast, as in Arrow.
    std::shared_ptr<Scalar> s;
    switch (t->id()) {
        case Type::BOOL: s = std::make_shared<BooleanScalar>(false, t); break;
        case Type::INT8: s = std::make_shared<Int8Scalar>(0, t); break;
        case Type::INT16: s = std::make_shared<Int16Scalar>(0, t); break;
        case Type::INT32: s = std::make_shared<Int32Scalar>(0, t); break;
        case Type::INT64: s = std::make_shared<Int64Scalar>(0, t); break;
        case Type::FLOAT: s = std::make_shared<FloatScalar>(0, t); break;
        case Type::DOUBLE: s = std::make_shared<DoubleScalar>(0, t); break;
        case Type::DATE32: s = std::make_shared<Date32Scalar>(0, t); break;
        case Type::TIMESTAMP: s = std::make_shared<TimestampScalar>(0, t); break;
        case Type::STRING: s = std::make_shared<StringScalar>(std::shared_ptr<Buffer>(), t); break;
        case Type::BINARY: s = std::make_shared<BinaryScalar>(std::shared_ptr<Buffer>(), t); break;
        case Type::DECIMAL128: s = std::make_shared<Decimal128Scalar>(Decimal128(), t); break;
        default: s = std::make_shared<NullScalar>(t);
    }
    s->is_valid = false;
    return s;
}

// -------------------------------------------------------------------------------------- compute

namespace compute {
namespace {
bool Num(Type::type t) { return t >= Type::UINT8 && t <= Type::DOUBLE; }
bool Int(Type::type t) { return t >= Type::UINT8 && t <= Type::INT64; }
bool Str(Type::type t) {
    return t == Type::STRING || t == Type::BINARY || t == Type::LARGE_STRING || t == Type::LARGE_BINARY;
}
const int64_t kPer[] = {1, 1000, 1000000, 1000000000};
int64_t FloorDiv(int64_t a, int64_t b) { return a / b - (a % b < 0); }
void Civil(int64_t z, int* y, int* m, int* d) {
    z += 719468;
    int64_t era = FloorDiv(z, 146097);
    unsigned doe = static_cast<unsigned>(z - era * 146097);
    unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    int64_t yy = static_cast<int64_t>(yoe) + era * 400;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    *d = static_cast<int>(doy - (153 * mp + 2) / 5 + 1);
    *m = static_cast<int>(mp < 10 ? mp + 3 : mp - 9);
    *y = static_cast<int>(yy + (*m <= 2));
}
int64_t Days(int64_t y, int m, int d) {
    y -= m <= 2;
    int64_t era = FloorDiv(y, 400);
    unsigned yoe = static_cast<unsigned>(y - era * 400);
    unsigned doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5 + d - 1;
    unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + static_cast<int64_t>(doe) - 719468;
}
std::string DateText(int64_t days) {
    int y, m, d;
    Civil(days, &y, &m, &d);
    char b[40];
    snprintf(b, sizeof b, y < 0 ? "-%04d-%02d-%02d" : "%04d-%02d-%02d", std::abs(y), m, d);
    return b;
}
// Offset of the zone in seconds; only fixed zones exist here.
Result<int64_t> ZoneOffset(const std::string& tz) {
    if (tz.empty() || tz == "UTC" || tz == "GMT" || tz == "Etc/UTC" || tz == "Z") return int64_t(0);
    if (tz == "Asia/Shanghai" || tz == "+08:00") return int64_t(8 * 3600);
    return Status::Invalid("Cannot locate timezone '", tz, "'");
}
bool ParseDate(std::string_view s, int64_t* days) {
    if (s.size() != 10 || s[4] != '-' || s[7] != '-') return false;
    for (int i : {0, 1, 2, 3, 5, 6, 8, 9})
        if (!isdigit((unsigned char)s[i])) return false;
    int y = atoi(std::string(s.substr(0, 4)).c_str()), m = atoi(std::string(s.substr(5, 2)).c_str()),
        d = atoi(std::string(s.substr(8, 2)).c_str());
    static const int len[] = {31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    if (m < 1 || m > 12 || d < 1 || d > len[m - 1]) return false;
    if (m == 2 && d == 29 && !(y % 4 == 0 && (y % 100 != 0 || y % 400 == 0))) return false;
    *days = Days(y, m, d);
    return true;
}
bool ParseTimestamp(std::string_view s, TimeUnit::type u, int64_t* out) {
    int64_t days;
    if (s.size() < 10 || !ParseDate(s.substr(0, 10), &days)) return false;
    int64_t sec = days * 86400, frac = 0;
    std::string_view r = s.substr(10);
    if (!r.empty()) {
        if (r[0] != ' ' && r[0] != 'T') return false;
        r.remove_prefix(1);
        int part[3] = {0, 0, 0}, k = 0;
        while (k < 3) {
            if (r.size() < 2 || !isdigit((unsigned char)r[0]) || !isdigit((unsigned char)r[1])) return false;
            part[k++] = (r[0] - '0') * 10 + r[1] - '0';
            r.remove_prefix(2);
            if (k < 3 && !r.empty() && r[0] == ':') r.remove_prefix(1);
            else break;
        }
        if (part[0] > 23 || part[1] > 59 || part[2] > 59) return false;
        sec += part[0] * 3600 + part[1] * 60 + part[2];
        if (!r.empty() && r[0] == '.') {
            r.remove_prefix(1);
            int max = u * 3;
            if (k != 3 || r.empty() || static_cast<int>(r.size()) > max) return false;
            for (int i = 0; i < max; i++) {
                frac *= 10;
                if (i < static_cast<int>(r.size())) {
                    if (!isdigit((unsigned char)r[i])) return false;
                    frac += r[i] - '0';
                }
            }
            r = {};
        }
        if (!r.empty()) return false;
    }
    *out = sec * kPer[u] + frac;
    return true;
}
Result<std::shared_ptr<Scalar>> One(const Scalar& v, const std::shared_ptr<DataType>& to, const CastOptions& o);

template <typename T>
Result<std::shared_ptr<Scalar>> FromInt(__int128 x, const std::shared_ptr<DataType>& to, bool wrap) {
    using C = typename T::c_type;
    if constexpr (std::is_integral_v<C>) {
        if (!wrap && (x < std::numeric_limits<C>::min() || x > std::numeric_limits<C>::max()))
            return Status::Invalid("Integer value ", static_cast<int64_t>(x), " not in range");
    }
    return std::shared_ptr<Scalar>(new NumericScalar<T>(static_cast<C>(x), to));
}
template <typename T>
Result<std::shared_ptr<Scalar>> FromReal(double x, const std::shared_ptr<DataType>& to, bool trunc) {
    using C = typename T::c_type;
    if constexpr (std::is_integral_v<C>) {
        C c;
        // Out-of-range conversions give what x86-64 gives; Arrow inherits that.
        if (!(x >= -9223372036854775808.0 && x < 9223372036854775808.0)) c = static_cast<C>(INT64_MIN);
        else if (sizeof(C) <= 4 && !(x > -2147483649.0 && x < 2147483648.0)) c = static_cast<C>(INT32_MIN);
        else c = static_cast<C>(static_cast<int64_t>(x));
        if (!trunc && static_cast<double>(c) != x) return Status::Invalid("Float value ", x, " was truncated converting to ", to->ToString());
        return std::shared_ptr<Scalar>(new NumericScalar<T>(c, to));
    } else {
        return std::shared_ptr<Scalar>(new NumericScalar<T>(static_cast<C>(x), to));
    }
}
#define MINI_NUMERIC_SWITCH(ID, CALL)              \
    switch (ID) {                                  \
        case Type::INT8: return CALL(Int8Type);    \
        case Type::INT16: return CALL(Int16Type);  \
        case Type::INT32: return CALL(Int32Type);  \
        case Type::INT64: return CALL(Int64Type);  \
        case Type::UINT8: return CALL(UInt8Type);  \
        case Type::UINT16: return CALL(UInt16Type);\
        case Type::UINT32: return CALL(UInt32Type);\
        case Type::UINT64: return CALL(UInt64Type);\
        case Type::FLOAT: return CALL(FloatType);  \
        case Type::DOUBLE: return CALL(DoubleType);\
        default: break;                            \
    }
bool GetInt(const Scalar& v, __int128* x) {
    switch (v.type->id()) {
        case Type::BOOL: *x = checked_cast<const BooleanScalar&>(v).value; return true;
        case Type::INT8: *x = checked_cast<const Int8Scalar&>(v).value; return true;
        case Type::INT16: *x = checked_cast<const Int16Scalar&>(v).value; return true;
        case Type::INT32: *x = checked_cast<const Int32Scalar&>(v).value; return true;
        case Type::INT64: *x = checked_cast<const Int64Scalar&>(v).value; return true;
        case Type::UINT8: *x = checked_cast<const UInt8Scalar&>(v).value; return true;
        case Type::UINT16: *x = checked_cast<const UInt16Scalar&>(v).value; return true;
        case Type::UINT32: *x = checked_cast<const UInt32Scalar&>(v).value; return true;
        case Type::UINT64: *x = checked_cast<const UInt64Scalar&>(v).value; return true;
        case Type::DATE32: *x = checked_cast<const Date32Scalar&>(v).value; return true;
        case Type::TIMESTAMP: *x = checked_cast<const NumericScalar<TimestampType>&>(v).value; return true;
        default: return false;
    }
}
Result<std::shared_ptr<Scalar>> StringResult(std::string s, const std::shared_ptr<DataType>& to) {
    if (to->id() == Type::STRING) return std::shared_ptr<Scalar>(new StringScalar(std::move(s)));
    if (to->id() == Type::BINARY) return std::shared_ptr<Scalar>(new BinaryScalar(std::move(s)));
    return std::shared_ptr<Scalar>(new BaseBinaryScalar(Buffer::FromString(std::move(s)), to));
}
Result<std::shared_ptr<Scalar>> ParseNumber(std::string_view s, const std::shared_ptr<DataType>& to) {
    auto bad = [&] { return Status::Invalid("Failed to parse string: '", s, "' as a scalar of type ", to->ToString()); };
    if (to->id() == Type::FLOAT || to->id() == Type::DOUBLE) {
        double d;
        float f;
        if (to->id() == Type::FLOAT) {
            if (!internal::StringToFloat(s.data(), s.size(), '.', &f)) return bad();
            return std::shared_ptr<Scalar>(new FloatScalar(f, to));
        }
        if (!internal::StringToFloat(s.data(), s.size(), '.', &d)) return bad();
        return std::shared_ptr<Scalar>(new DoubleScalar(d, to));
    }
    size_t i = 0;
    bool neg = !s.empty() && s[0] == '-';
    if (neg) i++;
    if (i == s.size()) return bad();
    __int128 x = 0;
    for (; i < s.size(); i++) {
        if (!isdigit((unsigned char)s[i])) return bad();
        x = x * 10 + (s[i] - '0');
        if (x > (static_cast<__int128>(1) << 70)) return bad();
    }
    if (neg) x = -x;
    Result<std::shared_ptr<Scalar>> r = bad();
#define CALL(T) FromInt<T>(x, to, false)
    auto go = [&]() -> Result<std::shared_ptr<Scalar>> {
        MINI_NUMERIC_SWITCH(to->id(), CALL)
        return bad();
    };
#undef CALL
    r = go();
    return r.ok() ? r : Result<std::shared_ptr<Scalar>>(bad());
}
Result<std::shared_ptr<Scalar>> One(const Scalar& v, const std::shared_ptr<DataType>& to, const CastOptions& o) {
    auto from = v.type;
    Type::type f = from->id(), t = to->id();
    auto no = [&] { return Status::NotImplemented("Unsupported cast from ", from->ToString(), " to ", to->ToString()); };
    __int128 x = 0;
    if (f == Type::TIMESTAMP && t == Type::TIMESTAMP) {
        auto &a = checked_cast<const TimestampType&>(*from), &b = checked_cast<const TimestampType&>(*to);
        int64_t val = checked_cast<const NumericScalar<TimestampType>&>(v).value, out;
        if (a.unit() <= b.unit()) {
            if (__builtin_mul_overflow(val, kPer[b.unit()] / kPer[a.unit()], &out) && !o.allow_time_overflow)
                return Status::Invalid("Casting from ", from->ToString(), " to ", to->ToString(), " would result in out of bounds timestamp: ", val);
        } else {
            int64_t k = kPer[a.unit()] / kPer[b.unit()];
            out = val / k;
            if (!o.allow_time_truncate && out * k != val)
                return Status::Invalid("Casting from ", from->ToString(), " to ", to->ToString(), " would lose data: ", val);
        }
        return std::shared_ptr<Scalar>(new TimestampScalar(out, to));
    }
    if (f == Type::TIMESTAMP && (t == Type::DATE32 || t == Type::STRING || t == Type::LARGE_STRING)) {
        auto& a = checked_cast<const TimestampType&>(*from);
        int64_t val = checked_cast<const NumericScalar<TimestampType>&>(v).value;
        ARROW_ASSIGN_OR_RAISE(int64_t off, ZoneOffset(a.timezone()));
        val += off * kPer[a.unit()];
        int64_t per = kPer[a.unit()], day = 86400 * per, days = FloorDiv(val, day), rest = val - days * day;
        if (t == Type::DATE32) return std::shared_ptr<Scalar>(new Date32Scalar(static_cast<int32_t>(days), to));
        int64_t sec = rest / per, frac = rest % per;
        char b[64];
        snprintf(b, sizeof b, " %02d:%02d:%02d", static_cast<int>(sec / 3600), static_cast<int>(sec / 60 % 60), static_cast<int>(sec % 60));
        std::string s = DateText(days) + b;
        if (a.unit()) {
            snprintf(b, sizeof b, ".%0*" PRId64, a.unit() * 3, frac);
            s += b;
        }
        if (!a.timezone().empty()) s += off ? "+0800" : "Z";
        return StringResult(s, to);
    }
    if (f == Type::DATE32 && t == Type::TIMESTAMP) {
        int64_t days = checked_cast<const Date32Scalar&>(v).value, out;
        if (__builtin_mul_overflow(days * 86400, kPer[checked_cast<const TimestampType&>(*to).unit()], &out))
            return Status::Invalid("Casting from date32 to ", to->ToString(), " would result in out of bounds timestamp");
        return std::shared_ptr<Scalar>(new TimestampScalar(out, to));
    }
    if (f == Type::DATE32 && t == Type::STRING) return StringResult(DateText(checked_cast<const Date32Scalar&>(v).value), to);
    if (Str(f) && Str(t)) return StringResult(std::string(checked_cast<const BaseBinaryScalar&>(v).view()), to);
    if (Str(f)) {
        auto s = checked_cast<const BaseBinaryScalar&>(v).view();
        if (Num(t)) return ParseNumber(s, to);
        int64_t out;
        if (t == Type::DATE32) {
            if (!ParseDate(s, &out)) return Status::Invalid("Failed to parse string: '", s, "' as a scalar of type date32");
            return std::shared_ptr<Scalar>(new Date32Scalar(static_cast<int32_t>(out), to));
        }
        if (t == Type::TIMESTAMP) {
            if (!ParseTimestamp(s, checked_cast<const TimestampType&>(*to).unit(), &out))
                return Status::Invalid("Failed to parse string: '", s, "' as a scalar of type ", to->ToString());
            return std::shared_ptr<Scalar>(new TimestampScalar(out, to));
        }
        if (t == Type::DECIMAL128) {
            auto& d = checked_cast<const Decimal128Type&>(*to);
            Decimal128 val;
            int32_t p, sc;
            ARROW_RETURN_NOT_OK(Decimal128::FromString(s, &val, &p, &sc));
            ARROW_ASSIGN_OR_RAISE(val, val.Rescale(sc, d.scale()));
            if (!val.FitsInPrecision(d.precision())) return Status::Invalid("Decimal value does not fit in precision");
            return std::shared_ptr<Scalar>(new Decimal128Scalar(val, to));
        }
        return no();
    }
    if (f == Type::DECIMAL128) {
        auto& d = checked_cast<const Decimal128Type&>(*from);
        Decimal128 val = checked_cast<const Decimal128Scalar&>(v).value;
        if (t == Type::DECIMAL128) {
            auto& e = checked_cast<const Decimal128Type&>(*to);
            if (o.allow_decimal_truncate) {
                int32_t delta = e.scale() - d.scale();
                val = delta < 0 ? Decimal128(val.ReduceScaleBy(-delta, false)) : Decimal128(val.IncreaseScaleBy(delta));
            } else {
                ARROW_ASSIGN_OR_RAISE(val, val.Rescale(d.scale(), e.scale()));
                if (!val.FitsInPrecision(e.precision())) return Status::Invalid("Decimal value does not fit in precision ", e.precision());
            }
            return std::shared_ptr<Scalar>(new Decimal128Scalar(val, to));
        }
        if (t == Type::FLOAT) return std::shared_ptr<Scalar>(new FloatScalar(val.ToFloat(d.scale()), to));
        if (t == Type::DOUBLE) return std::shared_ptr<Scalar>(new DoubleScalar(val.ToDouble(d.scale()), to));
        if (Int(t)) {
            __int128 m = d.scale() >= 0 ? BasicDecimal128::GetScaleMultiplier(d.scale()).raw() : 1;
            if (!o.allow_decimal_truncate && val.raw() % m) return Status::Invalid("Rescaling Decimal128 value would cause data loss");
            x = val.raw() / m;
            if (!o.allow_int_overflow && (x < INT64_MIN || x > INT64_MAX)) return Status::Invalid("Integer value out of bounds");
#define CALL(T) FromInt<T>(x, to, o.allow_int_overflow)
            MINI_NUMERIC_SWITCH(t, CALL)
#undef CALL
        }
        if (Str(t)) return StringResult(val.ToString(d.scale()), to);
        return no();
    }
    if (GetInt(v, &x)) {
        if (t == Type::BOOL) return std::shared_ptr<Scalar>(new BooleanScalar(x != 0));
        if (Num(t) && f != Type::DATE32 && f != Type::TIMESTAMP) {
            if (!o.allow_float_truncate && f != Type::BOOL) {
                __int128 lim = t == Type::FLOAT ? (1 << 24) : t == Type::DOUBLE ? (static_cast<__int128>(1) << 53) : 0;
                if (lim && (x > lim || x < -lim)) return Status::Invalid("Integer value ", static_cast<int64_t>(x), " is outside of the range exactly representable");
            }
#define CALL(T) FromInt<T>(x, to, o.allow_int_overflow)
            MINI_NUMERIC_SWITCH(t, CALL)
#undef CALL
        }
        if ((t == Type::INT64 && f == Type::TIMESTAMP) ) return std::shared_ptr<Scalar>(new Int64Scalar(static_cast<int64_t>(x), to));
        if ((t == Type::INT32 && f == Type::DATE32)) return std::shared_ptr<Scalar>(new Int32Scalar(static_cast<int32_t>(x), to));
        if (t == Type::TIMESTAMP && f == Type::INT64) return std::shared_ptr<Scalar>(new TimestampScalar(static_cast<int64_t>(x), to));
        if (t == Type::DATE32 && f == Type::INT32) return std::shared_ptr<Scalar>(new Date32Scalar(static_cast<int32_t>(x), to));
        if (Str(t)) return StringResult(v.Text(), to);
        if (t == Type::DECIMAL128 && Int(f)) {
            auto& d = checked_cast<const Decimal128Type&>(*to);
            ARROW_ASSIGN_OR_RAISE(Decimal128 val, Decimal128(BasicDecimal128::Of(x)).Rescale(0, d.scale()));
            if (!val.FitsInPrecision(d.precision())) return Status::Invalid("Decimal value does not fit in precision");
            return std::shared_ptr<Scalar>(new Decimal128Scalar(val, to));
        }
        return no();
    }
    if (f == Type::FLOAT || f == Type::DOUBLE) {
        double d = f == Type::FLOAT ? checked_cast<const FloatScalar&>(v).value : checked_cast<const DoubleScalar&>(v).value;
        if (t == Type::BOOL) return std::shared_ptr<Scalar>(new BooleanScalar(d != 0));
#define CALL(T) FromReal<T>(d, to, o.allow_float_truncate)
        MINI_NUMERIC_SWITCH(t, CALL)
#undef CALL
        if (Str(t)) return StringResult(v.Text(), to);
        if (t == Type::DECIMAL128) {
            auto& e = checked_cast<const Decimal128Type&>(*to);
            ARROW_ASSIGN_OR_RAISE(Decimal128 val, Decimal128::FromReal(d, e.precision(), e.scale()));
            return std::shared_ptr<Scalar>(new Decimal128Scalar(val, to));
        }
        return no();
    }
    return no();
}
}  // namespace

bool CanCast(const DataType& from, const DataType& to) {
    Type::type f = from.id(), t = to.id();
    if (f == t || f == Type::NA) return true;
    bool fn = Num(f), tn = Num(t);
    if ((fn || f == Type::BOOL) && (tn || t == Type::BOOL || Str(t))) return true;
    if (fn && t == Type::DECIMAL128) return true;
    if (f == Type::DECIMAL128 && (tn || Str(t))) return true;
    if (Str(f) && (tn || t == Type::BOOL || Str(t) || t == Type::DATE32 || t == Type::TIMESTAMP || t == Type::DECIMAL128)) return true;
    if (f == Type::DATE32 && (t == Type::TIMESTAMP || Str(t) || t == Type::INT32)) return true;
    if (f == Type::TIMESTAMP && (t == Type::DATE32 || Str(t) || t == Type::INT64)) return true;
    if (f == Type::INT32 && t == Type::DATE32) return true;
    if (f == Type::INT64 && t == Type::TIMESTAMP) return true;
    if (f == Type::DICTIONARY) return CanCast(*static_cast<const DictionaryType&>(from).value_type(), to);
    return false;
}
Result<std::shared_ptr<Array>> Cast(const Array& v, const TypeHolder& to, const CastOptions& o, ExecContext* ctx) {
    auto t = to.GetSharedPtr();
    MemoryPool* pool = ctx ? ctx->memory_pool() : default_memory_pool();
    if (v.type()->Equals(*t)) return MakeArray(v.data());
    if (v.type_id() == Type::DICTIONARY) {
        ARROW_ASSIGN_OR_RAISE(auto plain, Concatenate({MakeArray(v.data())}, pool));
        return Cast(*plain, to, o, ctx);
    }
    if (t->id() == v.type_id() && t->num_fields() == v.type()->num_fields() && t->num_fields() > 0) {
        // Nested: same shape, children cast one by one.
        auto d = v.data()->Copy();
        d->type = t;
        if (t->id() == Type::STRUCT) {
            auto& s = checked_cast<const StructArray&>(v);
            ArrayVector c;
            for (int i = 0; i < t->num_fields(); i++) {
                ARROW_ASSIGN_OR_RAISE(auto x, Cast(*s.field(i), t->field(i)->type(), o, ctx));
                c.push_back(x);
            }
            std::shared_ptr<Buffer> nulls;
            if (v.null_count()) {
                std::vector<uint8_t> bits(bit_util::BytesForBits(v.length()));
                for (int64_t i = 0; i < v.length(); i++)
                    if (v.IsValid(i)) bit_util::SetBit(bits.data(), i);
                nulls = MakeBuffer(bits.data(), bits.size(), pool);
            }
            return std::shared_ptr<Array>(new StructArray(t, v.length(), c, nulls, v.null_count()));
        }
        auto child = MakeArray(d->child_data[0]);
        ARROW_ASSIGN_OR_RAISE(auto x, Cast(*child, t->field(0)->type(), o, ctx));
        d->child_data[0] = x->data();
        return MakeArray(d);
    }
    std::unique_ptr<ArrayBuilder> b;
    ARROW_RETURN_NOT_OK(MakeBuilder(pool, t, &b));
    for (int64_t i = 0; i < v.length(); i++) {
        if (v.IsNull(i)) {
            ARROW_RETURN_NOT_OK(b->AppendNull());
            continue;
        }
        ARROW_ASSIGN_OR_RAISE(auto s, v.GetScalar(i));
        ARROW_ASSIGN_OR_RAISE(auto r, One(*s, t, o));
        ARROW_RETURN_NOT_OK(r->AppendTo(b.get()));
    }
    return b->Finish();
}
Result<Datum> Cast(const Datum& v, const TypeHolder& to, const CastOptions& o, ExecContext* ctx) {
    if (v.is_scalar()) {
        if (v.scalar()->type->Equals(*to.type)) return v;
        if (!v.scalar()->is_valid) return Datum(MakeNullScalar(to.GetSharedPtr()));
        ARROW_ASSIGN_OR_RAISE(auto s, One(*v.scalar(), to.GetSharedPtr(), o));
        return Datum(s);
    }
    ARROW_ASSIGN_OR_RAISE(auto a, Cast(*v.make_array(), to, o, ctx));
    return Datum(a);
}
static Result<Datum> Shift(const Datum& v, const std::shared_ptr<DataType>& to, int64_t delta, ExecContext* ctx) {
    if (v.is_scalar()) {
        if (!v.scalar()->is_valid) return Datum(MakeNullScalar(to));
        int64_t x = checked_cast<const NumericScalar<TimestampType>&>(*v.scalar()).value;
        return Datum(std::shared_ptr<Scalar>(new TimestampScalar(x + delta, to)));
    }
    TimestampBuilder b(to, ctx ? ctx->memory_pool() : default_memory_pool());
    auto a = v.array_as<TimestampArray>();
    for (int64_t i = 0; i < a->length(); i++)
        ARROW_RETURN_NOT_OK(a->IsNull(i) ? b.AppendNull() : b.Append(a->Value(i) + delta));
    std::shared_ptr<Array> out;
    ARROW_RETURN_NOT_OK(b.Finish(&out));
    return Datum(out);
}
Result<Datum> AssumeTimezone(const Datum& v, const AssumeTimezoneOptions& o, ExecContext* ctx) {
    auto type = v.type();
    auto& t = checked_cast<const TimestampType&>(*type);
    if (!t.timezone().empty()) return Status::Invalid("Timestamps already have a timezone: '", t.timezone(), "'");
    ARROW_ASSIGN_OR_RAISE(int64_t off, ZoneOffset(o.timezone));
    return Shift(v, timestamp(t.unit(), o.timezone), -off * kPer[t.unit()], ctx);
}
Result<Datum> LocalTimestamp(const Datum& v, ExecContext* ctx) {
    auto type = v.type();
    auto& t = checked_cast<const TimestampType&>(*type);
    ARROW_ASSIGN_OR_RAISE(int64_t off, ZoneOffset(t.timezone()));
    return Shift(v, timestamp(t.unit()), off * kPer[t.unit()], ctx);
}
static int Compare(const Array& a, int64_t i, int64_t j, NullPlacement np) {
    bool x = a.IsNull(i), y = a.IsNull(j);
    if (x || y) return x == y ? 0 : (x == (np == NullPlacement::AtStart) ? -1 : 1);
    auto cmp = [](const auto& p, const auto& q) { return p < q ? -1 : q < p ? 1 : 0; };
    auto real = [&](double p, double q) {
        if (std::isnan(p) || std::isnan(q))
            return std::isnan(p) == std::isnan(q) ? 0 : (std::isnan(p) == (np == NullPlacement::AtStart) ? -1 : 1);
        return cmp(p, q);
    };
    switch (a.type_id()) {
        case Type::BOOL: return cmp(checked_cast<const BooleanArray&>(a).Value(i), checked_cast<const BooleanArray&>(a).Value(j));
        case Type::STRING:
        case Type::BINARY: return cmp(checked_cast<const BinaryArray&>(a).GetView(i), checked_cast<const BinaryArray&>(a).GetView(j));
        case Type::FLOAT: return real(checked_cast<const FloatArray&>(a).Value(i), checked_cast<const FloatArray&>(a).Value(j));
        case Type::DOUBLE: return real(checked_cast<const DoubleArray&>(a).Value(i), checked_cast<const DoubleArray&>(a).Value(j));
        case Type::DECIMAL128:
            return cmp(Decimal128(checked_cast<const Decimal128Array&>(a).GetValue(i)), Decimal128(checked_cast<const Decimal128Array&>(a).GetValue(j)));
        case Type::DICTIONARY: {
            auto& d = checked_cast<const DictionaryArray&>(a);
            auto p = d.dictionary()->GetScalar(d.GetValueIndex(i)).ValueOrDie()->Text(), q = d.dictionary()->GetScalar(d.GetValueIndex(j)).ValueOrDie()->Text();
            return cmp(p, q);
        }
        default: {
            __int128 p = 0, q = 0;
            if (!GetInt(*a.GetScalar(i).ValueOrDie(), &p) || !GetInt(*a.GetScalar(j).ValueOrDie(), &q)) abort();
            return cmp(p, q);
        }
    }
}
Result<std::shared_ptr<Array>> SortIndices(const Datum& v, const SortOptions& o, ExecContext* ctx) {
    auto a = v.array_as<StructArray>();
    if (!a) return Status::NotImplemented("SortIndices needs a struct array");
    std::vector<std::pair<std::shared_ptr<Array>, SortOrder>> keys;
    for (auto& k : o.sort_keys) {
        auto f = a->GetFieldByName(k.target);
        if (!f) return Status::Invalid("No match for sort key ", k.target);
        keys.push_back({f, k.order});
    }
    std::vector<uint64_t> idx(a->length());
    for (size_t i = 0; i < idx.size(); i++) idx[i] = i;
    std::stable_sort(idx.begin(), idx.end(), [&](uint64_t x, uint64_t y) {
        for (auto& [f, ord] : keys) {
            int c = Compare(*f, static_cast<int64_t>(x), static_cast<int64_t>(y), o.null_placement);
            if (c) {
                bool null = f->IsNull(static_cast<int64_t>(x)) || f->IsNull(static_cast<int64_t>(y));
                return ord == SortOrder::Ascending || null ? c < 0 : c > 0;
            }
        }
        return false;
    });
    UInt64Builder b(uint64(), ctx ? ctx->memory_pool() : default_memory_pool());
    ARROW_RETURN_NOT_OK(b.AppendValues(idx));
    return b.Finish();
}
}  // namespace compute

// ------------------------------------------------------------------------------------ C bridge

namespace {
std::string Format(const DataType& t) {
    switch (t.id()) {
        case Type::NA: return "n";
        case Type::BOOL: return "b";
        case Type::INT8: return "c";
        case Type::UINT8: return "C";
        case Type::INT16: return "s";
        case Type::UINT16: return "S";
        case Type::INT32: return "i";
        case Type::UINT32: return "I";
        case Type::INT64: return "l";
        case Type::UINT64: return "L";
        case Type::FLOAT: return "f";
        case Type::DOUBLE: return "g";
        case Type::BINARY: return "z";
        case Type::LARGE_BINARY: return "Z";
        case Type::STRING: return "u";
        case Type::LARGE_STRING: return "U";
        case Type::DATE32: return "tdD";
        case Type::FIXED_SIZE_BINARY: return "w:" + std::to_string(t.bit_width() / 8);
        case Type::DECIMAL128: {
            auto& d = checked_cast<const Decimal128Type&>(t);
            return "d:" + std::to_string(d.precision()) + "," + std::to_string(d.scale());
        }
        case Type::TIMESTAMP: {
            auto& d = checked_cast<const TimestampType&>(t);
            return std::string("ts") + "smun"[d.unit()] + ":" + d.timezone();
        }
        case Type::LIST: return "+l";
        case Type::STRUCT: return "+s";
        case Type::MAP: return "+m";
        case Type::DICTIONARY: return Format(*checked_cast<const DictionaryType&>(t).index_type());
        default: abort();
    }
}
struct SchemaOwner {
    std::string format, name, meta;
    std::vector<ArrowSchema> kids;
    std::vector<ArrowSchema*> ptrs;
    ArrowSchema dict{};
};
void ReleaseSchema(ArrowSchema* s) {
    auto* o = static_cast<SchemaOwner*>(s->private_data);
    for (auto& k : o->kids) ArrowSchemaRelease(&k);
    if (o->dict.release) o->dict.release(&o->dict);
    s->release = nullptr;
    delete o;
}
std::string PackMeta(const KeyValueMetadata& m) {
    std::string s;
    auto put = [&](int32_t v) { s.append(reinterpret_cast<char*>(&v), 4); };
    put(static_cast<int32_t>(m.size()));
    for (int64_t i = 0; i < m.size(); i++) {
        put(static_cast<int32_t>(m.key(i).size()));
        s += m.key(i);
        put(static_cast<int32_t>(m.value(i).size()));
        s += m.value(i);
    }
    return s;
}
std::shared_ptr<KeyValueMetadata> UnpackMeta(const char* p) {
    if (!p) return nullptr;
    auto get = [&] {
        int32_t v;
        memcpy(&v, p, 4);
        p += 4;
        return v;
    };
    auto m = std::make_shared<KeyValueMetadata>();
    for (int32_t n = get(); n > 0; n--) {
        int32_t k = get();
        std::string key(p, k);
        p += k;
        int32_t v = get();
        m->Append(std::move(key), std::string(p, v));
        p += v;
    }
    return m;
}
void DoExport(const DataType& t, const std::string& name, bool nullable,
              const std::shared_ptr<const KeyValueMetadata>& meta, ArrowSchema* out) {
    auto* o = new SchemaOwner;
    o->format = Format(t);
    o->name = name;
    if (meta && meta->size()) o->meta = PackMeta(*meta);
    o->kids.resize(t.num_fields());
    for (int i = 0; i < t.num_fields(); i++) {
        auto& f = t.field(i);
        DoExport(*f->type(), f->name(), f->nullable(), f->metadata(), &o->kids[i]);
        o->ptrs.push_back(&o->kids[i]);
    }
    memset(out, 0, sizeof *out);
    out->format = o->format.c_str();
    out->name = o->name.c_str();
    out->metadata = o->meta.empty() ? nullptr : o->meta.data();
    out->flags = nullable ? ARROW_FLAG_NULLABLE : 0;
    if (t.id() == Type::MAP && checked_cast<const MapType&>(t).keys_sorted()) out->flags |= ARROW_FLAG_MAP_KEYS_SORTED;
    out->n_children = t.num_fields();
    out->children = o->ptrs.empty() ? nullptr : o->ptrs.data();
    if (t.id() == Type::DICTIONARY) {
        DoExport(*checked_cast<const DictionaryType&>(t).value_type(), "", true, nullptr, &o->dict);
        out->dictionary = &o->dict;
    }
    out->private_data = o;
    out->release = ReleaseSchema;
}
struct ArrayOwner {
    std::shared_ptr<ArrayData> data;
    std::vector<const void*> bufs;
    std::vector<ArrowArray> kids;
    std::vector<ArrowArray*> ptrs;
    ArrowArray dict{};
};
void ReleaseArray(ArrowArray* a) {
    auto* o = static_cast<ArrayOwner*>(a->private_data);
    for (auto& k : o->kids) ArrowArrayRelease(&k);
    if (o->dict.release) o->dict.release(&o->dict);
    a->release = nullptr;
    delete o;
}
void DoExport(const std::shared_ptr<ArrayData>& d, ArrowArray* out) {
    auto* o = new ArrayOwner;
    o->data = d;
    if (d->type->id() != Type::NA)
        for (auto& b : d->buffers) o->bufs.push_back(b ? b->data() : nullptr);
    o->kids.resize(d->child_data.size());
    for (size_t i = 0; i < d->child_data.size(); i++) {
        DoExport(d->child_data[i], &o->kids[i]);
        o->ptrs.push_back(&o->kids[i]);
    }
    memset(out, 0, sizeof *out);
    out->length = d->length;
    out->null_count = d->null_count;
    out->offset = d->offset;
    out->n_buffers = static_cast<int64_t>(o->bufs.size());
    out->buffers = o->bufs.data();
    out->n_children = static_cast<int64_t>(o->ptrs.size());
    out->children = o->ptrs.empty() ? nullptr : o->ptrs.data();
    if (d->dictionary) {
        DoExport(d->dictionary, &o->dict);
        out->dictionary = &o->dict;
    }
    out->private_data = o;
    out->release = ReleaseArray;
}
Result<std::shared_ptr<Field>> DoImport(const ArrowSchema* s) {
    std::string f = s->format;
    std::vector<std::shared_ptr<Field>> kids;
    for (int64_t i = 0; i < s->n_children; i++) {
        ARROW_ASSIGN_OR_RAISE(auto k, DoImport(s->children[i]));
        kids.push_back(k);
    }
    std::shared_ptr<DataType> t;
    static const std::map<std::string, const std::shared_ptr<DataType>& (*)()> plain = {
        {"n", null}, {"b", boolean}, {"c", int8}, {"C", uint8}, {"s", int16}, {"S", uint16},
        {"i", int32}, {"I", uint32}, {"l", int64}, {"L", uint64}, {"f", float32}, {"g", float64},
        {"z", binary}, {"Z", large_binary}, {"u", utf8}, {"U", large_utf8}, {"tdD", date32}};
    if (plain.count(f)) t = plain.at(f)();
    else if (f.rfind("w:", 0) == 0) t = fixed_size_binary(atoi(f.c_str() + 2));
    else if (f.rfind("d:", 0) == 0) t = decimal128(atoi(f.c_str() + 2), atoi(f.c_str() + f.find(',') + 1));
    else if (f.rfind("ts", 0) == 0)
        t = timestamp(f[2] == 's' ? TimeUnit::SECOND : f[2] == 'm' ? TimeUnit::MILLI : f[2] == 'u' ? TimeUnit::MICRO : TimeUnit::NANO, f.substr(4));
    else if (f == "+l") t = list(kids[0]);
    else if (f == "+s") t = struct_(kids);
    else if (f == "+m") t = std::make_shared<MapType>(kids[0], (s->flags & ARROW_FLAG_MAP_KEYS_SORTED) != 0);
    else return Status::Invalid("Invalid or unsupported format string: '", f, "'");
    if (s->dictionary) {
        ARROW_ASSIGN_OR_RAISE(auto v, DoImport(s->dictionary));
        t = dictionary(t, v->type());
    }
    return std::make_shared<Field>(s->name ? s->name : "", t, (s->flags & ARROW_FLAG_NULLABLE) != 0, UnpackMeta(s->metadata));
}
struct Imported {
    ArrowArray a;
    explicit Imported(ArrowArray* src) { ArrowArrayMove(src, &a); }
    ~Imported() { ArrowArrayRelease(&a); }
};
Result<std::shared_ptr<ArrayData>> DoImport(const ArrowArray* a, const std::shared_ptr<DataType>& t,
                                            const std::shared_ptr<Imported>& owner) {
    auto d = std::make_shared<ArrayData>();
    d->type = t;
    d->length = a->length;
    d->null_count = a->null_count;
    d->offset = a->offset;
    int64_t n = a->length + a->offset;
    auto st = t->id() == Type::DICTIONARY ? checked_cast<const DictionaryType&>(*t).index_type() : t;
    auto buf = [&](int i, int64_t size) -> std::shared_ptr<Buffer> {
        if (i >= a->n_buffers || !a->buffers[i]) return nullptr;
        return std::make_shared<Buffer>(static_cast<const uint8_t*>(a->buffers[i]), size, owner);
    };
    auto want = [&](int64_t b, int64_t c) -> Status {
        if (a->n_buffers != b) return Status::Invalid("Expected ", b, " buffers for imported type ", t->ToString(), ", ArrowArray struct has ", a->n_buffers);
        if (a->n_children != c) return Status::Invalid("Expected ", c, " children for imported type ", t->ToString(), ", ArrowArray struct has ", a->n_children);
        return Status::OK();
    };
    switch (st->id()) {
        case Type::NA: d->buffers = {nullptr}; break;
        case Type::STRING:
        case Type::BINARY: {
            ARROW_RETURN_NOT_OK(want(3, 0));
            auto off = buf(1, (n + 1) * 4);
            d->buffers = {buf(0, bit_util::BytesForBits(n)), off, buf(2, off ? off->data_as<int32_t>()[n] : 0)};
            break;
        }
        case Type::LARGE_STRING:
        case Type::LARGE_BINARY: {
            ARROW_RETURN_NOT_OK(want(3, 0));
            auto off = buf(1, (n + 1) * 8);
            d->buffers = {buf(0, bit_util::BytesForBits(n)), off, buf(2, off ? off->data_as<int64_t>()[n] : 0)};
            break;
        }
        case Type::LIST:
        case Type::MAP:
            ARROW_RETURN_NOT_OK(want(2, 1));
            d->buffers = {buf(0, bit_util::BytesForBits(n)), buf(1, (n + 1) * 4)};
            break;
        case Type::STRUCT:
            ARROW_RETURN_NOT_OK(want(1, t->num_fields()));
            d->buffers = {buf(0, bit_util::BytesForBits(n))};
            break;
        case Type::BOOL:
            ARROW_RETURN_NOT_OK(want(2, 0));
            d->buffers = {buf(0, bit_util::BytesForBits(n)), buf(1, bit_util::BytesForBits(n))};
            break;
        default:
            ARROW_RETURN_NOT_OK(want(2, 0));
            d->buffers = {buf(0, bit_util::BytesForBits(n)), buf(1, n * (st->bit_width() / 8))};
    }
    for (int64_t i = 0; i < a->n_children; i++) {
        ARROW_ASSIGN_OR_RAISE(auto c, DoImport(a->children[i], t->field(static_cast<int>(i))->type(), owner));
        d->child_data.push_back(c);
    }
    if (t->id() == Type::DICTIONARY) {
        if (!a->dictionary) return Status::Invalid("no dictionary in ArrowArray struct");
        ARROW_ASSIGN_OR_RAISE(d->dictionary, DoImport(a->dictionary, checked_cast<const DictionaryType&>(*t).value_type(), owner));
    }
    return d;
}
}  // namespace

Status ExportType(const DataType& t, ArrowSchema* out) {
    DoExport(t, "", true, nullptr, out);
    return Status::OK();
}
Status ExportField(const Field& f, ArrowSchema* out) {
    DoExport(*f.type(), f.name(), f.nullable(), f.metadata(), out);
    return Status::OK();
}
Status ExportSchema(const Schema& s, ArrowSchema* out) {
    DoExport(*struct_(s.fields()), "", false, s.metadata(), out);
    return Status::OK();
}
Status ExportArray(const Array& a, ArrowArray* out, ArrowSchema* out_schema) {
    if (out_schema) ARROW_RETURN_NOT_OK(ExportType(*a.type(), out_schema));
    DoExport(a.data(), out);
    return Status::OK();
}
Status ExportRecordBatch(const RecordBatch& b, ArrowArray* out, ArrowSchema* out_schema) {
    ARROW_ASSIGN_OR_RAISE(auto s, b.ToStructArray());
    if (out_schema) ARROW_RETURN_NOT_OK(ExportSchema(*b.schema(), out_schema));
    DoExport(s->data(), out);
    return Status::OK();
}
namespace {
struct SchemaGuard {
    ArrowSchema* s;
    ~SchemaGuard() { ArrowSchemaRelease(s); }
};
struct ArrayGuard {
    ArrowArray* a;
    ~ArrayGuard() { ArrowArrayRelease(a); }
};
}  // namespace
Result<std::shared_ptr<Field>> ImportField(ArrowSchema* s) {
    if (ArrowSchemaIsReleased(s)) return Status::Invalid("Cannot import released ArrowSchema");
    SchemaGuard g{s};
    return DoImport(s);
}
Result<std::shared_ptr<DataType>> ImportType(ArrowSchema* s) {
    ARROW_ASSIGN_OR_RAISE(auto f, ImportField(s));
    return f->type();
}
Result<std::shared_ptr<Schema>> ImportSchema(ArrowSchema* s) {
    ARROW_ASSIGN_OR_RAISE(auto f, ImportField(s));
    if (f->type()->id() != Type::STRUCT) return Status::Invalid("Cannot import schema: ArrowSchema describes non-struct type ", f->type()->ToString());
    return schema(f->type()->fields(), f->metadata());
}
Result<std::shared_ptr<Array>> ImportArray(ArrowArray* a, std::shared_ptr<DataType> t) {
    if (ArrowArrayIsReleased(a)) return Status::Invalid("Cannot import released ArrowArray");
    auto o = std::make_shared<Imported>(a);
    ARROW_ASSIGN_OR_RAISE(auto d, DoImport(&o->a, t, o));
    return MakeArray(d);
}
Result<std::shared_ptr<Array>> ImportArray(ArrowArray* a, ArrowSchema* s) {
    auto t = ImportType(s);
    if (!t.ok()) {
        ArrowArrayRelease(a);
        return t.status();
    }
    return ImportArray(a, *t);
}
Result<std::shared_ptr<RecordBatch>> ImportRecordBatch(ArrowArray* a, std::shared_ptr<Schema> s) {
    ARROW_ASSIGN_OR_RAISE(auto arr, ImportArray(a, struct_(s->fields())));
    if (arr->null_count()) return Status::Invalid("ArrowArray struct has non-zero null count, cannot be imported as RecordBatch");
    return RecordBatch::Make(s, arr->length(), checked_cast<const StructArray&>(*arr).fields());
}
Result<std::shared_ptr<RecordBatch>> ImportRecordBatch(ArrowArray* a, ArrowSchema* s) {
    auto t = ImportSchema(s);
    if (!t.ok()) {
        ArrowArrayRelease(a);
        return t.status();
    }
    return ImportRecordBatch(a, *t);
}
}  // namespace arrow
