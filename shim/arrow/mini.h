// A small stand-in for the part of Apache Arrow that the code under test uses. Arrays have Arrow's
// memory layout and cross the C data interface with its ownership rules; there is no SIMD, no
// compute library beyond the few functions needed, and no IPC.
#pragma once
#include <cassert>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iosfwd>
#include <limits>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

#include "paimon/arrow/abi.h"

namespace arrow {

// ------------------------------------------------------------------------------ status, result

enum class StatusCode : char {
    OK = 0,
    OutOfMemory = 1,
    KeyError = 2,
    TypeError = 3,
    Invalid = 4,
    IOError = 5,
    CapacityError = 6,
    IndexError = 7,
    Cancelled = 8,
    UnknownError = 9,
    NotImplemented = 10,
    SerializationError = 11,
    RError = 13,
    AlreadyExists = 45
};

class [[nodiscard]] Status {
 public:
    Status() = default;
    Status(StatusCode c, std::string m) : state_(std::make_shared<State>(State{c, std::move(m)})) {}
    bool ok() const { return !state_; }
    StatusCode code() const { return state_ ? state_->code : StatusCode::OK; }
    const std::string& message() const {
        static const std::string none;
        return state_ ? state_->msg : none;
    }
    std::string ToString() const { return ok() ? "OK" : CodeAsString() + ": " + message(); }
    std::string CodeAsString() const;
    template <typename... A>
    static std::string Cat(A&&... a) {
        std::ostringstream s;
        (void)std::initializer_list<int>{((s << a), 0)...};
        return s.str();
    }
    static Status OK() { return Status(); }
#define MINI_STATUS(NAME)                                                \
    template <typename... A>                                             \
    static Status NAME(A&&... a) {                                       \
        return Status(StatusCode::NAME, Cat(std::forward<A>(a)...));     \
    }                                                                    \
    bool Is##NAME() const { return code() == StatusCode::NAME; }
    MINI_STATUS(OutOfMemory)
    MINI_STATUS(KeyError)
    MINI_STATUS(TypeError)
    MINI_STATUS(Invalid)
    MINI_STATUS(IOError)
    MINI_STATUS(CapacityError)
    MINI_STATUS(IndexError)
    MINI_STATUS(Cancelled)
    MINI_STATUS(UnknownError)
    MINI_STATUS(NotImplemented)
    MINI_STATUS(SerializationError)
#undef MINI_STATUS

 private:
    struct State {
        StatusCode code;
        std::string msg;
    };
    std::shared_ptr<State> state_;
};
std::ostream& operator<<(std::ostream& os, const Status& s);

template <typename T>
class [[nodiscard]] Result {
 public:
    using ValueType = T;
    Result() : v_(Status::UnknownError("uninitialized")) {}
    Result(const Status& s) : v_(s) { assert(!s.ok()); }  // NOLINT
    Result(Status&& s) : v_(std::move(s)) {}              // NOLINT
    Result(const T& v) : v_(v) {}                         // NOLINT
    Result(T&& v) : v_(std::move(v)) {}                   // NOLINT
    template <typename U, typename = std::enable_if_t<std::is_convertible_v<U, T> &&
                                                      !std::is_same_v<std::decay_t<U>, Result> &&
                                                      !std::is_same_v<std::decay_t<U>, Status>>>
    Result(U&& v) : v_(T(std::forward<U>(v))) {}  // NOLINT
    bool ok() const { return v_.index() == 1; }
    Status status() const { return ok() ? Status::OK() : std::get<0>(v_); }
    const T& ValueUnsafe() const& { return std::get<1>(v_); }
    T& ValueUnsafe() & { return std::get<1>(v_); }
    T ValueUnsafe() && { return std::move(std::get<1>(v_)); }
    T MoveValueUnsafe() { return std::move(std::get<1>(v_)); }
    const T& ValueOrDie() const& { return std::get<1>(v_); }
    T& ValueOrDie() & { return std::get<1>(v_); }
    T ValueOrDie() && { return std::move(std::get<1>(v_)); }
    T ValueOr(T alt) && { return ok() ? std::move(std::get<1>(v_)) : std::move(alt); }
    const T& operator*() const& { return std::get<1>(v_); }
    T& operator*() & { return std::get<1>(v_); }
    T operator*() && { return std::move(std::get<1>(v_)); }
    const T* operator->() const { return &std::get<1>(v_); }
    T* operator->() { return &std::get<1>(v_); }
    template <typename U>
    Status Value(U* out) && {
        if (!ok()) return std::get<0>(v_);
        *out = std::move(std::get<1>(v_));
        return Status::OK();
    }

 private:
    std::variant<Status, T> v_;
};

#define ARROW_CONCAT_(a, b) a##b
#define ARROW_CONCAT(a, b) ARROW_CONCAT_(a, b)
#define ARROW_RETURN_NOT_OK(s)               \
    do {                                     \
        ::arrow::Status _mini_s = (s);       \
        if (!_mini_s.ok()) return _mini_s;   \
    } while (false)
#define RETURN_NOT_OK(s) ARROW_RETURN_NOT_OK(s)
#define ARROW_ASSIGN_OR_RAISE_IMPL(name, lhs, expr) \
    auto&& name = (expr);                           \
    if (!(name).ok()) return (name).status();       \
    lhs = std::move(name).ValueUnsafe()
#define ARROW_ASSIGN_OR_RAISE(lhs, expr) \
    ARROW_ASSIGN_OR_RAISE_IMPL(ARROW_CONCAT(_mini_r, __COUNTER__), lhs, expr)

namespace internal {
template <typename O, typename I>
inline O checked_cast(I&& v) {
    static_assert(std::is_reference_v<O> || std::is_pointer_v<O>);
    if constexpr (std::is_pointer_v<O>) {
        auto* p = dynamic_cast<O>(v);
        assert(v == nullptr || p != nullptr);
        return p;
    } else {
        return dynamic_cast<O>(v);
    }
}
template <typename T, typename U>
std::shared_ptr<T> checked_pointer_cast(std::shared_ptr<U> r) {
    auto p = std::dynamic_pointer_cast<T>(r);
    assert(!r || p);
    return p;
}
template <typename T, typename U>
std::unique_ptr<T> checked_pointer_cast(std::unique_ptr<U> r) {
    return std::unique_ptr<T>(checked_cast<T*>(r.release()));
}
uint32_t crc32(uint32_t prev, const void* data, size_t length);
bool StringToFloat(const char* s, size_t length, char decimal_point, float* out);
bool StringToFloat(const char* s, size_t length, char decimal_point, double* out);
}  // namespace internal
using internal::checked_cast;
using internal::checked_pointer_cast;

// -------------------------------------------------------------------------------------- memory

constexpr int64_t kDefaultBufferAlignment = 64;
constexpr int64_t kUnknownNullCount = -1;

class MemoryPool {
 public:
    virtual ~MemoryPool() = default;
    virtual Status Allocate(int64_t size, int64_t alignment, uint8_t** out) = 0;
    Status Allocate(int64_t size, uint8_t** out) { return Allocate(size, kDefaultBufferAlignment, out); }
    virtual Status Reallocate(int64_t old_size, int64_t new_size, int64_t alignment, uint8_t** ptr) = 0;
    virtual void Free(uint8_t* buffer, int64_t size, int64_t alignment) = 0;
    void Free(uint8_t* buffer, int64_t size) { Free(buffer, size, kDefaultBufferAlignment); }
    virtual void ReleaseUnused() {}
    virtual int64_t bytes_allocated() const = 0;
    virtual int64_t max_memory() const { return -1; }
    virtual int64_t total_bytes_allocated() const { return 0; }
    virtual int64_t num_allocations() const { return 0; }
    virtual std::string backend_name() const = 0;
};
MemoryPool* default_memory_pool();

namespace internal {
class MemoryPoolStats {
    int64_t now_ = 0, max_ = 0, total_ = 0, n_ = 0;

 public:
    int64_t bytes_allocated() const { return now_; }
    int64_t max_memory() const { return max_; }
    int64_t total_bytes_allocated() const { return total_; }
    int64_t num_allocations() const { return n_; }
    // Arrow's counters are atomic; these are only diagnostics, so they are updated atomically too.
    void DidAllocateBytes(int64_t size) {
        int64_t v = __atomic_add_fetch(&now_, size, __ATOMIC_SEQ_CST);
        int64_t m = __atomic_load_n(&max_, __ATOMIC_SEQ_CST);
        while (v > m && !__atomic_compare_exchange_n(&max_, &m, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
        }
        __atomic_add_fetch(&total_, size, __ATOMIC_SEQ_CST);
        __atomic_add_fetch(&n_, 1, __ATOMIC_SEQ_CST);
    }
    void DidReallocateBytes(int64_t o, int64_t n) {
        if (n > o) DidAllocateBytes(n - o);
        else __atomic_sub_fetch(&now_, o - n, __ATOMIC_SEQ_CST);
    }
    void DidFreeBytes(int64_t size) { __atomic_sub_fetch(&now_, size, __ATOMIC_SEQ_CST); }
};
}  // namespace internal

class Buffer {
 public:
    Buffer(const uint8_t* data, int64_t size) : data_(data), size_(size) {}
    Buffer(const uint8_t* data, int64_t size, std::shared_ptr<void> owner)
        : data_(data), size_(size), owner_(std::move(owner)) {}
    explicit Buffer(std::string_view s) : Buffer(reinterpret_cast<const uint8_t*>(s.data()), s.size()) {}
    virtual ~Buffer() = default;
    const uint8_t* data() const { return data_; }
    uint8_t* mutable_data() { return const_cast<uint8_t*>(data_); }
    template <typename T>
    const T* data_as() const {
        return reinterpret_cast<const T*>(data_);
    }
    template <typename T>
    T* mutable_data_as() {
        return reinterpret_cast<T*>(mutable_data());
    }
    int64_t size() const { return size_; }
    int64_t capacity() const { return size_; }
    bool is_mutable() const { return true; }
    std::string ToString() const { return std::string(reinterpret_cast<const char*>(data_), size_); }
    operator std::string_view() const { return {reinterpret_cast<const char*>(data_), (size_t)size_}; }  // NOLINT
    static std::shared_ptr<Buffer> FromString(std::string s);
    template <typename T>
    static std::shared_ptr<Buffer> Wrap(const std::vector<T>& v) {
        return std::make_shared<Buffer>(reinterpret_cast<const uint8_t*>(v.data()), v.size() * sizeof(T));
    }
    bool Equals(const Buffer& o) const {
        return size_ == o.size_ && (data_ == o.data_ || !size_ || !memcmp(data_, o.data_, size_));
    }

 protected:
    const uint8_t* data_;
    int64_t size_;
    std::shared_ptr<void> owner_;
};
using MutableBuffer = Buffer;
class PoolBuffer : public Buffer {
 public:
    PoolBuffer(uint8_t* p, int64_t size, MemoryPool* pool) : Buffer(p, size), pool_(pool) {}
    ~PoolBuffer() override { pool_->Free(const_cast<uint8_t*>(data_), size_); }

 private:
    MemoryPool* pool_;
};
Result<std::unique_ptr<Buffer>> AllocateBuffer(int64_t size, MemoryPool* pool = default_memory_pool());
std::shared_ptr<Buffer> SliceBuffer(const std::shared_ptr<Buffer>& b, int64_t off, int64_t len);
std::shared_ptr<Buffer> MakeBuffer(const void* p, int64_t size, MemoryPool* pool);

template <typename T>
class TypedBufferBuilder {
 public:
    explicit TypedBufferBuilder(MemoryPool* pool = default_memory_pool()) : pool_(pool) {}
    Status Append(T v) {
        v_.push_back(v);
        return Status::OK();
    }
    Status Append(const T* p, int64_t n) {
        v_.insert(v_.end(), p, p + n);
        return Status::OK();
    }
    void UnsafeAppend(T v) { v_.push_back(v); }
    Status Reserve(int64_t) { return Status::OK(); }
    Status Resize(int64_t, bool = false) { return Status::OK(); }
    int64_t length() const { return v_.size(); }
    Result<std::shared_ptr<Buffer>> Finish(bool = true) {
        auto b = MakeBuffer(v_.data(), v_.size() * sizeof(T), pool_);
        v_.clear();
        return b;
    }
    Status Finish(std::shared_ptr<Buffer>* out, bool = true) {
        *out = *Finish();
        return Status::OK();
    }

 private:
    MemoryPool* pool_;
    std::vector<T> v_;
};

namespace bit_util {
inline bool GetBit(const uint8_t* b, uint64_t i) { return (b[i >> 3] >> (i & 7)) & 1; }
inline void SetBit(uint8_t* b, int64_t i) { b[i >> 3] |= 1 << (i & 7); }
inline void ClearBit(uint8_t* b, int64_t i) { b[i >> 3] &= ~(1 << (i & 7)); }
inline void SetBitTo(uint8_t* b, int64_t i, bool v) { v ? SetBit(b, i) : ClearBit(b, i); }
inline int64_t BytesForBits(int64_t n) { return (n + 7) / 8; }
}  // namespace bit_util

// --------------------------------------------------------------------------------------- types

struct Type {
    enum type {
        NA = 0,
        BOOL,
        UINT8,
        INT8,
        UINT16,
        INT16,
        UINT32,
        INT32,
        UINT64,
        INT64,
        HALF_FLOAT,
        FLOAT,
        DOUBLE,
        STRING,
        BINARY,
        FIXED_SIZE_BINARY,
        DATE32,
        DATE64,
        TIMESTAMP,
        TIME32,
        TIME64,
        INTERVAL_MONTHS,
        INTERVAL_DAY_TIME,
        DECIMAL128,
        DECIMAL = DECIMAL128,
        DECIMAL256,
        LIST,
        STRUCT,
        SPARSE_UNION,
        DENSE_UNION,
        DICTIONARY,
        MAP,
        EXTENSION,
        FIXED_SIZE_LIST,
        DURATION,
        LARGE_STRING,
        LARGE_BINARY,
        LARGE_LIST,
        MAX_ID
    };
};
struct TimeUnit {
    enum type { SECOND = 0, MILLI = 1, MICRO = 2, NANO = 3 };
};
std::ostream& operator<<(std::ostream& os, TimeUnit::type u);
namespace internal {
std::string ToString(Type::type id);
std::string ToString(TimeUnit::type unit);
}  // namespace internal

class KeyValueMetadata {
 public:
    KeyValueMetadata() = default;
    KeyValueMetadata(std::vector<std::string> k, std::vector<std::string> v)
        : keys_(std::move(k)), values_(std::move(v)) {}
    explicit KeyValueMetadata(const std::unordered_map<std::string, std::string>& m);
    static std::shared_ptr<KeyValueMetadata> Make(std::vector<std::string> k, std::vector<std::string> v) {
        return std::make_shared<KeyValueMetadata>(std::move(k), std::move(v));
    }
    void ToUnorderedMap(std::unordered_map<std::string, std::string>* out) const;
    void Append(std::string k, std::string v) {
        keys_.push_back(std::move(k));
        values_.push_back(std::move(v));
    }
    Result<std::string> Get(std::string_view k) const {
        int i = FindKey(k);
        if (i < 0) return Status::KeyError(std::string(k));
        return values_[i];
    }
    bool Contains(std::string_view k) const { return FindKey(k) >= 0; }
    int FindKey(std::string_view k) const {
        for (size_t i = 0; i < keys_.size(); i++)
            if (keys_[i] == k) return static_cast<int>(i);
        return -1;
    }
    Status Set(std::string k, std::string v) {
        int i = FindKey(k);
        if (i < 0) Append(std::move(k), std::move(v));
        else values_[i] = std::move(v);
        return Status::OK();
    }
    Status Delete(std::string_view k) {
        int i = FindKey(k);
        if (i < 0) return Status::KeyError(std::string(k));
        keys_.erase(keys_.begin() + i);
        values_.erase(values_.begin() + i);
        return Status::OK();
    }
    int64_t size() const { return keys_.size(); }
    const std::string& key(int64_t i) const { return keys_[i]; }
    const std::string& value(int64_t i) const { return values_[i]; }
    const std::vector<std::string>& keys() const { return keys_; }
    const std::vector<std::string>& values() const { return values_; }
    std::shared_ptr<KeyValueMetadata> Copy() const { return Make(keys_, values_); }
    std::shared_ptr<KeyValueMetadata> Merge(const KeyValueMetadata& o) const;
    bool Equals(const KeyValueMetadata& o) const;
    std::string ToString() const;

 private:
    std::vector<std::string> keys_, values_;
};
inline std::shared_ptr<KeyValueMetadata> key_value_metadata(std::vector<std::string> k,
                                                            std::vector<std::string> v) {
    return KeyValueMetadata::Make(std::move(k), std::move(v));
}
std::shared_ptr<KeyValueMetadata> key_value_metadata(const std::unordered_map<std::string, std::string>& m);

class DataType;
class Field;
class Array;
class ArrayBuilder;
struct Scalar;
using FieldVector = std::vector<std::shared_ptr<Field>>;
using ArrayVector = std::vector<std::shared_ptr<Array>>;
using DataTypeVector = std::vector<std::shared_ptr<DataType>>;

class DataType : public std::enable_shared_from_this<DataType> {
 public:
    explicit DataType(Type::type id) : id_(id) {}
    virtual ~DataType() = default;
    Type::type id() const { return id_; }
    virtual std::string name() const { return internal::ToString(id_); }
    virtual std::string ToString(bool show_metadata = false) const { return name(); }
    bool Equals(const DataType& o, bool check_metadata = false) const;
    bool Equals(const std::shared_ptr<DataType>& o, bool check_metadata = false) const {
        return o && Equals(*o, check_metadata);
    }
    bool operator==(const DataType& o) const { return Equals(o); }
    bool operator!=(const DataType& o) const { return !Equals(o); }
    const FieldVector& fields() const { return children_; }
    int num_fields() const { return static_cast<int>(children_.size()); }
    const std::shared_ptr<Field>& field(int i) const { return children_[i]; }
    std::shared_ptr<DataType> GetSharedPtr() const {
        return std::const_pointer_cast<DataType>(shared_from_this());
    }
    virtual int bit_width() const { return -1; }

 protected:
    Type::type id_;
    FieldVector children_;
};
std::ostream& operator<<(std::ostream& os, const DataType& t);

class Field {
 public:
    Field(std::string n, std::shared_ptr<DataType> t, bool nullable = true,
          std::shared_ptr<const KeyValueMetadata> m = nullptr)
        : name_(std::move(n)), type_(std::move(t)), nullable_(nullable), meta_(std::move(m)) {}
    const std::string& name() const { return name_; }
    const std::shared_ptr<DataType>& type() const { return type_; }
    bool nullable() const { return nullable_; }
    std::shared_ptr<const KeyValueMetadata> metadata() const { return meta_; }
    bool HasMetadata() const { return meta_ && meta_->size() > 0; }
    std::shared_ptr<Field> WithName(const std::string& n) const {
        return std::make_shared<Field>(n, type_, nullable_, meta_);
    }
    std::shared_ptr<Field> WithType(const std::shared_ptr<DataType>& t) const {
        return std::make_shared<Field>(name_, t, nullable_, meta_);
    }
    std::shared_ptr<Field> WithNullable(bool n) const { return std::make_shared<Field>(name_, type_, n, meta_); }
    std::shared_ptr<Field> WithMetadata(std::shared_ptr<const KeyValueMetadata> m) const {
        return std::make_shared<Field>(name_, type_, nullable_, std::move(m));
    }
    std::shared_ptr<Field> WithMergedMetadata(const std::shared_ptr<const KeyValueMetadata>& m) const {
        if (!meta_ || !m) return WithMetadata(meta_ ? meta_ : m);
        return WithMetadata(meta_->Merge(*m));
    }
    std::shared_ptr<Field> RemoveMetadata() const { return WithMetadata(nullptr); }
    bool Equals(const Field& o, bool check_metadata = false) const;
    bool Equals(const std::shared_ptr<Field>& o, bool check_metadata = false) const {
        return Equals(*o, check_metadata);
    }
    std::string ToString(bool show_metadata = false) const;
    std::shared_ptr<Field> Copy() const { return std::make_shared<Field>(*this); }

 private:
    std::string name_;
    std::shared_ptr<DataType> type_;
    bool nullable_;
    std::shared_ptr<const KeyValueMetadata> meta_;
};

class Schema {
 public:
    explicit Schema(FieldVector f, std::shared_ptr<const KeyValueMetadata> m = nullptr)
        : fields_(std::move(f)), meta_(std::move(m)) {}
    const FieldVector& fields() const { return fields_; }
    int num_fields() const { return static_cast<int>(fields_.size()); }
    const std::shared_ptr<Field>& field(int i) const { return fields_[i]; }
    std::vector<std::string> field_names() const;
    std::shared_ptr<Field> GetFieldByName(const std::string& n) const;
    FieldVector GetAllFieldsByName(const std::string& n) const;
    int GetFieldIndex(const std::string& n) const;
    std::vector<int> GetAllFieldIndices(const std::string& n) const;
    const std::shared_ptr<const KeyValueMetadata>& metadata() const { return meta_; }
    bool HasMetadata() const { return meta_ && meta_->size() > 0; }
    std::shared_ptr<Schema> WithMetadata(const std::shared_ptr<const KeyValueMetadata>& m) const {
        return std::make_shared<Schema>(fields_, m);
    }
    std::shared_ptr<Schema> RemoveMetadata() const { return WithMetadata(nullptr); }
    Result<std::shared_ptr<Schema>> AddField(int i, const std::shared_ptr<Field>& f) const;
    Result<std::shared_ptr<Schema>> SetField(int i, const std::shared_ptr<Field>& f) const;
    Result<std::shared_ptr<Schema>> RemoveField(int i) const;
    bool Equals(const Schema& o, bool check_metadata = false) const;
    bool Equals(const std::shared_ptr<Schema>& o, bool check_metadata = false) const {
        return o && Equals(*o, check_metadata);
    }
    std::string ToString(bool show_metadata = false) const;

 private:
    FieldVector fields_;
    std::shared_ptr<const KeyValueMetadata> meta_;
};

class FixedWidthType : public DataType {
 public:
    using DataType::DataType;
};
template <Type::type ID, typename C>
class CTypeImpl : public FixedWidthType {
 public:
    static constexpr Type::type type_id = ID;
    using c_type = C;
    CTypeImpl() : FixedWidthType(ID) {}
    int bit_width() const override { return sizeof(C) * 8; }
};
class NullType : public DataType {
 public:
    static constexpr Type::type type_id = Type::NA;
    NullType() : DataType(Type::NA) {}
};
class BooleanType : public FixedWidthType {
 public:
    static constexpr Type::type type_id = Type::BOOL;
    using c_type = bool;
    BooleanType() : FixedWidthType(Type::BOOL) {}
    int bit_width() const override { return 1; }
};
#define MINI_CTYPE(N, ID, C)                      \
    class N : public CTypeImpl<Type::ID, C> {};
MINI_CTYPE(UInt8Type, UINT8, uint8_t)
MINI_CTYPE(Int8Type, INT8, int8_t)
MINI_CTYPE(UInt16Type, UINT16, uint16_t)
MINI_CTYPE(Int16Type, INT16, int16_t)
MINI_CTYPE(UInt32Type, UINT32, uint32_t)
MINI_CTYPE(Int32Type, INT32, int32_t)
MINI_CTYPE(UInt64Type, UINT64, uint64_t)
MINI_CTYPE(Int64Type, INT64, int64_t)
MINI_CTYPE(FloatType, FLOAT, float)
MINI_CTYPE(DoubleType, DOUBLE, double)
MINI_CTYPE(Date32Type, DATE32, int32_t)
#undef MINI_CTYPE
class TimestampType : public CTypeImpl<Type::TIMESTAMP, int64_t> {
 public:
    explicit TimestampType(TimeUnit::type u = TimeUnit::MILLI, std::string tz = "") : unit_(u), tz_(std::move(tz)) {}
    TimeUnit::type unit() const { return unit_; }
    const std::string& timezone() const { return tz_; }
    std::string ToString(bool = false) const override;

 private:
    TimeUnit::type unit_;
    std::string tz_;
};
class BaseBinaryType : public DataType {
 public:
    using DataType::DataType;
};
class BinaryType : public BaseBinaryType {
 public:
    static constexpr Type::type type_id = Type::BINARY;
    using offset_type = int32_t;
    BinaryType() : BaseBinaryType(Type::BINARY) {}

 protected:
    explicit BinaryType(Type::type id) : BaseBinaryType(id) {}
};
class StringType : public BinaryType {
 public:
    static constexpr Type::type type_id = Type::STRING;
    StringType() : BinaryType(Type::STRING) {}
};
class LargeBinaryType : public BaseBinaryType {
 public:
    static constexpr Type::type type_id = Type::LARGE_BINARY;
    using offset_type = int64_t;
    LargeBinaryType() : BaseBinaryType(Type::LARGE_BINARY) {}

 protected:
    explicit LargeBinaryType(Type::type id) : BaseBinaryType(id) {}
};
class LargeStringType : public LargeBinaryType {
 public:
    static constexpr Type::type type_id = Type::LARGE_STRING;
    LargeStringType() : LargeBinaryType(Type::LARGE_STRING) {}
};
class FixedSizeBinaryType : public FixedWidthType {
 public:
    static constexpr Type::type type_id = Type::FIXED_SIZE_BINARY;
    explicit FixedSizeBinaryType(int w, Type::type id = Type::FIXED_SIZE_BINARY) : FixedWidthType(id), w_(w) {}
    int byte_width() const { return w_; }
    int bit_width() const override { return w_ * 8; }

 private:
    int w_;
};
class DecimalType : public FixedSizeBinaryType {
 public:
    DecimalType(int w, int p, int s) : FixedSizeBinaryType(w, Type::DECIMAL128), p_(p), s_(s) {}
    int32_t precision() const { return p_; }
    int32_t scale() const { return s_; }

 private:
    int p_, s_;
};
class Decimal128Type : public DecimalType {
 public:
    static constexpr Type::type type_id = Type::DECIMAL128;
    static constexpr int32_t kMaxPrecision = 38;
    Decimal128Type(int p, int s) : DecimalType(16, p, s) {}
    std::string ToString(bool = false) const override;
};
class NestedType : public DataType {
 public:
    using DataType::DataType;
};
class BaseListType : public NestedType {
 public:
    using NestedType::NestedType;
    const std::shared_ptr<Field>& value_field() const { return children_[0]; }
    const std::shared_ptr<DataType>& value_type() const { return children_[0]->type(); }
};
class ListType : public BaseListType {
 public:
    static constexpr Type::type type_id = Type::LIST;
    explicit ListType(std::shared_ptr<Field> f) : BaseListType(Type::LIST) { children_ = {std::move(f)}; }
    explicit ListType(std::shared_ptr<DataType> t) : ListType(std::make_shared<Field>("item", std::move(t))) {}
    std::string ToString(bool = false) const override;

 protected:
    explicit ListType(Type::type id) : BaseListType(id) {}
};
class MapType : public ListType {
 public:
    static constexpr Type::type type_id = Type::MAP;
    MapType(std::shared_ptr<DataType> k, std::shared_ptr<DataType> v, bool sorted = false);
    MapType(std::shared_ptr<DataType> k, std::shared_ptr<Field> v, bool sorted = false);
    MapType(std::shared_ptr<Field> k, std::shared_ptr<Field> v, bool sorted = false);
    explicit MapType(std::shared_ptr<Field> entries, bool sorted = false);
    std::shared_ptr<Field> key_field() const { return children_[0]->type()->field(0); }
    std::shared_ptr<DataType> key_type() const { return key_field()->type(); }
    std::shared_ptr<Field> item_field() const { return children_[0]->type()->field(1); }
    std::shared_ptr<DataType> item_type() const { return item_field()->type(); }
    bool keys_sorted() const { return sorted_; }
    std::string ToString(bool = false) const override;

 private:
    bool sorted_;
};
class StructType : public NestedType {
 public:
    static constexpr Type::type type_id = Type::STRUCT;
    explicit StructType(FieldVector f) : NestedType(Type::STRUCT) { children_ = std::move(f); }
    std::shared_ptr<Field> GetFieldByName(const std::string& n) const;
    int GetFieldIndex(const std::string& n) const;
    FieldVector GetAllFieldsByName(const std::string& n) const;
    Result<std::shared_ptr<StructType>> AddField(int i, const std::shared_ptr<Field>& f) const {
        if (i < 0 || i > num_fields()) return Status::Invalid("Invalid column index to add field.");
        auto v = children_;
        v.insert(v.begin() + i, f);
        return std::make_shared<StructType>(v);
    }
    std::string ToString(bool = false) const override;
};
class DictionaryType : public FixedWidthType {
 public:
    static constexpr Type::type type_id = Type::DICTIONARY;
    DictionaryType(std::shared_ptr<DataType> i, std::shared_ptr<DataType> v, bool ordered = false)
        : FixedWidthType(Type::DICTIONARY), i_(std::move(i)), v_(std::move(v)) {}
    const std::shared_ptr<DataType>& index_type() const { return i_; }
    const std::shared_ptr<DataType>& value_type() const { return v_; }
    bool ordered() const { return false; }
    std::string ToString(bool = false) const override;

 private:
    std::shared_ptr<DataType> i_, v_;
};

const std::shared_ptr<DataType>& null();
const std::shared_ptr<DataType>& boolean();
const std::shared_ptr<DataType>& int8();
const std::shared_ptr<DataType>& int16();
const std::shared_ptr<DataType>& int32();
const std::shared_ptr<DataType>& int64();
const std::shared_ptr<DataType>& uint8();
const std::shared_ptr<DataType>& uint16();
const std::shared_ptr<DataType>& uint32();
const std::shared_ptr<DataType>& uint64();
const std::shared_ptr<DataType>& float32();
const std::shared_ptr<DataType>& float64();
const std::shared_ptr<DataType>& utf8();
const std::shared_ptr<DataType>& large_utf8();
const std::shared_ptr<DataType>& binary();
const std::shared_ptr<DataType>& large_binary();
const std::shared_ptr<DataType>& date32();
std::shared_ptr<DataType> timestamp(TimeUnit::type unit);
std::shared_ptr<DataType> timestamp(TimeUnit::type unit, const std::string& tz);
std::shared_ptr<DataType> decimal128(int32_t p, int32_t s);
std::shared_ptr<DataType> list(const std::shared_ptr<Field>& f);
std::shared_ptr<DataType> list(const std::shared_ptr<DataType>& t);
std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<DataType> v, bool sorted = false);
std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<Field> v, bool sorted = false);
std::shared_ptr<DataType> struct_(const FieldVector& f);
std::shared_ptr<DataType> dictionary(const std::shared_ptr<DataType>& i, const std::shared_ptr<DataType>& v,
                                     bool ordered = false);
std::shared_ptr<DataType> fixed_size_binary(int32_t w);
inline std::shared_ptr<Field> field(std::string n, std::shared_ptr<DataType> t, bool nullable = true,
                                    std::shared_ptr<const KeyValueMetadata> m = nullptr) {
    return std::make_shared<Field>(std::move(n), std::move(t), nullable, std::move(m));
}
inline std::shared_ptr<Field> field(std::string n, std::shared_ptr<DataType> t,
                                    std::shared_ptr<const KeyValueMetadata> m) {
    return std::make_shared<Field>(std::move(n), std::move(t), true, std::move(m));
}
inline std::shared_ptr<Schema> schema(FieldVector f, std::shared_ptr<const KeyValueMetadata> m = nullptr) {
    return std::make_shared<Schema>(std::move(f), std::move(m));
}

struct TypeHolder {
    const DataType* type = nullptr;
    std::shared_ptr<DataType> owned_type;
    TypeHolder() = default;
    TypeHolder(const DataType* t) : type(t) {}  // NOLINT
    TypeHolder(std::shared_ptr<DataType> t) : type(t.get()), owned_type(std::move(t)) {}  // NOLINT
    std::shared_ptr<DataType> GetSharedPtr() const { return type ? type->GetSharedPtr() : nullptr; }
};

// ------------------------------------------------------------------------------------- decimal

class BasicDecimal128 {
 public:
    BasicDecimal128() : v_(0) {}
    BasicDecimal128(int64_t high, uint64_t low)
        : v_(static_cast<__int128>((static_cast<unsigned __int128>(static_cast<uint64_t>(high)) << 64) | low)) {}
    template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
    BasicDecimal128(T v) : v_(v) {}  // NOLINT
    explicit BasicDecimal128(const uint8_t* bytes) { memcpy(&v_, bytes, 16); }
    static BasicDecimal128 Of(__int128 v) {
        BasicDecimal128 d;
        d.v_ = v;
        return d;
    }
    __int128 raw() const { return v_; }
    int64_t high_bits() const { return static_cast<int64_t>(v_ >> 64); }
    uint64_t low_bits() const { return static_cast<uint64_t>(v_); }
    int64_t Sign() const { return v_ < 0 ? -1 : 1; }
    bool IsNegative() const { return v_ < 0; }
    static const BasicDecimal128& GetMaxSentinel();
    static const BasicDecimal128& GetMinSentinel();
    static const BasicDecimal128& GetScaleMultiplier(int32_t scale);
    static const BasicDecimal128& GetHalfScaleMultiplier(int32_t scale);
    static const BasicDecimal128& GetMaxValue();
    static BasicDecimal128 GetMaxValue(int32_t precision);
    BasicDecimal128& operator/=(const BasicDecimal128& o) {
        v_ /= o.v_;
        return *this;
    }
    BasicDecimal128& operator*=(const BasicDecimal128& o) {
        v_ = static_cast<__int128>(static_cast<unsigned __int128>(v_) * static_cast<unsigned __int128>(o.v_));
        return *this;
    }
    BasicDecimal128& operator+=(const BasicDecimal128& o) {
        v_ = static_cast<__int128>(static_cast<unsigned __int128>(v_) + static_cast<unsigned __int128>(o.v_));
        return *this;
    }
    BasicDecimal128& operator-=(const BasicDecimal128& o) {
        v_ = static_cast<__int128>(static_cast<unsigned __int128>(v_) - static_cast<unsigned __int128>(o.v_));
        return *this;
    }
    BasicDecimal128& Negate() {
        v_ = static_cast<__int128>(-static_cast<unsigned __int128>(v_));
        return *this;
    }
    BasicDecimal128& Abs() { return v_ < 0 ? Negate() : *this; }
    bool FitsInPrecision(int32_t precision) const;
    void GetWholeAndFraction(int32_t scale, BasicDecimal128* whole, BasicDecimal128* fraction) const;
    BasicDecimal128 IncreaseScaleBy(int32_t by) const;
    BasicDecimal128 ReduceScaleBy(int32_t by, bool round = true) const;

 protected:
    __int128 v_;
};
inline bool operator==(const BasicDecimal128& a, const BasicDecimal128& b) { return a.raw() == b.raw(); }
inline bool operator!=(const BasicDecimal128& a, const BasicDecimal128& b) { return a.raw() != b.raw(); }
inline bool operator<(const BasicDecimal128& a, const BasicDecimal128& b) { return a.raw() < b.raw(); }
inline bool operator<=(const BasicDecimal128& a, const BasicDecimal128& b) { return a.raw() <= b.raw(); }
inline bool operator>(const BasicDecimal128& a, const BasicDecimal128& b) { return a.raw() > b.raw(); }
inline bool operator>=(const BasicDecimal128& a, const BasicDecimal128& b) { return a.raw() >= b.raw(); }
inline BasicDecimal128 operator-(const BasicDecimal128& a) { return BasicDecimal128(a).Negate(); }
inline BasicDecimal128 operator+(BasicDecimal128 a, const BasicDecimal128& b) { return a += b; }
inline BasicDecimal128 operator-(BasicDecimal128 a, const BasicDecimal128& b) { return a -= b; }
inline BasicDecimal128 operator*(BasicDecimal128 a, const BasicDecimal128& b) { return a *= b; }
inline BasicDecimal128 operator/(BasicDecimal128 a, const BasicDecimal128& b) { return a /= b; }
inline BasicDecimal128 operator%(const BasicDecimal128& a, const BasicDecimal128& b) {
    return BasicDecimal128::Of(a.raw() % b.raw());
}

class Decimal128 : public BasicDecimal128 {
 public:
    using BasicDecimal128::BasicDecimal128;
    Decimal128() = default;
    Decimal128(const BasicDecimal128& b) : BasicDecimal128(b) {}  // NOLINT
    explicit Decimal128(const std::string& s);
    std::string ToString(int32_t scale) const;
    std::string ToIntegerString() const;
    static Status FromString(std::string_view s, Decimal128* out, int32_t* precision, int32_t* scale = nullptr);
    static Result<Decimal128> FromString(std::string_view s);
    static Result<Decimal128> FromReal(double real, int32_t precision, int32_t scale);
    static Result<Decimal128> FromReal(float real, int32_t precision, int32_t scale);
    Result<Decimal128> Rescale(int32_t original_scale, int32_t new_scale) const;
    double ToDouble(int32_t scale) const;
    float ToFloat(int32_t scale) const;
    template <typename T>
    Status ToInteger(T* out) const {
        if (v_ < std::numeric_limits<T>::min() || v_ > std::numeric_limits<T>::max())
            return Status::Invalid("Invalid cast from Decimal128 to ", sizeof(T), " byte integer");
        *out = static_cast<T>(v_);
        return Status::OK();
    }
};

// -------------------------------------------------------------------------------------- arrays

struct ArrayData {
    std::shared_ptr<DataType> type;
    int64_t length = 0;
    mutable int64_t null_count = 0;
    int64_t offset = 0;
    std::vector<std::shared_ptr<Buffer>> buffers;
    std::vector<std::shared_ptr<ArrayData>> child_data;
    std::shared_ptr<ArrayData> dictionary;

    static std::shared_ptr<ArrayData> Make(std::shared_ptr<DataType> type, int64_t length,
                                           std::vector<std::shared_ptr<Buffer>> buffers,
                                           int64_t null_count = kUnknownNullCount, int64_t offset = 0);
    static std::shared_ptr<ArrayData> Make(std::shared_ptr<DataType> type, int64_t length,
                                           std::vector<std::shared_ptr<Buffer>> buffers,
                                           std::vector<std::shared_ptr<ArrayData>> child_data,
                                           int64_t null_count = kUnknownNullCount, int64_t offset = 0);
    bool IsValid(int64_t i) const {
        if (type->id() == Type::NA) return false;
        return buffers.empty() || !buffers[0] || bit_util::GetBit(buffers[0]->data(), i + offset);
    }
    int64_t GetNullCount() const;
    void SetNullCount(int64_t v) { null_count = v; }
    std::shared_ptr<ArrayData> Copy() const { return std::make_shared<ArrayData>(*this); }
    std::shared_ptr<ArrayData> Slice(int64_t off, int64_t len) const;
    template <typename T>
    const T* GetValues(int i) const {
        return buffers[i] ? reinterpret_cast<const T*>(buffers[i]->data()) + offset : nullptr;
    }
    template <typename T>
    T* GetMutableValues(int i) {
        return buffers[i] ? reinterpret_cast<T*>(buffers[i]->mutable_data()) + offset : nullptr;
    }
};

class Array {
 public:
    virtual ~Array() = default;
    bool IsNull(int64_t i) const { return !data_->IsValid(i); }
    bool IsValid(int64_t i) const { return data_->IsValid(i); }
    int64_t length() const { return data_->length; }
    int64_t offset() const { return data_->offset; }
    int64_t null_count() const { return data_->GetNullCount(); }
    const std::shared_ptr<DataType>& type() const { return data_->type; }
    Type::type type_id() const { return data_->type->id(); }
    std::shared_ptr<Buffer> null_bitmap() const {
        return data_->buffers.empty() ? nullptr : data_->buffers[0];
    }
    const uint8_t* null_bitmap_data() const {
        return data_->buffers.empty() || !data_->buffers[0] ? nullptr : data_->buffers[0]->data();
    }
    const std::shared_ptr<ArrayData>& data() const { return data_; }
    int num_fields() const { return static_cast<int>(data_->child_data.size()); }
    std::shared_ptr<Array> Slice(int64_t off, int64_t len) const;
    std::shared_ptr<Array> Slice(int64_t off) const { return Slice(off, length() - off); }
    Result<std::shared_ptr<Array>> SliceSafe(int64_t off, int64_t len) const;
    Result<std::shared_ptr<Scalar>> GetScalar(int64_t i) const;
    // Reinterprets the data as another type of the same layout.
    Result<std::shared_ptr<Array>> View(const std::shared_ptr<DataType>& t) const;
    bool Equals(const Array& o) const;
    bool Equals(const std::shared_ptr<Array>& o) const { return o && Equals(*o); }
    bool ApproxEquals(const Array& o) const { return Equals(o); }
    Status Validate() const { return Status::OK(); }
    Status ValidateFull() const { return Status::OK(); }
    std::string ToString() const;

 protected:
    explicit Array(std::shared_ptr<ArrayData> d) : data_(std::move(d)) {}
    std::shared_ptr<ArrayData> data_;
};
std::shared_ptr<Array> MakeArray(const std::shared_ptr<ArrayData>& d);

class NullArray : public Array {
 public:
    using TypeClass = NullType;
    explicit NullArray(std::shared_ptr<ArrayData> d) : Array(std::move(d)) {}
};
class FlatArray : public Array {
 public:
    using Array::Array;
};
class PrimitiveArray : public FlatArray {
 public:
    using FlatArray::FlatArray;
    const std::shared_ptr<Buffer>& values() const { return data_->buffers[1]; }
};
class BooleanArray : public PrimitiveArray {
 public:
    using TypeClass = BooleanType;
    explicit BooleanArray(std::shared_ptr<ArrayData> d) : PrimitiveArray(std::move(d)) {}
    bool Value(int64_t i) const { return bit_util::GetBit(data_->buffers[1]->data(), i + data_->offset); }
    bool GetView(int64_t i) const { return Value(i); }
};
template <typename T>
class NumericArray : public PrimitiveArray {
 public:
    using TypeClass = T;
    using value_type = typename T::c_type;
    explicit NumericArray(std::shared_ptr<ArrayData> d) : PrimitiveArray(std::move(d)) {}
    NumericArray(int64_t length, const std::shared_ptr<Buffer>& values,
                 const std::shared_ptr<Buffer>& nulls = nullptr, int64_t null_count = -1, int64_t offset = 0)
        : PrimitiveArray(ArrayData::Make(std::make_shared<T>(), length, {nulls, values}, null_count, offset)) {}
    const value_type* raw_values() const { return data_->GetValues<value_type>(1); }
    value_type Value(int64_t i) const { return raw_values()[i]; }
    value_type GetView(int64_t i) const { return raw_values()[i]; }
};
using UInt8Array = NumericArray<UInt8Type>;
using Int8Array = NumericArray<Int8Type>;
using UInt16Array = NumericArray<UInt16Type>;
using Int16Array = NumericArray<Int16Type>;
using UInt32Array = NumericArray<UInt32Type>;
using Int32Array = NumericArray<Int32Type>;
using UInt64Array = NumericArray<UInt64Type>;
using Int64Array = NumericArray<Int64Type>;
using FloatArray = NumericArray<FloatType>;
using DoubleArray = NumericArray<DoubleType>;
using Date32Array = NumericArray<Date32Type>;
using TimestampArray = NumericArray<TimestampType>;

template <typename T>
class BaseBinaryArray : public FlatArray {
 public:
    using TypeClass = T;
    using offset_type = typename T::offset_type;
    explicit BaseBinaryArray(std::shared_ptr<ArrayData> d) : FlatArray(std::move(d)) {}
    const offset_type* raw_value_offsets() const { return data_->template GetValues<offset_type>(1); }
    offset_type value_offset(int64_t i) const { return raw_value_offsets()[i]; }
    offset_type value_length(int64_t i) const { return raw_value_offsets()[i + 1] - raw_value_offsets()[i]; }
    std::string_view GetView(int64_t i) const {
        const char* p = data_->buffers[2] ? reinterpret_cast<const char*>(data_->buffers[2]->data()) : "";
        return {p + value_offset(i), static_cast<size_t>(value_length(i))};
    }
    const uint8_t* GetValue(int64_t i, offset_type* len) const {
        auto v = GetView(i);
        *len = static_cast<offset_type>(v.size());
        return reinterpret_cast<const uint8_t*>(v.data());
    }
    std::string_view Value(int64_t i) const { return GetView(i); }
    std::string GetString(int64_t i) const { return std::string(GetView(i)); }
    std::shared_ptr<Buffer> value_data() const { return data_->buffers[2]; }
    std::shared_ptr<Buffer> value_offsets() const { return data_->buffers[1]; }
    const uint8_t* raw_data() const { return data_->buffers[2]->data(); }
    int64_t total_values_length() const { return length() ? value_offset(length()) - value_offset(0) : 0; }
};
class BinaryArray : public BaseBinaryArray<BinaryType> {
 public:
    explicit BinaryArray(std::shared_ptr<ArrayData> d) : BaseBinaryArray(std::move(d)) {}
    BinaryArray(int64_t length, const std::shared_ptr<Buffer>& offs, const std::shared_ptr<Buffer>& data,
                const std::shared_ptr<Buffer>& nulls = nullptr, int64_t null_count = -1, int64_t offset = 0)
        : BaseBinaryArray(ArrayData::Make(binary(), length, {nulls, offs, data}, null_count, offset)) {}
};
class StringArray : public BinaryArray {
 public:
    using TypeClass = StringType;
    explicit StringArray(std::shared_ptr<ArrayData> d) : BinaryArray(std::move(d)) {}
    StringArray(int64_t length, const std::shared_ptr<Buffer>& offs, const std::shared_ptr<Buffer>& data,
                const std::shared_ptr<Buffer>& nulls = nullptr, int64_t null_count = -1, int64_t offset = 0)
        : BinaryArray(ArrayData::Make(utf8(), length, {nulls, offs, data}, null_count, offset)) {}
};
class LargeBinaryArray : public BaseBinaryArray<LargeBinaryType> {
 public:
    explicit LargeBinaryArray(std::shared_ptr<ArrayData> d) : BaseBinaryArray(std::move(d)) {}
    LargeBinaryArray(int64_t length, const std::shared_ptr<Buffer>& offs, const std::shared_ptr<Buffer>& data,
                     const std::shared_ptr<Buffer>& nulls = nullptr, int64_t null_count = -1, int64_t offset = 0)
        : BaseBinaryArray(ArrayData::Make(large_binary(), length, {nulls, offs, data}, null_count, offset)) {}
};
class LargeStringArray : public LargeBinaryArray {
 public:
    using TypeClass = LargeStringType;
    explicit LargeStringArray(std::shared_ptr<ArrayData> d) : LargeBinaryArray(std::move(d)) {}
};
class FixedSizeBinaryArray : public PrimitiveArray {
 public:
    using TypeClass = FixedSizeBinaryType;
    explicit FixedSizeBinaryArray(std::shared_ptr<ArrayData> d)
        : PrimitiveArray(std::move(d)), w_(checked_cast<const FixedSizeBinaryType&>(*type()).byte_width()) {}
    const uint8_t* GetValue(int64_t i) const { return data_->buffers[1]->data() + (i + data_->offset) * w_; }
    const uint8_t* Value(int64_t i) const { return GetValue(i); }
    std::string_view GetView(int64_t i) const {
        return {reinterpret_cast<const char*>(GetValue(i)), static_cast<size_t>(w_)};
    }
    int byte_width() const { return w_; }

 private:
    int w_;
};
class Decimal128Array : public FixedSizeBinaryArray {
 public:
    using TypeClass = Decimal128Type;
    explicit Decimal128Array(std::shared_ptr<ArrayData> d) : FixedSizeBinaryArray(std::move(d)) {}
    std::string FormatValue(int64_t i) const {
        return Decimal128(GetValue(i)).ToString(checked_cast<const Decimal128Type&>(*type()).scale());
    }
};
class ListArray : public Array {
 public:
    using TypeClass = ListType;
    using offset_type = int32_t;
    explicit ListArray(std::shared_ptr<ArrayData> d) : Array(std::move(d)), values_(MakeArray(data_->child_data[0])) {}
    ListArray(std::shared_ptr<DataType> t, int64_t length, const std::shared_ptr<Buffer>& offs,
              const std::shared_ptr<Array>& values, const std::shared_ptr<Buffer>& nulls = nullptr,
              int64_t null_count = -1, int64_t offset = 0);
    const std::shared_ptr<Array>& values() const { return values_; }
    const int32_t* raw_value_offsets() const { return data_->GetValues<int32_t>(1); }
    std::shared_ptr<Buffer> value_offsets() const { return data_->buffers[1]; }
    int32_t value_offset(int64_t i) const { return raw_value_offsets()[i]; }
    int32_t value_length(int64_t i) const { return raw_value_offsets()[i + 1] - raw_value_offsets()[i]; }
    std::shared_ptr<Array> value_slice(int64_t i) const { return values_->Slice(value_offset(i), value_length(i)); }
    const std::shared_ptr<DataType>& value_type() const {
        return checked_cast<const BaseListType&>(*type()).value_type();
    }

 protected:
    std::shared_ptr<Array> values_;
};
class StructArray : public Array {
 public:
    using TypeClass = StructType;
    explicit StructArray(std::shared_ptr<ArrayData> d) : Array(std::move(d)) { Check(); }
    StructArray(const std::shared_ptr<DataType>& t, int64_t length, const ArrayVector& children,
                std::shared_ptr<Buffer> nulls = nullptr, int64_t null_count = -1, int64_t offset = 0);
    static Result<std::shared_ptr<StructArray>> Make(const ArrayVector& children, const std::vector<std::string>& names,
                                                     std::shared_ptr<Buffer> nulls = nullptr,
                                                     int64_t null_count = -1, int64_t offset = 0);
    static Result<std::shared_ptr<StructArray>> Make(const ArrayVector& children, const FieldVector& fields,
                                                     std::shared_ptr<Buffer> nulls = nullptr,
                                                     int64_t null_count = -1, int64_t offset = 0);
    const StructType* struct_type() const { return checked_cast<const StructType*>(type().get()); }
    // As in Arrow the children are boxed once and kept, so that references to them stay valid.
    const std::shared_ptr<Array>& field(int i) const;
    const ArrayVector& fields() const;
    std::shared_ptr<Array> GetFieldByName(const std::string& n) const;
    Result<ArrayVector> Flatten(MemoryPool* pool = default_memory_pool()) const;

 private:
    void Check();
    mutable ArrayVector boxed_;
};
class MapArray : public ListArray {
 public:
    using TypeClass = MapType;
    explicit MapArray(std::shared_ptr<ArrayData> d);
    MapArray(const std::shared_ptr<DataType>& t, int64_t length, const std::shared_ptr<Buffer>& offs,
             const std::shared_ptr<Array>& keys, const std::shared_ptr<Array>& items,
             const std::shared_ptr<Buffer>& nulls = nullptr, int64_t null_count = -1, int64_t offset = 0);
    const std::shared_ptr<Array>& keys() const { return keys_; }
    const std::shared_ptr<Array>& items() const { return items_; }
    const MapType* map_type() const { return checked_cast<const MapType*>(type().get()); }

 private:
    std::shared_ptr<Array> keys_, items_;
};
class DictionaryArray : public Array {
 public:
    using TypeClass = DictionaryType;
    explicit DictionaryArray(std::shared_ptr<ArrayData> d);
    DictionaryArray(const std::shared_ptr<DataType>& t, const std::shared_ptr<Array>& i,
                    const std::shared_ptr<Array>& dict);
    static Result<std::shared_ptr<Array>> FromArrays(const std::shared_ptr<DataType>& t,
                                                     const std::shared_ptr<Array>& i,
                                                     const std::shared_ptr<Array>& dict);
    const std::shared_ptr<Array>& indices() const { return indices_; }
    const std::shared_ptr<Array>& dictionary() const { return dict_; }
    int64_t GetValueIndex(int64_t i) const;

 private:
    std::shared_ptr<Array> indices_, dict_;
};

Result<std::shared_ptr<Array>> MakeArrayOfNull(const std::shared_ptr<DataType>& t, int64_t length,
                                               MemoryPool* pool = default_memory_pool());
Result<std::shared_ptr<Array>> MakeArrayFromScalar(const Scalar& s, int64_t length,
                                                   MemoryPool* pool = default_memory_pool());
Result<std::shared_ptr<Array>> MakeEmptyArray(std::shared_ptr<DataType> t, MemoryPool* pool = default_memory_pool());
Result<std::shared_ptr<Array>> Concatenate(const ArrayVector& arrays, MemoryPool* pool = default_memory_pool());

// ------------------------------------------------------------------------------------ builders

class ArrayBuilder {
 public:
    explicit ArrayBuilder(MemoryPool* pool) : pool_(pool) {}
    virtual ~ArrayBuilder() = default;
    virtual std::shared_ptr<DataType> type() const = 0;
    virtual Status AppendNull() = 0;
    virtual Status AppendEmptyValue() = 0;
    Status AppendNulls(int64_t n) {
        for (int64_t i = 0; i < n; i++) ARROW_RETURN_NOT_OK(AppendNull());
        return Status::OK();
    }
    Status AppendEmptyValues(int64_t n) {
        for (int64_t i = 0; i < n; i++) ARROW_RETURN_NOT_OK(AppendEmptyValue());
        return Status::OK();
    }
    int64_t length() const { return static_cast<int64_t>(valid_.size()); }
    int64_t null_count() const {
        int64_t n = 0;
        for (bool b : valid_) n += !b;
        return n;
    }
    int64_t capacity() const { return length(); }
    virtual Status Reserve(int64_t) { return Status::OK(); }
    virtual Status Resize(int64_t) { return Status::OK(); }
    virtual void Reset() { valid_.clear(); }
    virtual int num_children() const { return 0; }
    virtual ArrayBuilder* child(int) const { return nullptr; }
    virtual std::shared_ptr<ArrayBuilder> child_builder(int) const { return nullptr; }
    virtual Status FinishData(std::shared_ptr<ArrayData>* out) = 0;
    Status FinishInternal(std::shared_ptr<ArrayData>* out) { return FinishData(out); }
    Status Finish(std::shared_ptr<Array>* out) {
        std::shared_ptr<ArrayData> d;
        ARROW_RETURN_NOT_OK(FinishData(&d));
        *out = MakeArray(d);
        Reset();
        return Status::OK();
    }
    template <typename A>
    Status Finish(std::shared_ptr<A>* out) {
        std::shared_ptr<Array> a;
        ARROW_RETURN_NOT_OK(Finish(&a));
        *out = std::dynamic_pointer_cast<A>(a);
        return Status::OK();
    }
    Result<std::shared_ptr<Array>> Finish() {
        std::shared_ptr<Array> a;
        ARROW_RETURN_NOT_OK(Finish(&a));
        return a;
    }
    bool IsValidAt(int64_t i) const { return valid_[i]; }

 protected:
    std::shared_ptr<Buffer> Validity(int64_t* nulls);
    MemoryPool* pool_;
    std::vector<bool> valid_;
};

class NullBuilder : public ArrayBuilder {
 public:
    explicit NullBuilder(MemoryPool* p = default_memory_pool()) : ArrayBuilder(p) {}
    std::shared_ptr<DataType> type() const override { return null(); }
    Status AppendNull() override {
        valid_.push_back(false);
        return Status::OK();
    }
    Status AppendEmptyValue() override { return AppendNull(); }
    Status FinishData(std::shared_ptr<ArrayData>* out) override {
        *out = ArrayData::Make(null(), length(), {nullptr}, length());
        return Status::OK();
    }
};

class BooleanBuilder : public ArrayBuilder {
 public:
    using value_type = bool;
    explicit BooleanBuilder(MemoryPool* p = default_memory_pool()) : ArrayBuilder(p) {}
    BooleanBuilder(const std::shared_ptr<DataType>&, MemoryPool* p) : ArrayBuilder(p) {}
    std::shared_ptr<DataType> type() const override { return boolean(); }
    Status Append(bool v) {
        v_.push_back(v);
        valid_.push_back(true);
        return Status::OK();
    }
    void UnsafeAppend(bool v) { (void)Append(v); }
    Status AppendNull() override {
        v_.push_back(false);
        valid_.push_back(false);
        return Status::OK();
    }
    Status AppendEmptyValue() override { return Append(false); }
    void Reset() override {
        ArrayBuilder::Reset();
        v_.clear();
    }
    Status FinishData(std::shared_ptr<ArrayData>* out) override;

 private:
    std::vector<bool> v_;
};

template <typename T>
class NumericBuilder : public ArrayBuilder {
 public:
    using TypeClass = T;
    using value_type = typename T::c_type;
    template <typename T1 = T, typename = std::enable_if_t<std::is_default_constructible_v<T1>>>
    explicit NumericBuilder(MemoryPool* p = default_memory_pool()) : ArrayBuilder(p), t_(std::make_shared<T>()) {}
    NumericBuilder(const std::shared_ptr<DataType>& t, MemoryPool* p) : ArrayBuilder(p), t_(t) {}
    std::shared_ptr<DataType> type() const override { return t_; }
    Status Append(value_type v) {
        v_.push_back(v);
        valid_.push_back(true);
        return Status::OK();
    }
    void UnsafeAppend(value_type v) { (void)Append(v); }
    void UnsafeAppendNull() { (void)AppendNull(); }
    Status AppendNull() override {
        v_.push_back(value_type{});
        valid_.push_back(false);
        return Status::OK();
    }
    Status AppendEmptyValue() override { return Append(value_type{}); }
    Status AppendValues(const std::vector<value_type>& v) {
        for (auto x : v) (void)Append(x);
        return Status::OK();
    }
    Status AppendValues(const value_type* v, int64_t n, const uint8_t* valid = nullptr) {
        for (int64_t i = 0; i < n; i++) (void)(valid && !valid[i] ? AppendNull() : Append(v[i]));
        return Status::OK();
    }
    value_type GetValue(int64_t i) const { return v_[i]; }
    void Reset() override {
        ArrayBuilder::Reset();
        v_.clear();
    }
    Status FinishData(std::shared_ptr<ArrayData>* out) override {
        int64_t nulls;
        auto b = Validity(&nulls);
        *out = ArrayData::Make(t_, length(), {b, MakeBuffer(v_.data(), v_.size() * sizeof(value_type), pool_)}, nulls);
        return Status::OK();
    }

 private:
    std::shared_ptr<DataType> t_;
    std::vector<value_type> v_;
};
using UInt8Builder = NumericBuilder<UInt8Type>;
using Int8Builder = NumericBuilder<Int8Type>;
using UInt16Builder = NumericBuilder<UInt16Type>;
using Int16Builder = NumericBuilder<Int16Type>;
using UInt32Builder = NumericBuilder<UInt32Type>;
using Int32Builder = NumericBuilder<Int32Type>;
using UInt64Builder = NumericBuilder<UInt64Type>;
using Int64Builder = NumericBuilder<Int64Type>;
using FloatBuilder = NumericBuilder<FloatType>;
using DoubleBuilder = NumericBuilder<DoubleType>;
using Date32Builder = NumericBuilder<Date32Type>;
using TimestampBuilder = NumericBuilder<TimestampType>;

template <typename T>
class BaseBinaryBuilder : public ArrayBuilder {
 public:
    using TypeClass = T;
    using offset_type = typename T::offset_type;
    explicit BaseBinaryBuilder(MemoryPool* p = default_memory_pool()) : ArrayBuilder(p) { offs_.push_back(0); }
    BaseBinaryBuilder(const std::shared_ptr<DataType>&, MemoryPool* p) : BaseBinaryBuilder(p) {}
    Status Append(const uint8_t* v, offset_type n) {
        return Append(std::string_view(reinterpret_cast<const char*>(v), n));
    }
    Status Append(const char* v, offset_type n) { return Append(std::string_view(v, n)); }
    Status Append(std::string_view s) {
        d_.append(s.data(), s.size());
        offs_.push_back(static_cast<offset_type>(d_.size()));
        valid_.push_back(true);
        return Status::OK();
    }
    void UnsafeAppend(std::string_view s) { (void)Append(s); }
    Status AppendNull() override {
        offs_.push_back(static_cast<offset_type>(d_.size()));
        valid_.push_back(false);
        return Status::OK();
    }
    Status AppendEmptyValue() override { return Append(std::string_view()); }
    Status AppendValues(const std::vector<std::string>& v, const uint8_t* valid = nullptr) {
        for (size_t i = 0; i < v.size(); i++) (void)(valid && !valid[i] ? AppendNull() : Append(v[i]));
        return Status::OK();
    }
    Status ReserveData(int64_t) { return Status::OK(); }
    int64_t value_data_length() const { return d_.size(); }
    std::string_view GetView(int64_t i) const {
        return std::string_view(d_).substr(offs_[i], offs_[i + 1] - offs_[i]);
    }
    void Reset() override {
        ArrayBuilder::Reset();
        d_.clear();
        offs_.assign(1, 0);
    }
    Status FinishData(std::shared_ptr<ArrayData>* out) override {
        int64_t nulls;
        auto b = Validity(&nulls);
        *out = ArrayData::Make(type(), length(),
                               {b, MakeBuffer(offs_.data(), offs_.size() * sizeof(offset_type), pool_),
                                MakeBuffer(d_.data(), d_.size(), pool_)},
                               nulls);
        return Status::OK();
    }

 private:
    std::vector<offset_type> offs_;
    std::string d_;
};
class BinaryBuilder : public BaseBinaryBuilder<BinaryType> {
 public:
    using BaseBinaryBuilder::BaseBinaryBuilder;
    std::shared_ptr<DataType> type() const override { return binary(); }
};
class StringBuilder : public BinaryBuilder {
 public:
    using BinaryBuilder::BinaryBuilder;
    std::shared_ptr<DataType> type() const override { return utf8(); }
};
class LargeBinaryBuilder : public BaseBinaryBuilder<LargeBinaryType> {
 public:
    using BaseBinaryBuilder::BaseBinaryBuilder;
    std::shared_ptr<DataType> type() const override { return large_binary(); }
};
class LargeStringBuilder : public LargeBinaryBuilder {
 public:
    using LargeBinaryBuilder::LargeBinaryBuilder;
    std::shared_ptr<DataType> type() const override { return large_utf8(); }
};
class FixedSizeBinaryBuilder : public ArrayBuilder {
 public:
    explicit FixedSizeBinaryBuilder(const std::shared_ptr<DataType>& t, MemoryPool* p = default_memory_pool())
        : ArrayBuilder(p), t_(t), w_(checked_cast<const FixedSizeBinaryType&>(*t).byte_width()) {}
    std::shared_ptr<DataType> type() const override { return t_; }
    Status Append(const uint8_t* v) {
        d_.append(reinterpret_cast<const char*>(v), w_);
        valid_.push_back(true);
        return Status::OK();
    }
    Status AppendNull() override {
        d_.append(w_, '\0');
        valid_.push_back(false);
        return Status::OK();
    }
    Status AppendEmptyValue() override {
        d_.append(w_, '\0');
        valid_.push_back(true);
        return Status::OK();
    }
    void Reset() override {
        ArrayBuilder::Reset();
        d_.clear();
    }
    Status FinishData(std::shared_ptr<ArrayData>* out) override {
        int64_t nulls;
        auto b = Validity(&nulls);
        *out = ArrayData::Make(t_, length(), {b, MakeBuffer(d_.data(), d_.size(), pool_)}, nulls);
        return Status::OK();
    }

 protected:
    std::shared_ptr<DataType> t_;
    int w_;
    std::string d_;
};
class Decimal128Builder : public FixedSizeBinaryBuilder {
 public:
    using TypeClass = Decimal128Type;
    using ValueType = Decimal128;
    explicit Decimal128Builder(const std::shared_ptr<DataType>& t, MemoryPool* p = default_memory_pool())
        : FixedSizeBinaryBuilder(t, p) {}
    using FixedSizeBinaryBuilder::Append;
    Status Append(Decimal128 v) {
        __int128 raw = v.raw();
        return FixedSizeBinaryBuilder::Append(reinterpret_cast<const uint8_t*>(&raw));
    }
    void UnsafeAppend(Decimal128 v) { (void)Append(v); }
};
class ListBuilder : public ArrayBuilder {
 public:
    ListBuilder(MemoryPool* p, std::shared_ptr<ArrayBuilder> v, const std::shared_ptr<DataType>& t = nullptr)
        : ArrayBuilder(p), v_(std::move(v)), t_(t) {}
    std::shared_ptr<DataType> type() const override { return t_ ? t_ : list(v_->type()); }
    Status Append(bool valid = true) {
        offs_.push_back(static_cast<int32_t>(v_->length()));
        valid_.push_back(valid);
        return Status::OK();
    }
    Status Append(bool valid, int64_t) { return Append(valid); }
    Status AppendNull() override { return Append(false); }
    Status AppendEmptyValue() override { return Append(true); }
    ArrayBuilder* value_builder() const { return v_.get(); }
    int num_children() const override { return 1; }
    ArrayBuilder* child(int) const override { return v_.get(); }
    std::shared_ptr<ArrayBuilder> child_builder(int) const override { return v_; }
    void Reset() override {
        ArrayBuilder::Reset();
        offs_.clear();
        v_->Reset();
    }
    Status FinishData(std::shared_ptr<ArrayData>* out) override;

 protected:
    std::shared_ptr<ArrayBuilder> v_;
    std::shared_ptr<DataType> t_;
    std::vector<int32_t> offs_;
};
class StructBuilder : public ArrayBuilder {
 public:
    StructBuilder(const std::shared_ptr<DataType>& t, MemoryPool* p, std::vector<std::shared_ptr<ArrayBuilder>> f)
        : ArrayBuilder(p), t_(t), f_(std::move(f)) {}
    std::shared_ptr<DataType> type() const override { return t_; }
    Status Append(bool valid = true) {
        valid_.push_back(valid);
        return Status::OK();
    }
    Status AppendNull() override {
        for (auto& f : f_) ARROW_RETURN_NOT_OK(f->AppendEmptyValue());
        return Append(false);
    }
    Status AppendEmptyValue() override {
        for (auto& f : f_) ARROW_RETURN_NOT_OK(f->AppendEmptyValue());
        return Append(true);
    }
    Status AppendValues(int64_t n, const uint8_t* valid) {
        for (int64_t i = 0; i < n; i++) valid_.push_back(!valid || valid[i]);
        return Status::OK();
    }
    ArrayBuilder* field_builder(int i) const { return f_[i].get(); }
    int num_fields() const { return static_cast<int>(f_.size()); }
    int num_children() const override { return num_fields(); }
    ArrayBuilder* child(int i) const override { return f_[i].get(); }
    std::shared_ptr<ArrayBuilder> child_builder(int i) const override { return f_[i]; }
    void Reset() override {
        ArrayBuilder::Reset();
        for (auto& f : f_) f->Reset();
    }
    Status FinishData(std::shared_ptr<ArrayData>* out) override;

 private:
    std::shared_ptr<DataType> t_;
    std::vector<std::shared_ptr<ArrayBuilder>> f_;
};
class MapBuilder : public ArrayBuilder {
 public:
    MapBuilder(MemoryPool* p, const std::shared_ptr<ArrayBuilder>& k, const std::shared_ptr<ArrayBuilder>& v,
               const std::shared_ptr<DataType>& t)
        : ArrayBuilder(p), k_(k), v_(v), t_(t) {}
    MapBuilder(MemoryPool* p, const std::shared_ptr<ArrayBuilder>& k, const std::shared_ptr<ArrayBuilder>& v,
               bool = false)
        : ArrayBuilder(p), k_(k), v_(v), t_(map(k->type(), v->type())) {}
    std::shared_ptr<DataType> type() const override { return t_; }
    Status Append() {
        offs_.push_back(static_cast<int32_t>(k_->length()));
        valid_.push_back(true);
        return Status::OK();
    }
    Status AppendNull() override {
        offs_.push_back(static_cast<int32_t>(k_->length()));
        valid_.push_back(false);
        return Status::OK();
    }
    Status AppendEmptyValue() override { return Append(); }
    ArrayBuilder* key_builder() const { return k_.get(); }
    ArrayBuilder* item_builder() const { return v_.get(); }
    int num_children() const override { return 2; }
    ArrayBuilder* child(int i) const override { return i ? v_.get() : k_.get(); }
    std::shared_ptr<ArrayBuilder> child_builder(int i) const override { return i ? v_ : k_; }
    void Reset() override {
        ArrayBuilder::Reset();
        offs_.clear();
        k_->Reset();
        v_->Reset();
    }
    Status FinishData(std::shared_ptr<ArrayData>* out) override;

 private:
    std::shared_ptr<ArrayBuilder> k_, v_;
    std::shared_ptr<DataType> t_;
    std::vector<int32_t> offs_;
};
Status MakeBuilder(MemoryPool* pool, const std::shared_ptr<DataType>& t, std::unique_ptr<ArrayBuilder>* out);
Result<std::unique_ptr<ArrayBuilder>> MakeBuilder(const std::shared_ptr<DataType>& t,
                                                  MemoryPool* pool = default_memory_pool());
// Appends element i of `a`.
Status AppendElement(ArrayBuilder* b, const Array& a, int64_t i);

// ------------------------------------------------------------------------------------- scalars

struct Scalar : std::enable_shared_from_this<Scalar> {
    virtual ~Scalar() = default;
    std::shared_ptr<DataType> type;
    bool is_valid = false;
    std::string ToString() const;
    virtual Status AppendTo(ArrayBuilder* b) const = 0;
    virtual std::string Text() const = 0;

 protected:
    Scalar(std::shared_ptr<DataType> t, bool v) : type(std::move(t)), is_valid(v) {}
};
struct NullScalar : Scalar {
    explicit NullScalar(std::shared_ptr<DataType> t = null()) : Scalar(std::move(t), false) {}
    Status AppendTo(ArrayBuilder* b) const override { return b->AppendNull(); }
    std::string Text() const override { return "null"; }
};
struct BooleanScalar : Scalar {
    using ValueType = bool;
    bool value;
    explicit BooleanScalar(bool v) : Scalar(boolean(), true), value(v) {}
    BooleanScalar(bool v, std::shared_ptr<DataType> t) : Scalar(std::move(t), true), value(v) {}
    const void* data() const { return &value; }
    Status AppendTo(ArrayBuilder* b) const override { return checked_cast<BooleanBuilder*>(b)->Append(value); }
    std::string Text() const override { return value ? "true" : "false"; }
};
std::string FormatReal(double v);
std::string FormatReal(float v);
template <typename T>
struct NumericScalar : Scalar {
    using TypeClass = T;
    using ValueType = typename T::c_type;
    ValueType value{};
    explicit NumericScalar(ValueType v) : Scalar(std::make_shared<T>(), true), value(v) {}
    NumericScalar(ValueType v, std::shared_ptr<DataType> t) : Scalar(std::move(t), true), value(v) {}
    const void* data() const { return &value; }
    Status AppendTo(ArrayBuilder* b) const override { return checked_cast<NumericBuilder<T>*>(b)->Append(value); }
    std::string Text() const override {
        if constexpr (std::is_floating_point_v<ValueType>) return FormatReal(value);
        else return std::to_string(value);
    }
};
using Int8Scalar = NumericScalar<Int8Type>;
using Int16Scalar = NumericScalar<Int16Type>;
using Int32Scalar = NumericScalar<Int32Type>;
using Int64Scalar = NumericScalar<Int64Type>;
using UInt64Scalar = NumericScalar<UInt64Type>;
using FloatScalar = NumericScalar<FloatType>;
using DoubleScalar = NumericScalar<DoubleType>;
using Date32Scalar = NumericScalar<Date32Type>;
struct TimestampScalar : NumericScalar<TimestampType> {
    using NumericScalar::NumericScalar;
    TimestampScalar(int64_t v, TimeUnit::type u, std::string tz = "") : NumericScalar(v, timestamp(u, tz)) {}
};
struct BaseBinaryScalar : Scalar {
    std::shared_ptr<Buffer> value;
    BaseBinaryScalar(std::shared_ptr<Buffer> v, std::shared_ptr<DataType> t)
        : Scalar(std::move(t), true), value(std::move(v)) {}
    std::string_view view() const { return *value; }
    Status AppendTo(ArrayBuilder* b) const override;
    std::string Text() const override { return std::string(view()); }
};
struct BinaryScalar : BaseBinaryScalar {
    using ValueType = std::shared_ptr<Buffer>;
    explicit BinaryScalar(std::shared_ptr<Buffer> v, std::shared_ptr<DataType> t = binary())
        : BaseBinaryScalar(std::move(v), std::move(t)) {}
    explicit BinaryScalar(std::string s) : BinaryScalar(Buffer::FromString(std::move(s))) {}
};
struct StringScalar : BinaryScalar {
    explicit StringScalar(std::shared_ptr<Buffer> v, std::shared_ptr<DataType> t = utf8())
        : BinaryScalar(std::move(v), std::move(t)) {}
    explicit StringScalar(std::string s) : StringScalar(Buffer::FromString(std::move(s))) {}
    StringScalar(std::string s, std::shared_ptr<DataType> t) : StringScalar(Buffer::FromString(std::move(s)), t) {}
};
struct Decimal128Scalar : Scalar {
    using ValueType = Decimal128;
    Decimal128 value;
    Decimal128Scalar(Decimal128 v, std::shared_ptr<DataType> t) : Scalar(std::move(t), true), value(v) {}
    Status AppendTo(ArrayBuilder* b) const override { return checked_cast<Decimal128Builder*>(b)->Append(value); }
    std::string Text() const override;
};
std::shared_ptr<Scalar> MakeNullScalar(std::shared_ptr<DataType> t);

template <typename T>
struct TypeTraits;
#define MINI_TRAITS(N, FN)                                         \
    template <>                                                    \
    struct TypeTraits<N##Type> {                                   \
        using ArrayType = N##Array;                                \
        using BuilderType = N##Builder;                            \
        using ScalarType = N##Scalar;                              \
        using CType = N##Type::c_type;                             \
        static std::shared_ptr<DataType> type_singleton() { return FN(); } \
    };
using UInt8Scalar = NumericScalar<UInt8Type>;
using UInt16Scalar = NumericScalar<UInt16Type>;
using UInt32Scalar = NumericScalar<UInt32Type>;
MINI_TRAITS(Boolean, boolean)
MINI_TRAITS(UInt8, uint8)
MINI_TRAITS(Int8, int8)
MINI_TRAITS(UInt16, uint16)
MINI_TRAITS(Int16, int16)
MINI_TRAITS(UInt32, uint32)
MINI_TRAITS(Int32, int32)
MINI_TRAITS(UInt64, uint64)
MINI_TRAITS(Int64, int64)
MINI_TRAITS(Float, float32)
MINI_TRAITS(Double, float64)
MINI_TRAITS(Date32, date32)
#undef MINI_TRAITS
template <>
struct TypeTraits<TimestampType> {
    using ArrayType = TimestampArray;
    using BuilderType = TimestampBuilder;
    using ScalarType = TimestampScalar;
    using CType = int64_t;
};
template <>
struct TypeTraits<StringType> {
    using ArrayType = StringArray;
    using BuilderType = StringBuilder;
    using ScalarType = StringScalar;
    static std::shared_ptr<DataType> type_singleton() { return utf8(); }
};
template <>
struct TypeTraits<BinaryType> {
    using ArrayType = BinaryArray;
    using BuilderType = BinaryBuilder;
    using ScalarType = BinaryScalar;
    static std::shared_ptr<DataType> type_singleton() { return binary(); }
};
template <>
struct TypeTraits<LargeBinaryType> {
    using ArrayType = LargeBinaryArray;
    using BuilderType = LargeBinaryBuilder;
};
template <>
struct TypeTraits<LargeStringType> {
    using ArrayType = LargeStringArray;
    using BuilderType = LargeStringBuilder;
};
template <>
struct TypeTraits<Decimal128Type> {
    using ArrayType = Decimal128Array;
    using BuilderType = Decimal128Builder;
    using ScalarType = Decimal128Scalar;
};
template <typename A>
using enable_if_t = std::enable_if_t<A::value>;

class RecordBatch {
 public:
    static std::shared_ptr<RecordBatch> Make(std::shared_ptr<Schema> s, int64_t n, ArrayVector c) {
        auto b = std::make_shared<RecordBatch>();
        b->schema_ = std::move(s);
        b->n_ = n;
        b->columns_ = std::move(c);
        return b;
    }
    const std::shared_ptr<Schema>& schema() const { return schema_; }
    int64_t num_rows() const { return n_; }
    int num_columns() const { return static_cast<int>(columns_.size()); }
    std::shared_ptr<Array> column(int i) const { return columns_[i]; }
    const ArrayVector& columns() const { return columns_; }
    Result<std::shared_ptr<StructArray>> ToStructArray() const {
        return StructArray::Make(columns_, schema_->fields());
    }

 private:
    std::shared_ptr<Schema> schema_;
    int64_t n_ = 0;
    ArrayVector columns_;
};

// -------------------------------------------------------------------------------------- compute

struct Datum {
    std::variant<std::monostate, std::shared_ptr<Scalar>, std::shared_ptr<ArrayData>> value;
    Datum() = default;
    Datum(std::shared_ptr<Scalar> s) : value(std::move(s)) {}          // NOLINT
    Datum(const Array& a) : value(a.data()) {}                         // NOLINT
    Datum(std::shared_ptr<ArrayData> d) : value(std::move(d)) {}       // NOLINT
    template <typename T, std::enable_if_t<std::is_base_of_v<Array, T>, int> = 0>
    Datum(const std::shared_ptr<T>& a) : value(a->data()) {}           // NOLINT
    template <typename T, std::enable_if_t<std::is_base_of_v<Scalar, T>, int> = 0>
    Datum(const std::shared_ptr<T>& a) : value(std::static_pointer_cast<Scalar>(a)) {}  // NOLINT
    bool is_array() const { return value.index() == 2; }
    bool is_scalar() const { return value.index() == 1; }
    const std::shared_ptr<ArrayData>& array() const { return std::get<2>(value); }
    std::shared_ptr<Array> make_array() const { return MakeArray(std::get<2>(value)); }
    const std::shared_ptr<Scalar>& scalar() const { return std::get<1>(value); }
    template <typename T>
    const T& scalar_as() const {
        return checked_cast<const T&>(*scalar());
    }
    template <typename T>
    std::shared_ptr<T> array_as() const {
        return std::dynamic_pointer_cast<T>(make_array());
    }
    std::shared_ptr<DataType> type() const { return is_array() ? array()->type : scalar()->type; }
};

namespace compute {
class ExecContext {
 public:
    explicit ExecContext(MemoryPool* p = default_memory_pool()) : pool_(p) {}
    MemoryPool* memory_pool() const { return pool_; }

 private:
    MemoryPool* pool_;
};
struct CastOptions {
    explicit CastOptions(bool safe = true) { Set(!safe); }
    static CastOptions Safe(TypeHolder t = {}) {
        CastOptions o(true);
        o.to_type = std::move(t);
        return o;
    }
    static CastOptions Unsafe(TypeHolder t = {}) {
        CastOptions o(false);
        o.to_type = std::move(t);
        return o;
    }
    TypeHolder to_type;
    bool allow_int_overflow, allow_time_truncate, allow_time_overflow, allow_decimal_truncate, allow_float_truncate,
        allow_invalid_utf8;

 private:
    void Set(bool v) {
        allow_int_overflow = allow_time_truncate = allow_time_overflow = allow_decimal_truncate =
            allow_float_truncate = allow_invalid_utf8 = v;
    }
};
bool CanCast(const DataType& from, const DataType& to);
Result<std::shared_ptr<Array>> Cast(const Array& v, const TypeHolder& to, const CastOptions& o = CastOptions::Safe(),
                                    ExecContext* ctx = nullptr);
Result<Datum> Cast(const Datum& v, const TypeHolder& to, const CastOptions& o = CastOptions::Safe(),
                   ExecContext* ctx = nullptr);
struct AssumeTimezoneOptions {
    enum Ambiguous { AMBIGUOUS_RAISE, AMBIGUOUS_EARLIEST, AMBIGUOUS_LATEST };
    enum Nonexistent { NONEXISTENT_RAISE, NONEXISTENT_EARLIEST, NONEXISTENT_LATEST };
    explicit AssumeTimezoneOptions(std::string tz, Ambiguous = AMBIGUOUS_RAISE, Nonexistent = NONEXISTENT_RAISE)
        : timezone(std::move(tz)) {}
    std::string timezone;
};
Result<Datum> AssumeTimezone(const Datum& v, const AssumeTimezoneOptions& o, ExecContext* ctx = nullptr);
Result<Datum> LocalTimestamp(const Datum& v, ExecContext* ctx = nullptr);
enum class SortOrder { Ascending, Descending };
enum class NullPlacement { AtStart, AtEnd };
struct SortKey {
    SortKey(std::string t, SortOrder o = SortOrder::Ascending) : target(std::move(t)), order(o) {}  // NOLINT
    std::string target;
    SortOrder order;
};
struct SortOptions {
    explicit SortOptions(std::vector<SortKey> k = {}, NullPlacement p = NullPlacement::AtEnd)
        : sort_keys(std::move(k)), null_placement(p) {}
    std::vector<SortKey> sort_keys;
    NullPlacement null_placement;
};
Result<std::shared_ptr<Array>> SortIndices(const Datum& v, const SortOptions& o, ExecContext* ctx = nullptr);
}  // namespace compute

// ------------------------------------------------------------------------------------ C bridge

Status ExportType(const DataType& t, struct ArrowSchema* out);
Status ExportField(const Field& f, struct ArrowSchema* out);
Status ExportSchema(const Schema& s, struct ArrowSchema* out);
Status ExportArray(const Array& a, struct ArrowArray* out, struct ArrowSchema* out_schema = nullptr);
Status ExportRecordBatch(const RecordBatch& b, struct ArrowArray* out, struct ArrowSchema* out_schema = nullptr);
Result<std::shared_ptr<DataType>> ImportType(struct ArrowSchema* s);
Result<std::shared_ptr<Field>> ImportField(struct ArrowSchema* s);
Result<std::shared_ptr<Schema>> ImportSchema(struct ArrowSchema* s);
Result<std::shared_ptr<Array>> ImportArray(struct ArrowArray* a, std::shared_ptr<DataType> t);
Result<std::shared_ptr<Array>> ImportArray(struct ArrowArray* a, struct ArrowSchema* s);
Result<std::shared_ptr<RecordBatch>> ImportRecordBatch(struct ArrowArray* a, std::shared_ptr<Schema> s);
Result<std::shared_ptr<RecordBatch>> ImportRecordBatch(struct ArrowArray* a, struct ArrowSchema* s);

}  // namespace arrow

inline int ArrowSchemaIsReleased(const struct ArrowSchema* s) { return s->release == nullptr; }
inline void ArrowSchemaMarkReleased(struct ArrowSchema* s) { s->release = nullptr; }
inline void ArrowSchemaMove(struct ArrowSchema* src, struct ArrowSchema* dst) {
    assert(dst != src);
    memcpy(dst, src, sizeof(*src));
    src->release = nullptr;
}
inline void ArrowSchemaRelease(struct ArrowSchema* s) {
    if (s->release) {
        s->release(s);
        assert(!s->release);
    }
}
inline int ArrowArrayIsReleased(const struct ArrowArray* a) { return a->release == nullptr; }
inline void ArrowArrayMarkReleased(struct ArrowArray* a) { a->release = nullptr; }
inline void ArrowArrayMove(struct ArrowArray* src, struct ArrowArray* dst) {
    assert(dst != src);
    memcpy(dst, src, sizeof(*src));
    src->release = nullptr;
}
inline void ArrowArrayRelease(struct ArrowArray* a) {
    if (a->release) {
        a->release(a);
        assert(!a->release);
    }
}
namespace arrow {
using ::ArrowArrayIsReleased;
using ::ArrowArrayMarkReleased;
using ::ArrowArrayMove;
using ::ArrowArrayRelease;
using ::ArrowSchemaIsReleased;
using ::ArrowSchemaMarkReleased;
using ::ArrowSchemaMove;
using ::ArrowSchemaRelease;
}  // namespace arrow

namespace arrow_vendored {
namespace date {
struct time_zone {
    std::string name() const { return "UTC"; }
};
inline const time_zone* current_zone() {
    static const time_zone z;
    return &z;
}
}  // namespace date
}  // namespace arrow_vendored
