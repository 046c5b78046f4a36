// A minimal file format standing in for ORC / Parquet / Avro, whose libraries are not available.
// A file is: magic, schema number, row count, the column data, and a checksum; a file that is cut
// short or altered is refused, as the real formats do. Registered under the real format names.
#pragma once
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "arrow/api.h"
#include "arrow/c/bridge.h"
#include "mc/mc.h"
#include "paimon/common/metrics/metrics_impl.h"
#include "paimon/common/reader/reader_utils.h"
#include "paimon/common/utils/arrow/status_utils.h"
#include "paimon/data/decimal.h"
#include "paimon/factories/factory_creator.h"
#include "paimon/format/column_stats.h"
#include "paimon/format/file_format.h"
#include "paimon/format/file_format_factory.h"
#include "paimon/format/format_stats_extractor.h"
#include "paimon/format/format_writer.h"
#include "paimon/format/reader_builder.h"
#include "paimon/format/writer_builder.h"
#include "paimon/fs/file_system.h"
#include "paimon/reader/prefetch_file_batch_reader.h"

namespace ff {
using paimon::ToPaimonStatus;
using paimon::Result;
using paimon::Status;

// Types of the files written so far; a file names its type by number.
inline std::vector<std::shared_ptr<arrow::DataType>>& Types() {
    static std::vector<std::shared_ptr<arrow::DataType>> v;
    return v;
}
inline uint32_t TypeNumber(const std::shared_ptr<arrow::DataType>& t) {
    static std::map<std::string, uint32_t> by_name;
    std::string key = t->ToString();
    for (auto& f : t->fields()) {
        key += "|";
        if (f->metadata()) key += f->metadata()->ToString();
    }
    auto i = by_name.find(key);
    if (i != by_name.end()) return i->second;
    uint32_t n = static_cast<uint32_t>(Types().size());
    Types().push_back(t);
    by_name[key] = n;
    return n;
}

inline void PutU64(std::string* o, uint64_t v) { o->append(reinterpret_cast<const char*>(&v), 8); }
inline uint64_t GetU64(const std::string& s, size_t* p) {
    uint64_t v = 0;
    memcpy(&v, s.data() + *p, 8);
    *p += 8;
    return v;
}
inline void Dump(const arrow::ArrayData& d, std::string* o) {
    PutU64(o, d.length);
    PutU64(o, d.offset);
    PutU64(o, d.buffers.size());
    for (auto& b : d.buffers) {
        PutU64(o, b ? static_cast<uint64_t>(b->size()) : ~0ULL);
        if (b) o->append(reinterpret_cast<const char*>(b->data()), b->size());
    }
    PutU64(o, d.child_data.size());
    for (auto& c : d.child_data) Dump(*c, o);
}
inline std::shared_ptr<arrow::ArrayData> Undump(const std::shared_ptr<arrow::DataType>& t, const std::string& s,
                                                size_t* p) {
    int64_t len = static_cast<int64_t>(GetU64(s, p));
    int64_t off = static_cast<int64_t>(GetU64(s, p));
    std::vector<std::shared_ptr<arrow::Buffer>> bufs(GetU64(s, p));
    for (auto& b : bufs) {
        uint64_t n = GetU64(s, p);
        if (n == ~0ULL) continue;
        b = arrow::MakeBuffer(s.data() + *p, static_cast<int64_t>(n), arrow::default_memory_pool());
        *p += n;
    }
    std::vector<std::shared_ptr<arrow::ArrayData>> kids(GetU64(s, p));
    for (size_t i = 0; i < kids.size(); i++) kids[i] = Undump(t->field(static_cast<int>(i))->type(), s, p);
    return arrow::ArrayData::Make(t, len, bufs, kids, arrow::kUnknownNullCount, off);
}

inline uint64_t Sum(const std::string& s, size_t from) {
    mc::Hash h;
    h.Bytes(s.data() + from, s.size() - from);
    return h.h;
}
inline std::string Encode(const std::shared_ptr<arrow::Array>& a) {
    std::string body;
    PutU64(&body, TypeNumber(a->type()));
    Dump(*a->data(), &body);
    std::string out = "MCF1";
    PutU64(&out, body.size());
    PutU64(&out, Sum(body, 0));
    return out + body;
}
inline std::shared_ptr<arrow::Array> Decode(const std::string& s) {
    if (s.size() < 20 || s.compare(0, 4, "MCF1") != 0) return nullptr;
    size_t p = 4;
    uint64_t n = GetU64(s, &p), sum = GetU64(s, &p);
    if (n != s.size() - 20 || Sum(s, 20) != sum) return nullptr;
    uint64_t t = GetU64(s, &p);
    if (t >= Types().size()) return nullptr;
    return arrow::MakeArray(Undump(Types()[t], s, &p));
}

// Rows per unit that a prefetching reader may be asked to read separately; the number of bytes a row
// counts for when a writer asks whether a file is full.
inline int& StripeRows() {
    static int n = 2;
    return n;
}

class Writer : public paimon::FormatWriter {
 public:
    Writer(std::shared_ptr<arrow::DataType> t, std::shared_ptr<paimon::OutputStream> o)
        : type_(std::move(t)), out_(std::move(o)) {}
    Status AddBatch(::ArrowArray* b) override {
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Array> a, arrow::ImportArray(b, type_));
        rows_ += a->length();
        parts_.push_back(a);
        return Status::OK();
    }
    Status Flush() override { return Status::OK(); }
    Status Finish() override {
        if (parts_.empty()) {
            PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Array> e, arrow::MakeEmptyArray(type_));
            parts_.push_back(e);
        }
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Array> all, arrow::Concatenate(parts_));
        std::string bytes = Encode(arrow::MakeArray(Retype(all)));
        PAIMON_ASSIGN_OR_RAISE(int32_t n, out_->Write(bytes.data(), static_cast<uint32_t>(bytes.size())));
        if (n != static_cast<int32_t>(bytes.size())) return Status::IOError("short write");
        return Status::OK();
    }
    Result<bool> ReachTargetSize(bool suggested, int64_t target) const override {
        return suggested && rows_ * 100 >= target;
    }
    std::shared_ptr<paimon::Metrics> GetWriterMetrics() const override {
        return std::make_shared<paimon::MetricsImpl>();
    }

 private:
    std::shared_ptr<arrow::ArrayData> Retype(const std::shared_ptr<arrow::Array>& a) const {
        auto d = a->data()->Copy();
        d->type = type_;
        return d;
    }
    std::shared_ptr<arrow::DataType> type_;
    std::shared_ptr<paimon::OutputStream> out_;
    arrow::ArrayVector parts_;
    int64_t rows_ = 0;
};

// Takes the fields of `want` out of `a` by name (recursively for structs).
inline Result<std::shared_ptr<arrow::Array>> Project(const std::shared_ptr<arrow::Array>& a,
                                                     const std::shared_ptr<arrow::DataType>& want) {
    auto* s = static_cast<arrow::StructArray*>(a.get());
    arrow::ArrayVector cols;
    arrow::FieldVector fields;
    for (auto& f : want->fields()) {
        auto c = s->GetFieldByName(f->name());
        if (!c) return Status::Invalid("file has no field " + f->name());
        if (f->type()->id() == arrow::Type::STRUCT && !c->type()->Equals(*f->type())) {
            PAIMON_ASSIGN_OR_RAISE(c, Project(c, f->type()));
        }
        cols.push_back(c);
        fields.push_back(f);
    }
    if (cols.empty()) {
        return arrow::MakeArray(arrow::ArrayData::Make(arrow::struct_({}), a->length(), {nullptr}, 0));
    }
    PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::StructArray> r,
                                      arrow::StructArray::Make(cols, fields, a->null_bitmap()));
    return std::shared_ptr<arrow::Array>(r);
}

class Reader : public paimon::PrefetchFileBatchReader {
 public:
    Reader(std::shared_ptr<arrow::Array> data, int32_t batch) : data_(std::move(data)), batch_(batch) {
        view_ = data_;
    }
    Result<std::unique_ptr<::ArrowSchema>> GetFileSchema() const override {
        auto c = std::make_unique<::ArrowSchema>();
        PAIMON_RETURN_NOT_OK_FROM_ARROW(arrow::ExportType(*data_->type(), c.get()));
        return c;
    }
    Status SetReadSchema(::ArrowSchema* s, const std::shared_ptr<paimon::Predicate>&,
                         const std::optional<paimon::RoaringBitmap32>& sel) override {
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Schema> schema, arrow::ImportSchema(s));
        PAIMON_ASSIGN_OR_RAISE(view_, Project(data_, arrow::struct_(schema->fields())));
        sel_ = sel;
        pos_ = 0;
        prev_ = ~0ULL;
        return Status::OK();
    }
    Result<ReadBatch> NextBatch() override {
        uint64_t n = GetNumberOfRows();
        while (pos_ < n) {
            uint64_t end = std::min<uint64_t>(n, pos_ + batch_);
            if (!ranges_.empty()) {
                // stay within the announced ranges, as the columnar formats do
                const std::pair<uint64_t, uint64_t>* in = nullptr;
                for (auto& r : ranges_) {
                    if (pos_ < r.second) {
                        in = &r;
                        break;
                    }
                }
                if (!in) {
                    pos_ = n;
                    break;
                }
                if (pos_ < in->first) {
                    pos_ = in->first;
                    continue;
                }
                end = std::min(end, in->second);
            }
            uint64_t at = pos_;
            pos_ = end;
            if (sel_) {
                bool any = false;
                for (uint64_t i = at; i < end; i++) any = any || sel_->Contains(static_cast<int32_t>(i));
                if (!any) continue;
            }
            prev_ = at;
            auto part = view_->Slice(static_cast<int64_t>(at), static_cast<int64_t>(end - at));
            PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Array> copy, arrow::Concatenate({part}));
            auto a = std::make_unique<::ArrowArray>();
            auto t = std::make_unique<::ArrowSchema>();
            PAIMON_RETURN_NOT_OK_FROM_ARROW(arrow::ExportArray(*copy, a.get(), t.get()));
            return std::make_pair(std::move(a), std::move(t));
        }
        prev_ = n;
        return paimon::BatchReader::MakeEofBatch();
    }
    uint64_t GetPreviousBatchFirstRowNumber() const override { return prev_; }
    uint64_t GetNumberOfRows() const override { return static_cast<uint64_t>(data_->length()); }
    bool SupportPreciseBitmapSelection() const override { return false; }
    Status SeekToRow(uint64_t r) override {
        pos_ = r;
        return Status::OK();
    }
    uint64_t GetNextRowToRead() const override { return pos_; }
    Result<std::vector<std::pair<uint64_t, uint64_t>>> GenReadRanges(bool* need) const override {
        std::vector<std::pair<uint64_t, uint64_t>> r;
        for (uint64_t b = 0; b < GetNumberOfRows(); b += StripeRows()) {
            r.emplace_back(b, std::min<uint64_t>(GetNumberOfRows(), b + StripeRows()));
        }
        *need = true;
        return r;
    }
    Status SetReadRanges(const std::vector<std::pair<uint64_t, uint64_t>>& r) override {
        ranges_ = r;
        return Status::OK();
    }
    std::shared_ptr<paimon::Metrics> GetReaderMetrics() const override {
        return std::make_shared<paimon::MetricsImpl>();
    }
    void Close() override {}

 private:
    std::shared_ptr<arrow::Array> data_, view_;
    uint64_t batch_;
    uint64_t pos_ = 0, prev_ = ~0ULL;
    std::optional<paimon::RoaringBitmap32> sel_;
    std::vector<std::pair<uint64_t, uint64_t>> ranges_;
};

inline Result<std::string> ReadAll(paimon::InputStream* in) {
    PAIMON_ASSIGN_OR_RAISE(uint64_t len, in->Length());
    std::string s(len, '\0');
    PAIMON_ASSIGN_OR_RAISE(int32_t n, in->Read(s.data(), static_cast<uint32_t>(len), 0));
    if (n != static_cast<int32_t>(len)) return Status::IOError("short read");
    return s;
}

class RBuilder : public paimon::ReaderBuilder {
 public:
    explicit RBuilder(int32_t b) : batch_(b) {}
    paimon::ReaderBuilder* WithMemoryPool(const std::shared_ptr<paimon::MemoryPool>&) override { return this; }
    Result<std::unique_ptr<paimon::FileBatchReader>> Build(
        const std::shared_ptr<paimon::InputStream>& in) const override {
        PAIMON_ASSIGN_OR_RAISE(std::string s, ReadAll(in.get()));
        auto a = Decode(s);
        if (!a) return Status::Invalid("damaged file");
        return std::unique_ptr<paimon::FileBatchReader>(new Reader(a, batch_));
    }
    Result<std::unique_ptr<paimon::FileBatchReader>> Build(const std::string&) const override {
        return Status::Invalid("not supported");
    }

 private:
    int32_t batch_;
};

class WBuilder : public paimon::WriterBuilder {
 public:
    explicit WBuilder(std::shared_ptr<arrow::DataType> t) : type_(std::move(t)) {}
    paimon::WriterBuilder* WithMemoryPool(const std::shared_ptr<paimon::MemoryPool>&) override { return this; }
    Result<std::unique_ptr<paimon::FormatWriter>> Build(const std::shared_ptr<paimon::OutputStream>& out,
                                                        const std::string&) override {
        return std::unique_ptr<paimon::FormatWriter>(new Writer(type_, out));
    }

 private:
    std::shared_ptr<arrow::DataType> type_;
};

template <typename A, typename V, typename F>
std::pair<std::optional<V>, std::optional<V>> MinMax(const arrow::Array& a, F get) {
    std::optional<V> lo, hi;
    auto& t = static_cast<const A&>(a);
    for (int64_t i = 0; i < a.length(); i++) {
        if (a.IsNull(i)) continue;
        V v = get(t, i);
        if (!(v == v)) continue;  // not a number: left out of the bounds
        if (!lo || v < *lo) lo = v;
        if (!hi || *hi < v) hi = v;
    }
    return {lo, hi};
}

// False: report no statistics at all (every file must then be kept).
inline bool& CollectStats() {
    static bool b = true;
    return b;
}

class Stats : public paimon::FormatStatsExtractor {
 public:
    explicit Stats(std::shared_ptr<arrow::DataType> t) : type_(std::move(t)) {}
    Result<paimon::ColumnStatsVector> Extract(const std::shared_ptr<paimon::FileSystem>& fs, const std::string& path,
                                              const std::shared_ptr<paimon::MemoryPool>& pool) override {
        PAIMON_ASSIGN_OR_RAISE(auto r, ExtractWithFileInfo(fs, path, pool));
        return r.first;
    }
    Result<std::pair<paimon::ColumnStatsVector, FileInfo>> ExtractWithFileInfo(
        const std::shared_ptr<paimon::FileSystem>& fs, const std::string& path,
        const std::shared_ptr<paimon::MemoryPool>&) override {
        PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<paimon::InputStream> in, fs->Open(path));
        PAIMON_ASSIGN_OR_RAISE(std::string s, ReadAll(in.get()));
        auto a = Decode(s);
        if (!a) return Status::Invalid("damaged file");
        paimon::ColumnStatsVector v;
        auto* st = static_cast<arrow::StructArray*>(a.get());
        for (auto& f : type_->fields()) {
            auto c = st->GetFieldByName(f->name());
            if (!c) return Status::Invalid("no field " + f->name());
            v.push_back(Of(*c));
        }
        return std::make_pair(v, FileInfo(a->length()));
    }

 private:
    static std::shared_ptr<paimon::ColumnStats> Of(const arrow::Array& c) {
        using paimon::ColumnStats;
        std::optional<int64_t> nulls = c.null_count();
        bool st = CollectStats();
        if (!st) nulls = std::nullopt;
        auto val = [](const auto& t, int64_t i) { return t.Value(i); };
        switch (c.type_id()) {
#define MC_STAT(ID, A, V, MAKE)                                              \
    case arrow::Type::ID: {                                                  \
        auto m = MinMax<arrow::A, V>(c, val);                                \
        if (!st) m = {};                                                     \
        return ColumnStats::MAKE(m.first, m.second, nulls);                  \
    }
            MC_STAT(BOOL, BooleanArray, bool, CreateBooleanColumnStats)
            MC_STAT(INT8, Int8Array, int8_t, CreateTinyIntColumnStats)
            MC_STAT(INT16, Int16Array, int16_t, CreateSmallIntColumnStats)
            MC_STAT(INT32, Int32Array, int32_t, CreateIntColumnStats)
            MC_STAT(INT64, Int64Array, int64_t, CreateBigIntColumnStats)
            MC_STAT(FLOAT, FloatArray, float, CreateFloatColumnStats)
            MC_STAT(DOUBLE, DoubleArray, double, CreateDoubleColumnStats)
            MC_STAT(DATE32, Date32Array, int32_t, CreateDateColumnStats)
#undef MC_STAT
            case arrow::Type::STRING: {
                auto m = MinMax<arrow::StringArray, std::string>(
                    c, [](const auto& t, int64_t i) { return t.GetString(i); });
                if (!st) m = {};
                return ColumnStats::CreateStringColumnStats(m.first, m.second, nulls);
            }
            case arrow::Type::BINARY:
            case arrow::Type::LARGE_BINARY:
                return ColumnStats::CreateStringColumnStats(std::nullopt, std::nullopt, nulls);
            case arrow::Type::TIMESTAMP: {
                auto& tt = static_cast<const arrow::TimestampType&>(*c.type());
                int64_t per = tt.unit() == arrow::TimeUnit::SECOND ? 1
                              : tt.unit() == arrow::TimeUnit::MILLI ? 1000
                              : tt.unit() == arrow::TimeUnit::MICRO ? 1000000 : 1000000000;
                int prec = per == 1 ? 0 : per == 1000 ? 3 : per == 1000000 ? 6 : 9;
                auto m = MinMax<arrow::TimestampArray, int64_t>(c, val);
                if (!st) m = {};
                auto conv = [&](std::optional<int64_t> v) -> std::optional<paimon::Timestamp> {
                    if (!v) return std::nullopt;
                    if (per == 1) return paimon::Timestamp(*v * 1000, 0);
                    int64_t q = *v / (per / 1000), r = *v % (per / 1000);
                    if (r < 0) {
                        q--;
                        r += per / 1000;
                    }
                    return paimon::Timestamp(q, static_cast<int32_t>(r * (1000000000 / per)));
                };
                return ColumnStats::CreateTimestampColumnStats(conv(m.first), conv(m.second), nulls, prec);
            }
            case arrow::Type::DECIMAL128: {
                auto& dt = static_cast<const arrow::Decimal128Type&>(*c.type());
                return ColumnStats::CreateDecimalColumnStats(std::nullopt, std::nullopt, nulls, dt.precision(),
                                                             dt.scale());
            }
            case arrow::Type::LIST:
                return ColumnStats::CreateNestedColumnStats(paimon::FieldType::ARRAY, nulls);
            case arrow::Type::MAP:
                return ColumnStats::CreateNestedColumnStats(paimon::FieldType::MAP, nulls);
            default:
                return ColumnStats::CreateNestedColumnStats(paimon::FieldType::STRUCT, nulls);
        }
    }
    std::shared_ptr<arrow::DataType> type_;
};

class Format : public paimon::FileFormat {
 public:
    explicit Format(std::string id) : id_(std::move(id)) {}
    const std::string& Identifier() const override { return id_; }
    Result<std::unique_ptr<paimon::ReaderBuilder>> CreateReaderBuilder(int32_t b) const override {
        return std::unique_ptr<paimon::ReaderBuilder>(new RBuilder(b));
    }
    Result<std::unique_ptr<paimon::WriterBuilder>> CreateWriterBuilder(::ArrowSchema* s, int32_t) const override {
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::DataType> t, arrow::ImportType(s));
        return std::unique_ptr<paimon::WriterBuilder>(new WBuilder(t));
    }
    Result<std::unique_ptr<paimon::FormatStatsExtractor>> CreateStatsExtractor(::ArrowSchema* s) const override {
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::DataType> t, arrow::ImportType(s));
        return std::unique_ptr<paimon::FormatStatsExtractor>(new Stats(t));
    }

 private:
    std::string id_;
};

class FormatFactory : public paimon::FileFormatFactory {
 public:
    explicit FormatFactory(const char* id) : id_(id) {}
    const char* Identifier() const override { return id_; }
    Result<std::unique_ptr<paimon::FileFormat>> Create(const std::map<std::string, std::string>&) const override {
        return std::unique_ptr<paimon::FileFormat>(new Format(id_));
    }

 private:
    const char* id_;
};

}  // namespace ff
