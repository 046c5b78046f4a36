// Writing and reading tables through the public interface, rows of nullable integers.
#pragma once
#include <algorithm>
#include <optional>

#include "core/det.h"
#include "core/table.h"
#include "paimon/file_store_write.h"
#include "paimon/read_context.h"
#include "paimon/record_batch.h"
#include "paimon/scan_context.h"
#include "paimon/table/source/plan.h"
#include "paimon/table/source/table_read.h"
#include "paimon/table/source/table_scan.h"
#include "paimon/write_context.h"

namespace rw {
using paimon::Result;
using paimon::Status;
using V = std::optional<int32_t>;
using Row = std::vector<V>;
using Kind = paimon::RecordBatch::RowKind;
constexpr Kind INS = Kind::INSERT, DEL = Kind::DELETE, UB = Kind::UPDATE_BEFORE, UA = Kind::UPDATE_AFTER;

inline std::string Show(const Row& r) {
    std::string s = "(";
    for (auto& v : r) s += (s.size() > 1 ? "," : "") + (v ? std::to_string(*v) : std::string("-"));
    return s + ")";
}
inline std::string Show(const std::vector<Row>& rs) {
    std::string s;
    for (auto& r : rs) s += Show(r) + " ";
    return s.empty() ? "nothing" : s;
}

struct Rec {
    Row row;
    Kind kind = INS;
};

inline arrow::FieldVector Fields(const std::vector<std::string>& names) {
    arrow::FieldVector f;
    for (auto& n : names) f.push_back(arrow::field(n, arrow::int32()));
    return f;
}

// The rows as a batch for the given partition and bucket.
inline std::unique_ptr<paimon::RecordBatch> Batch(const std::vector<std::string>& names, const std::vector<Rec>& recs,
                                                  int bucket, const tb::Opts& part = {}, bool kinds = true) {
    arrow::ArrayVector cols;
    for (size_t c = 0; c < names.size(); c++) {
        arrow::Int32Builder b;
        for (auto& r : recs) {
            auto st = r.row[c] ? b.Append(*r.row[c]) : b.AppendNull();
            if (!st.ok()) mc::Fail("setup", "append");
        }
        std::shared_ptr<arrow::Array> a;
        if (!b.Finish(&a).ok()) mc::Fail("setup", "finish");
        cols.push_back(a);
    }
    auto st = arrow::StructArray::Make(cols, Fields(names));
    if (!st.ok()) mc::Fail("setup", "struct");
    ::ArrowArray c;
    if (!arrow::ExportArray(*st.ValueOrDie(), &c).ok()) mc::Fail("setup", "export");
    paimon::RecordBatchBuilder b(&c);
    if (kinds) {
        std::vector<Kind> ks;
        for (auto& r : recs) ks.push_back(r.kind);
        b.SetRowKinds(ks);
    }
    if (!part.empty()) b.SetPartition(part);
    b.SetBucket(bucket);
    return tb::Must(b.Finish(), "batch");
}

inline std::unique_ptr<paimon::FileStoreWrite> Writer(int proc, const std::string& user, const tb::Opts& more = {},
                                                      bool streaming = true,
                                                      const std::vector<std::string>& schema = {}) {
    paimon::WriteContextBuilder b(tb::kTable, user);
    b.SetOptions(tb::BaseOpts(proc, more)).WithExecutor(tb::Exec()).WithMemoryPool(tb::Pool());
    b.WithStreamingMode(streaming);
    if (!schema.empty()) b.WithWriteSchema(schema);
    return tb::Must(paimon::FileStoreWrite::Create(tb::Must(b.Finish(), "write context")), "writer");
}

struct Scan {
    tb::Opts more;
    bool streaming = false;
    std::shared_ptr<paimon::Predicate> predicate;
    std::vector<tb::Opts> parts;
    std::optional<int> bucket, limit;
};
inline Result<std::unique_ptr<paimon::TableScan>> Scanner(int proc, const Scan& s) {
    paimon::ScanContextBuilder b(tb::kTable);
    b.SetOptions(tb::BaseOpts(proc, s.more)).WithExecutor(tb::Exec()).WithMemoryPool(tb::Pool());
    b.WithStreamingMode(s.streaming);
    if (s.predicate) b.SetPredicate(s.predicate);
    if (!s.parts.empty()) b.SetPartitionFilter(s.parts);
    if (s.bucket) b.SetBucketFilter(*s.bucket);
    if (s.limit) b.SetLimit(*s.limit);
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<paimon::ScanContext> c, b.Finish());
    return paimon::TableScan::Create(std::move(c));
}

struct Read {
    tb::Opts more;
    std::vector<std::string> fields;
    std::shared_ptr<paimon::Predicate> predicate;
    bool filter = false;
    bool prefetch = false;
    int threads = 0;
};
inline Result<std::unique_ptr<paimon::TableRead>> Reader(int proc, const Read& r) {
    paimon::ReadContextBuilder b(tb::kTable);
    b.SetOptions(tb::BaseOpts(proc, r.more)).WithExecutor(tb::Exec()).WithMemoryPool(tb::Pool());
    if (!r.fields.empty()) b.SetReadSchema(r.fields);
    if (r.predicate) b.SetPredicate(r.predicate);
    b.EnablePredicateFilter(r.filter).EnablePrefetch(r.prefetch);
    if (r.threads) b.EnableMultiThreadRowToBatch(true).SetRowToBatchThreadNumber(r.threads);
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<paimon::ReadContext> c, b.Finish());
    return paimon::TableRead::Create(std::move(c));
}

// Everything a reader delivers: kind and row.
inline Result<std::vector<Rec>> Drain(paimon::BatchReader* br) {
    std::vector<Rec> out;
    while (true) {
        PAIMON_ASSIGN_OR_RAISE(paimon::BatchReader::ReadBatch b, br->NextBatch());
        if (paimon::BatchReader::IsEofBatch(b)) break;
        auto im = arrow::ImportArray(b.first.get(), b.second.get());
        if (!im.ok()) mc::Fail("bad-batch", "a delivered batch cannot be imported");
        auto a = im.ValueOrDie();
        auto* s = static_cast<arrow::StructArray*>(a.get());
        MC_CHECK(s->num_fields() >= 1 && s->type()->field(0)->name() == "_VALUE_KIND", "no-kind",
                 "the first delivered column is not the row kind");
        MC_CHECK(a->length() > 0, "empty-batch", "an empty batch is delivered");
        for (int64_t i = 0; i < a->length(); i++) {
            Rec r;
            auto& k = static_cast<const arrow::Int8Array&>(*s->field(0));
            MC_CHECK(!k.IsNull(i), "no-kind", "a row without a kind");
            r.kind = static_cast<Kind>(k.Value(i));
            for (int c = 1; c < s->num_fields(); c++) {
                auto& col = *s->field(c);
                if (col.type()->id() == arrow::Type::INT64) {
                    auto& x = static_cast<const arrow::Int64Array&>(col);
                    r.row.push_back(x.IsNull(i) ? V() : V(static_cast<int32_t>(x.Value(i))));
                } else {
                    auto& x = static_cast<const arrow::Int32Array&>(col);
                    r.row.push_back(x.IsNull(i) ? V() : V(x.Value(i)));
                }
            }
            out.push_back(r);
        }
    }
    br->Close();
    return out;
}

inline Result<std::vector<Rec>> ReadSplits(int proc, const Read& r, const std::vector<std::shared_ptr<paimon::Split>>& s) {
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<paimon::TableRead> tr, Reader(proc, r));
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<paimon::BatchReader> br, tr->CreateReader(s));
    return Drain(br.get());
}

inline std::vector<Row> Rows(const std::vector<Rec>& rs) {
    std::vector<Row> out;
    for (auto& r : rs) {
        MC_CHECK(r.kind == INS || r.kind == UA, "retraction", "a batch read delivers a retraction %s", Show(r.row).c_str());
        out.push_back(r.row);
    }
    return out;
}
inline std::vector<Row> Sorted(std::vector<Row> v) {
    std::sort(v.begin(), v.end());
    return v;
}

struct Got {
    std::optional<int64_t> snapshot;
    std::vector<Rec> recs;
    size_t splits = 0;
};
inline Result<Got> ScanAndRead(int proc, const Scan& sc, const Read& rd) {
    Got g;
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<paimon::TableScan> ts, Scanner(proc, sc));
    PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<paimon::Plan> plan, ts->CreatePlan());
    g.snapshot = plan->SnapshotId();
    g.splits = plan->Splits().size();
    if (plan->Splits().empty()) return g;
    PAIMON_ASSIGN_OR_RAISE(g.recs, ReadSplits(proc, rd, plan->Splits()));
    return g;
}
}  // namespace rw
