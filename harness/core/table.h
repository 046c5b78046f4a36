// Driving whole tables in the simulated store through the public interface.
#pragma once
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "core/fileformat.h"
#include "core/world.h"
#include "paimon/catalog/catalog.h"
#include "paimon/catalog/identifier.h"
#include "paimon/commit_context.h"
#include "paimon/common/data/binary_row.h"
#include "paimon/common/data/binary_row_writer.h"
#include "paimon/core/io/data_file_meta.h"
#include "paimon/core/manifest/manifest_entry.h"
#include "paimon/core/manifest/manifest_file.h"
#include "paimon/core/manifest/manifest_list.h"
#include "paimon/core/snapshot.h"
#include "paimon/core/stats/simple_stats.h"
#include "paimon/core/table/sink/commit_message_impl.h"
#include "paimon/core/utils/snapshot_manager.h"
#include "paimon/file_store_commit.h"
#include "paimon/memory/memory_pool.h"

namespace tb {
using Opts = std::map<std::string, std::string>;

inline std::shared_ptr<paimon::MemoryPool> Pool() {
    static std::shared_ptr<paimon::MemoryPool> p = paimon::GetDefaultPool();
    return p;
}
inline std::shared_ptr<paimon::Executor> Exec() {
    static std::shared_ptr<paimon::Executor> e = std::make_shared<w::Inline>();
    return e;
}
inline void RegisterAll() {
    static bool done = [] {
        auto* c = paimon::FactoryCreator::GetInstance();
        c->Register("mcfs", new w::MemFsFactory);
        c->Register("orc", new ff::FormatFactory("orc"));
        c->Register("avro", new ff::FormatFactory("avro"));
        c->Register("parquet", new ff::FormatFactory("parquet"));
        return true;
    }();
    (void)done;
}
inline Opts BaseOpts(int proc, Opts more = {}) {
    Opts o{{"file-system", "mcfs"}, {"mc.proc", std::to_string(proc)}, {"manifest.format", "avro"},
           {"file.format", "orc"}};
    for (auto& [k, v] : more) o[k] = v;
    return o;
}
inline const char* kRoot = "/w";
inline const char* kTable = "/w/db.db/t";

#define TB_OK(expr)                                                             \
    do {                                                                        \
        auto _s = (expr);                                                       \
        if (!_s.ok()) mc::Fail("setup", "%s: %s", #expr, _s.ToString().c_str()); \
    } while (0)
template <typename T>
T Must(paimon::Result<T>&& r, const char* what) {
    if (!r.ok()) mc::Fail("setup", "%s: %s", what, r.status().ToString().c_str());
    return std::move(r).value();
}

// Creates a table in the world as process `proc`.
inline void CreateTable(int proc, const arrow::FieldVector& fields, const std::vector<std::string>& parts,
                        const std::vector<std::string>& keys, const Opts& table_opts) {
    RegisterAll();
    auto cat = Must(paimon::Catalog::Create(kRoot, BaseOpts(proc)), "catalog");
    TB_OK(cat->CreateDatabase("db", {}, true));
    ::ArrowSchema s;
    auto st = arrow::ExportSchema(*arrow::schema(fields), &s);
    if (!st.ok()) mc::Fail("setup", "export schema");
    Opts o{{"manifest.format", "avro"}, {"file.format", "orc"}};
    for (auto& [k, v] : table_opts) o[k] = v;
    TB_OK(cat->CreateTable(paimon::Identifier("db", "t"), &s, parts, keys, o, false));
}

// A partition row of string values.
inline paimon::BinaryRow PartRow(const std::vector<int32_t>& v) {
    if (v.empty()) return paimon::BinaryRow::EmptyRow();
    paimon::BinaryRow row(static_cast<int32_t>(v.size()));
    paimon::BinaryRowWriter wr(&row, 0, Pool().get());
    wr.Reset();
    for (size_t i = 0; i < v.size(); i++) wr.WriteInt(static_cast<int32_t>(i), v[i]);
    wr.Complete();
    return row;
}

inline std::shared_ptr<paimon::DataFileMeta> FileMeta(const std::string& name, int64_t rows) {
    auto r = paimon::DataFileMeta::ForAppend(name, /*file_size=*/10, rows, paimon::SimpleStats::EmptyStats(),
                                             /*min_sequence_number=*/0, /*max_sequence_number=*/rows - 1,
                                             /*schema_id=*/0, paimon::FileSource::Append(), std::nullopt,
                                             std::nullopt, std::nullopt, std::nullopt);
    return Must(std::move(r), "file meta");
}

// One file added to / removed from a partition and bucket.
struct Change {
    std::vector<int32_t> part;
    int bucket = 0;
    std::vector<std::pair<std::string, int64_t>> add, del;
};
inline std::vector<std::shared_ptr<paimon::CommitMessage>> Messages(const std::vector<Change>& cs, int total) {
    std::vector<std::shared_ptr<paimon::CommitMessage>> out;
    for (auto& c : cs) {
        std::vector<std::shared_ptr<paimon::DataFileMeta>> add, del;
        for (auto& [n, r] : c.add) add.push_back(FileMeta(n, r));
        for (auto& [n, r] : c.del) del.push_back(FileMeta(n, r));
        out.push_back(std::make_shared<paimon::CommitMessageImpl>(
            PartRow(c.part), c.bucket, total, paimon::DataIncrement(std::move(add), std::move(del), {}),
            paimon::CompactIncrement({}, {}, {})));
    }
    return out;
}

inline paimon::Result<std::unique_ptr<paimon::FileStoreCommit>> Committer(int proc, const std::string& user,
                                                                         const Opts& more = {},
                                                                         bool ignore_empty = true) {
    RegisterAll();
    paimon::CommitContextBuilder b(kTable, user);
    b.SetOptions(BaseOpts(proc, more)).WithExecutor(Exec()).WithMemoryPool(Pool()).IgnoreEmptyCommit(ignore_empty);
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<paimon::CommitContext> ctx, b.Finish());
    return paimon::FileStoreCommit::Create(std::move(ctx));
}

}  // namespace tb
