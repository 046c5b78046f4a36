// Planning and reading: files are spread over splits so that nothing is read twice, left out or torn from what it has to
// be merged with; and rows that are marked as deleted or not selected are left out, however the file is read in batches.
#include <algorithm>
#include <climits>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "arrow/api.h"
#include "arrow/c/bridge.h"
#include "arrow/c/helpers.h"
#include "mc/mc.h"
#include "paimon/common/data/binary_row.h"
#include "paimon/common/data/binary_row_writer.h"
#include "paimon/common/file_index/bitmap/apply_bitmap_index_batch_reader.h"
#include "paimon/common/global_index/complete_index_score_batch_reader.h"
#include "paimon/common/metrics/metrics_impl.h"
#include "paimon/common/reader/complete_row_kind_batch_reader.h"
#include "paimon/common/reader/concat_batch_reader.h"
#include "paimon/common/reader/predicate_batch_reader.h"
#include "paimon/common/reader/reader_utils.h"
#include "paimon/common/table/special_fields.h"
#include "paimon/common/types/data_field.h"
#include "paimon/core/deletionvectors/apply_deletion_vector_batch_reader.h"
#include "paimon/core/deletionvectors/bitmap_deletion_vector.h"
#include "paimon/core/deletionvectors/deletion_vector.h"
#include "paimon/core/io/complete_row_tracking_fields_reader.h"
#include "paimon/core/io/data_file_meta.h"
#include "paimon/core/manifest/file_source.h"
#include "paimon/core/mergetree/compact/interval_partition.h"
#include "paimon/core/mergetree/sorted_run.h"
#include "paimon/core/options/merge_engine.h"
#include "paimon/core/stats/simple_stats.h"
#include "paimon/core/table/bucket_mode.h"
#include "paimon/core/table/source/append_only_split_generator.h"
#include "paimon/core/table/source/data_evolution_split_generator.h"
#include "paimon/core/table/source/deletion_file.h"
#include "paimon/core/table/source/merge_tree_split_generator.h"
#include "paimon/core/utils/fields_comparator.h"
#include "paimon/data/timestamp.h"
#include "paimon/fs/file_system.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/predicate/literal.h"
#include "paimon/predicate/predicate_builder.h"
#include "paimon/reader/file_batch_reader.h"
#include "paimon/utils/roaring_bitmap32.h"

using namespace paimon;  // NOLINT

namespace {
using FilePtr = std::shared_ptr<DataFileMeta>;
using Files = std::vector<FilePtr>;
using Groups = std::vector<SplitGenerator::SplitGroup>;

std::shared_ptr<MemoryPool> Pool() {
    static std::shared_ptr<MemoryPool> p = GetDefaultPool();
    return p;
}
template <typename T>
T Must(Result<T>&& r, const char* what) {
    if (!r.ok()) mc::Fail("status", "%s: %s", what, r.status().ToString().c_str());
    return std::move(r).value();
}

// ---- files --------------------------------------------------------------------------------------------------------
struct Interval {
    int lo, hi;
};
std::vector<Interval> Intervals(int points) {
    std::vector<Interval> out;
    for (int a = 0; a < points; a++) {
        for (int b = a; b < points; b++) out.push_back({a, b});
    }
    return out;
}
const BinaryRow& KeyRow(int k) {
    static std::vector<BinaryRow> rows;
    while (static_cast<int>(rows.size()) <= k) {
        BinaryRow r(1);
        BinaryRowWriter w(&r, 16, Pool().get());
        w.WriteInt(0, static_cast<int32_t>(rows.size()) - 1);
        w.Complete();
        rows.push_back(r);
    }
    return rows[k];
}
struct File {
    Interval key{0, 0};
    int level = 0;
    std::optional<int64_t> deletes = 0;
    int64_t size = 1;
    int64_t seq = 0;
    std::optional<int64_t> first_row;
    int64_t rows = 1;
    FilePtr Make(int name) const {
        return std::make_shared<DataFileMeta>(
            "f" + std::to_string(name), size, rows, KeyRow(key.lo), KeyRow(key.hi), SimpleStats::EmptyStats(),
            SimpleStats::EmptyStats(), seq, seq + 1, 0, level, std::vector<std::optional<std::string>>{}, Timestamp(0, 0),
            deletes, nullptr, FileSource::Append(), std::nullopt, std::nullopt, first_row, std::nullopt);
    }
};
bool Meet(const Interval& a, const Interval& b) {
    return a.lo <= b.hi && b.lo <= a.hi;
}
int Number(const FilePtr& f) {
    MC_CHECK(f != nullptr, "lost-file", "a split names no file");
    return std::stoi(f->file_name.substr(1));
}
std::string Show(const std::vector<File>& fs) {
    std::string s;
    for (auto& f : fs) {
        s += "[" + std::to_string(f.key.lo) + "," + std::to_string(f.key.hi) + "]L" + std::to_string(f.level) +
             (f.deletes ? *f.deletes ? "d" : "" : "?") + "/" + std::to_string(f.size) + " ";
    }
    return s;
}
std::string Show(const Groups& gs) {
    std::string s;
    for (auto& g : gs) {
        s += g.raw_convertible ? "raw(" : "(";
        for (auto& f : g.files) s += f->file_name + " ";
        s += ") ";
    }
    return s;
}
// Every file is in exactly one split, as it was.
void EachOnce(const Groups& gs, const Files& files, const std::string& about) {
    std::map<int, int> seen;
    for (auto& g : gs) {
        MC_CHECK(!g.files.empty(), "empty-split", "%s: %s", about.c_str(), Show(gs).c_str());
        for (auto& f : g.files) {
            int n = Number(f);
            MC_CHECK(n < static_cast<int>(files.size()) && *f == *files[n], "changed-file", "%s: f%d", about.c_str(), n);
            seen[n]++;
        }
    }
    for (size_t i = 0; i < files.size(); i++) {
        MC_CHECK(seen[static_cast<int>(i)] == 1, "not-once", "%s: f%zu is in %d splits: %s", about.c_str(), i,
                 seen[static_cast<int>(i)], Show(gs).c_str());
    }
}
std::shared_ptr<FieldsComparator> KeyOrder() {
    static std::shared_ptr<FieldsComparator> c =
        Must(FieldsComparator::Create({DataField(0, arrow::field("k", arrow::int32()))}, true, false), "comparator");
    return c;
}

// ---- sections -----------------------------------------------------------------------------------------------------
MC_SCENARIO(sections, mc::BOTH, 3,
            "all lists of up to 4 (thorough 5) files with key ranges over 4 keys, in every order") {
    static const auto ranges = Intervals(4);
    int n = mc::Choose(mc::Thorough() ? 6 : 5);
    std::vector<File> in;
    Files files;
    for (int i = 0; i < n; i++) {
        File f;
        f.key = ranges[mc::Choose(static_cast<int>(ranges.size()))];
        files.push_back(f.Make(i));
        in.push_back(f);
    }
    std::string about = Show(in);
    auto got = IntervalPartition(files, KeyOrder()).Partition();
    // the model: connected components of "ranges meet"
    std::vector<int> component(n);
    for (int i = 0; i < n; i++) component[i] = i;
    for (int round = 0; round < n; round++) {
        for (int i = 0; i < n; i++) {
            for (int j = 0; j < n; j++) {
                if (Meet(in[i].key, in[j].key)) component[i] = component[j] = std::min(component[i], component[j]);
            }
        }
    }
    std::map<int, int> seen;
    std::set<int> components;
    int end = -1;
    for (auto& section : got) {
        int lo = INT_MAX, hi = -1, c = -1, members = 0;
        for (auto& run : section) {
            int last = -1;
            int64_t size = 0;
            for (auto& f : run.Files()) {
                int k = Number(f);
                MC_CHECK(in[k].key.lo > last, "run-overlap", "%s: the files of a run overlap at f%d", about.c_str(), k);
                last = in[k].key.hi;
                lo = std::min(lo, in[k].key.lo);
                hi = std::max(hi, in[k].key.hi);
                MC_CHECK(c < 0 || component[k] == c, "section-joined", "%s: f%d does not belong here", about.c_str(), k);
                c = component[k];
                seen[k]++;
                members++;
                size += f->file_size;
            }
            MC_CHECK(last >= 0 && run.IsValid(KeyOrder()) && run.TotalSize() == size, "run", "%s", about.c_str());
        }
        MC_CHECK(members > 0 && components.insert(c).second, "section-torn", "%s: files that meet are in two sections",
                 about.c_str());
        MC_CHECK(lo > end, "section-order", "%s: section [%d,%d] comes after %d", about.c_str(), lo, hi, end);
        end = hi;
        // as few runs as files meet in one key
        int deepest = 0;
        for (int key = 0; key < 4; key++) {
            int d = 0;
            for (int i = 0; i < n; i++) d += component[i] == c && in[i].key.lo <= key && key <= in[i].key.hi;
            deepest = std::max(deepest, d);
        }
        MC_CHECK(static_cast<int>(section.size()) == deepest, "runs", "%s: %zu runs where %d do", about.c_str(),
                 section.size(), deepest);
        mc::Steps();
    }
    for (int i = 0; i < n; i++) MC_CHECK(seen[i] == 1, "not-once", "%s: f%d is in %d runs", about.c_str(), i, seen[i]);
    if (n > 1) mc::Nontrivial();
    mc::State(mc::Hash().S(about).h);
}

// ---- splits -------------------------------------------------------------------------------------------------------
// Splits are filled one after the other: none that holds several pieces is above the target, and none could have taken
// the first piece of the next one. `piece` numbers what may not be separated.
void WellFilled(const Groups& gs, const std::function<int(int)>& piece, const std::function<int64_t(int)>& size,
                int64_t target, int64_t cost, const std::string& about) {
    auto pieces = [&](const SplitGenerator::SplitGroup& g) {
        std::vector<std::pair<int, int64_t>> out;
        for (auto& f : g.files) {
            int k = Number(f);
            if (out.empty() || out.back().first != piece(k)) out.push_back({piece(k), 0});
            out.back().second += size(k);
        }
        for (auto& p : out) p.second = std::max(p.second, cost);
        return out;
    };
    for (size_t i = 0; i < gs.size(); i++) {
        auto mine = pieces(gs[i]);
        int64_t weight = 0;
        for (auto& p : mine) weight += p.second;
        MC_CHECK(mine.size() == 1 || weight <= target, "too-big", "%s: a split of %zu pieces weighs %ld of %ld: %s",
                 about.c_str(), mine.size(), weight, target, Show(gs).c_str());
        if (i + 1 < gs.size()) {
            MC_CHECK(weight + pieces(gs[i + 1])[0].second > target, "too-small",
                     "%s: a split weighs %ld of %ld and the next could begin here: %s", about.c_str(), weight, target,
                     Show(gs).c_str());
        }
    }
}

MC_SCENARIO(merge_splits, mc::BOTH, 3,
            "all lists of up to 3 files with key ranges over 3 (thorough 4) keys, levels 0 to 2, known to have deletions, "
            "none, or unknown; with and without deletion vectors, 3 merge engines, 3 split sizes and 2 costs of a file") {
    static const auto narrow = Intervals(3), wide = Intervals(4);
    auto& ranges = mc::Thorough() ? wide : narrow;
    int n = mc::Choose(4);
    std::vector<File> in;
    Files files;
    for (int i = 0; i < n; i++) {
        File f;
        f.level = mc::Choose(3);
        f.key = ranges[mc::Choose(static_cast<int>(ranges.size()))];
        int d = mc::Choose(3);
        if (d == 2) {
            f.deletes = std::nullopt;
        } else {
            f.deletes = d;
        }
        f.size = i % 2 ? 5 : 1;
        for (auto& o : in) {
            // the files of a level above the first do not overlap
            if (f.level > 0 && o.level == f.level && Meet(o.key, f.key)) mc::Prune();
        }
        files.push_back(f.Make(i));
        in.push_back(f);
    }
    std::vector<int> component(n);
    for (int i = 0; i < n; i++) component[i] = i;
    for (int round = 0; round < n; round++) {
        for (int i = 0; i < n; i++) {
            for (int j = 0; j < n; j++) {
                if (Meet(in[i].key, in[j].key)) component[i] = component[j] = std::min(component[i], component[j]);
            }
        }
    }
    for (bool dv : {false, true}) {
        for (MergeEngine engine : {MergeEngine::DEDUPLICATE, MergeEngine::PARTIAL_UPDATE, MergeEngine::FIRST_ROW}) {
            for (int64_t target : {1, 6, 100}) {
                for (int64_t cost : {0, 4}) {
                    MergeTreeSplitGenerator g(target, cost, dv, engine, KeyOrder());
                    if (engine == MergeEngine::PARTIAL_UPDATE && !mc::Thorough() && target != 6) continue;
                    std::string about = Show(in) + (dv ? "with" : "without") + " deletion vectors";
                    auto gs = Must(g.SplitForBatch(Files(files)), "splitting");
                    EachOnce(gs, files, about);
                    std::vector<int> where(n);
                    bool separable = dv || engine == MergeEngine::FIRST_ROW;  // older versions are left out of each file
                    for (size_t i = 0; i < gs.size(); i++) {
                        for (auto& f : gs[i].files) where[Number(f)] = static_cast<int>(i);
                    }
                    for (int i = 0; i < n; i++) {
                        MC_CHECK(!gs[where[i]].raw_convertible || in[i].deletes.value_or(0) == 0, "raw-deletes",
                                 "%s: f%d has deletions and is read as it is: %s", about.c_str(), i, Show(gs).c_str());
                        for (int j = 0; j < i; j++) {
                            if (!Meet(in[i].key, in[j].key)) continue;
                            bool apart = where[i] != where[j] || gs[where[i]].raw_convertible;
                            MC_CHECK(!apart || (separable && in[i].level > 0 && in[j].level > 0), "torn",
                                     "%s: f%d and f%d may hold the same key and are not merged: %s", about.c_str(), j, i,
                                     Show(gs).c_str());
                        }
                    }
                    bool all_raw = true;
                    for (auto& s : gs) all_raw = all_raw && s.raw_convertible;
                    if (!all_raw) {
                        WellFilled(gs, [&](int f) { return component[f]; }, [&](int f) { return in[f].size; }, target,
                                   cost, about);
                    }
                    auto stream = Must(g.SplitForStreaming(Files(files)), "splitting");
                    if (n) EachOnce(stream, files, about);
                    mc::Steps();
                }
            }
        }
    }
    if (n > 1) mc::Nontrivial();
    mc::State(mc::Hash().S(Show(in)).h);
}

MC_SCENARIO(append_splits, mc::BOTH, 3,
            "all lists of up to 4 (thorough 5) files with sequence numbers 0 to 2 and sizes 0, 1 and 5, 4 split sizes, 2 "
            "costs, all kinds of buckets, for a batch and for following; and files with row ids over 4 rows") {
    if (mc::ChooseBool()) {
        int n = mc::Choose(mc::Thorough() ? 6 : 5);
        std::vector<File> in;
        Files files;
        for (int i = 0; i < n; i++) {
            File f;
            f.seq = mc::Choose(3);
            f.size = mc::Pick<int64_t>({0, 1, 5});
            files.push_back(f.Make(i));
            in.push_back(f);
        }
        for (BucketMode mode : {BucketMode::BUCKET_UNAWARE, BucketMode::HASH_FIXED}) {
            for (int64_t target : {0, 1, 6, 100}) {
                for (int64_t cost : {0, 2}) {
                    AppendOnlySplitGenerator g(target, cost, mode);
                    for (bool batch : {true, false}) {
                        std::string about = Show(in) + (batch ? "batch" : "following");
                        auto gs = Must(batch ? g.SplitForBatch(Files(files)) : g.SplitForStreaming(Files(files)), "split");
                        if (!n) continue;
                        EachOnce(gs, files, about);
                        // rows of one bucket stay in the order in which they were written
                        int last = -1;
                        for (auto& s : gs) {
                            MC_CHECK(s.raw_convertible, "raw", "%s", about.c_str());
                            for (auto& f : s.files) {
                                int k = Number(f);
                                if (batch) {
                                    MC_CHECK(last < 0 || in[last].seq < in[k].seq || (in[last].seq == in[k].seq && last < k),
                                             "order", "%s: f%d comes before f%d: %s", about.c_str(), last, k,
                                             Show(gs).c_str());
                                }
                                last = k;
                            }
                        }
                        if (batch) {
                            WellFilled(gs, [](int f) { return f; }, [&](int f) { return in[f].size; }, target, cost, about);
                        } else if (mode == BucketMode::HASH_FIXED) {
                            MC_CHECK(gs.size() == 1, "order", "%s: a bucket that is followed is torn: %s", about.c_str(),
                                     Show(gs).c_str());
                        }
                        mc::Steps();
                    }
                }
            }
        }
        mc::State(mc::Hash().S(Show(in)).h);
        if (n > 1) mc::Nontrivial();
        return;
    }
    // files that hold different columns of the same rows
    static const auto ranges = Intervals(4);
    int n = mc::Choose(mc::Thorough() ? 5 : 4);
    std::vector<File> in;
    Files files;
    for (int i = 0; i < n; i++) {
        File f;
        f.key = ranges[mc::Choose(static_cast<int>(ranges.size()))];
        f.first_row = (1LL << 33) + f.key.lo;
        f.rows = f.key.hi - f.key.lo + 1;
        f.size = i % 2 ? 5 : 1;
        f.seq = i;
        files.push_back(f.Make(i));
        in.push_back(f);
    }
    std::vector<int> component(n);
    for (int i = 0; i < n; i++) component[i] = i;
    for (int round = 0; round < n; round++) {
        for (int i = 0; i < n; i++) {
            for (int j = 0; j < n; j++) {
                if (Meet(in[i].key, in[j].key)) component[i] = component[j] = std::min(component[i], component[j]);
            }
        }
    }
    for (int64_t target : {1, 6, 100}) {
        for (int64_t cost : {0, 4}) {
            DataEvolutionSplitGenerator g(target, cost);
            std::string about = "rows " + Show(in);
            for (bool batch : {true, false}) {
                auto gs = Must(batch ? g.SplitForBatch(Files(files)) : g.SplitForStreaming(Files(files)), "splitting");
                EachOnce(gs, files, about);
                std::vector<int> where(n);
                for (size_t i = 0; i < gs.size(); i++) {
                    for (auto& f : gs[i].files) where[Number(f)] = static_cast<int>(i);
                }
                for (int i = 0; i < n; i++) {
                    for (int j = 0; j < i; j++) {
                        if (component[i] != component[j]) continue;
                        MC_CHECK(where[i] == where[j] && !gs[where[i]].raw_convertible, "torn",
                                 "%s: f%d and f%d hold the same rows and are read apart: %s", about.c_str(), j, i,
                                 Show(gs).c_str());
                    }
                }
                WellFilled(gs, [&](int f) { return component[f]; }, [&](int f) { return in[f].size; }, target, cost, about);
                mc::Steps();
            }
        }
    }
    mc::State(mc::Hash().S("rows " + Show(in)).h);
    if (n > 1) mc::Nontrivial();
}

// ---- deletion vectors -----------------------------------------------------------------------------------------------
const std::vector<int64_t>& Positions() {
    static const std::vector<int64_t> p{0, 1, 65535, 65536, INT_MAX - 1, INT_MAX};
    return p;
}
std::string BytesText(const Bytes& b) {
    return std::string(b.data(), b.size());
}
void SameRows(DeletionVector* dv, const std::set<int64_t>& want, const char* when) {
    MC_CHECK(dv->IsEmpty() == want.empty(), "empty", "%s: empty is %d with %zu rows", when, dv->IsEmpty(), want.size());
    for (int64_t p : Positions()) {
        for (int64_t q : {p - 1, p, p + 1}) {
            if (q < 0) continue;
            auto d = dv->IsDeleted(q);
            if (q > INT_MAX) {
                MC_CHECK(!d.ok(), "range", "%s: row %ld is accepted", when, q);
                continue;
            }
            MC_CHECK(d.ok() && d.value() == (want.count(q) != 0), "deleted", "%s: row %ld is %sdeleted", when, q,
                     d.ok() && d.value() ? "" : "not ");
        }
    }
}

MC_SCENARIO(vectors, mc::BOTH, 2,
            "all histories of 3 (thorough 4) deletions of 6 rows around container and number limits, plain or asking whether "
            "the row was there, the vector stored and read back between any two; rows beyond 2^31; all windows asked for") {
    RoaringBitmap32 none;
    PAIMON_UNIQUE_PTR<DeletionVector> dv = Pool()->AllocateUnique<BitmapDeletionVector>(none);
    std::set<int64_t> want;
    int depth = mc::Thorough() ? 4 : 3;
    for (int d = 0; d < depth; d++) {
        int op = mc::Choose(3);
        if (op == 2) {
            auto bytes = Must(dv->SerializeToBytes(Pool()), "storing");
            std::string text = BytesText(*bytes);
            auto back = DeletionVector::DeserializeFromBytes(bytes.get(), Pool().get());
            MC_CHECK(back.ok(), "stored", "%s", back.status().ToString().c_str());
            dv = std::move(back).value();
            MC_CHECK(BytesText(*Must(dv->SerializeToBytes(Pool()), "storing")) == text, "stored", "stored differently");
        } else {
            int64_t p = mc::Pick<int64_t>({0, 1, 65535, 65536, INT_MAX - 1, INT_MAX, 2147483648LL, 1LL << 32});
            bool fresh = !want.count(p);
            if (op == 0) {
                auto s = dv->Delete(p);
                MC_CHECK(s.ok() == (p <= INT_MAX), "range", "deleting row %ld: %s", p, s.ToString().c_str());
            } else {
                auto s = dv->CheckedDelete(p);
                MC_CHECK(s.ok() == (p <= INT_MAX), "range", "deleting row %ld: %s", p, s.status().ToString().c_str());
                if (s.ok()) MC_CHECK(s.value() == fresh, "checked", "deleting row %ld answers %d", p, s.value());
            }
            if (p <= INT_MAX) want.insert(p);
        }
        SameRows(dv.get(), want, "after a deletion");
        mc::Steps();
    }
    for (int64_t from : {0LL, 1LL, 65534LL, 2147483640LL}) {
        for (int64_t len : {0, 1, 4, 8}) {
            auto v = dv->IsValid(from, len);
            MC_CHECK(v.ok(), "window", "%s", v.status().ToString().c_str());
            for (int64_t i = 0; i < len; i++) {
                MC_CHECK(v.value().Contains(static_cast<int32_t>(i)) == !want.count(from + i), "window",
                         "row %ld of the window at %ld", i, from);
            }
            MC_CHECK(v.value().Cardinality() <= len, "window", "more rows than the window has");
        }
    }
    mc::Hash h;
    for (int64_t w : want) h.U(w);
    mc::State(h.h);
    if (!want.empty()) mc::Nontrivial();
}

class OneFile : public FileSystem {
 public:
    OneFile(std::string path, std::string data) : path_(std::move(path)), data_(std::move(data)) {}
    Result<std::unique_ptr<InputStream>> Open(const std::string& p) const override {
        if (p != path_) return Status::NotExist(p);
        return std::unique_ptr<InputStream>(new ByteArrayInputStream(data_.data(), data_.size()));
    }
    Result<std::unique_ptr<OutputStream>> Create(const std::string&, bool) const override {
        return Status::NotImplemented("");
    }
    Status Mkdirs(const std::string&) const override {
        return Status::NotImplemented("");
    }
    Status Rename(const std::string&, const std::string&) const override {
        return Status::NotImplemented("");
    }
    Status Delete(const std::string&, bool) const override {
        return Status::NotImplemented("");
    }
    Result<std::unique_ptr<FileStatus>> GetFileStatus(const std::string&) const override {
        return Status::NotImplemented("");
    }
    Status ListDir(const std::string&, std::vector<std::unique_ptr<BasicFileStatus>>*) const override {
        return Status::NotImplemented("");
    }
    Status ListFileStatus(const std::string&, std::vector<std::unique_ptr<FileStatus>>*) const override {
        return Status::NotImplemented("");
    }
    Result<bool> Exists(const std::string& p) const override {
        return p == path_;
    }

 private:
    std::string path_, data_;
};

MC_SCENARIO(vector_files, mc::BOTH, 3,
            "index files with 1-2 stored vectors of up to 4 rows behind 0-5 other bytes; a wrong length, every single byte "
            "cut off the end, every byte of the header changed") {
    std::set<int64_t> rows[2];
    std::string file(mc::Choose(3) ? mc::Pick<size_t>({1, 5}) : 0, '#');
    DeletionFile at[2] = {{"", 0, 0, std::nullopt}, {"", 0, 0, std::nullopt}};
    int which = mc::Choose(2);
    for (int v = 0; v < 2; v++) {
        std::vector<char> flags(5, 0);
        int set = v == which ? mc::Choose(16) : 9;
        for (int i = 0; i < 4; i++) {
            if (set >> i & 1) {
                flags[i] = 1;
                rows[v].insert(i);
            }
        }
        auto dv = DeletionVector::FromPrimitiveArray(flags, Pool().get());
        std::string body = BytesText(*Must(dv->SerializeToBytes(Pool()), "storing"));
        at[v] = DeletionFile("/t/index/dv", static_cast<int64_t>(file.size()), static_cast<int64_t>(body.size()),
                             static_cast<int64_t>(rows[v].size()));
        for (int i = 3; i >= 0; i--) file.push_back(static_cast<char>(body.size() >> (8 * i)));
        MC_CHECK(body.size() >= 4 && body.compare(0, 4, "\x5e\x43\xf2\xd0", 4) == 0, "magic", "stored with another magic");
        file += body;
        // a check sum follows
        file += "abcd";
    }
    DeletionFile ask = at[which];
    int harm = mc::Choose(4);
    bool refuse = harm != 0;
    if (harm == 1) {
        ask.length += mc::Pick<int64_t>({-1, 1, 4});
    } else if (harm == 2) {
        // ends inside of the vector
        int64_t end = ask.offset + 4 + ask.length;
        int cut = 1 + mc::Choose(static_cast<int>(ask.length + 4));
        file.resize(end - cut);
    } else if (harm == 3) {
        int k = mc::Choose(8);  // length or magic
        file[ask.offset + k] = static_cast<char>(file[ask.offset + k] ^ mc::Pick({1, 128}));
    }
    OneFile fs("/t/index/dv", file);
    auto got = DeletionVector::Read(&fs, ask, Pool().get());
    mc::State(mc::Hash().U(which).U(harm).S(file).h);
    mc::Nontrivial();
    mc::Steps();
    MC_CHECK(got.ok() == !refuse, refuse ? "harmed" : "status", "reading a vector %s: %s",
             refuse ? "that is not all there" : "back", got.status().ToString().c_str());
    if (got.ok()) {
        for (int i = 0; i < 6; i++) {
            MC_CHECK(Must(got.value()->IsDeleted(i), "asking") == (rows[which].count(i) != 0), "deleted", "row %d", i);
        }
    }
    ask.path = "/t/index/none";
    MC_CHECK(!DeletionVector::Read(&fs, ask, Pool().get()).ok(), "absent", "a vector out of a file that is not there");
}

// ---- reading in batches ---------------------------------------------------------------------------------------------
std::shared_ptr<arrow::Schema> FileSchema(bool ids) {
    arrow::FieldVector f{arrow::field("v", arrow::int32())};
    if (ids) {
        f.push_back(arrow::field("_ROW_ID", arrow::int64()));
        f.push_back(arrow::field("_SEQUENCE_NUMBER", arrow::int64()));
    }
    return arrow::schema(f);
}
// A file of rows 100, 101, ... handed out in the given batches, of which only some rows are meant.
struct Batch {
    int from, to;
    std::set<int> meant;
};
class Source : public FileBatchReader {
 public:
    Source(std::vector<Batch> batches, int rows, int fail_at, bool ids, int* closed)
        : batches_(std::move(batches)), rows_(rows), fail_at_(fail_at), ids_(ids), closed_(closed) {}
    Result<ReadBatch> NextBatch() override {
        return Status::Invalid("with a selection only");
    }
    Result<ReadBatchWithBitmap> NextBatchWithBitmap() override {
        if (calls_++ == fail_at_) return Status::IOError("unreadable");
        if (next_ == batches_.size()) return MakeEofBatchWithBitmap();
        auto& b = batches_[next_++];
        first_ = b.from;
        arrow::Int32Builder vs;
        arrow::Int64Builder is, ss;
        for (int i = b.from; i < b.to; i++) {
            (void)vs.Append(100 + i);
            if (i % 3 == 1) {
                (void)is.AppendNull();
            } else {
                (void)is.Append(7000 + i);
            }
            if (i % 3 == 2) {
                (void)ss.AppendNull();
            } else {
                (void)ss.Append(500 + i);
            }
        }
        std::shared_ptr<arrow::Array> v, i, s;
        (void)vs.Finish(&v);
        (void)is.Finish(&i);
        (void)ss.Finish(&s);
        arrow::ArrayVector columns{v};
        std::vector<std::string> names{"v"};
        if (ids_) {
            columns.clear();
            names = asked_;
            for (auto& n : asked_) columns.push_back(n == "v" ? v : n == "_ROW_ID" ? i : s);
        }
        auto all = arrow::StructArray::Make(columns, names).ValueOrDie();
        auto a = std::make_unique<ArrowArray>();
        auto sc = std::make_unique<ArrowSchema>();
        if (!arrow::ExportArray(*all, a.get(), sc.get()).ok()) return Status::Invalid("export");
        RoaringBitmap32 m;
        for (int x : b.meant) m.Add(x);
        return std::make_pair(std::make_pair(std::move(a), std::move(sc)), std::move(m));
    }
    Result<std::unique_ptr<::ArrowSchema>> GetFileSchema() const override {
        auto s = std::make_unique<::ArrowSchema>();
        if (!arrow::ExportSchema(*FileSchema(ids_), s.get()).ok()) return Status::Invalid("export");
        return s;
    }
    Status SetReadSchema(::ArrowSchema* schema, const std::shared_ptr<Predicate>&,
                         const std::optional<RoaringBitmap32>&) override {
        auto s = arrow::ImportSchema(schema);
        if (!s.ok()) return Status::Invalid("schema");
        asked_ = s.ValueOrDie()->field_names();
        for (auto& f : s.ValueOrDie()->fields()) {
            if (FileSchema(ids_)->GetFieldIndex(f->name()) < 0) return Status::Invalid("asked for a column it has not");
        }
        return Status::OK();
    }
    uint64_t GetPreviousBatchFirstRowNumber() const override {
        return first_;
    }
    uint64_t GetNumberOfRows() const override {
        return rows_;
    }
    bool SupportPreciseBitmapSelection() const override {
        return false;
    }
    void Close() override {
        (*closed_)++;
    }
    std::shared_ptr<Metrics> GetReaderMetrics() const override {
        return std::make_shared<MetricsImpl>();
    }

 private:
    std::vector<Batch> batches_;
    int rows_, fail_at_;
    bool ids_;
    std::vector<std::string> asked_{"v"};
    int* closed_;
    int calls_ = 0;
    size_t next_ = 0;
    uint64_t first_ = 0;
};

using Row = std::vector<std::string>;
std::string CellText(const std::shared_ptr<arrow::Array>& a, int64_t i) {
    if (a->IsNull(i)) return "null";
    switch (a->type_id()) {
        case arrow::Type::INT8:
            return std::to_string(std::static_pointer_cast<arrow::Int8Array>(a)->Value(i));
        case arrow::Type::INT32:
            return std::to_string(std::static_pointer_cast<arrow::Int32Array>(a)->Value(i));
        case arrow::Type::INT64:
            return std::to_string(std::static_pointer_cast<arrow::Int64Array>(a)->Value(i));
        case arrow::Type::FLOAT:
            return std::to_string(std::static_pointer_cast<arrow::FloatArray>(a)->Value(i));
        default:
            return "?";
    }
}
// Takes rows out of a reader until its end; false after an error.
bool Drain(BatchReader* r, bool whole, std::vector<Row>* out) {
    while (true) {
        BatchReader::ReadBatchWithBitmap b;
        if (whole) {
            auto x = r->NextBatch();
            if (!x.ok()) return false;
            b = ReaderUtils::AddAllValidBitmap(std::move(x).value());
        } else {
            auto x = r->NextBatchWithBitmap();
            if (!x.ok()) return false;
            b = std::move(x).value();
        }
        if (BatchReader::IsEofBatch(b)) return true;
        MC_CHECK(!b.second.IsEmpty(), "no-rows", "a batch without a row that is meant");
        auto a = arrow::ImportArray(b.first.first.get(), b.first.second.get());
        MC_CHECK(a.ok(), "import", "a batch that cannot be imported");
        auto s = std::static_pointer_cast<arrow::StructArray>(a.ValueOrDie());
        for (auto i = b.second.Begin(); i != b.second.End(); ++i) {
            MC_CHECK(*i >= 0 && *i < s->length(), "outside", "row %d of a batch of %ld", *i, s->length());
            Row row;
            for (int c = 0; c < s->num_fields(); c++) {
                row.push_back(s->type()->field(c)->name() + "=" + CellText(s->field(c), *i));
            }
            out->push_back(row);
        }
    }
}
std::string Show(const std::vector<Row>& rows) {
    std::string s;
    for (auto& r : rows) {
        for (auto& c : r) s += c + ",";
        s += " ";
    }
    return s;
}
std::vector<Batch> SomeBatches(int rows, std::set<int>* meant) {
    std::vector<Batch> out;
    int from = 0;
    while (from < rows) {
        int to = from + 1 + mc::Choose(rows - from);
        Batch b{from, to, {}};
        int mask = 1 + mc::Choose((1 << (to - from)) - 1);
        for (int i = from; i < to; i++) {
            if (mask >> (i - from) & 1) {
                b.meant.insert(i - from);
                meant->insert(i);
            }
        }
        out.push_back(b);
        from = to;
    }
    return out;
}

MC_SCENARIO(batches, mc::BOTH, 4,
            "a file of up to 4 rows cut into batches in every way, of which any rows are meant; any of its rows deleted or "
            "selected by an index; a condition or the kind of row added on top; read whole or with a selection; "
            "the n-th read failing") {
    int rows = mc::Choose(5);
    std::set<int> meant;
    auto batches = SomeBatches(rows, &meant);
    int layer = mc::Choose(3);  // nothing, deletion vector, index
    std::set<int> marked;
    if (layer) {
        int mask = mc::Choose(1 << rows);
        for (int i = 0; i < rows; i++) {
            if (mask >> i & 1) marked.insert(i);
        }
    }
    int top = mc::Choose(3);  // nothing, condition, kind of row
    bool whole = (layer == 0 && top == 0) ? false : top != 0 && mc::ChooseBool();
    int fail = mc::Choose(3) == 2 ? mc::Choose(static_cast<int>(batches.size()) + 1) : -1;
    int closed = 0;
    std::unique_ptr<FileBatchReader> source = std::make_unique<Source>(batches, rows, fail, false, &closed);
    std::unique_ptr<BatchReader> r;
    RoaringBitmap32 bits;
    for (int m : marked) bits.Add(m);
    if (layer == 0) {
        r = std::move(source);
    } else if (layer == 1) {
        r = std::make_unique<ApplyDeletionVectorBatchReader>(std::move(source),
                                                             Pool()->AllocateUnique<BitmapDeletionVector>(bits));
    } else {
        r = std::make_unique<ApplyBitmapIndexBatchReader>(std::move(source), std::move(bits));
    }
    std::vector<Row> want;
    for (int i : meant) {
        if (layer == 1 && marked.count(i)) continue;
        if (layer == 2 && !marked.count(i)) continue;
        if (top == 1 && 100 + i > 102) continue;
        Row row{"v=" + std::to_string(100 + i)};
        if (top == 2) row.insert(row.begin(), "_VALUE_KIND=0");
        want.push_back(row);
    }
    if (top == 1) {
        r = Must(PredicateBatchReader::Create(
                     std::move(r), PredicateBuilder::LessOrEqual(0, "v", FieldType::INT, Literal(102)), Pool()),
                 "condition");
    } else if (top == 2) {
        r = std::make_unique<CompleteRowKindBatchReader>(std::move(r), Pool());
    }
    std::vector<Row> got;
    bool ok = Drain(r.get(), whole, &got);
    mc::State(mc::Hash().U(rows).U(layer).U(top).U(batches.size()).U(marked.size()).U(want.size()).U(fail + 1).h);
    if (layer && rows) mc::Nontrivial();
    mc::Steps(static_cast<int>(batches.size()) + 1);
    MC_CHECK(ok == (fail < 0), "fault", "a read that %s: %s", fail < 0 ? "works fails" : "fails is not reported",
             Show(got).c_str());
    if (ok) {
        MC_CHECK(got == want, "rows", "%s instead of %s", Show(got).c_str(), Show(want).c_str());
    } else {
        got.resize(std::min(got.size(), want.size()));
        MC_CHECK(std::equal(got.begin(), got.end(), want.begin()), "rows", "before the failure: %s of %s",
                 Show(got).c_str(), Show(want).c_str());
    }
    r->Close();
    MC_CHECK(closed == 1, "closed", "the file is closed %d times", closed);
}

MC_SCENARIO(scores, mc::BOTH, 3,
            "a file of up to 4 rows cut into batches in every way, of which any rows are meant, each with its score, or "
            "without scores") {
    // the score column is there and empty
    class Scored : public Source {
     public:
        using Source::Source;
        Result<ReadBatchWithBitmap> NextBatchWithBitmap() override {
            auto r = Source::NextBatchWithBitmap();
            if (!r.ok() || IsEofBatch(r.value())) return r;
            auto a = std::static_pointer_cast<arrow::StructArray>(
                arrow::ImportArray(r.value().first.first.get(), r.value().first.second.get()).ValueOrDie());
            arrow::FloatBuilder fb;
            for (int64_t i = 0; i < a->length(); i++) (void)fb.AppendNull();
            std::shared_ptr<arrow::Array> f;
            (void)fb.Finish(&f);
            auto all = arrow::StructArray::Make(arrow::ArrayVector{f, a->field(0)},
                                                std::vector<std::string>{SpecialFields::IndexScore().Name(), "v"})
                           .ValueOrDie();
            (void)arrow::ExportArray(*all, r.value().first.first.get(), r.value().first.second.get());
            return r;
        }
    };
    int rows = mc::Choose(5);
    std::set<int> meant;
    auto batches = SomeBatches(rows, &meant);
    bool with = mc::ChooseBool(), whole = mc::ChooseBool();
    int closed = 0;
    std::vector<float> scores;
    std::vector<Row> want;
    for (int i : meant) {
        if (with) scores.push_back(static_cast<float>(i) * 0.5f + 1);
        want.push_back({SpecialFields::IndexScore().Name() + "=" + (with ? std::to_string(scores.back()) : "null"),
                        "v=" + std::to_string(100 + i)});
    }
    CompleteIndexScoreBatchReader r(std::make_unique<Scored>(batches, rows, -1, false, &closed), scores, Pool());
    std::vector<Row> got;
    bool ok = Drain(&r, whole, &got);
    MC_CHECK(ok && got == want, "rows", "%s instead of %s", Show(got).c_str(), Show(want).c_str());
    r.Close();
    MC_CHECK(closed == 1, "closed", "the file is closed %d times", closed);
    mc::State(mc::Hash().U(rows).U(with).U(whole).U(want.size()).U(batches.size()).h);
    if (meant.size() > 1) mc::Nontrivial();
    mc::Steps();
}

MC_SCENARIO(concatenated, mc::BOTH, 4,
            "up to 3 files of up to 2 rows in every way of batches, one after the other; the n-th read of one of them "
            "failing; closed in the middle") {
    int n = mc::Choose(4);
    std::vector<std::unique_ptr<BatchReader>> rs;
    std::vector<Row> want;
    std::vector<int> closed(3, 0);
    int failing = n ? mc::Choose(n + 1) - 1 : -1;
    bool failed = false;
    for (int k = 0; k < n; k++) {
        int rows = mc::Choose(3);
        std::set<int> meant;
        auto batches = SomeBatches(rows, &meant);
        int at = failing == k ? mc::Choose(static_cast<int>(batches.size()) + 1) : -1;
        if (!failed) {
            for (int i : meant) {
                if (at >= 0) {
                    // what comes out before the failing read
                    size_t b = 0;
                    while (batches[b].to <= i) b++;
                    if (static_cast<int>(b) >= at) continue;
                }
                want.push_back({"v=" + std::to_string(100 + i)});
            }
        }
        failed = failed || at >= 0;
        rs.push_back(std::make_unique<Source>(batches, rows, at, false, &closed[k]));
    }
    bool whole = mc::ChooseBool();
    ConcatBatchReader r(std::move(rs), Pool());
    std::vector<Row> got;
    bool ok = Drain(&r, whole, &got);
    MC_CHECK(ok == !failed, "fault", "a read that fails is %sreported", failed ? "not " : "");
    MC_CHECK(got == want, "rows", "%s instead of %s", Show(got).c_str(), Show(want).c_str());
    r.Close();
    for (int k = 0; k < n; k++) MC_CHECK(closed[k] == 1, "closed", "file %d is closed %d times", k, closed[k]);
    mc::State(mc::Hash().U(n).U(failing + 1).U(whole).U(want.size()).h);
    if (n > 1) mc::Nontrivial();
    mc::Steps();
}

MC_SCENARIO(row_ids, mc::BOTH, 4,
            "a file of up to 4 (thorough 5) rows cut into batches in every way, of which any rows are meant; with and without "
            "recorded row ids and sequence numbers, some of them missing; 5 sets of columns asked for; a first row id of 0, "
            "2^40 or unknown") {
    int rows = mc::Choose(mc::Thorough() ? 6 : 5);
    std::set<int> meant;
    auto batches = SomeBatches(rows, &meant);
    bool recorded = mc::ChooseBool();
    std::optional<int64_t> first;
    int f = mc::Choose(3);
    if (f) first = f == 1 ? 0 : 1LL << 40;
    static const std::vector<std::vector<std::string>> asked{{"v"},
                                                             {"v", "_ROW_ID", "_SEQUENCE_NUMBER"},
                                                             {"_SEQUENCE_NUMBER", "v", "_ROW_ID"},
                                                             {"_ROW_ID", "v"},
                                                             {"v", "_SEQUENCE_NUMBER"}};
    auto& names = asked[mc::Choose(static_cast<int>(asked.size()))];
    int closed = 0;
    arrow::FieldVector fields;
    bool want_id = false;
    for (auto& n : names) {
        fields.push_back(arrow::field(n, n == "v" ? arrow::int32() : arrow::int64()));
        want_id = want_id || n == "_ROW_ID";
    }
    CompleteRowTrackingFieldsBatchReader r(std::make_unique<Source>(batches, rows, -1, recorded, &closed), first, 42, Pool());
    ::ArrowSchema c;
    (void)arrow::ExportSchema(*arrow::schema(fields), &c);
    auto s = r.SetReadSchema(&c, nullptr, std::nullopt);
    MC_CHECK(s.ok(), "status", "%s", s.ToString().c_str());
    std::vector<Row> want;
    bool unknown = false;
    for (int i = 0; i < rows; i++) {
        bool missing = !recorded || i % 3 == 1;
        if (want_id && missing && !first) unknown = true;
        if (!meant.count(i)) continue;
        Row row;
        for (auto& n : names) {
            if (n == "v") {
                row.push_back("v=" + std::to_string(100 + i));
            } else if (n == "_ROW_ID") {
                row.push_back(n + "=" + std::to_string(missing ? first.value_or(0) + i : 7000 + i));
            } else {
                row.push_back(n + "=" + std::to_string(!recorded || i % 3 == 2 ? 42 : 500 + i));
            }
        }
        want.push_back(row);
    }
    std::vector<Row> got;
    bool ok = Drain(&r, false, &got);
    if (unknown) {
        MC_CHECK(!ok, "unknown", "row ids are made up: %s", Show(got).c_str());
    } else {
        MC_CHECK(ok && got == want, "rows", "%s instead of %s", Show(got).c_str(), Show(want).c_str());
    }
    mc::State(mc::Hash().U(rows).U(recorded).U(f).U(names.size()).S(names[0]).U(want.size()).U(batches.size()).h);
    if (rows > 1) mc::Nontrivial();
    mc::Steps();
}
}  // namespace
