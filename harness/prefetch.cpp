// Reading ahead in other threads: the rows come out as if one thread had read them, whatever the schedule.
#include <unistd.h>

#include <algorithm>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "arrow/api.h"
#include "arrow/c/bridge.h"
#include "mc/mc.h"
#include "mc/sched.h"
#include "paimon/common/metrics/metrics_impl.h"
#include "paimon/common/reader/prefetch_file_batch_reader_impl.h"
#include "paimon/common/reader/reader_utils.h"
#include "paimon/core/io/async_key_value_producer_and_consumer.h"
#include "paimon/core/io/row_to_arrow_array_converter.h"
#include "paimon/core/key_value.h"
#include "paimon/core/mergetree/compact/sort_merge_reader.h"
#include "paimon/executor.h"
#include "paimon/format/reader_builder.h"
#include "paimon/fs/file_system.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/reader/prefetch_file_batch_reader.h"
#include "stubfs.h"

using namespace paimon;  // NOLINT

namespace {
using Range = std::pair<uint64_t, uint64_t>;
int g_live = 0;  // batches handed out and not released

void ReleaseSchema(ArrowSchema* s) {
    s->release = nullptr;
}
struct Body {
    std::vector<int64_t> rows;
};
void ReleaseArray(ArrowArray* a) {
    mc::sched::Hidden h;
    delete static_cast<Body*>(a->private_data);
    a->release = nullptr;
    g_live--;
}
// A batch that carries row numbers and needs nothing of Arrow but its C structures.
BatchReader::ReadBatch MakeBatch(std::vector<int64_t> rows) {
    mc::sched::Hidden h;
    auto a = std::make_unique<ArrowArray>();
    auto s = std::make_unique<ArrowSchema>();
    *a = ArrowArray{};
    *s = ArrowSchema{};
    a->length = static_cast<int64_t>(rows.size());
    a->private_data = new Body{std::move(rows)};
    a->release = ReleaseArray;
    s->format = "+s";
    s->name = "";
    s->release = ReleaseSchema;
    g_live++;
    return {std::move(a), std::move(s)};
}

// ---- a file whose readers can be placed anywhere ----------------------------------------------------------------------
struct Layout {
    uint64_t rows = 0;
    std::vector<Range> groups;
    uint64_t batch = 1;
    std::set<uint64_t> dropped;  // groups that a condition leaves out
    std::set<uint64_t> hidden;   // rows that are not meant
    int fail_read = -1, fail_seek = -1, fail_ranges = -1, fail_build = -1;
    int reads = 0, seeks = 0, sets = 0, builds = 0, open = 0;
};
class Reader : public PrefetchFileBatchReader {
 public:
    explicit Reader(Layout* l) : l_(l) {
        mc::sched::Hidden h;
        l_->open++;
    }
    Result<ReadBatch> NextBatch() override {
        return Status::Invalid("with a selection only");
    }
    Result<ReadBatchWithBitmap> NextBatchWithBitmap() override {
        {
            mc::sched::Hidden h;
            if (l_->reads++ == l_->fail_read) return Status::IOError("unreadable");
        }
        while (pos_ < l_->rows && l_->dropped.count(Group(pos_))) pos_ = l_->groups[Group(pos_)].second;
        first_ = pos_;
        if (pos_ >= l_->rows) return MakeEofBatchWithBitmap();
        uint64_t end = std::min(pos_ + l_->batch, l_->groups[Group(pos_)].second);
        std::vector<int64_t> rows;
        RoaringBitmap32 bits;
        {
            mc::sched::Hidden h;
            for (uint64_t i = pos_; i < end; i++) {
                rows.push_back(static_cast<int64_t>(i));
                if (!l_->hidden.count(i)) bits.Add(static_cast<int32_t>(i - pos_));
            }
        }
        pos_ = end;
        return std::make_pair(MakeBatch(std::move(rows)), std::move(bits));
    }
    Status SeekToRow(uint64_t r) override {
        mc::sched::Hidden h;
        if (l_->seeks++ == l_->fail_seek) return Status::IOError("cannot seek");
        pos_ = r;
        return Status::OK();
    }
    uint64_t GetNextRowToRead() const override {
        return pos_;
    }
    Result<std::vector<Range>> GenReadRanges(bool* need) const override {
        *need = true;
        return l_->groups;
    }
    Status SetReadRanges(const std::vector<Range>&) override {
        mc::sched::Hidden h;
        if (l_->sets++ == l_->fail_ranges) return Status::IOError("no such ranges");
        return Status::OK();
    }
    Result<std::unique_ptr<::ArrowSchema>> GetFileSchema() const override {
        return Status::NotImplemented("");
    }
    Status SetReadSchema(::ArrowSchema* s, const std::shared_ptr<Predicate>&,
                         const std::optional<RoaringBitmap32>&) override {
        if (s->release) s->release(s);
        pos_ = 0;
        return Status::OK();
    }
    uint64_t GetPreviousBatchFirstRowNumber() const override {
        return first_;
    }
    uint64_t GetNumberOfRows() const override {
        return l_->rows;
    }
    bool SupportPreciseBitmapSelection() const override {
        return false;
    }
    void Close() override {
        mc::sched::Hidden h;
        l_->open--;
    }
    std::shared_ptr<Metrics> GetReaderMetrics() const override {
        return std::make_shared<MetricsImpl>();
    }

 private:
    uint64_t Group(uint64_t row) const {
        uint64_t g = 0;
        while (l_->groups[g].second <= row) g++;
        return g;
    }
    Layout* l_;
    uint64_t pos_ = 0, first_ = 0;
};
class Builder : public ReaderBuilder {
 public:
    explicit Builder(Layout* l) : l_(l) {}
    ReaderBuilder* WithMemoryPool(const std::shared_ptr<MemoryPool>&) override {
        return this;
    }
    Result<std::unique_ptr<FileBatchReader>> Build(const std::shared_ptr<InputStream>&) const override {
        {
            mc::sched::Hidden h;
            if (l_->builds++ == l_->fail_build) return Status::IOError("not a file");
        }
        return std::unique_ptr<FileBatchReader>(new Reader(l_));
    }
    Result<std::unique_ptr<FileBatchReader>> Build(const std::string&) const override {
        return Status::NotImplemented("");
    }

 private:
    Layout* l_;
};
class AnyFile : public stub::Fs {
 public:
    AnyFile() : stub::Fs(0) {}
    Result<std::unique_ptr<InputStream>> Open(const std::string&) const override {
        return std::unique_ptr<InputStream>();
    }
};
Status SetSchema(PrefetchFileBatchReaderImpl* r, const std::optional<RoaringBitmap32>& selection) {
    auto c = std::make_unique<::ArrowSchema>();
    {
        mc::sched::Hidden h;
        if (!arrow::ExportSchema(*arrow::schema({arrow::field("v", arrow::int32())}), c.get()).ok()) {
            return Status::Invalid("export");
        }
    }
    return r->SetReadSchema(c.get(), nullptr, selection);
}

struct Plan {
    int readers, threads, queue, bound;
    int stop_after;  // batches after which the reader is closed, or -1
    std::optional<std::set<uint64_t>> selected;
    bool again;  // the schema is set again after the first batch
};
void Prefetch(Layout l, const Plan& p) {
    std::vector<int64_t> want;
    std::optional<RoaringBitmap32> selection;
    if (p.selected) {
        RoaringBitmap32 b;
        for (uint64_t s : *p.selected) b.Add(static_cast<int32_t>(s));
        selection = b;
    }
    for (size_t g = 0; g < l.groups.size(); g++) {
        if (l.dropped.count(g)) continue;
        bool any = !p.selected;
        for (uint64_t r = l.groups[g].first; r < l.groups[g].second; r++) any = any || p.selected->count(r);
        for (uint64_t r = l.groups[g].first; any && r < l.groups[g].second; r++) {
            if (!l.hidden.count(r)) want.push_back(static_cast<int64_t>(r));
        }
    }
    bool faulty = l.fail_read >= 0 || l.fail_seek >= 0 || l.fail_ranges >= 0 || l.fail_build >= 0;
    mc::sched::CountDelays(true);
    mc::sched::Begin(p.bound);
    std::vector<int64_t> got;
    bool failed = false, finished = false;
    {
        std::shared_ptr<Executor> executor = CreateDefaultExecutor(p.threads);
        Builder builder(&l);
        auto fs = std::make_shared<AnyFile>();
        auto made = PrefetchFileBatchReaderImpl::Create("f", &builder, fs, p.readers, static_cast<int32_t>(l.batch), p.queue,
                                                        false, executor, false);
        if (!made.ok()) {
            failed = true;
        } else {
            auto r = std::move(made).value();
            Status s = SetSchema(r.get(), selection);
            failed = !s.ok();
            int batches = 0;
            bool again = p.again;
            while (!failed && batches != p.stop_after) {
                auto b = r->NextBatchWithBitmap();
                if (!b.ok()) {
                    failed = true;
                    break;
                }
                if (BatchReader::IsEofBatch(b.value())) {
                    finished = true;
                    auto e = r->NextBatchWithBitmap();
                    MC_CHECK(e.ok() && BatchReader::IsEofBatch(e.value()), "after-end", "there is more after the end");
                    break;
                }
                batches++;
                auto& [array, schema] = b.value().first;
                auto* body = static_cast<Body*>(array->private_data);
                {
                    mc::sched::Hidden h;
                    MC_CHECK(!b.value().second.IsEmpty(), "no-rows", "a batch without a row that is meant");
                    MC_CHECK(body->rows[0] == static_cast<int64_t>(r->GetPreviousBatchFirstRowNumber()), "row-number",
                             "a batch of row %ld is said to begin with %lu", body->rows[0],
                             r->GetPreviousBatchFirstRowNumber());
                    for (auto i = b.value().second.Begin(); i != b.value().second.End(); ++i) {
                        MC_CHECK(*i >= 0 && *i < array->length, "outside", "row %d of %ld", *i, array->length);
                        got.push_back(body->rows[*i]);
                    }
                }
                array->release(array.get());
                schema->release(schema.get());
                if (again) {
                    again = false;
                    got.clear();
                    failed = !SetSchema(r.get(), selection).ok();
                }
            }
            if (p.stop_after >= 0) {
                r->Close();
                MC_CHECK(l.open == 0, "closed", "%d readers of the file stay open", l.open);
            }
        }
    }
    mc::sched::End();
    MC_CHECK(faulty || !failed, "status", "reading fails");
    MC_CHECK(got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin()), "rows",
             "%zu rows, not the first ones of %zu", got.size(), want.size());
    if (finished) MC_CHECK(got == want, "rows", "%zu rows of %zu", got.size(), want.size());
    if (finished) {
        MC_CHECK(l.fail_read < 0 || l.reads <= l.fail_read, "fault", "a failing read is not reported");
        MC_CHECK(l.fail_seek < 0 || l.seeks <= l.fail_seek, "fault", "a failing seek is not reported");
        MC_CHECK(l.fail_ranges < 0 || l.sets <= l.fail_ranges, "fault", "failing ranges are not reported");
        MC_CHECK(l.fail_build < 0 || l.builds <= l.fail_build, "fault", "a file that cannot be opened is not reported");
    }
    if (p.stop_after < 0 && !failed) MC_CHECK(finished, "hang", "no end");
    MC_CHECK(g_live == 0, "leak", "%d batches are never released", g_live);
    mc::Hash h;
    for (int64_t g : got) h.U(g);
    mc::State(h.U(failed).U(finished).U(l.reads).U(l.seeks).h);
    mc::Outcome(failed ? "failed" : finished ? "all" : "stopped");
    if (p.readers > 1) mc::Nontrivial();
    mc::Steps(static_cast<int>(mc::sched::PointCount()));
}
Layout Groups(int groups, int size, int batch) {
    Layout l;
    for (int g = 0; g < groups; g++) {
        l.groups.push_back({l.rows, l.rows + size});
        l.rows += size;
    }
    l.batch = batch;
    return l;
}

MC_SCENARIO(ahead, mc::BOTH | mc::FORK, 4,
            "files of 1-3 (thorough 4) groups of 1-2 rows, batches of 1-2 rows, 1-2 (3) readers on 1-2 threads, queues of 1-2 "
            "batches (several readers: up to 3 batches in the quick tier, 2 threads: 2 batches); all interleavings with up to 1 (thorough 2) delays") {
    int groups = 1 + mc::Choose(mc::Thorough() ? 4 : 3), shape = mc::Choose(3), who = mc::Choose(mc::Thorough() ? 6 : 4);
    int batches = groups * (shape == 1 ? 2 : 1);
    if (!mc::Thorough() && ((who && batches > 3) || (who == 2 && (groups != 2 || shape)))) mc::Prune();
    Layout l = Groups(groups, shape ? 2 : 1, shape == 2 ? 2 : 1);
    static const int kReaders[] = {1, 2, 2, 2, 3, 3}, kThreads[] = {1, 1, 2, 1, 1, 2}, kQueue[] = {1, 1, 1, 2, 1, 1};
    Plan p{kReaders[who], kThreads[who], kReaders[who] * kQueue[who], mc::Thorough() ? 2 : 1, -1, std::nullopt, false};
    Prefetch(l, p);
}
MC_SCENARIO(ahead_selected, mc::BOTH | mc::FORK, 4,
            "files of 2 (thorough 3) groups of 2 rows of which one is dropped by a condition, rows are hidden or only one row is "
            "selected; 2 readers; all interleavings with up to 1 (thorough 2) delays") {
    int batch = 1 + mc::Choose(2);
    Layout l = Groups(mc::Thorough() ? 2 + mc::Choose(2) : 2, 2, batch);
    Plan p{2, 1, 2, mc::Thorough() ? 2 : 1, -1, std::nullopt, false};
    int how = mc::Choose(3);
    if (how == 0) {
        l.dropped.insert(mc::Choose(static_cast<int>(l.groups.size())));
    } else if (how == 1) {
        int at = mc::Choose(static_cast<int>(l.rows));
        l.hidden.insert(at);
        if (mc::ChooseBool()) l.hidden.insert(at ^ 1);
    } else {
        p.selected = std::set<uint64_t>{static_cast<uint64_t>(mc::Choose(static_cast<int>(l.rows)))};
        if (mc::Thorough() && mc::ChooseBool()) l.dropped.insert(0);
    }
    Prefetch(l, p);
}
MC_SCENARIO(ahead_stop, mc::BOTH | mc::FORK, 4,
            "files of 2-3 groups of 1-2 rows, 2 readers, queues of 1-2 batches; closed after 0-2 batches, or read again from "
            "the start after one; all interleavings with up to 1 (thorough 2) delays") {
    Layout l = Groups(2 + mc::Choose(2), 1 + mc::Choose(2), 1);
    Plan p{2, mc::Thorough() ? 1 + mc::Choose(2) : 1, 2 * (1 + mc::Choose(2)), mc::Thorough() ? 2 : 1, mc::Choose(4), std::nullopt, false};
    if (p.stop_after == 3) {
        p.stop_after = -1;
        p.again = true;
    }
    Prefetch(l, p);
}
MC_SCENARIO(ahead_faults, mc::BOTH | mc::FORK, 4,
            "files of 2-3 groups, 2 readers, where the n-th open, read, placing of a reader or setting of ranges fails; all "
            "interleavings with up to 1 (thorough 2) delays") {
    Layout l = Groups(2 + mc::Choose(2), 1, 1);
    Plan p{2, 1, 2, mc::Thorough() ? 2 : 1, -1, std::nullopt, false};
    int what = mc::Choose(4), at = mc::Choose(what == 0 ? 5 : 2);
    (what == 0 ? l.fail_read : what == 1 ? l.fail_seek : what == 2 ? l.fail_ranges : l.fail_build) = at;
    if (mc::ChooseBool()) p.stop_after = 1;
    Prefetch(l, p);
}

// ---- merging and converting in other threads --------------------------------------------------------------------------
class Merged : public SortMergeReader {
 public:
    Merged(int rows, int per_batch, int fail_at, int* closed) : rows_(rows), per_(per_batch), fail_(fail_at), closed_(closed) {}
    class It : public Iterator {
     public:
        explicit It(Merged* m, int n) : m_(m), left_(n) {}
        Result<bool> HasNext() override {
            if (left_ == 0) return false;
            if (m_->next_ == m_->fail_) return Status::IOError("unreadable");
            return true;
        }
        KeyValue&& Next() override {
            left_--;
            kv_ = std::make_unique<KeyValue>(nullptr, m_->next_++, 0, nullptr, nullptr);
            return std::move(*kv_);
        }

     private:
        Merged* m_;
        int left_;
        std::unique_ptr<KeyValue> kv_;
    };
    Result<std::unique_ptr<Iterator>> NextBatch() override {
        if (next_ == rows_) {
            if (next_ == fail_) return Status::IOError("unreadable");
            return std::unique_ptr<Iterator>();
        }
        return std::unique_ptr<Iterator>(new It(this, std::min(per_, rows_ - next_)));
    }
    void Close() override {
        (*closed_)++;
    }
    std::shared_ptr<Metrics> GetReaderMetrics() const override {
        return std::make_shared<MetricsImpl>();
    }

 private:
    int rows_, per_, fail_, next_ = 0;
    int* closed_;
};
struct Shared {
    int fail_row = -1, fail_create = -1, created = 0;
    bool slow = false;
};
class Converter : public RowToArrowArrayConverter<KeyValue, BatchReader::ReadBatch> {
 public:
    explicit Converter(Shared* s) : RowToArrowArrayConverter(0, {}, nullptr, nullptr), s_(s) {}
    Result<BatchReader::ReadBatch> NextBatch(const std::vector<KeyValue>& rows) override {
        std::vector<int64_t> numbers;
        if (s_->slow) usleep(1500);  // others go on meanwhile
        for (auto& r : rows) {
            if (r.sequence_number == s_->fail_row) return Status::Invalid("cannot be converted");
            numbers.push_back(r.sequence_number);
        }
        return MakeBatch(std::move(numbers));
    }

 private:
    Shared* s_;
};
void Convert(int rows, int per_merge, int batch, int threads, int fail_merge, Shared s, int stop_after, int bound) {
    bool faulty = fail_merge >= 0 || s.fail_row >= 0 || s.fail_create >= 0;
    mc::sched::Begin(bound);
    std::vector<int64_t> got;
    int closed = 0;
    bool failed = false, finished = false;
    {
        auto make = [&]() -> Result<std::unique_ptr<RowToArrowArrayConverter<KeyValue, BatchReader::ReadBatch>>> {
            if (s.created++ == s.fail_create) return Status::Invalid("no converter");
            return std::unique_ptr<RowToArrowArrayConverter<KeyValue, BatchReader::ReadBatch>>(new Converter(&s));
        };
        AsyncKeyValueProducerAndConsumer<KeyValue, BatchReader::ReadBatch> r(
            std::make_unique<Merged>(rows, per_merge, fail_merge, &closed), make, batch, threads, nullptr);
        int batches = 0;
        while (batches != stop_after) {
            auto b = r.NextBatch();
            if (!b.ok()) {
                failed = true;
                auto e = r.NextBatch();
                MC_CHECK(s.fail_create >= 0 || !e.ok(), "fault", "a failure is forgotten");
                if (e.ok() && e.value().first) e.value().first->release(e.value().first.get());
                break;
            }
            if (BatchReader::IsEofBatch(b.value())) {
                finished = true;
                auto e = r.NextBatch();
                MC_CHECK(e.ok() && BatchReader::IsEofBatch(e.value()), "after-end", "there is more after the end");
                break;
            }
            batches++;
            auto* body = static_cast<Body*>(b.value().first->private_data);
            got.insert(got.end(), body->rows.begin(), body->rows.end());
            b.value().first->release(b.value().first.get());
        }
        if (stop_after >= 0) {
            if (s.slow) usleep(500);
            r.Close();
            MC_CHECK(closed == 1, "closed", "the merged files are closed %d times", closed);
        }
    }
    mc::sched::End();
    MC_CHECK(faulty || !failed, "status", "reading fails");
    if (threads == 1) {
        for (size_t i = 0; i < got.size(); i++) MC_CHECK(got[i] == static_cast<int64_t>(i), "order", "row %zu is %ld", i, got[i]);
    }
    std::set<int64_t> once(got.begin(), got.end());
    MC_CHECK(once.size() == got.size(), "twice", "a row comes out twice");
    if (finished) {
        MC_CHECK(static_cast<int>(got.size()) == rows, "rows", "%zu of %d rows come out", got.size(), rows);
        MC_CHECK(!faulty, "fault", "a failure is not reported");
    }
    MC_CHECK(g_live == 0, "leak", "%d batches are never released", g_live);
    mc::Hash h;
    for (int64_t g : got) h.U(g);
    mc::State(h.U(failed).U(finished).h);
    mc::Outcome(failed ? "failed" : finished ? "all" : "stopped");
    mc::Nontrivial();
    mc::Steps(static_cast<int>(mc::sched::PointCount()));
}

MC_SCENARIO(convert, mc::BOTH | mc::FORK, 4,
            "0-3 (thorough 4) rows merged in pieces of 1-2 and converted in batches of 1-2 by 1-2 threads; all interleavings "
            "with up to 1 preemption (thorough 2)") {
    int threads = 1 + mc::Choose(2);
    Convert(mc::Choose(mc::Thorough() ? 5 : 4), 1 + mc::Choose(2), threads * (1 + mc::Choose(2)), threads, -1, {}, -1,
            mc::Thorough() ? 2 : 1);
}
MC_SCENARIO(convert_faults, mc::BOTH | mc::FORK, 4,
            "2 (thorough 3) rows where reading or converting the n-th, or making a converter, fails; 1-2 threads; all "
            "interleavings with up to 1 preemption") {
    int threads = 1 + mc::Choose(2), what = mc::Choose(3), rows = mc::Thorough() ? 3 : 2;
    Shared s;
    int merge = -1;
    if (what == 0) merge = mc::Choose(rows + 1);
    if (what == 1) s.fail_row = mc::Choose(rows);
    if (what == 2) s.fail_create = mc::Choose(threads);
    Convert(rows, 2, threads, threads, merge, s, mc::ChooseBool() ? 1 : -1, 1);
}
MC_SCENARIO(convert_stop, mc::BOTH | mc::FORK, 4,
            "4 (thorough 6) rows of which 0-2 batches of one row are taken before closing, 1-2 threads; all interleavings "
            "with up to 1 preemption") {
    int threads = 1 + mc::Choose(2);
    Convert(mc::Thorough() ? 6 : 4, 2, threads, threads, -1, {}, mc::Choose(3), 1);
}
MC_SCENARIO(convert_many, mc::BOTH | mc::FORK, 4,
            "12 rows converted slowly by 3-5 threads, 1-2 batches of one row taken before closing; all interleavings without "
            "preemption (thorough 1)") {
    int threads = 3 + mc::Choose(3);
    Shared s;
    s.slow = true;
    Convert(12, 12, threads, threads, -1, s, 1 + mc::Choose(2), mc::Thorough() ? 1 : 0);
}
}  // namespace
