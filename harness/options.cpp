// Table options: what each documented key and value makes of the options, alone and together, and the texts behind
// them (sizes, durations, numbers, lists).
#include <climits>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "mc/mc.h"
#include "paimon/common/options/memory_size.h"
#include "paimon/common/options/time_duration.h"
#include "paimon/common/utils/options_utils.h"
#include "paimon/common/utils/string_utils.h"
#include "paimon/core/core_options.h"
#include "paimon/core/options/expire_config.h"
#include "paimon/defs.h"
#include "paimon/factories/factory_creator.h"
#include "paimon/format/file_format.h"
#include "paimon/format/file_format_factory.h"

using namespace paimon;  // NOLINT

namespace {
struct Format : FileFormat {
    explicit Format(std::string i) : id(std::move(i)) {}
    const std::string& Identifier() const override {
        return id;
    }
    Result<std::unique_ptr<ReaderBuilder>> CreateReaderBuilder(int32_t) const override {
        return Status::NotImplemented("");
    }
    Result<std::unique_ptr<WriterBuilder>> CreateWriterBuilder(::ArrowSchema*, int32_t) const override {
        return Status::NotImplemented("");
    }
    Result<std::unique_ptr<FormatStatsExtractor>> CreateStatsExtractor(::ArrowSchema*) const override {
        return Status::NotImplemented("");
    }
    std::string id;
};
struct FormatFactory : FileFormatFactory {
    explicit FormatFactory(const char* i) : id(i) {}
    const char* Identifier() const override {
        return id;
    }
    Result<std::unique_ptr<FileFormat>> Create(const std::map<std::string, std::string>&) const override {
        return std::unique_ptr<FileFormat>(new Format(id));
    }
    const char* id;
};
void Formats() {
    static bool done = [] {
        for (const char* id : {"orc", "parquet", "lance", "avro"}) {
            FactoryCreator::GetInstance()->Register(id, new FormatFactory(id));
        }
        return true;
    }();
    (void)done;
}

// ---- the options --------------------------------------------------------------------------------------------------
using O = CoreOptions;
std::string T(bool b) {
    return b ? "true" : "false";
}
std::string T(int64_t n) {
    return std::to_string(n);
}
std::string T(const std::optional<std::string>& s) {
    return s ? "<" + *s + ">" : "none";
}
std::string T(const std::vector<std::string>& v) {
    std::string t = "[";
    for (auto& s : v) t += s + "|";
    return t + "]";
}
const char* kRefused = "refused";

struct Try {
    const char* text;
    const char* want;  // of the getter, or kRefused
};
struct Opt {
    const char* constant;
    const char* key;
    const char* def;
    std::function<std::string(const O&)> get;
    std::vector<Try> tries;
};
const std::vector<Opt>& Opts() {
    static const std::vector<Try> flag{{"true", "true"}, {"false", "false"}, {"TRUE", "true"}, {"0", "false"}, {"2", kRefused}, {"", kRefused}};
    static const std::vector<Try> size{{"1", "1"}, {"64 kb", "65536"}, {"3MB", "3145728"}, {"1x", kRefused}, {"", kRefused}};
    static const std::vector<Try> count{{"1", "1"}, {"2147483647", "2147483647"}, {"2147483648", kRefused}, {"1k", kRefused}};
    static const std::vector<Try> text{{"x", "x"}, {"A b", "A b"}};
    static const std::vector<Opt> opts{
        {Options::BUCKET, "bucket", "-1", [](const O& o) { return T(int64_t{o.GetBucket()}); },
         {{"1", "1"}, {"-1", "-1"}, {"-2", "-2"}, {"a", kRefused}}},
        {Options::PAGE_SIZE, "page-size", "65536", [](const O& o) { return T(o.GetPageSize()); }, size},
        {Options::FILE_FORMAT, "file.format", "parquet", [](const O& o) { return o.GetWriteFileFormat()->Identifier(); },
         {{"orc", "orc"}, {"Parquet", "parquet"}, {"avro", kRefused}, {"nothing", kRefused}}},
        {Options::MANIFEST_FORMAT, "manifest.format", "orc",
         [](const O& o) { return o.GetManifestFormat()->Identifier(); },
         {{"parquet", "parquet"}, {"AVRO", "avro"}, {"nothing", kRefused}}},
        {Options::TARGET_FILE_SIZE, "target-file-size", "268435456", [](const O& o) { return T(o.GetTargetFileSize()); },
         size},
        {Options::BLOB_TARGET_FILE_SIZE, "blob.target-file-size", "268435456",
         [](const O& o) { return T(o.GetBlobTargetFileSize()); }, size},
        {Options::PARTITION_DEFAULT_NAME, "partition.default-name", "__DEFAULT_PARTITION__",
         [](const O& o) { return o.GetPartitionDefaultName(); }, text},
        {Options::FILE_COMPRESSION, "file.compression", "zstd", [](const O& o) { return o.GetFileCompression(); }, text},
        {Options::FILE_COMPRESSION_ZSTD_LEVEL, "file.compression.zstd-level", "1",
         [](const O& o) { return T(int64_t{o.GetFileCompressionZstdLevel()}); }, {{"9", "9"}, {"-5", "-5"}, {"", kRefused}}},
        {Options::MANIFEST_TARGET_FILE_SIZE, "manifest.target-file-size", "8388608",
         [](const O& o) { return T(o.GetManifestTargetFileSize()); }, size},
        {Options::MANIFEST_COMPRESSION, "manifest.compression", "zstd",
         [](const O& o) { return o.GetManifestCompression(); }, text},
        {Options::MANIFEST_MERGE_MIN_COUNT, "manifest.merge-min-count", "30",
         [](const O& o) { return T(int64_t{o.GetManifestMergeMinCount()}); }, count},
        {Options::MANIFEST_FULL_COMPACTION_FILE_SIZE, "manifest.full-compaction-threshold-size", "16777216",
         [](const O& o) { return T(o.GetManifestFullCompactionThresholdSize()); }, size},
        {Options::SOURCE_SPLIT_TARGET_SIZE, "source.split.target-size", "134217728",
         [](const O& o) { return T(o.GetSourceSplitTargetSize()); }, size},
        {Options::SOURCE_SPLIT_OPEN_FILE_COST, "source.split.open-file-cost", "4194304",
         [](const O& o) { return T(o.GetSourceSplitOpenFileCost()); }, size},
        {Options::SCAN_SNAPSHOT_ID, "scan.snapshot-id", "none",
         [](const O& o) { return o.GetScanSnapshotId() ? T(*o.GetScanSnapshotId()) : "none"; },
         {{"5", "5"}, {"9223372036854775807", "9223372036854775807"}, {"five", kRefused}}},
        {Options::SCAN_MODE, "scan.mode", "latest-full", [](const O& o) { return o.GetStartupMode().ToString(); },
         {{"latest", "latest"}, {"latest-full", "latest-full"}, {"from-snapshot", "from-snapshot"},
          {"from-snapshot-full", "from-snapshot-full"}, {"default", "latest-full"}, {"last", kRefused}}},
        {Options::READ_BATCH_SIZE, "read.batch-size", "1024", [](const O& o) { return T(int64_t{o.GetReadBatchSize()}); }, count},
        {Options::WRITE_BATCH_SIZE, "write.batch-size", "1024", [](const O& o) { return T(int64_t{o.GetWriteBatchSize()}); }, count},
        {Options::WRITE_BUFFER_SIZE, "write-buffer-size", "268435456", [](const O& o) { return T(o.GetWriteBufferSize()); }, size},
        {Options::SNAPSHOT_NUM_RETAINED_MIN, "snapshot.num-retained.min", "10",
         [](const O& o) { return T(int64_t{o.GetExpireConfig().GetSnapshotRetainMin()}); }, count},
        {Options::SNAPSHOT_NUM_RETAINED_MAX, "snapshot.num-retained.max", "2147483647",
         [](const O& o) { return T(int64_t{o.GetExpireConfig().GetSnapshotRetainMax()}); }, count},
        {Options::SNAPSHOT_TIME_RETAINED, "snapshot.time-retained", "3600000",
         [](const O& o) { return T(o.GetExpireConfig().GetSnapshotTimeRetainMs()); },
         {{"2 h", "7200000"}, {"1ms", "1"}, {"soon", kRefused}, {"", kRefused}}},
        {Options::SNAPSHOT_EXPIRE_LIMIT, "snapshot.expire.limit", "10",
         [](const O& o) { return T(int64_t{o.GetExpireConfig().GetSnapshotMaxDeletes()}); }, count},
        {Options::SNAPSHOT_CLEAN_EMPTY_DIRECTORIES, "snapshot.clean-empty-directories", "false",
         [](const O& o) { return T(o.GetExpireConfig().CleanEmptyDirectories()); }, flag},
        {Options::COMMIT_TIMEOUT, "commit.timeout", "9223372036854775807", [](const O& o) { return T(o.GetCommitTimeout()); },
         {{"10s", "10000"}, {"2 min", "120000"}, {"never", kRefused}}},
        {Options::COMMIT_MAX_RETRIES, "commit.max-retries", "10",
         [](const O& o) { return T(int64_t{o.GetCommitMaxRetries()}); }, count},
        {Options::SEQUENCE_FIELD, "sequence.field", "[]", [](const O& o) { return T(o.GetSequenceField()); },
         {{"a", "[a|]"}, {"b,a", "[b|a|]"}}},
        {Options::SEQUENCE_FIELD_SORT_ORDER, "sequence.field.sort-order", "true",
         [](const O& o) { return T(o.SequenceFieldSortOrderIsAscending()); },
         {{"ascending", "true"}, {"descending", "false"}, {"up", kRefused}}},
        {Options::MERGE_ENGINE, "merge-engine", "1", [](const O& o) { return T(static_cast<int64_t>(o.GetMergeEngine())); },
         {{"deduplicate", "1"}, {"partial-update", "2"}, {"aggregation", "3"}, {"first-row", "4"}, {"last", kRefused}}},
        {Options::SORT_ENGINE, "sort-engine", "2", [](const O& o) { return T(static_cast<int64_t>(o.GetSortEngine())); },
         {{"min-heap", "1"}, {"loser-tree", "2"}, {"bubble", kRefused}}},
        {Options::IGNORE_DELETE, "ignore-delete", "false", [](const O& o) { return T(o.IgnoreDelete()); }, flag},
        {Options::FIELDS_DEFAULT_AGG_FUNC, "fields.default-aggregate-function", "none",
         [](const O& o) { return T(o.GetFieldsDefaultFunc()); }, {{"sum", "<sum>"}}},
        {Options::DELETION_VECTORS_ENABLED, "deletion-vectors.enabled", "false",
         [](const O& o) { return T(o.DeletionVectorsEnabled()); }, flag},
        {Options::CHANGELOG_PRODUCER, "changelog-producer", "1",
         [](const O& o) { return T(static_cast<int64_t>(o.GetChangelogProducer())); },
         {{"none", "1"}, {"input", "2"}, {"full-compaction", "3"}, {"lookup", "4"}, {"all", kRefused}}},
        {Options::FORCE_LOOKUP, "force-lookup", "false", [](const O& o) { return T(o.NeedLookup()); }, flag},
        {Options::PARTIAL_UPDATE_REMOVE_RECORD_ON_DELETE, "partial-update.remove-record-on-delete", "false",
         [](const O& o) { return T(o.PartialUpdateRemoveRecordOnDelete()); }, flag},
        {Options::PARTIAL_UPDATE_REMOVE_RECORD_ON_SEQUENCE_GROUP, "partial-update.remove-record-on-sequence-group", "[]",
         [](const O& o) { return T(o.GetPartialUpdateRemoveRecordOnSequenceGroup()); }, {{"g", "[g|]"}, {"g,h", "[g|h|]"}}},
        {Options::SCAN_FALLBACK_BRANCH, "scan.fallback-branch", "none", [](const O& o) { return T(o.GetScanFallbackBranch()); },
         {{"b1", "<b1>"}}},
        {Options::BRANCH, "branch", "main", [](const O& o) { return o.GetBranch(); }, text},
        {Options::FILE_INDEX_READ_ENABLED, "file-index.read.enabled", "true",
         [](const O& o) { return T(o.FileIndexReadEnabled()); }, flag},
        {Options::DATA_FILE_EXTERNAL_PATHS, "data-file.external-paths", "none",
         [](const O& o) { return T(o.GetDataFileExternalPaths()); }, {{"oss://a/b, oss://c", "<oss://a/b, oss://c>"}}},
        {Options::DATA_FILE_EXTERNAL_PATHS_STRATEGY, "data-file.external-paths.strategy", "1",
         [](const O& o) { return T(static_cast<int64_t>(o.GetExternalPathStrategy())); },
         {{"none", "1"}, {"specific-fs", "2"}, {"round-robin", "3"}, {"any", kRefused}}},
        {Options::DATA_FILE_PREFIX, "data-file.prefix", "data-", [](const O& o) { return o.DataFilePrefix(); }, text},
        {Options::INDEX_FILE_IN_DATA_FILE_DIR, "index-file-in-data-file-dir", "false",
         [](const O& o) { return T(o.IndexFileInDataFileDir()); }, flag},
        {Options::ROW_TRACKING_ENABLED, "row-tracking.enabled", "false", [](const O& o) { return T(o.RowTrackingEnabled()); }, flag},
        {Options::DATA_EVOLUTION_ENABLED, "data-evolution.enabled", "false",
         [](const O& o) { return T(o.DataEvolutionEnabled()); }, flag},
        {Options::PARTITION_GENERATE_LEGACY_NAME, "partition.legacy-name", "true",
         [](const O& o) { return T(o.LegacyPartitionNameEnabled()); }, flag},
        {Options::GLOBAL_INDEX_ENABLED, "global-index.enabled", "true", [](const O& o) { return T(o.GlobalIndexEnabled()); }, flag},
    };
    return opts;
}

// What the options should be, by key.
std::optional<std::map<std::string, std::string>> Model(const std::map<const Opt*, const Try*>& set) {
    std::map<std::string, std::string> m;
    for (auto& o : Opts()) m[o.key] = o.def;
    for (auto& [o, t] : set) {
        if (t->want == kRefused) return std::nullopt;
        m[o->key] = t->want;
    }
    auto given = [&](const char* key) -> const Try* {
        for (auto& [o, t] : set) {
            if (std::string(o->key) == key) return t;
        }
        return nullptr;
    };
    if (!given("blob.target-file-size")) m["blob.target-file-size"] = m["target-file-size"];
    const Try* mode = given("scan.mode");
    if ((!mode || std::string(mode->text) == "default") && given("scan.snapshot-id")) m["scan.mode"] = "from-snapshot";
    if (m["merge-engine"] == "4" || m["changelog-producer"] == "4" || m["deletion-vectors.enabled"] == "true") {
        m["force-lookup"] = "true";
    }
    return m;
}
void CompareAll(const O& got, const std::map<std::string, std::string>& want, const std::map<std::string, std::string>& in,
                const char* when) {
    std::string shown;
    for (auto& [k, v] : in) shown += k + "=" + v + " ";
    for (auto& o : Opts()) {
        std::string g = o.get(got);
        MC_CHECK(g == want.at(o.key), "option-value", "%s%s: %s is %s, expected %s", when, shown.c_str(), o.key, g.c_str(),
                 want.at(o.key).c_str());
    }
    MC_CHECK(got.ToMap() == in, "option-map", "%s%s: the given map is not kept", when, shown.c_str());
}

MC_SCENARIO(settings, mc::BOTH, 2,
            "all sets of up to 2 (3) of 49 documented options with 1-6 texts each: every option is what was given or its "
            "default, anything malformed is refused; key texts; copies and assignments are independent") {
    Formats();
    const auto& opts = Opts();
    int n = static_cast<int>(opts.size());
    std::map<const Opt*, const Try*> set;
    std::map<std::string, std::string> in{{"unrelated.key", "x"}};
    int from = 0;
    for (int i = 0; i < (mc::Thorough() ? 3 : 2); i++) {
        int w = mc::Choose(n - from + 1);
        if (w == n - from) break;
        const Opt& o = opts[from + w];
        from += w + 1;
        MC_CHECK(std::string(o.constant) == o.key, "key", "the option %s is called %s", o.key, o.constant);
        const Try& t = o.tries[mc::Choose(static_cast<int>(o.tries.size()))];
        set[&o] = &t;
        in[o.key] = t.text;
    }
    auto want = Model(set);
    auto got = CoreOptions::FromMap(in);
    mc::Hash h;
    for (auto& [k, v] : in) {
        h.S(k);
        h.S(v);
    }
    mc::State(h.h);
    if (!want) {
        std::string shown;
        for (auto& [k, v] : in) shown += k + "=" + v + " ";
        MC_CHECK(!got.ok(), "accepted", "%s is accepted", shown.c_str());
        mc::Outcome("refused");
        return;
    }
    if (!got.ok()) mc::Fail("refused", "%s", got.status().ToString().c_str());
    O o = std::move(got).value();
    CompareAll(o, *want, in, "");
    mc::TraceValidated();
    O copy(o), assigned = O();
    assigned = o;
    assigned = static_cast<const O&>(assigned);
    auto other = CoreOptions::FromMap({{"bucket", "77"}, {"branch", "other"}, {"merge-engine", "first-row"}});
    o = std::move(other).value();
    CompareAll(copy, *want, in, "a copy of ");
    CompareAll(assigned, *want, in, "assigned from ");
    MC_CHECK(o.GetBucket() == 77 && o.GetBranch() == "other" && o.NeedLookup(), "assignment", "assignment lost");
    mc::Nontrivial();
    mc::Outcome(set.empty() ? "defaults" : "set");
}

MC_SCENARIO(fields, mc::BOTH, 1,
            "all sets of up to 3 of 12 per-field options: function, retract and sequence group of every field; all "
            "lists of up to 3 external paths under each strategy") {
    Formats();
    std::vector<std::pair<std::string, std::string>> all{
        {"fields.a.aggregate-function", "sum"},  {"fields.b.aggregate-function", "max"},
        {"fields.a.ignore-retract", "true"},     {"fields.b.ignore-retract", "false"},
        {"fields.a.sequence-group", "c,d"},      {"fields.a,b.sequence-group", "c"},
        {"fields.b.sequence-group", ""},         {"fields.sequence.aggregate-function", "min"},
        {"fields.a.b.aggregate-function", "last_value"}, {"fields.c.ignore-retract", "maybe"},
        {"field.a.aggregate-function", "no"},    {"xfields.a.sequence-group", "no"}};
    std::map<std::string, std::string> in;
    int from = 0;
    for (int i = 0; i < 3; i++) {
        int w = mc::Choose(static_cast<int>(all.size()) - from + 1);
        if (from + w == static_cast<int>(all.size())) break;
        in.insert(all[from + w]);
        from += w + 1;
    }
    const char* paths[] = {"oss://b/x", "/local", " file:///y/z "};
    int npaths = mc::Choose(4);
    std::string joined;
    std::vector<int> used;
    for (int i = 0; i < npaths; i++) {
        used.push_back(mc::Choose(3));
        joined += (i ? "," : "") + std::string(paths[used.back()]);
    }
    const char* strategies[] = {"none", "round-robin", "specific-fs"};
    int strategy = mc::Choose(3);
    if (npaths) in["data-file.external-paths"] = joined;
    in["data-file.external-paths.strategy"] = strategies[strategy];
    auto r = CoreOptions::FromMap(in);
    if (!r.ok()) mc::Fail("refused", "%s", r.status().ToString().c_str());
    O o = std::move(r).value();
    std::map<std::string, std::string> groups;
    for (std::string f : {"a", "b", "c", "sequence", "a.b", "a,b", "d"}) {
        auto fn = o.GetFieldAggFunc(f);
        auto it = in.find("fields." + f + ".aggregate-function");
        MC_CHECK(fn.ok() && T(fn.value()) == (it == in.end() ? "none" : "<" + it->second + ">"), "function",
                 "function of %s", f.c_str());
        auto ig = o.FieldAggIgnoreRetract(f);
        it = in.find("fields." + f + ".ignore-retract");
        if (it != in.end() && it->second == "maybe") {
            MC_CHECK(!ig.ok(), "retract", "a malformed flag is accepted");
        } else {
            MC_CHECK(ig.ok() && ig.value() == (it != in.end() && it->second == "true"), "retract", "retract of %s", f.c_str());
        }
        it = in.find("fields." + f + ".sequence-group");
        if (it != in.end()) groups[f] = it->second;
    }
    MC_CHECK(o.GetFieldsSequenceGroups() == groups, "sequence-groups", "%zu groups instead of %zu",
             o.GetFieldsSequenceGroups().size(), groups.size());
    auto ext = o.CreateExternalPaths();
    bool local = false;
    for (int u : used) local |= u == 1;
    if (strategy == 2) {
        MC_CHECK(!ext.ok(), "external-paths", "the unsupported strategy is accepted");
    } else if (strategy == 0 || npaths == 0) {
        MC_CHECK(ext.ok() && ext.value().empty(), "external-paths", "paths though none are to be used");
    } else if (local) {
        MC_CHECK(!ext.ok(), "external-paths", "a path without scheme is accepted: %s", joined.c_str());
    } else {
        std::vector<std::string> want;
        for (int u : used) want.push_back(u == 0 ? "oss://b/x" : "file:/y/z");
        MC_CHECK(ext.ok() && T(ext.value()) == T(want), "external-paths", "%s gives %s", joined.c_str(),
                 ext.ok() ? T(ext.value()).c_str() : ext.status().ToString().c_str());
    }
    mc::Hash h;
    for (auto& [k, v] : in) {
        h.S(k);
        h.S(v);
    }
    mc::State(h.h);
    if (!in.empty()) mc::Nontrivial();
    mc::TraceValidated();
    mc::Outcome(ext.ok() ? "paths" : "no paths");
}

// ---- texts --------------------------------------------------------------------------------------------------------
std::string Cased(const std::string& s, int how) {
    std::string t = s;
    for (size_t i = 0; i < t.size(); i++) {
        if (static_cast<unsigned char>(t[i]) < 128 && (how == 1 || (how == 2 && i == 0))) t[i] = static_cast<char>(toupper(t[i]));
    }
    return t;
}
MC_SCENARIO(quantities, mc::BOTH, 2,
            "19 numbers around the limits of every unit, blanks before, between and behind, all documented units of "
            "sizes and durations in 3 spellings and 8 wrong ones: the documented amount, or refused") {
    bool time = mc::ChooseBool();
    struct Unit {
        const char* text;
        __int128 mul, div;
    };
    static const std::vector<Unit> sizes{{"", 1, 1}, {"b", 1, 1}, {"bytes", 1, 1}, {"k", 1 << 10, 1}, {"kb", 1 << 10, 1},
                                         {"kibibytes", 1 << 10, 1}, {"m", 1 << 20, 1}, {"mb", 1 << 20, 1},
                                         {"mebibytes", 1 << 20, 1}, {"g", 1 << 30, 1}, {"gb", 1 << 30, 1},
                                         {"gibibytes", 1 << 30, 1}, {"t", 1LL << 40, 1}, {"tb", 1LL << 40, 1},
                                         {"tebibytes", 1LL << 40, 1}};
    static const std::vector<Unit> times{
        {"", 1, 1}, {"ns", 1, 1000000}, {"nano", 1, 1000000}, {"nanos", 1, 1000000}, {"nanosecond", 1, 1000000},
        {"nanoseconds", 1, 1000000}, {"us", 1, 1000}, {"\xc2\xb5s", 1, 1000}, {"micro", 1, 1000}, {"micros", 1, 1000},
        {"microsecond", 1, 1000}, {"microseconds", 1, 1000}, {"ms", 1, 1}, {"milli", 1, 1}, {"millis", 1, 1},
        {"millisecond", 1, 1}, {"milliseconds", 1, 1}, {"s", 1000, 1}, {"sec", 1000, 1}, {"secs", 1000, 1},
        {"second", 1000, 1}, {"seconds", 1000, 1}, {"min", 60000, 1}, {"m", 60000, 1}, {"minute", 60000, 1},
        {"minutes", 60000, 1}, {"h", 3600000, 1}, {"hour", 3600000, 1}, {"hours", 3600000, 1}, {"d", 86400000, 1},
        {"day", 86400000, 1}, {"days", 86400000, 1}};
    static const char* wrong[] = {"x", "bb", "kbs", "e3", ".5", "-", "1 k", "week"};
    const auto& units = time ? times : sizes;
    int nu = static_cast<int>(units.size());
    int u = mc::Choose(nu + 8);
    int how = u < nu ? mc::Choose(3) : 0;
    std::string unit = u < nu ? Cased(units[u].text, how) : wrong[u - nu];
    std::vector<std::string> numbers{"", "-1", "+1", "0", "1", "007", "999", "1000", "1001", "999999", "1000000", "1048577",
                                     "9223372036854775807", "9223372036854775808", "99999999999999999999", "1_0"};
    if (u < nu) {
        __int128 lim = INT64_MAX / units[u].mul;
        for (__int128 d : {-1, 0, 1}) {
            if (lim + d <= INT64_MAX) numbers.push_back(std::to_string(static_cast<int64_t>(lim + d)));
        }
    }
    std::string num = numbers[mc::Choose(static_cast<int>(numbers.size()))];
    const char* blanks[] = {"", " ", "  "};
    std::string text = blanks[mc::Choose(3)] + num + blanks[mc::Choose(3)] + unit + blanks[mc::Choose(2)];
    // the documented grammar: blanks, digits, blanks, unit, blanks
    std::optional<__int128> want;
    {
        bool digits = !num.empty();
        for (char c : num) digits &= c >= '0' && c <= '9';
        if (digits && u < nu) {
            __int128 v = 0;
            for (char c : num) v = v * 10 + (c - '0');
            if (v <= INT64_MAX && v * units[u].mul <= INT64_MAX) want = v * units[u].mul / units[u].div;
        }
    }
    if (u >= nu && text.find(num + "1 k") != std::string::npos && !num.empty()) {
        // the digits run on into what was to be the unit
        std::string n = num + "1";
        bool digits = true;
        for (char c : n) digits &= c >= '0' && c <= '9';
        if (digits) mc::Prune();
    }
    if (num.empty() && u >= nu && std::string(wrong[u - nu]) == "1 k") mc::Prune();
    auto got = time ? TimeDuration::Parse(text) : MemorySize::ParseBytes(text);
    MC_CHECK(got.ok() == want.has_value(), want ? "refused" : "accepted", "'%s' as a %s: %s", text.c_str(),
             time ? "duration" : "size", got.ok() ? std::to_string(got.value()).c_str() : got.status().ToString().c_str());
    if (want) {
        MC_CHECK(got.value() == *want, "amount", "'%s' as a %s is %lld", text.c_str(), time ? "duration" : "size",
                 static_cast<long long>(got.value()));
        mc::Nontrivial();
    }
    mc::Hash h;
    h.U(time);
    h.S(text);
    mc::State(h.h);
    mc::Outcome(want ? "amount" : "refused");
}

std::string ChooseText(const std::string& alphabet, int max) {
    std::string s;
    while (static_cast<int>(s.size()) < max) {
        int c = mc::Choose(static_cast<int>(alphabet.size()) + 1);
        if (c == static_cast<int>(alphabet.size())) break;
        s += alphabet[c];
    }
    return s;
}
std::optional<__int128> Number(const std::string& s, __int128 lo, __int128 hi) {
    size_t i = lo < 0 && !s.empty() && s[0] == '-' ? 1 : 0;
    if (i == s.size()) return std::nullopt;
    __int128 v = 0;
    for (; i < s.size(); i++) {
        if (s[i] < '0' || s[i] > '9') return std::nullopt;
        v = v * 10 + (s[i] - '0');
        if (v > (static_cast<__int128>(1) << 90)) return std::nullopt;
    }
    if (s[0] == '-') v = -v;
    if (v < lo || v > hi) return std::nullopt;
    return v;
}
template <typename I>
void CheckInt(const std::string& s) {
    auto want = Number(s, std::numeric_limits<I>::min(), std::numeric_limits<I>::max());
    auto got = StringUtils::StringToValue<I>(s);
    MC_CHECK(got.has_value() == want.has_value() && (!want || *got == *want), "number", "'%s' in %zu bytes", s.c_str(),
             sizeof(I));
    std::map<std::string, std::string> m{{"k", s}};
    auto opt = OptionsUtils::GetValueFromMap<I>(m, "k");
    MC_CHECK(opt.ok() == want.has_value() && (!want || opt.value() == *want), "map-number", "'%s'", s.c_str());
    auto def = OptionsUtils::GetValueFromMap<I>(m, "other", static_cast<I>(7));
    MC_CHECK(def.ok() && def.value() == 7, "map-default", "'%s'", s.c_str());
    auto kept = OptionsUtils::GetValueFromMap<I>(m, "k", static_cast<I>(7));
    MC_CHECK(kept.ok() == want.has_value() && (!want || kept.value() == *want), "map-default", "'%s' given", s.c_str());
    auto none = OptionsUtils::GetValueFromMap<I>(m, "other");
    MC_CHECK(!none.ok() && none.status().IsNotExist(), "map-missing", "'%s'", s.c_str());
}
MC_SCENARIO(numbers, mc::BOTH, 2, "all texts of up to 5 (6) of 8 characters, and digits around the limits of all widths, as "
            "numbers of 8 widths and as flags") {
    std::string s;
    if (mc::ChooseBool()) {
        s = ChooseText("-+0127 x", mc::Thorough() ? 6 : 5);
    } else {
        __int128 lims[] = {INT8_MIN, INT8_MAX, UINT8_MAX, INT16_MIN, INT16_MAX, UINT16_MAX, INT32_MIN, INT32_MAX, UINT32_MAX,
                           INT64_MIN, INT64_MAX, UINT64_MAX};
        __int128 v = lims[mc::Choose(12)] + mc::Choose(3) - 1;
        bool neg = v < 0;
        if (neg) v = -v;
        while (v) {
            s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
            v /= 10;
        }
        s = (neg ? "-" : "") + std::string(mc::Choose(2) * 20, '0') + s;
    }
    CheckInt<int8_t>(s);
    CheckInt<int16_t>(s);
    CheckInt<int32_t>(s);
    CheckInt<int64_t>(s);
    CheckInt<uint8_t>(s);
    CheckInt<uint16_t>(s);
    CheckInt<uint32_t>(s);
    CheckInt<uint64_t>(s);
    auto b = StringUtils::StringToValue<bool>(s);
    MC_CHECK(b.has_value() == (s == "1" || s == "0") && (!b || *b == (s == "1")), "flag", "'%s'", s.c_str());
    mc::Hash h;
    h.S(s);
    mc::State(h.h);
    bool ok = Number(s, INT64_MIN, INT64_MAX).has_value();
    if (ok) mc::Nontrivial();
    mc::Outcome(ok ? "number" : "text");
}

MC_SCENARIO(texts, mc::BOTH, 2,
            "all texts of up to 6 of 3 characters with all separators of up to 2 and replacements of up to 2: "
            "splitting, trimming, replacing, prefixes and suffixes against plain loops") {
    std::string s = ChooseText("ab ", mc::Thorough() ? 6 : 5), sep = ChooseText("ab ", 2);
    auto slice = [&](const std::string& t, size_t i) { return t.compare(i, sep.size(), sep) == 0; };
    MC_CHECK(StringUtils::StartsWith(s, sep) == (s.size() >= sep.size() && slice(s, 0)), "prefix", "'%s' '%s'", s.c_str(), sep.c_str());
    MC_CHECK(StringUtils::EndsWith(s, sep) == (s.size() >= sep.size() && slice(s, s.size() - sep.size())), "suffix",
             "'%s' '%s'", s.c_str(), sep.c_str());
    std::string trimmed = s;
    StringUtils::Trim(&trimmed);
    std::string want = s;
    while (!want.empty() && want.back() == ' ') want.pop_back();
    while (!want.empty() && want.front() == ' ') want.erase(0, 1);
    MC_CHECK(trimmed == want, "trim", "'%s' became '%s'", s.c_str(), trimmed.c_str());
    MC_CHECK(StringUtils::IsNullOrWhitespaceOnly(s) == want.empty(), "blank", "'%s'", s.c_str());
    if (!sep.empty()) {
        for (bool ignore : {false, true}) {
            std::vector<std::string> parts;
            std::string cur;
            for (size_t i = 0; i < s.size();) {
                if (i + sep.size() <= s.size() && slice(s, i)) {
                    if (!ignore || !cur.empty()) parts.push_back(cur);
                    cur.clear();
                    i += sep.size();
                } else {
                    cur += s[i++];
                }
            }
            if (!ignore || !cur.empty()) parts.push_back(cur);
            auto got = StringUtils::Split(s, sep, ignore);
            MC_CHECK(got == parts, "split", "'%s' at '%s' ignoring empty %d: %zu parts", s.c_str(), sep.c_str(), ignore, got.size());
        }
        std::vector<std::vector<std::string>> two;
        for (auto& p : StringUtils::Split(s, sep)) two.push_back(StringUtils::Split(p, "a"));
        MC_CHECK(StringUtils::Split(s, sep, std::string("a")) == two, "split-twice", "'%s' '%s'", s.c_str(), sep.c_str());
    } else {
        MC_CHECK(StringUtils::Split(s, sep) == std::vector<std::string>{s}, "split-nothing", "'%s'", s.c_str());
    }
    std::string rep = ChooseText("ab", 2);
    for (int max = -1; max <= 2; max++) {
        std::string out;
        int count = 0;
        for (size_t i = 0; i < s.size();) {
            if (!sep.empty() && (max < 0 || count < max) && i + sep.size() <= s.size() && slice(s, i)) {
                out += rep;
                i += sep.size();
                count++;
            } else {
                out += s[i++];
            }
        }
        auto got = max < 0 ? StringUtils::Replace(s, sep, rep) : StringUtils::Replace(s, sep, rep, max);
        MC_CHECK(got == out, "replace", "'%s': %d times '%s' by '%s' gives '%s'", s.c_str(), max, sep.c_str(), rep.c_str(),
                 got.c_str());
    }
    if (!sep.empty()) {
        std::string last = s;
        for (size_t i = s.size() + 1; i-- > 0;) {
            if (i + sep.size() <= s.size() && slice(s, i)) {
                last = s.substr(0, i) + rep + s.substr(i + sep.size());
                break;
            }
        }
        MC_CHECK(StringUtils::ReplaceLast(s, sep, rep) == last, "replace-last", "'%s' '%s' '%s'", s.c_str(), sep.c_str(), rep.c_str());
    }
    mc::Hash h;
    h.S(s + "|" + sep + "|" + rep);
    mc::State(h.h);
    if (s.find(sep) != std::string::npos) mc::Nontrivial();
    mc::Outcome(s.find(sep) != std::string::npos ? "found" : "absent");
}

int64_t DayOf(int y, int m, int d) {  // days since 1970-01-01 by counting
    auto leap = [](int yy) { return (yy % 4 == 0 && yy % 100 != 0) || yy % 400 == 0; };
    static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    int64_t days = 0;
    for (int yy = 1970; yy < y; yy++) days += leap(yy) ? 366 : 365;
    for (int yy = y; yy < 1970; yy++) days -= leap(yy) ? 366 : 365;
    for (int mm = 1; mm < m; mm++) days += len[mm - 1] + (mm == 2 && leap(y));
    return days + d - 1;
}
MC_SCENARIO(dates, mc::BOTH, 1, "every day of 9 (25) years around century and leap boundaries, and day numbers") {
    static const int years[] = {1900, 1904, 1969, 1970, 1972, 2000, 2023, 2024, 2100, 1, 4, 100, 400, 1582, 1600, 1700,
                                1968, 1971, 1999, 2001, 2038, 2400, 8999, 9996, 9999};
    int y = years[mc::Choose(mc::Thorough() ? 25 : 9)], m = mc::Choose(12) + 1;
    int len = static_cast<int>((m < 12 ? DayOf(y, m + 1, 1) : DayOf(y + 1, 1, 1)) - DayOf(y, m, 1));
    int d = mc::Choose(len) + 1;
    char buf[32];
    snprintf(buf, sizeof buf, "%04d-%02d-%02d", y, m, d);
    auto got = StringUtils::StringToDate(buf);
    MC_CHECK(got.ok() && got.value() == DayOf(y, m, d), "date", "%s is %s", buf,
             got.ok() ? std::to_string(got.value()).c_str() : got.status().ToString().c_str());
    auto number = StringUtils::StringToDate(std::to_string(DayOf(y, m, d)));
    MC_CHECK(number.ok() && number.value() == DayOf(y, m, d), "day-number", "%s", buf);
    for (const char* bad : {"", "x", "2020-13-01", "-", "2020-x"}) {
        MC_CHECK(!StringUtils::StringToDate(bad).ok(), "bad-date", "'%s' is accepted", bad);
    }
    mc::Hash h;
    h.S(buf);
    mc::State(h.h);
    if (d > 28) mc::Nontrivial();
    mc::Outcome("date");
}
}  // namespace
