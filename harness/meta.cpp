// What is stored about files, snapshots and schemas, and what travels between writer, committer and reader: it comes back
// as it went in, in every version still read, and a part of it is refused.
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "kinds.h"
#include "mc/mc.h"
#include "paimon/commit_message.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/utils/internal_row_utils.h"
#include "paimon/common/utils/serialization_utils.h"
#include "paimon/core/global_index/indexed_split_impl.h"
#include "paimon/core/index/index_file_meta.h"
#include "paimon/core/index/index_file_meta_serializer.h"
#include "paimon/core/io/compact_increment.h"
#include "paimon/core/io/data_file_meta.h"
#include "paimon/core/io/data_file_meta_serializer.h"
#include "paimon/core/io/data_increment.h"
#include "paimon/core/manifest/index_manifest_entry_serializer.h"
#include "paimon/core/manifest/manifest_entry_serializer.h"
#include "paimon/core/manifest/manifest_file_meta_serializer.h"
#include "paimon/core/schema/table_schema.h"
#include "paimon/core/snapshot.h"
#include "paimon/core/table/sink/commit_message_impl.h"
#include "paimon/core/table/source/data_split_impl.h"
#include "paimon/core/table/source/fallback_data_split.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"

using namespace paimon;  // NOLINT

namespace {
template <class T>
using Opt = std::optional<T>;
using Texts = std::vector<std::string>;
using FilePtr = std::shared_ptr<DataFileMeta>;
using IndexPtr = std::shared_ptr<IndexFileMeta>;

template <class T>
T Of(std::vector<T> vs) {  // the first is the usual one
    return vs[mc::ChooseDev(static_cast<int>(vs.size()))];
}
BinaryRow KeyRow(int how) {
    const auto& ks = kd::Kinds();
    if (how == 0) return kd::Row({&ks[3]}, {kd::N(7)});
    if (how == 1) return BinaryRow::EmptyRow();
    if (how == 2) return kd::Row({&ks[14], &ks[4]}, {kd::S("a text of more than seven bytes"), std::nullopt});
    return kd::Row({&ks[14]}, {kd::S("")});
}
SimpleStats StatsOf(int how) {
    if (how == 1) return SimpleStats::EmptyStats();
    const auto& ks = kd::Kinds();
    if (how == 0) {
        return SimpleStats(KeyRow(0), kd::Row({&ks[3]}, {kd::N(9)}), BinaryArray::FromLongArray(std::vector<int64_t>{3}, kd::Pool().get()));
    }
    BinaryArray nulls;
    BinaryArrayWriter w(&nulls, 2, 8, kd::Pool().get());
    w.Reset();
    w.WriteLong(0, 5000000000);
    w.SetNullAt(1);
    w.Complete();
    return SimpleStats(KeyRow(2), kd::Row({&ks[14], &ks[4]}, {kd::S("b"), kd::N(-1)}), nulls);
}
std::shared_ptr<Bytes> BytesOf(const std::string& s) {
    return std::make_shared<Bytes>(s, kd::Pool().get());
}
FilePtr ChooseFile() {
    auto name = Of<std::string>({"data-1.orc", "", "x", "seven77", "eight888", std::string(300, 'n'), "\xc3\xa9.orc"});
    auto size = Of<int64_t>({1234, 0, 5000000000, INT64_MAX});
    auto rows = Of<int64_t>({10, 0, 5000000000});
    int min = mc::ChooseDev(4), max = mc::ChooseDev(4), ks = mc::ChooseDev(3), vs = mc::ChooseDev(3);
    auto min_seq = Of<int64_t>({3, 0, -1, 5000000000});
    auto max_seq = Of<int64_t>({12, 0, INT64_MAX});
    auto schema = Of<int64_t>({0, 1, 5000000000});
    auto level = Of<int32_t>({0, 5, INT32_MAX});
    auto extra = Of<std::vector<Opt<std::string>>>({{}, {"e1"}, {"a longer extra name", "", std::nullopt}});
    auto time = Of<int64_t>({1700000000123, 0, -1, 253402300799999});
    auto deleted = Of<Opt<int64_t>>({int64_t(0), std::nullopt, int64_t(5000000000)});
    auto index = Of<std::string>({"-", "", "x", std::string("\0\xff index bytes", 14)});
    auto source = Of<int>({0, 1, -1});
    auto cols = Of<Opt<Texts>>({std::nullopt, Texts{}, Texts{"a", "a column with a long name"}});
    auto external = Of<Opt<std::string>>({std::nullopt, std::string(""), std::string("oss://bucket/dir/data-1.orc")});
    auto first = Of<Opt<int64_t>>({std::nullopt, int64_t(0), int64_t(5000000000)});
    auto write = Of<Opt<Texts>>({std::nullopt, Texts{}, Texts{"f0", "f1"}});
    return std::make_shared<DataFileMeta>(
        name, size, rows, KeyRow(min), KeyRow(max), StatsOf(ks), StatsOf(vs), min_seq, max_seq, schema, level, extra,
        Timestamp(time, 0), deleted, index == "-" ? nullptr : BytesOf(index),
        source < 0 ? Opt<FileSource>() : source == 0 ? FileSource::Append() : FileSource::Compact(), cols, external, first, write);
}
FilePtr PlainFile(const std::string& name) {
    return std::make_shared<DataFileMeta>(name, 1, 2, KeyRow(0), KeyRow(3), StatsOf(0), StatsOf(2), 3, 4, 5, 6,
                                          std::vector<Opt<std::string>>{}, Timestamp(7, 0), 8, nullptr, FileSource::Append(),
                                          std::nullopt, std::nullopt, std::nullopt, std::nullopt);
}
bool SameArray(const BinaryArray& a, const BinaryArray& b) {
    if (a.Size() != b.Size()) return false;
    for (int i = 0; i < a.Size(); i++) {
        if (a.IsNullAt(i) != b.IsNullAt(i) || (!a.IsNullAt(i) && a.GetLong(i) != b.GetLong(i))) return false;
    }
    return true;
}
bool SameStats(const SimpleStats& a, const SimpleStats& b) {
    return a.MinValues() == b.MinValues() && a.MaxValues() == b.MaxValues() && SameArray(a.NullCounts(), b.NullCounts());
}
std::string Text(const std::shared_ptr<Bytes>& b) {
    return b ? "+" + std::string(b->data(), b->size()) : "-";
}
// The first difference between two files, of which `fields` are stored.
std::string Diff(const DataFileMeta& a, const DataFileMeta& b, int fields = 20) {
    if (a.file_name != b.file_name) return "file name";
    if (a.file_size != b.file_size) return "file size";
    if (a.row_count != b.row_count) return "row count";
    if (!(a.min_key == b.min_key) || !(a.max_key == b.max_key)) return "keys";
    if (!SameStats(a.key_stats, b.key_stats)) return "key statistics";
    if (!SameStats(a.value_stats, b.value_stats)) return "value statistics";
    if (a.min_sequence_number != b.min_sequence_number || a.max_sequence_number != b.max_sequence_number) return "sequence numbers";
    if (a.schema_id != b.schema_id) return "schema";
    if (a.level != b.level) return "level";
    if (a.extra_files != b.extra_files) return "extra files";
    if (a.creation_time.GetMillisecond() != b.creation_time.GetMillisecond() ||
        a.creation_time.GetNanoOfMillisecond() != b.creation_time.GetNanoOfMillisecond()) {
        return "creation time";
    }
    if (a.delete_row_count != b.delete_row_count) return "deleted rows";
    if (Text(a.embedded_index) != Text(b.embedded_index)) return "embedded index";
    if (a.file_source != b.file_source) return "source";
    if ((fields > 16 ? a.value_stats_cols : std::nullopt) != b.value_stats_cols) return "columns of the statistics";
    if ((fields > 17 ? a.external_path : std::nullopt) != b.external_path) return "external path";
    if ((fields > 18 ? a.first_row_id : std::nullopt) != b.first_row_id) return "first row id";
    if ((fields > 19 ? a.write_cols : std::nullopt) != b.write_cols) return "written columns";
    return "";
}
// The layout of a stored file with so many fields, after the format's documentation.
BinaryRow FileRow(const DataFileMeta& f, int fields) {
    BinaryRow row(fields);
    BinaryRowWriter w(&row, 0, kd::Pool().get());
    w.Reset();
    auto text = [&](int i, const std::string& s) { w.WriteString(i, BinaryString::FromString(s, kd::Pool().get())); };
    auto num = [&](int i, const Opt<int64_t>& v) {
        if (v) {
            w.WriteLong(i, *v);
        } else {
            w.SetNullAt(i);
        }
    };
    auto bytes = [&](int i, const BinaryRow& r) { w.WriteBinary(i, *SerializationUtils::SerializeBinaryRow(r, kd::Pool().get())); };
    auto stats = [&](int i, const SimpleStats& s) {
        BinaryRow r(3);
        BinaryRowWriter sw(&r, 0, kd::Pool().get());
        sw.Reset();
        sw.WriteBinary(0, *SerializationUtils::SerializeBinaryRow(s.MinValues(), kd::Pool().get()));
        sw.WriteBinary(1, *SerializationUtils::SerializeBinaryRow(s.MaxValues(), kd::Pool().get()));
        sw.WriteArray(2, s.NullCounts());
        sw.Complete();
        w.WriteRow(i, r);
    };
    text(0, f.file_name);
    num(1, f.file_size);
    num(2, f.row_count);
    bytes(3, f.min_key);
    bytes(4, f.max_key);
    stats(5, f.key_stats);
    stats(6, f.value_stats);
    num(7, f.min_sequence_number);
    num(8, f.max_sequence_number);
    num(9, f.schema_id);
    w.WriteInt(10, f.level);
    w.WriteArray(11, InternalRowUtils::ToStringArrayData(f.extra_files, kd::Pool()));
    w.WriteTimestamp(12, f.creation_time, 3);
    num(13, f.delete_row_count);
    if (f.embedded_index) {
        w.WriteBinary(14, *f.embedded_index);
    } else {
        w.SetNullAt(14);
    }
    if (f.file_source) {
        w.WriteByte(15, *f.file_source == FileSource::Append() ? 0 : 1);
    } else {
        w.SetNullAt(15);
    }
    auto texts = [&](int i, const Opt<Texts>& t) {
        if (t) {
            w.WriteArray(i, InternalRowUtils::ToNotNullStringArrayData(*t, kd::Pool()));
        } else {
            w.SetNullAt(i);
        }
    };
    if (fields > 16) texts(16, f.value_stats_cols);
    if (fields > 17) {
        if (f.external_path) {
            text(17, *f.external_path);
        } else {
            w.SetNullAt(17);
        }
    }
    if (fields > 18) num(18, f.first_row_id);
    if (fields > 19) texts(19, f.write_cols);
    w.Complete();
    return row;
}
using Dvs = LinkedHashMap<std::string, DeletionVectorMeta>;
Opt<Dvs> DvsOf(int how) {
    Dvs m;
    if (how == 0) return std::nullopt;
    if (how >= 2) m.insert_or_assign("data-b.orc", DeletionVectorMeta("data-b.orc", 1, 22, how == 3 ? Opt<int64_t>(5000000000) : std::nullopt));
    if (how >= 3) m.insert_or_assign("a", DeletionVectorMeta("a", 30, INT32_MAX, std::nullopt));
    return m;
}
IndexPtr ChooseIndex() {
    auto type = Of<std::string>({"DELETION_VECTORS", "", "HASH"});
    auto name = Of<std::string>({"index-1", "i", std::string(300, 'i')});
    auto size = Of<int64_t>({77, 0, 5000000000});
    auto rows = Of<int64_t>({3, 0, 5000000000});
    auto dvs = DvsOf(mc::ChooseDev(4));
    auto external = Of<Opt<std::string>>({std::nullopt, std::string(""), std::string("oss://bucket/dir/index-1")});
    int g = mc::ChooseDev(4);
    Opt<GlobalIndexMeta> global;
    if (g == 1) global = GlobalIndexMeta(0, 5000000000, 3, std::nullopt, nullptr);
    if (g == 2) global = GlobalIndexMeta(5000000000, 5000000001, INT32_MAX, std::vector<int32_t>{}, BytesOf(""));
    if (g == 3) global = GlobalIndexMeta(1, 2, 0, std::vector<int32_t>{4, 5, -1}, BytesOf("some index bytes"));
    return std::make_shared<IndexFileMeta>(type, name, size, rows, dvs, external, global);
}
std::string Diff(const IndexFileMeta& a, const IndexFileMeta& b, int version = 4) {
    if (a.IndexType() != b.IndexType() || a.FileName() != b.FileName()) return "index name";
    if (a.FileSize() != b.FileSize() || a.RowCount() != b.RowCount()) return "index size";
    if (a.DvRanges().has_value() != b.DvRanges().has_value()) return "ranges";
    if (a.DvRanges()) {
        if (a.DvRanges()->size() != b.DvRanges()->size()) return "ranges";
        auto i = a.DvRanges()->begin();
        for (auto j = b.DvRanges()->begin(); j != b.DvRanges()->end(); ++i, ++j) {
            if (i->first != j->first || i->second.data_file_name != j->second.data_file_name ||
                i->second.offset != j->second.offset || i->second.length != j->second.length ||
                (version > 1 ? i->second.cardinality : std::nullopt) != j->second.cardinality) {
                return "ranges";
            }
        }
    }
    if ((version > 2 ? a.ExternalPath() : std::nullopt) != b.ExternalPath()) return "index path";
    auto ga = version > 3 ? a.GetGlobalIndexMeta() : std::nullopt;
    auto gb = b.GetGlobalIndexMeta();
    if (ga.has_value() != gb.has_value()) return "global index";
    if (ga && (ga->row_range_start != gb->row_range_start || ga->row_range_end != gb->row_range_end ||
               ga->index_field_id != gb->index_field_id || ga->extra_field_ids != gb->extra_field_ids ||
               Text(ga->index_meta) != Text(gb->index_meta))) {
        return "global index";
    }
    return "";
}
BinaryRow IndexRow(const IndexFileMeta& f, int version) {
    BinaryRow row(version < 3 ? 5 : version < 4 ? 6 : 7);
    BinaryRowWriter w(&row, 0, kd::Pool().get());
    w.Reset();
    auto text = [&](BinaryRowWriter* to, int i, const std::string& s) { to->WriteString(i, BinaryString::FromString(s, kd::Pool().get())); };
    text(&w, 0, f.IndexType());
    text(&w, 1, f.FileName());
    w.WriteLong(2, f.FileSize());
    w.WriteLong(3, f.RowCount());
    if (f.DvRanges()) {
        BinaryArray arr;
        BinaryArrayWriter aw(&arr, static_cast<int>(f.DvRanges()->size()), 8, kd::Pool().get());
        aw.Reset();
        int i = 0;
        for (const auto& [k, d] : *f.DvRanges()) {
            BinaryRow r(version < 2 ? 3 : 4);
            BinaryRowWriter rw(&r, 0, kd::Pool().get());
            rw.Reset();
            text(&rw, 0, d.data_file_name);
            rw.WriteInt(1, d.offset);
            rw.WriteInt(2, d.length);
            if (version >= 2) {
                if (d.cardinality) {
                    rw.WriteLong(3, *d.cardinality);
                } else {
                    rw.SetNullAt(3);
                }
            }
            rw.Complete();
            aw.WriteRow(i++, r);
        }
        aw.Complete();
        w.WriteArray(4, arr);
    } else {
        w.SetNullAt(4);
    }
    if (version >= 3) {
        if (f.ExternalPath()) {
            text(&w, 5, *f.ExternalPath());
        } else {
            w.SetNullAt(5);
        }
    }
    if (version >= 4) {
        auto g = f.GetGlobalIndexMeta();
        if (g) {
            BinaryRow r(5);
            BinaryRowWriter rw(&r, 0, kd::Pool().get());
            rw.Reset();
            rw.WriteLong(0, g->row_range_start);
            rw.WriteLong(1, g->row_range_end);
            rw.WriteInt(2, g->index_field_id);
            if (g->extra_field_ids) {
                rw.WriteArray(3, BinaryArray::FromIntArray(*g->extra_field_ids, kd::Pool().get()));
            } else {
                rw.SetNullAt(3);
            }
            if (g->index_meta) {
                rw.WriteBinary(4, *g->index_meta);
            } else {
                rw.SetNullAt(4);
            }
            rw.Complete();
            w.WriteRow(6, r);
        } else {
            w.SetNullAt(6);
        }
    }
    w.Complete();
    return row;
}
// ---- a stream as it is written: the model of the layout ---------------------------------------------------------
struct Out {
    MemorySegmentOutputStream s{64, kd::Pool()};
    std::string Take() {
        auto b = MemorySegmentUtils::CopyToBytes(s.Segments(), 0, static_cast<int>(s.CurrentSize()), kd::Pool().get());
        return std::string(b->data(), b->size());
    }
    void Row(const BinaryRow& r, bool arity) {
        auto b = MemorySegmentUtils::CopyToBytes(r.GetSegments(), r.GetOffset(), r.GetSizeInBytes(), kd::Pool().get());
        s.WriteValue<int32_t>(r.GetSizeInBytes() + (arity ? 4 : 0));
        if (arity) s.WriteValue<int32_t>(r.GetFieldCount());
        s.Write(b->data(), static_cast<uint32_t>(b->size()));
    }
    void Files(const std::vector<FilePtr>& fs, int fields) {
        s.WriteValue<int32_t>(static_cast<int32_t>(fs.size()));
        for (auto& f : fs) Row(FileRow(*f, fields), false);
    }
    void Indexes(const std::vector<IndexPtr>& is, int version) {
        s.WriteValue<int32_t>(static_cast<int32_t>(is.size()));
        for (auto& i : is) Row(IndexRow(*i, version), false);
    }
    void Buckets(const Opt<int32_t>& t) {
        s.WriteValue<bool>(t.has_value());
        if (t) s.WriteValue<int32_t>(*t);
    }
};
void CheckFiles(const std::vector<FilePtr>& want, const std::vector<FilePtr>& got, const char* what, int fields = 20) {
    MC_CHECK(want.size() == got.size(), "count", "%s: %zu files of %zu", what, got.size(), want.size());
    for (size_t i = 0; i < want.size(); i++) {
        std::string d = Diff(*want[i], *got[i], fields);
        MC_CHECK(d.empty(), "file", "%s: the %s of file %zu changed", what, d.c_str(), i);
    }
}
void CheckIndexes(const std::vector<IndexPtr>& want, const std::vector<IndexPtr>& got, const char* what, int version = 4) {
    MC_CHECK(want.size() == got.size(), "count", "%s: %zu indexes of %zu", what, got.size(), want.size());
    for (size_t i = 0; i < want.size(); i++) {
        std::string d = Diff(*want[i], *got[i], version);
        MC_CHECK(d.empty(), "index", "%s: the %s of index %zu changed", what, d.c_str(), i);
    }
}
FileKind ChooseFileKind() {
    return mc::ChooseDev(2) == 0 ? FileKind::Add() : FileKind::Delete();
}
MC_SCENARIO(stored_files, mc::BOTH, 2,
            "data files with up to 2 (3) of 20 properties at any of their other values, as records, in manifests entries and "
            "in the five stored layouts") {
    mc::SetDeviationBound(mc::Thorough() ? 3 : 2);
    FilePtr f = ChooseFile();
    DataFileMetaSerializer ser(kd::Pool());
    auto row = ser.ToRow(f);
    MC_CHECK(row.ok(), "to-row", "%s", row.status().ToString().c_str());
    MC_CHECK(row.value() == FileRow(*f, 20), "layout", "the stored layout changed");
    auto back = ser.FromRow(row.value());
    MC_CHECK(back.ok(), "from-row", "%s", back.status().ToString().c_str());
    CheckFiles({f}, {back.value()}, "record");
    MC_CHECK(*f == *back.value() && *back.value() == *f, "equal", "the file is not equal to itself read back");
    Out list;
    MC_CHECK(ser.SerializeList({f, PlainFile("p"), f}, &list.s).ok(), "list", "cannot be written");
    std::string bytes = list.Take();
    DataInputStream in(std::make_shared<ByteArrayInputStream>(bytes.data(), bytes.size()));
    auto files = ser.DeserializeList(&in);
    MC_CHECK(files.ok(), "list", "%s", files.status().ToString().c_str());
    CheckFiles({f, PlainFile("p"), f}, files.value(), "list");
    ManifestEntrySerializer entries(kd::Pool());
    FileKind kind = ChooseFileKind();
    BinaryRow partition = KeyRow(mc::ChooseDev(4));
    int bucket = Of<int32_t>({0, 7, INT32_MAX, -2}), total = Of<int32_t>({1, 8, -1});
    auto erow = entries.ToRow(ManifestEntry(kind, partition, bucket, total, f));
    MC_CHECK(erow.ok(), "entry", "%s", erow.status().ToString().c_str());
    MC_CHECK(erow.value().GetInt(0) == 2, "entry-version", "%d", erow.value().GetInt(0));
    auto e = entries.FromRow(erow.value());
    MC_CHECK(e.ok(), "entry", "%s", e.status().ToString().c_str());
    MC_CHECK(e.value().Kind() == kind && e.value().Partition() == partition && e.value().Bucket() == bucket &&
                 e.value().TotalBuckets() == total,
             "entry", "kind, partition or bucket changed");
    CheckFiles({f}, {e.value().File()}, "entry");
    for (int v : {0, 1, 3}) {
        BinaryRow other = erow.value();
        other.SetInt(0, v);
        MC_CHECK(!entries.FromRow(other).ok(), "entry-version", "an entry of version %d is read", v);
    }
    mc::Hash h;
    h.S(bytes);
    h.S(std::to_string(bucket) + "," + std::to_string(total) + (kind == FileKind::Add() ? "+" : "-"));
    h.U(static_cast<uint32_t>(partition.HashCode()));
    mc::State(h.h);
    mc::Nontrivial();
    mc::TraceValidated();
    mc::Outcome("file");
}
MC_SCENARIO(stored_indexes, mc::BOTH, 2,
            "index files with up to 3 properties at any of their other values, as records and in entries; manifest files with "
            "up to 3 of 12 properties at other values") {
    mc::SetDeviationBound(3);
    if (mc::ChooseBool()) {
        IndexPtr f = ChooseIndex();
        IndexFileMetaSerializer ser(kd::Pool());
        auto row = ser.ToRow(f);
        MC_CHECK(row.ok() && row.value() == IndexRow(*f, 4), "index-layout", "the stored layout changed");
        auto back = ser.FromRow(row.value());
        MC_CHECK(back.ok(), "index-row", "%s", back.status().ToString().c_str());
        CheckIndexes({f}, {back.value()}, "record");
        MC_CHECK(*f == *back.value(), "index-equal", "the index is not equal to itself read back");
        FileKind kind = ChooseFileKind();
        BinaryRow partition = KeyRow(mc::ChooseDev(4));
        int bucket = Of<int32_t>({0, 7, INT32_MAX, -2});
        IndexManifestEntrySerializer entries(kd::Pool());
        auto erow = entries.ToRow(IndexManifestEntry(kind, partition, bucket, f));
        MC_CHECK(erow.ok() && erow.value().GetInt(0) == 1, "index-entry", "%s", erow.status().ToString().c_str());
        auto e = entries.FromRow(erow.value());
        MC_CHECK(e.ok(), "index-entry", "%s", e.status().ToString().c_str());
        MC_CHECK(e.value().kind == kind && e.value().partition == partition && e.value().bucket == bucket, "index-entry",
                 "kind, partition or bucket changed");
        CheckIndexes({f}, {e.value().index_file}, "entry");
        mc::Hash h;
        h.U(static_cast<uint32_t>(erow.value().HashCode()));
        mc::State(h.h);
        mc::Outcome("index");
    } else {
        auto name = Of<std::string>({"manifest-1", "m", std::string(300, 'm')});
        auto size = Of<int64_t>({77, 0, 5000000000});
        auto added = Of<int64_t>({3, 0, 5000000000}), deleted = Of<int64_t>({0, 2, 5000000000});
        auto stats = StatsOf(mc::ChooseDev(3));
        auto schema = Of<int64_t>({0, 5000000000});
        using I = Opt<int32_t>;
        using L = Opt<int64_t>;
        auto min_bucket = Of<I>({0, std::nullopt, -2, INT32_MAX}), max_bucket = Of<I>({3, std::nullopt, INT32_MAX});
        auto min_level = Of<I>({0, std::nullopt, 5}), max_level = Of<I>({5, std::nullopt, 0});
        auto min_id = Of<L>({L(0), L(), L(7), L(2147483647), L(2147483648), L(4294967296), L(INT64_MAX)});
        auto max_id = Of<L>({L(9), L(), L(0), L(2147483647), L(2147483648), L(5000000000), L(INT64_MAX)});
        ManifestFileMeta m(name, size, added, deleted, stats, schema, min_bucket, max_bucket, min_level, max_level, min_id, max_id);
        ManifestFileMetaSerializer ser(kd::Pool());
        auto row = ser.ToRow(m);
        MC_CHECK(row.ok() && row.value().GetInt(0) == 2, "manifest-row", "%s", row.status().ToString().c_str());
        auto b = ser.FromRow(row.value());
        MC_CHECK(b.ok(), "manifest-row", "%s", b.status().ToString().c_str());
        auto& g = b.value();
        MC_CHECK(g.FileName() == name && g.FileSize() == size && g.NumAddedFiles() == added && g.NumDeletedFiles() == deleted &&
                     SameStats(g.PartitionStats(), stats) && g.SchemaId() == schema,
                 "manifest", "name, size, counts, statistics or schema changed");
        MC_CHECK(g.MinBucket() == min_bucket && g.MaxBucket() == max_bucket && g.MinLevel() == min_level && g.MaxLevel() == max_level,
                 "manifest-range", "buckets or levels changed");
        MC_CHECK(g.MinRowId() == min_id && g.MaxRowId() == max_id, "manifest-rows", "row ids %lld to %lld became %lld to %lld",
                 static_cast<long long>(min_id.value_or(-1)), static_cast<long long>(max_id.value_or(-1)),
                 static_cast<long long>(g.MinRowId().value_or(-1)), static_cast<long long>(g.MaxRowId().value_or(-1)));
        MC_CHECK(g == m, "manifest-equal", "the manifest is not equal to itself read back");
        for (int v : {0, 1, 3}) {
            BinaryRow other = row.value();
            other.SetInt(0, v);
            MC_CHECK(!ser.FromRow(other).ok(), "manifest-version", "a manifest of version %d is read", v);
        }
        mc::Hash h;
        h.U(static_cast<uint32_t>(row.value().HashCode()));
        mc::State(h.h);
        mc::Outcome("manifest");
    }
    mc::Nontrivial();
    mc::TraceValidated();
}
MC_SCENARIO(commit_messages, mc::BOTH, 2,
            "lists of up to 2 messages with files and indexes in any two of the ten lists, one of them with 1 (2) unusual "
            "properties, in versions 3 to 11 after the documented layout; 41 cuts of each are refused") {
    mc::SetDeviationBound(mc::Thorough() ? 2 : 1);
    int version = 11 - mc::Choose(9);
    int count = mc::Choose(3);
    std::vector<std::shared_ptr<CommitMessage>> msgs;
    std::vector<std::shared_ptr<CommitMessageImpl>> impls;
    std::vector<std::vector<FilePtr>> fs(12);
    std::vector<std::vector<IndexPtr>> is(8);
    for (int m = 0; m < count; m++) {
        std::vector<FilePtr>* f = &fs[m * 6];
        std::vector<IndexPtr>* i = &is[m * 4];
        if (m == 0) {
            int a = mc::Choose(11), b = a + mc::Choose(11 - a);  // 10: none
            for (int at : {a, b}) {
                if (at < 6) f[at].push_back(at == a ? ChooseFile() : PlainFile("second"));
                if (at >= 6 && at < 10) i[at - 6].push_back(ChooseIndex());
            }
        } else {
            f[0].push_back(PlainFile("other"));
            i[2].push_back(std::make_shared<IndexFileMeta>("HASH", "h", 1, 2, std::nullopt, std::nullopt));
        }
        auto copy = [](auto v) { return v; };
        BinaryRow partition = KeyRow(m == 0 ? mc::ChooseDev(4) : 1);
        int bucket = Of<int32_t>({0, 7, INT32_MAX, -2});
        Opt<int32_t> total = Of<Opt<int32_t>>({4, std::nullopt, INT32_MAX});
        impls.push_back(std::make_shared<CommitMessageImpl>(
            partition, bucket, total, DataIncrement(copy(f[0]), copy(f[1]), copy(f[2]), copy(i[0]), copy(i[1])),
            CompactIncrement(copy(f[3]), copy(f[4]), copy(f[5]), copy(i[2]), copy(i[3]))));
        msgs.push_back(impls.back());
    }
    int fields = version >= 9 ? 20 : version == 8 ? 19 : version >= 6 ? 18 : version >= 4 ? 17 : 16;
    int iv = version == 11 ? 4 : version >= 9 ? 3 : version >= 5 ? 2 : 1;
    Out out;
    out.s.WriteValue<int32_t>(count);
    for (int m = 0; m < count; m++) {
        auto& d = impls[m]->GetNewFilesIncrement();
        auto& c = impls[m]->GetCompactIncrement();
        out.Row(impls[m]->Partition(), true);
        out.s.WriteValue<int32_t>(impls[m]->Bucket());
        if (version >= 7) out.Buckets(impls[m]->TotalBuckets());
        out.Files(d.NewFiles(), fields);
        out.Files(d.DeletedFiles(), fields);
        out.Files(d.ChangelogFiles(), fields);
        if (version >= 10) {
            out.Indexes(d.NewIndexFiles(), iv);
            out.Indexes(d.DeletedIndexFiles(), iv);
        }
        out.Files(c.CompactBefore(), fields);
        out.Files(c.CompactAfter(), fields);
        out.Files(c.ChangelogFiles(), fields);
        if (version >= 10) {
            out.Indexes(c.NewIndexFiles(), iv);
            out.Indexes(c.DeletedIndexFiles(), iv);
        } else {  // one list of indexes for both
            auto join = [](std::vector<IndexPtr> a, const std::vector<IndexPtr>& b) {
                a.insert(a.end(), b.begin(), b.end());
                return a;
            };
            out.Indexes(join(d.NewIndexFiles(), c.NewIndexFiles()), iv);
            out.Indexes(join(d.DeletedIndexFiles(), c.DeletedIndexFiles()), iv);
        }
    }
    std::string bytes = out.Take();
    if (version == 11) {
        auto got = CommitMessage::SerializeList(msgs, kd::Pool());
        MC_CHECK(got.ok() && got.value() == bytes, "message-layout", "the layout of messages changed");
        MC_CHECK(CommitMessage::CurrentVersion() == 11, "message-version", "%d", CommitMessage::CurrentVersion());
    }
    auto back = CommitMessage::DeserializeList(version, bytes.data(), static_cast<int32_t>(bytes.size()), kd::Pool());
    MC_CHECK(back.ok() && back.value().size() == msgs.size(), "message-list", "%s", back.status().ToString().c_str());
    for (int m = 0; m < count; m++) {
        auto g = std::dynamic_pointer_cast<CommitMessageImpl>(back.value()[m]);
        MC_CHECK(g->Partition() == impls[m]->Partition() && g->Bucket() == impls[m]->Bucket() &&
                     g->TotalBuckets() == (version >= 7 ? impls[m]->TotalBuckets() : std::nullopt),
                 "message", "partition or buckets changed");
        auto &d = impls[m]->GetNewFilesIncrement(), &gd = g->GetNewFilesIncrement();
        auto &c = impls[m]->GetCompactIncrement(), &gc = g->GetCompactIncrement();
        CheckFiles(d.NewFiles(), gd.NewFiles(), "new files", fields);
        CheckFiles(d.DeletedFiles(), gd.DeletedFiles(), "deleted files", fields);
        CheckFiles(d.ChangelogFiles(), gd.ChangelogFiles(), "changelog files", fields);
        CheckFiles(c.CompactBefore(), gc.CompactBefore(), "compacted files", fields);
        CheckFiles(c.CompactAfter(), gc.CompactAfter(), "files of the compaction", fields);
        CheckFiles(c.ChangelogFiles(), gc.ChangelogFiles(), "changelog of the compaction", fields);
        if (version >= 10) {
            CheckIndexes(d.NewIndexFiles(), gd.NewIndexFiles(), "new indexes", iv);
            CheckIndexes(d.DeletedIndexFiles(), gd.DeletedIndexFiles(), "deleted indexes", iv);
            CheckIndexes(c.NewIndexFiles(), gc.NewIndexFiles(), "new indexes of the compaction", iv);
            CheckIndexes(c.DeletedIndexFiles(), gc.DeletedIndexFiles(), "deleted indexes of the compaction", iv);
        } else {
            bool compact = !c.CompactBefore().empty() || !c.CompactAfter().empty() || !c.ChangelogFiles().empty();
            auto news = d.NewIndexFiles(), olds = d.DeletedIndexFiles();
            news.insert(news.end(), c.NewIndexFiles().begin(), c.NewIndexFiles().end());
            olds.insert(olds.end(), c.DeletedIndexFiles().begin(), c.DeletedIndexFiles().end());
            CheckIndexes(compact ? std::vector<IndexPtr>() : news, gd.NewIndexFiles(), "new indexes", iv);
            CheckIndexes(compact ? std::vector<IndexPtr>() : olds, gd.DeletedIndexFiles(), "deleted indexes", iv);
            CheckIndexes(compact ? news : std::vector<IndexPtr>(), gc.NewIndexFiles(), "new indexes of the compaction", iv);
            CheckIndexes(compact ? olds : std::vector<IndexPtr>(), gc.DeletedIndexFiles(), "deleted indexes of the compaction", iv);
        }
        if (version == 11) MC_CHECK(*g == *impls[m], "message-equal", "a message is not equal to itself read back");
        // one by one
        if (version == 11) {
            auto one = CommitMessage::Serialize(msgs[m], kd::Pool());
            MC_CHECK(one.ok(), "message-one", "%s", one.status().ToString().c_str());
            auto again = CommitMessage::Deserialize(11, one.value().data(), static_cast<int32_t>(one.value().size()), kd::Pool());
            MC_CHECK(again.ok() && *std::dynamic_pointer_cast<CommitMessageImpl>(again.value()) == *impls[m], "message-one",
                     "one message changed");
        }
    }
    size_t step = count == 1 ? bytes.size() / 41 + 1 : bytes.size();
    for (size_t cut = 0; cut < bytes.size(); cut += step) {
        std::string part(bytes.data(), cut);
        MC_CHECK(!CommitMessage::DeserializeList(version, part.data(), static_cast<int32_t>(cut), kd::Pool()).ok(), "message-cut",
                 "%zu of %zu bytes are accepted", cut, bytes.size());
    }
    for (int v : {0, 1, 2, 12, -1}) {
        MC_CHECK(count == 0 || !CommitMessage::DeserializeList(v, bytes.data(), static_cast<int32_t>(bytes.size()), kd::Pool()).ok(),
                 "message-version", "version %d is accepted", v);
    }
    mc::Hash h;
    h.U(version);
    h.S(bytes);
    mc::State(h.h);
    if (count) mc::Nontrivial();
    mc::TraceValidated();
    mc::Outcome("version " + std::to_string(version));
}
Opt<DeletionFile> DeletionOf(int how) {
    if (how == 0) return std::nullopt;
    if (how == 1) return DeletionFile("index/dv-1", 1, 22, 3);
    return DeletionFile("", 5000000000, 5000000001, std::nullopt);
}
MC_SCENARIO(splits, mc::BOTH, 2,
            "splits of up to 2 files and 1 earlier file with or without deletion files, with up to 2 (3) unusual properties, "
            "in versions 2 to 8 after the documented layout, with a fallback mark, with row ranges and scores; 41 cuts of "
            "each are refused") {
    mc::SetDeviationBound(mc::Thorough() ? 3 : 2);
    int version = 8 - mc::Choose(7);
    std::vector<FilePtr> files, before;
    std::vector<Opt<DeletionFile>> dels, before_dels;
    int n = (mc::ChooseDev(3) + 1) % 3;
    for (int i = 0; i < n; i++) files.push_back(i == 0 ? ChooseFile() : PlainFile("second"));
    if (n && mc::ChooseDev(2) == 0) {
        for (int i = 0; i < n; i++) dels.push_back(DeletionOf((mc::ChooseDev(3) + 1) % 3));
    }
    if (mc::ChooseDev(2)) {
        before.push_back(PlainFile("earlier"));
        int d = (mc::ChooseDev(3) + 1) % 3;
        if (d) before_dels.push_back(DeletionOf(d));
    }
    bool streaming = mc::ChooseDev(2), raw = mc::ChooseDev(2);
    BinaryRow partition = KeyRow(mc::ChooseDev(4));
    int bucket = Of<int32_t>({0, 7, INT32_MAX, -2});
    auto path = Of<std::string>({"db/t/bucket-0", "", std::string(300, 'p')});
    auto total = Of<Opt<int32_t>>({4, std::nullopt, INT32_MAX});
    auto snapshot = Of<int64_t>({1, 5000000000, 0});
    int fields = version == 8 ? 20 : version == 7 ? 19 : version >= 5 ? 18 : version >= 3 ? 17 : 16;
    auto deletions = [&](Out* o, const std::vector<Opt<DeletionFile>>& ds) {
        o->s.WriteValue<char>(ds.empty() ? 0 : 1);
        if (ds.empty()) return;
        o->s.WriteValue<int32_t>(static_cast<int32_t>(ds.size()));
        for (auto& d : ds) {
            o->s.WriteValue<char>(d ? 1 : 0);
            if (!d) continue;
            o->s.WriteString(d->path);
            o->s.WriteValue<int64_t>(d->offset);
            o->s.WriteValue<int64_t>(d->length);
            if (version >= 4) o->s.WriteValue<int64_t>(d->cardinality.value_or(-1));
        }
    };
    auto layout = [&](Out* o) {
        o->s.WriteValue<int64_t>(-2394839472490812314L);
        o->s.WriteValue<int32_t>(version);
        o->s.WriteValue<int64_t>(snapshot);
        o->Row(partition, true);
        o->s.WriteValue<int32_t>(bucket);
        o->s.WriteString(path);
        if (version >= 6) o->Buckets(total);
        o->Files(before, fields);
        deletions(o, before_dels);
        o->Files(files, fields);
        deletions(o, dels);
        o->s.WriteValue<bool>(streaming);
        o->s.WriteValue<bool>(raw);
    };
    auto copy = [](auto v) { return v; };
    DataSplitImpl::Builder builder(partition, bucket, path, copy(files));
    builder.WithTotalBuckets(total).WithSnapshot(snapshot).WithBeforeFiles(copy(before)).WithBeforeDeletionFiles(before_dels);
    builder.WithDataDeletionFiles(dels).IsStreaming(streaming).RawConvertible(raw);
    auto built = builder.Build();
    MC_CHECK(built.ok(), "split-build", "%s", built.status().ToString().c_str());
    int as = 8;
    auto check = [&](const std::shared_ptr<DataSplitImpl>& g, const char* what) {
        int version = as, fields = as == 8 ? 20 : as == 7 ? 19 : as >= 5 ? 18 : as >= 3 ? 17 : 16;
        MC_CHECK(g != nullptr, "split-kind", "%s is no data split", what);
        auto strip = [&](std::vector<Opt<DeletionFile>> ds) {
            if (version < 4) {
                for (auto& d : ds) {
                    if (d) d->cardinality = std::nullopt;
                }
            }
            return ds;
        };
        MC_CHECK(g->SnapshotId() == snapshot && g->Partition() == partition && g->Bucket() == bucket && g->BucketPath() == path &&
                     g->TotalBuckets() == (version >= 6 ? total : std::nullopt) && g->IsStreaming() == streaming &&
                     g->RawConvertible() == raw,
                 "split", "%s: a property changed", what);
        CheckFiles(files, g->DataFiles(), what, fields);
        CheckFiles(before, g->BeforeFiles(), what, fields);
        MC_CHECK(g->DeletionFiles() == strip(dels) && g->BeforeDeletionFiles() == strip(before_dels), "split-deletions",
                 "%s: the deletion files changed", what);
    };
    check(built.value(), "built");
    as = version;
    int form = mc::Choose(4);  // plain, with a fallback mark, with ranges, with ranges and scores
    if (form >= 2 && version != 8) mc::Prune();
    Out out;
    std::vector<Range> ranges{Range(0, 1), Range(5000000000, 5000000000)};
    std::vector<float> scores;
    if (form == 3) scores = {1.5f, -0.25f, 3.0f};
    if (form >= 2) {
        out.s.WriteValue<int64_t>(-938472394838495695L);
        out.s.WriteValue<int32_t>(1);
    }
    layout(&out);
    bool fallback = false;
    if (form == 1) out.s.WriteValue<bool>(fallback = mc::ChooseBool());
    if (form >= 2) {
        out.s.WriteValue<int32_t>(2);
        for (auto& r : ranges) {
            out.s.WriteValue<int64_t>(r.from);
            out.s.WriteValue<int64_t>(r.to);
        }
        out.s.WriteValue<bool>(form == 3);
        if (form == 3) {
            out.s.WriteValue<int32_t>(3);
            for (float f : scores) out.s.WriteValue<float>(f);
        }
    }
    std::string bytes = out.Take();
    if (version == 8 && form != 1) {
        std::shared_ptr<Split> s = built.value();
        if (form >= 2) s = std::make_shared<IndexedSplitImpl>(built.value(), ranges, scores);
        auto got = Split::Serialize(s, kd::Pool());
        MC_CHECK(got.ok() && got.value() == bytes, "split-layout", "the layout of splits changed");
    }
    auto back = Split::Deserialize(bytes.data(), bytes.size(), kd::Pool());
    MC_CHECK(back.ok(), "split-read", "version %d: %s", version, back.status().ToString().c_str());
    if (form == 0) {
        check(std::dynamic_pointer_cast<DataSplitImpl>(back.value()), "read");
        if (version == 8) MC_CHECK(*std::dynamic_pointer_cast<DataSplitImpl>(back.value()) == *built.value(), "split-equal", "differ");
    } else if (form == 1) {
        auto f = std::dynamic_pointer_cast<FallbackDataSplit>(back.value());
        MC_CHECK(f && f->IsFallback() == fallback, "split-fallback", "the mark is lost");
        check(std::dynamic_pointer_cast<DataSplitImpl>(f->GetSplit()), "marked");
    } else {
        auto x = std::dynamic_pointer_cast<IndexedSplitImpl>(back.value());
        MC_CHECK(x && x->RowRanges() == ranges && x->Scores() == scores, "split-ranges", "ranges or scores changed");
        check(std::dynamic_pointer_cast<DataSplitImpl>(x->GetDataSplit()), "with ranges");
    }
    size_t step = bytes.size() / 41 + 1;
    for (size_t cut = 0; cut < bytes.size(); cut += step) {
        if (form == 1 && cut == bytes.size() - 1) continue;  // the split without its mark
        std::string part(bytes.data(), cut);
        MC_CHECK(!Split::Deserialize(part.data(), cut, kd::Pool()).ok(), "split-cut", "%zu of %zu bytes are accepted", cut, bytes.size());
    }
    std::string longer = bytes + "xx";
    MC_CHECK(!Split::Deserialize(longer.data(), longer.size(), kd::Pool()).ok(), "split-tail", "bytes behind a split are accepted");
    // what a user sees of it
    auto list = built.value()->GetFileList();
    MC_CHECK(list.size() == files.size(), "split-list", "%zu files", list.size());
    int64_t rows = 0, merged = 0;
    for (size_t i = 0; i < files.size(); i++) {
        auto& f = *files[i];
        MC_CHECK(list[i].file_size == f.file_size && list[i].row_count == f.row_count && list[i].level == f.level &&
                     list[i].schema_id == f.schema_id && list[i].min_sequence_number == f.min_sequence_number &&
                     list[i].max_sequence_number == f.max_sequence_number && list[i].creation_time == f.creation_time &&
                     list[i].delete_row_count == f.delete_row_count,
                 "split-list", "file %zu", i);
        if (f.external_path) MC_CHECK(list[i].file_path == *f.external_path, "split-path", "%s", list[i].file_path.c_str());
        if (!f.external_path && !path.empty() && !f.file_name.empty()) {
            MC_CHECK(list[i].file_path == path + "/" + f.file_name, "split-path", "%s", list[i].file_path.c_str());
        }
        rows += f.row_count;
        if (dels.empty() || !dels[i]) merged += f.row_count;
        else if (dels[i]->cardinality) merged += f.row_count - *dels[i]->cardinality;
    }
    MC_CHECK(built.value()->RowCount() == rows && built.value()->PartialMergedRowCount() == (raw ? merged : 0), "split-rows",
             "%lld rows, %lld merged", static_cast<long long>(built.value()->RowCount()),
             static_cast<long long>(built.value()->PartialMergedRowCount()));
    mc::Hash h;
    h.S(bytes);
    mc::State(h.h);
    if (n) mc::Nontrivial();
    mc::TraceValidated();
    mc::Outcome("version " + std::to_string(version));
}
std::string Quote(const std::string& s) {
    std::string t = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') t += '\\';
        t += c;
    }
    return t + "\"";
}
MC_SCENARIO(snapshots, mc::BOTH, 2,
            "snapshots with up to 3 (4) of 22 properties at any of their other values, written and read, and read from the "
            "documented text in two orders and with unknown properties") {
    mc::SetDeviationBound(mc::Thorough() ? 4 : 3);
    using L = Opt<int64_t>;
    using S = Opt<std::string>;
    int64_t id = Of<int64_t>({1, 5000000000}), schema = Of<int64_t>({0, 5000000000});
    auto base = Of<std::string>({"manifest-list-1", "a \"quoted\" \\ name"}), delta = Of<std::string>({"manifest-list-2", "\xc3\xa9"});
    auto bs = Of<L>({L(3), L(), L(5000000000)}), ds = Of<L>({L(4), L(), L(5000000000)}), cs = Of<L>({L(), L(5), L(5000000000)});
    auto changelog = Of<S>({std::nullopt, std::string("manifest-list-3"), std::string("")});
    auto index = Of<S>({std::nullopt, std::string("index-manifest-1"), std::string("")});
    auto user = Of<std::string>({"user", "", "user \"x\""});
    auto ident = Of<int64_t>({7, INT64_MAX, INT64_MIN, 0});
    int kind = mc::ChooseDev(4);
    const Snapshot::CommitKind kinds[] = {Snapshot::CommitKind::Append(), Snapshot::CommitKind::Compact(),
                                          Snapshot::CommitKind::Overwrite(), Snapshot::CommitKind::Analyze()};
    const char* names[] = {"APPEND", "COMPACT", "OVERWRITE", "ANALYZE"};
    auto time = Of<int64_t>({1700000000123, 0});
    using M = std::map<int32_t, int64_t>;
    using P = std::map<std::string, std::string>;
    auto logs = Of<Opt<M>>({M{}, std::nullopt, M{{0, 5000000000}, {-1, 2}, {10, 3}}});
    auto total = Of<int64_t>({10, 0, 5000000000}), dc = Of<int64_t>({-3, 0, 5000000000});
    auto cc = Of<L>({L(0), L(), L(5000000000)}), wm = Of<L>({L(), L(INT64_MIN), L(5000000000)});
    auto st = Of<S>({std::nullopt, std::string("stat-1")});
    auto props = Of<Opt<P>>({std::nullopt, P{}, P{{"k", "v"}, {"a \"b\"", ""}}});
    auto next = Of<L>({L(), L(0), L(5000000000)});
    Snapshot s(id, schema, base, bs, delta, ds, changelog, cs, index, user, ident, kinds[kind], time, logs, total, dc, cc, wm, st, props, next);
    auto check = [&](const Snapshot& g, const char* what) {
        MC_CHECK(g.Version() == 3 && g.Id() == id && g.SchemaId() == schema && g.BaseManifestList() == base && g.DeltaManifestList() == delta &&
                     g.BaseManifestListSize() == bs && g.DeltaManifestListSize() == ds && g.ChangelogManifestList() == changelog &&
                     g.ChangelogManifestListSize() == cs && g.IndexManifest() == index,
                 "snapshot-lists", "%s", what);
        MC_CHECK(g.CommitUser() == user && g.CommitIdentifier() == ident && g.GetCommitKind() == kinds[kind] && g.TimeMillis() == time,
                 "snapshot-commit", "%s", what);
        MC_CHECK(g.LogOffsets() == logs && g.TotalRecordCount() == L(total) && g.DeltaRecordCount() == L(dc) && g.ChangelogRecordCount() == cc &&
                     g.Watermark() == wm && g.Statistics() == st && g.Properties() == props && g.NextRowId() == next,
                 "snapshot-counts", "%s", what);
        MC_CHECK(g == s, "snapshot-equal", "%s", what);
    };
    check(s, "built");
    auto text = s.ToJsonString();
    MC_CHECK(text.ok(), "snapshot-write", "%s", text.status().ToString().c_str());
    auto back = Snapshot::FromJsonString(text.value());
    MC_CHECK(back.ok(), "snapshot-read", "%s", back.status().ToString().c_str());
    check(back.value(), "written and read");
    MC_CHECK(back.value().ToJsonString().ok() && back.value().ToJsonString().value() == text.value(), "snapshot-again", "another text");
    // the documented text
    std::vector<std::string> members;
    auto num = [&](const char* k, L v) {
        if (v) members.push_back(Quote(k) + ": " + std::to_string(*v));
    };
    auto str = [&](const char* k, S v) {
        if (v) members.push_back(Quote(k) + ": " + Quote(*v));
    };
    num("version", 3);
    num("id", id);
    num("schemaId", schema);
    str("baseManifestList", base);
    num("baseManifestListSize", bs);
    str("deltaManifestList", delta);
    num("deltaManifestListSize", ds);
    if (!changelog) members.push_back("\"changelogManifestList\": null");
    str("changelogManifestList", changelog);
    num("changelogManifestListSize", cs);
    str("indexManifest", index);
    str("commitUser", user);
    num("commitIdentifier", ident);
    str("commitKind", std::string(names[kind]));
    num("timeMillis", time);
    auto map = [&](const char* k, const auto& m, auto show) {
        std::string t;
        for (auto& [a, b] : m) t += (t.empty() ? "" : ", ") + show(a, b);
        members.push_back(Quote(k) + ": {" + t + "}");
    };
    if (logs) map("logOffsets", *logs, [](int32_t a, int64_t b) { return "\"" + std::to_string(a) + "\": " + std::to_string(b); });
    num("totalRecordCount", total);
    num("deltaRecordCount", dc);
    num("changelogRecordCount", cc);
    num("watermark", wm);
    str("statistics", st);
    if (props) map("properties", *props, [](const std::string& a, const std::string& b) { return Quote(a) + ": " + Quote(b); });
    num("nextRowId", next);
    for (int order = 0; order < 3; order++) {
        std::string doc;
        if (order == 1) std::reverse(members.begin(), members.end());
        if (order == 2) members.push_back("\"unknownProperty\": {\"a\": [1, 2]}");
        for (auto& m : members) doc += (doc.empty() ? "{" : ",\n") + m;
        auto g = Snapshot::FromJsonString(doc + "}");
        MC_CHECK(g.ok(), "snapshot-text", "%s: %s", doc.c_str(), g.status().ToString().c_str());
        check(g.value(), "from the documented text");
        MC_CHECK(!Snapshot::FromJsonString(doc).ok(), "snapshot-cut", "a cut text is accepted");
    }
    for (const char* k : {"id", "schemaId", "baseManifestList", "deltaManifestList", "commitUser", "commitIdentifier", "commitKind", "timeMillis"}) {
        std::string doc;
        for (auto& m : members) {
            if (m.rfind(Quote(k) + ":", 0) != 0) doc += (doc.empty() ? "{" : ",") + m;
        }
        MC_CHECK(!Snapshot::FromJsonString(doc + "}").ok(), "snapshot-missing", "a snapshot without %s is accepted", k);
    }
    mc::Hash h;
    h.S(text.value());
    mc::State(h.h);
    mc::Nontrivial();
    mc::TraceValidated();
    mc::Outcome(names[kind]);
}
// ---- schemas ------------------------------------------------------------------------------------------------------
using TypePtr = std::shared_ptr<arrow::DataType>;
struct T {
    TypePtr type;
    std::string text;  // as documented
};
std::vector<T> Atomic() {
    std::vector<T> v{{arrow::boolean(), "BOOLEAN"},
                     {arrow::int8(), "TINYINT"},
                     {arrow::int16(), "SMALLINT"},
                     {arrow::int32(), "INT"},
                     {arrow::int64(), "BIGINT"},
                     {arrow::float32(), "FLOAT"},
                     {arrow::float64(), "DOUBLE"},
                     {arrow::utf8(), "STRING"},
                     {arrow::binary(), "BYTES"},
                     {arrow::date32(), "DATE"},
                     {arrow::decimal128(1, 0), "DECIMAL(1, 0)"},
                     {arrow::decimal128(18, 2), "DECIMAL(18, 2)"},
                     {arrow::decimal128(38, 38), "DECIMAL(38, 38)"},
                     {arrow::timestamp(arrow::TimeUnit::SECOND), "TIMESTAMP(0)"},
                     {arrow::timestamp(arrow::TimeUnit::MILLI), "TIMESTAMP(3)"},
                     {arrow::timestamp(arrow::TimeUnit::MICRO), "TIMESTAMP(6)"},
                     {arrow::timestamp(arrow::TimeUnit::NANO), "TIMESTAMP(9)"}};
    return v;
}
MC_SCENARIO(schemas, mc::BOTH, 2,
            "schemas of 1-3 columns of 17 types, nested in arrays, maps and rows up to 2 levels, nullable or not, with "
            "descriptions, keys, options and a comment: written and read, and read from the documented text") {
    static const std::vector<T> atoms = Atomic();
    mc::SetDeviationBound(mc::Thorough() ? 4 : 3);
    int next_id = 0;
    std::function<std::pair<TypePtr, std::string>(int, bool)> make = [&](int depth, bool null) -> std::pair<TypePtr, std::string> {
        std::string suffix = null ? "" : " NOT NULL";
        int shape = depth > 0 ? mc::ChooseDev(4) : 0;
        if (shape == 0) {
            const T& t = atoms[(mc::ChooseDev(static_cast<int>(atoms.size())) + 3) % atoms.size()];
            return {t.type, Quote(t.text + suffix)};
        }
        if (shape == 1) {
            bool n = mc::ChooseDev(2) == 0;
            auto [t, s] = make(depth - 1, n);
            return {arrow::list(arrow::field("element", t, n)), "{\"type\": \"ARRAY" + suffix + "\", \"element\": " + s + "}"};
        }
        if (shape == 2) {
            bool n = mc::ChooseDev(2) == 0;
            auto [k, ks] = make(0, false);
            auto [t, s] = make(depth - 1, n);
            return {arrow::map(k, arrow::field("value", t, n)),
                    "{\"type\": \"MAP" + suffix + "\", \"key\": " + ks + ", \"value\": " + s + "}"};
        }
        std::vector<std::shared_ptr<arrow::Field>> fields;
        std::string fs;
        for (int i = 0; i < 2; i++) {
            int fid = next_id++;
            bool n = i == 1 || mc::ChooseDev(2) == 0;
            auto [t, s] = make(i == 0 ? depth - 1 : 0, n);
            std::string name = "n" + std::to_string(i);
            fields.push_back(arrow::field(name, t, n));
            fs += std::string(i ? ", " : "") + "{\"id\": " + std::to_string(fid) + ", \"name\": " + Quote(name) + ", \"type\": " + s + "}";
        }
        return {arrow::struct_(fields), "{\"type\": \"ROW" + suffix + "\", \"fields\": [" + fs + "]}"};
    };
    int n = mc::Choose(3) + 1;
    std::vector<std::shared_ptr<arrow::Field>> fields;
    std::string doc_fields;
    std::vector<std::string> names{"key", "part", "value"};
    bool keyed = n >= 2 && mc::ChooseBool(), parted = n == 3 && mc::ChooseBool();
    std::vector<int> ids;
    for (int i = 0; i < n; i++) {
        ids.push_back(next_id++);
        bool is_key = keyed && (i == 0 || (i == 1 && parted));
        bool null = !is_key && mc::ChooseDev(2) == 0;
        auto [t, s] = is_key || (parted && i == 1) ? std::make_pair(arrow::int32(), Quote(null ? "INT" : "INT NOT NULL")) : make(2, null);
        std::string desc = mc::ChooseDev(2) ? "a \"description\"" : "";
        std::shared_ptr<arrow::KeyValueMetadata> md;
        if (!desc.empty()) md = arrow::KeyValueMetadata::Make({DataField::DESCRIPTION}, {desc});
        fields.push_back(arrow::field(names[i], t, is_key ? mc::ChooseDev(2) == 0 : null, md));
        doc_fields += std::string(i ? ", " : "") + "{\"id\": " + std::to_string(ids[i]) + ", \"name\": " + Quote(names[i]) + ", \"type\": " + s +
                      (desc.empty() ? "" : ", \"description\": " + Quote(desc)) + "}";
    }
    std::vector<std::string> pk, part;
    if (keyed) pk = {"key"};
    if (parted) part = {"part"};
    if (keyed && parted) pk.push_back("part");
    std::map<std::string, std::string> options;
    if (mc::ChooseDev(2)) options["bucket"] = "3";
    if (mc::ChooseDev(2)) options["a \"b\""] = "";
    auto made = TableSchema::Create(0, arrow::schema(fields), part, pk, options);
    MC_CHECK(made.ok(), "schema-create", "%s: %s", doc_fields.c_str(), made.status().ToString().c_str());
    std::string comment = mc::ChooseDev(2) ? "of the table" : "";
    auto list = [](const std::vector<std::string>& v) {
        std::string t;
        for (auto& s : v) t += (t.empty() ? "" : ", ") + Quote(s);
        return "[" + t + "]";
    };
    std::string opts;
    for (auto& [k, v] : options) opts += (opts.empty() ? "" : ", ") + Quote(k) + ": " + Quote(v);
    std::string doc = "{\"version\": 3, \"id\": 0, \"fields\": [" + doc_fields + "], \"highestFieldId\": " + std::to_string(next_id - 1) +
                      ", \"partitionKeys\": " + list(part) + ", \"primaryKeys\": " + list(pk) + ", \"options\": {" + opts + "}" +
                      (comment.empty() ? "" : ", \"comment\": " + Quote(comment)) + ", \"timeMillis\": 1700000000123}";
    auto text = made.value()->ToJsonString();
    MC_CHECK(text.ok(), "schema-write", "%s", text.status().ToString().c_str());
    auto back = TableSchema::CreateFromJson(text.value());
    MC_CHECK(back.ok(), "schema-read", "%s: %s", text.value().c_str(), back.status().ToString().c_str());
    auto from = TableSchema::CreateFromJson(doc);
    MC_CHECK(from.ok(), "schema-text", "%s: %s", doc.c_str(), from.status().ToString().c_str());
    int which = 0;
    for (TableSchema* s : {made.value().get(), back.value().get(), from.value().get()}) {
        const char* what[] = {"made", "written and read", "from the documented text"};
        MC_CHECK(s->Id() == 0 && s->PrimaryKeys() == pk && s->PartitionKeys() == part && s->Options() == options &&
                     s->HighestFieldId() == next_id - 1 && static_cast<int>(s->Fields().size()) == n,
                 "schema", "%s: %s", what[which], doc.c_str());
        MC_CHECK(s->BucketKeys() == (keyed ? std::vector<std::string>{"key"} : std::vector<std::string>{}) &&
                     s->NumBuckets() == (options.count("bucket") ? 3 : -1) && !s->CrossPartitionUpdate(),
                 "schema-bucket", "%s: %s", what[which], doc.c_str());
        for (int i = 0; i < n; i++) {
            auto& f = s->Fields()[i];
            bool is_key = keyed && (i == 0 || (i == 1 && parted));
            MC_CHECK(f.Id() == ids[i] && f.Name() == names[i] && f.Nullable() == (!is_key && fields[i]->nullable()), "schema-field",
                     "%s: column %d of %s has id %d", what[which], i, doc.c_str(), f.Id());
            MC_CHECK(f.Type()->Equals(*fields[i]->type()), "schema-type", "%s: column %d of %s is %s", what[which], i, doc.c_str(),
                     f.Type()->ToString().c_str());
            bool desc = fields[i]->HasMetadata() && fields[i]->metadata();
            MC_CHECK(f.Description().value_or("") == (desc ? "a \"description\"" : ""), "schema-description", "%s: column %d", what[which], i);
            auto by_name = s->GetField(names[i]);
            auto by_id = s->GetField(ids[i]);
            MC_CHECK(by_name.ok() && by_name.value().Id() == ids[i] && by_id.ok() && by_id.value().Name() == names[i], "schema-find",
                     "%s: column %d", what[which], i);
        }
        MC_CHECK(!s->GetField("no such").ok() && !s->GetField(next_id + 5).ok(), "schema-find", "a column that does not exist");
        which++;
    }
    MC_CHECK(*back.value() == *made.value(), "schema-equal", "%s is not equal to itself read back", text.value().c_str());
    MC_CHECK(from.value()->Comment().value_or("") == comment, "schema-comment", "the comment is '%s'",
             from.value()->Comment().value_or("").c_str());
    MC_CHECK(!TableSchema::CreateFromJson(text.value().substr(0, text.value().size() - 1)).ok(), "schema-cut", "a cut text is accepted");
    mc::Hash h;
    h.S(doc);
    mc::State(h.h);
    mc::Nontrivial();
    mc::TraceValidated();
    mc::Outcome(keyed ? "keyed" : "plain");
}
MC_SCENARIO(type_texts, mc::BOTH, 2,
            "every documented spelling of 24 column types with every precision, in upper and lower case, with extra or no "
            "spaces, with and without nullability; words missing or too many are refused") {
    struct Spelling {
        std::vector<std::string> words;
        TypePtr type;  // null: refused
    };
    std::vector<Spelling> all{{{"BOOLEAN"}, arrow::boolean()}, {{"TINYINT"}, arrow::int8()}, {{"SMALLINT"}, arrow::int16()},
                              {{"INT"}, arrow::int32()}, {{"INTEGER"}, arrow::int32()}, {{"BIGINT"}, arrow::int64()},
                              {{"FLOAT"}, arrow::float32()}, {{"DOUBLE"}, arrow::float64()}, {{"DOUBLE", "PRECISION"}, arrow::float64()},
                              {{"STRING"}, arrow::utf8()}, {{"BYTES"}, arrow::binary()}, {{"DATE"}, arrow::date32()},
                              {{"BLOB"}, arrow::large_binary()}, {{"DECIMAL"}, arrow::decimal128(10, 0)},
                              {{"NUMERIC"}, arrow::decimal128(10, 0)}, {{"DEC"}, arrow::decimal128(10, 0)}};
    setenv("TZ", "Asia/Shanghai", 1);
    std::string zone = "Asia/Shanghai";
    const arrow::TimeUnit::type units[] = {arrow::TimeUnit::SECOND, arrow::TimeUnit::MILLI, arrow::TimeUnit::MICRO, arrow::TimeUnit::NANO};
    for (int p = -1; p <= 10; p++) {
        int at = p < 0 ? 2 : p / 3;
        bool known = p < 0 || (p % 3 == 0 && p <= 9);
        std::vector<std::string> arg;
        if (p >= 0) arg = {"(", std::to_string(p), ")"};
        auto with = [&](std::vector<std::string> head, std::vector<std::string> tail) {
            head.insert(head.end(), arg.begin(), arg.end());
            head.insert(head.end(), tail.begin(), tail.end());
            return head;
        };
        TypePtr plain = known ? arrow::timestamp(units[at]) : nullptr, local = known ? arrow::timestamp(units[at], zone) : nullptr;
        all.push_back({with({"TIMESTAMP"}, {}), plain});
        all.push_back({with({"TIMESTAMP"}, {"WITHOUT", "TIME", "ZONE"}), plain});
        all.push_back({with({"TIMESTAMP"}, {"WITH", "LOCAL", "TIME", "ZONE"}), local});
        all.push_back({with({"TIMESTAMP_LTZ"}, {}), local});
    }
    for (int p = 1; p <= 38; p++) {
        all.push_back({{"DECIMAL", "(", std::to_string(p), ")"}, arrow::decimal128(p, 0)});
        for (int sc = 0; sc <= p; sc += 1 + p / 9) {
            all.push_back({{"DECIMAL", "(", std::to_string(p), ",", std::to_string(sc), ")"}, arrow::decimal128(p, sc)});
        }
    }
    auto& c = all[mc::Choose(static_cast<int>(all.size()))];
    auto words = c.words;
    bool ok = c.type != nullptr, null = true;
    int suffix = mc::Choose(3);
    if (suffix == 1) words.insert(words.end(), {"NOT", "NULL"});
    if (suffix == 2) words.push_back("NULL");
    null = suffix != 1;
    int change = mc::Choose(4);  // as it is, the last word left out, an unknown word, a closing bracket too many
    if (change == 1) {
        if (words.size() == 1) mc::Prune();
        std::string last = words.back();
        words.pop_back();
        if (last == "PRECISION" || (last == "NULL" && suffix == 2)) {
            // still a type
        } else {
            ok = false;
        }
    }
    if (change == 2) words.push_back("surely"), ok = false;
    if (change == 3) words.push_back(")"), ok = false;
    int style = mc::Choose(4);
    std::string text;
    for (size_t i = 0; i < words.size(); i++) {
        std::string w = words[i];
        if (style & 1) {
            for (auto& ch : w) ch = static_cast<char>(std::tolower(ch));
        }
        bool mark = !isalpha(w[0]) || (i && !isalnum(words[i - 1].back()) && words[i - 1] != ")");
        bool number = isdigit(w[0]);
        if (i) text += (style & 2) ? "  " : mark || number ? "" : " ";
        text += w;
    }
    if (style & 2) text = " " + text + " ";
    std::string doc = "{\"version\": 3, \"id\": 0, \"fields\": [{\"id\": 0, \"name\": \"f\", \"type\": " + Quote(text) +
                      "}], \"highestFieldId\": 0, \"partitionKeys\": [], \"primaryKeys\": [], \"options\": {}, \"timeMillis\": 1}";
    mc::Log("%s", text.c_str());
    auto schema = TableSchema::CreateFromJson(doc);
    mc::Hash h;
    h.S(text);
    mc::State(h.h);
    mc::TraceValidated();
    MC_CHECK(schema.ok() == ok, "type-accept", "'%s' is %s: %s", text.c_str(), ok ? "refused" : "accepted", schema.status().ToString().c_str());
    if (ok) {
        auto& f = schema.value()->Fields()[0];
        MC_CHECK(f.Type()->Equals(*c.type), "type-kind", "'%s' is read as %s", text.c_str(), f.Type()->ToString().c_str());
        MC_CHECK(f.Nullable() == null, "type-null", "'%s' is %s", text.c_str(), null ? "not nullable" : "nullable");
        auto again = TableSchema::CreateFromJson(schema.value()->ToJsonString().value());
        MC_CHECK(again.ok() && *again.value() == *schema.value() && again.value()->Fields()[0].Type()->Equals(*c.type), "type-again",
                 "'%s' changes when written again", text.c_str());
        mc::Nontrivial();
    }
    mc::Outcome(ok ? "type" : "refused");
}
}  // namespace
