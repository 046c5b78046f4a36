// Rows and arrays in all the forms they take, their order, their buckets, and the values inside them.
#include <algorithm>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <unordered_set>
#include <vector>

#include "arrow/c/bridge.h"
#include "kinds.h"
#include "mc/mc.h"
#include "paimon/common/data/columnar/columnar_array.h"
#include "paimon/common/data/columnar/columnar_row.h"
#include "paimon/common/data/serializer/binary_row_serializer.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/types/data_field.h"
#include "paimon/common/types/row_kind.h"
#include "paimon/common/utils/binary_row_partition_computer.h"
#include "paimon/common/utils/date_time_utils.h"
#include "paimon/common/utils/decimal_utils.h"
#include "paimon/common/utils/internal_row_utils.h"
#include "paimon/common/utils/projected_array.h"
#include "paimon/common/utils/projected_row.h"
#include "paimon/common/utils/serialization_utils.h"
#include "paimon/core/utils/fields_comparator.h"
#include "paimon/core/utils/offset_row.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
#include "paimon/utils/bucket_id_calculator.h"

using namespace paimon;  // NOLINT
using kd::Cell;
using kd::Kind;

namespace {
std::string Show(const std::vector<const Kind*>& ks, const std::vector<Cell>& cs) {
    std::string t;
    for (size_t i = 0; i < ks.size(); i++) t += std::string(ks[i]->name) + "=" + kd::Text(cs[i]) + " ";
    return t;
}
Cell ChooseCell(const Kind& k, bool all) {
    const auto& vs = all ? k.near : k.values;
    int i = mc::Choose(static_cast<int>(vs.size()) + 1);
    if (i == 0) return std::nullopt;
    if (k.Time() && vs[i - 1].n % k.Unit() != 0) mc::Prune();  // a time is kept in the unit of its type
    return vs[i - 1];
}
const Kind& ChooseKind() {
    return kd::Kinds()[mc::Choose(static_cast<int>(kd::Kinds().size()))];
}
void CheckRow(const InternalRow& row, const std::vector<const Kind*>& ks, const std::vector<Cell>& cs, const char* form) {
    MC_CHECK(row.GetFieldCount() == static_cast<int>(ks.size()), "field-count", "%s: %d fields", form, row.GetFieldCount());
    for (size_t i = 0; i < ks.size(); i++) {
        Cell got = kd::Read(row, static_cast<int>(i), *ks[i]);
        MC_CHECK(got == cs[i], "value", "%s: field %zu of %sis %s", form, i, Show(ks, cs).c_str(), kd::Text(got).c_str());
    }
}
std::string Raw(const std::vector<MemorySegment>& segs, int off, int size) {
    auto b = MemorySegmentUtils::CopyToBytes(segs, off, size, kd::Pool().get());
    return std::string(b->data(), b->size());
}
// The same bytes in pieces of the given size, the row starting somewhere inside the first.
BinaryRow Scattered(const BinaryRow& row, int piece, int lead) {
    std::string raw = std::string(lead, '\x5a') + Raw(row.GetSegments(), row.GetOffset(), row.GetSizeInBytes());
    std::vector<MemorySegment> segs;
    for (size_t i = 0; i < raw.size(); i += piece) {
        std::string p = raw.substr(i, piece);
        p.resize(piece, '\x5b');
        segs.push_back(MemorySegment::Wrap(std::shared_ptr<Bytes>(Bytes::AllocateBytes(p, kd::Pool().get()).release(),
                                                                  [](Bytes*) {})));
    }
    BinaryRow out(row.GetFieldCount());
    out.PointTo(segs, lead, row.GetSizeInBytes());
    return out;
}
std::shared_ptr<DataInputStream> Stream(const char* data, size_t size) {
    return std::make_shared<DataInputStream>(std::make_shared<ByteArrayInputStream>(data, size));
}

MC_SCENARIO(rows, mc::BOTH, 2,
            "rows of up to 2 fields of all 16 types over null and boundary values (thorough also 3 of 5 types): written, "
            "copied, serialized four ways, scattered over segments, projected, shifted, by setters and getters") {
    int n = mc::Choose(mc::Thorough() ? 3 : 2) + 1;
    std::vector<const Kind*> ks;
    std::vector<Cell> cs;
    static const int few[] = {0, 3, 11, 13, 14};
    for (int i = 0; i < n; i++) {
        ks.push_back(n == 3 ? &kd::Kinds()[few[mc::Choose(5)]] : &ChooseKind());
        cs.push_back(ChooseCell(*ks.back(), n == 1));
    }
    static const int initials[] = {0, 1, 100};
    BinaryRow row = kd::Row(ks, cs, initials[mc::Choose(n == 3 ? 1 : 3)]);
    CheckRow(row, ks, cs, "written");
    bool any = std::any_of(cs.begin(), cs.end(), [](const Cell& c) { return !c; });
    MC_CHECK(row.AnyNull() == any, "any-null", "%s", Show(ks, cs).c_str());
    for (int i = 0; i < n; i++) {
        MC_CHECK(row.AnyNull({i}) == !cs[i], "any-null", "field %d of %s", i, Show(ks, cs).c_str());
    }
    // the same values always give the same bytes
    BinaryRow again = kd::Row(ks, cs, 7);
    MC_CHECK(row == again && row.HashCode() == again.HashCode(), "equal", "two rows of %s", Show(ks, cs).c_str());
    BinaryRow copy = row.Copy(kd::Pool().get());
    CheckRow(copy, ks, cs, "copied");
    MC_CHECK(copy == row && copy.HashCode() == row.HashCode(), "equal-copy", "%s", Show(ks, cs).c_str());
    // reusing a writer leaves nothing behind
    {
        BinaryRow reused(n);
        BinaryRowWriter w(&reused, 0, kd::Pool().get());
        w.Reset();
        for (int i = 0; i < n; i++) kd::WriteCell(&w, i, *ks[i], ks[i]->values.back());
        w.WriteRowKind(RowKind::Delete());
        w.Complete();
        w.Reset();
        for (int i = 0; i < n; i++) kd::WriteCell(&w, i, *ks[i], cs[i]);
        w.Complete();
        CheckRow(reused, ks, cs, "second row of a writer");
        MC_CHECK(reused == row && reused.HashCode() == row.HashCode(), "reused-writer", "%s", Show(ks, cs).c_str());
        MC_CHECK(reused.GetRowKind().ok() && reused.GetRowKind().value() == RowKind::Insert(), "reused-kind", "row kind kept");
    }
    // row kinds
    for (const RowKind* k : {RowKind::Delete(), RowKind::UpdateBefore(), RowKind::UpdateAfter(), RowKind::Insert()}) {
        copy.SetRowKind(k);
        auto got = copy.GetRowKind();
        MC_CHECK(got.ok() && got.value() == k, "row-kind", "%s", k->Name().c_str());
        CheckRow(copy, ks, cs, "with another kind");
        MC_CHECK(copy.AnyNull() == any, "any-null", "with kind %s: %s", k->Name().c_str(), Show(ks, cs).c_str());
    }
    // serialized forms
    auto bytes = SerializationUtils::SerializeBinaryRow(row, kd::Pool().get());
    auto back = SerializationUtils::DeserializeBinaryRow(bytes);
    MC_CHECK(back.ok(), "deserialize", "%s", back.status().ToString().c_str());
    CheckRow(back.value(), ks, cs, "from bytes");
    MC_CHECK(back.value() == row && back.value().HashCode() == row.HashCode(), "bytes-equal", "%s", Show(ks, cs).c_str());
    MemorySegmentOutputStream out(16, kd::Pool());
    BinaryRowSerializer ser(n, kd::Pool());
    BinaryRow scattered = Scattered(row, row.GetFixedLengthPartSize() + 8, 8);
    CheckRow(scattered, ks, cs, "scattered");
    MC_CHECK(scattered == row && row == scattered && scattered.HashCode() == row.HashCode(), "scattered-equal", "%s",
             Show(ks, cs).c_str());
    MC_CHECK(SerializationUtils::SerializeBinaryRow(row, &out).ok() && ser.Serialize(row, &out).ok() &&
                 SerializationUtils::SerializeBinaryRow(scattered, &out).ok() && ser.Serialize(scattered, &out).ok(),
             "serialize", "%s", Show(ks, cs).c_str());
    auto all = MemorySegmentUtils::CopyToBytes(out.Segments(), 0, static_cast<int>(out.CurrentSize()), kd::Pool().get());
    auto in = Stream(all->data(), all->size());
    for (int i = 0; i < 4; i++) {
        auto r = i % 2 == 0 ? SerializationUtils::DeserializeBinaryRow(in.get(), kd::Pool().get()) : ser.Deserialize(in.get());
        MC_CHECK(r.ok(), "stream", "form %d: %s", i, r.status().ToString().c_str());
        CheckRow(r.value(), ks, cs, i % 2 == 0 ? "from a stream with arity" : "from a stream");
        MC_CHECK(r.value() == row, "stream-equal", "form %d of %s", i, Show(ks, cs).c_str());
    }
    for (size_t cut = 0; cut < bytes->size() && cut < 6; cut++) {
        auto t = Stream(all->data(), cut);
        MC_CHECK(!SerializationUtils::DeserializeBinaryRow(t.get(), kd::Pool().get()).ok(), "cut", "%zu bytes are a row", cut);
    }
    // field by field through the getters and setters of the types
    auto generic = kd::Generic(ks, cs);
    CheckRow(*generic, ks, cs, "generic");
    {
        BinaryRow built(n);
        BinaryRowWriter w(&built, 0, kd::Pool().get());
        w.Reset();
        auto into = std::make_unique<GenericRow>(n);
        for (int i = 0; i < n; i++) {
            auto get = InternalRow::CreateFieldGetter(i, ks[i]->arrow, false);
            auto set = BinaryRowWriter::CreateFieldSetter(i, ks[i]->arrow);
            MC_CHECK(get.ok() && set.ok(), "accessor", "no accessor for %s", ks[i]->name);
            VariantType from_row = get.value()(row), from_generic = get.value()(*generic);
            MC_CHECK(kd::FromVariant(*ks[i], from_row) == cs[i], "getter", "field %d of %s", i, Show(ks, cs).c_str());
            MC_CHECK(kd::FromVariant(*ks[i], from_generic) == cs[i], "getter", "generic field %d of %s", i, Show(ks, cs).c_str());
            set.value()(from_generic, &w);
            into->SetField(i, from_row);
        }
        w.Complete();
        CheckRow(built, ks, cs, "by setters");
        MC_CHECK(built == row && built.HashCode() == row.HashCode(), "setters-equal", "%s", Show(ks, cs).c_str());
        CheckRow(*into, ks, cs, "generic by getters");
    }
    // views
    std::shared_ptr<InternalRow> shared = std::make_shared<BinaryRow>(row.Copy(kd::Pool().get()));
    std::vector<int32_t> map;
    std::vector<const Kind*> pk;
    std::vector<Cell> pc;
    for (int i = n - 1; i >= 0; i--) {
        map.push_back(i);
        pk.push_back(ks[i]);
        pc.push_back(cs[i]);
        map.push_back(-1);
        pk.push_back(ks[0]);
        pc.push_back(std::nullopt);
    }
    CheckRow(ProjectedRow(shared, map), pk, pc, "projected");
    for (int off = 0; off < n; off++) {
        CheckRow(OffsetRow(row, n - off, off), {ks.begin() + off, ks.end()}, {cs.begin() + off, cs.end()}, "from an offset");
    }
    mc::Hash h;
    h.S(Raw(row.GetSegments(), row.GetOffset(), row.GetSizeInBytes()));
    h.S(Show(ks, cs));
    mc::State(h.h);
    if (!any) mc::Nontrivial();
    mc::TraceValidated();
    mc::Outcome(any ? "with null" : "full");
}

MC_SCENARIO(row_pairs, mc::BOTH, 2,
            "all pairs of rows of one field of all types over null, boundary values and neighbours, and of two fields of "
            "4 types: equal exactly when all fields are, ordered by the fields in both directions, hashes of equals equal") {
    int n = mc::Choose(2) + 1;
    static const int few[] = {2, 10, 13, 14};
    std::vector<const Kind*> ks;
    std::vector<Cell> a, b;
    for (int i = 0; i < n; i++) {
        ks.push_back(n == 1 ? &ChooseKind() : &kd::Kinds()[few[mc::Choose(4)]]);
        a.push_back(ChooseCell(*ks[i], n == 1));
        b.push_back(ChooseCell(*ks[i], n == 1));
    }
    BinaryRow ra = kd::Row(ks, a), rb = kd::Row(ks, b);
    MC_CHECK((ra == rb) == (a == b), "equal", "%sand %s", Show(ks, a).c_str(), Show(ks, b).c_str());
    if (a == b) MC_CHECK(ra.HashCode() == rb.HashCode(), "hash", "%s", Show(ks, a).c_str());
    // (a generic row holds byte strings by reference and compares them so)
    if (std::none_of(ks.begin(), ks.end(), [](const Kind* k) { return k->type == FieldType::BINARY; })) {
        MC_CHECK((*kd::Generic(ks, a) == *kd::Generic(ks, b)) == (a == b), "generic-equal", "%sand %s", Show(ks, a).c_str(),
                 Show(ks, b).c_str());
    }
    std::vector<DataField> fields;
    std::vector<std::shared_ptr<arrow::Array>> arrays;
    for (int i = 0; i < n; i++) {
        fields.emplace_back(i, arrow::field("f" + std::to_string(i), ks[i]->arrow));
        arrays.push_back(kd::Build(*ks[i], {a[i], b[i]}));
    }
    ColumnarRow ca(arrays, kd::Pool(), 0), cb(arrays, kd::Pool(), 1);
    CheckRow(ca, ks, a, "columnar");
    CheckRow(cb, ks, b, "columnar second");
    std::vector<std::vector<int32_t>> orders{{0}};
    if (n == 2) orders = {{0, 1}, {1, 0}, {1}, {}};
    for (auto& order : orders) {
        for (bool asc : {true, false}) {
            int want = 0;
            for (int i : order) {
                if (a[i] == b[i]) continue;
                if (!a[i] || !b[i]) {
                    want = !a[i] ? -1 : 1;
                } else {
                    want = (*a[i] < *b[i]) == asc ? -1 : 1;
                }
                break;
            }
            auto cmp = FieldsComparator::Create(fields, order, asc, false);
            auto view = FieldsComparator::Create(fields, order, asc, true);
            MC_CHECK(cmp.ok() && view.ok(), "comparator", "%s", cmp.status().ToString().c_str());
            auto sign = [](int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; };
            MC_CHECK(sign(cmp.value()->CompareTo(ra, rb)) == want && sign(cmp.value()->CompareTo(rb, ra)) == -want, "order",
                     "%sand %sascending %d: %d", Show(ks, a).c_str(), Show(ks, b).c_str(), asc,
                     cmp.value()->CompareTo(ra, rb));
            MC_CHECK(sign(view.value()->CompareTo(ca, cb)) == want, "order-columnar", "%sand %sascending %d",
                     Show(ks, a).c_str(), Show(ks, b).c_str(), asc);
            MC_CHECK(cmp.value()->CompareFields() == order, "order-fields", "fields to compare");
        }
    }
    mc::Hash h;
    h.S(Show(ks, a));
    h.S(Show(ks, b));
    mc::State(h.h);
    if (a != b) mc::Nontrivial();
    mc::TraceValidated();
    mc::Outcome(a == b ? "equal" : "different");
}

MC_SCENARIO(wide_rows, mc::BOTH, 1,
            "rows of 0 to 130 fields (all around the word boundaries of the null bits), one null, one value or "
            "alternating at every position; arrays alike") {
    int n = mc::Choose(131), how = mc::Choose(3), at = n > 0 ? mc::Choose(how == 2 ? std::min(n, 2) : n) : 0;
    bool array = mc::ChooseBool();
    const Kind& k = kd::Kinds()[array ? 4 : 3];
    auto null = [&](int i) { return how == 0 ? i == at : how == 1 ? i != at : i % 2 == at; };
    std::vector<const Kind*> ks(n, &k);
    std::vector<Cell> cs;
    for (int i = 0; i < n; i++) cs.push_back(null(i) ? Cell() : Cell(kd::N(i * 1000003)));
    bool any = std::any_of(cs.begin(), cs.end(), [](const Cell& c) { return !c; });
    if (!array) {
        BinaryRow row = kd::Row(ks, cs);
        CheckRow(row, ks, cs, "wide");
        MC_CHECK(row.AnyNull() == any, "any-null", "%d fields", n);
        MC_CHECK(row.GetSizeInBytes() == row.GetFixedLengthPartSize() &&
                     row.GetFixedLengthPartSize() == BinaryRow::CalculateFixPartSizeInBytes(n),
                 "size", "%d fields", n);
        if (n > 0) {  // set and clear through the row
            int other = (at + 1) % n;
            row.SetInt(at, 42);
            row.SetNullAt(other);
            cs[at] = kd::N(42);
            cs[other] = std::nullopt;
            CheckRow(row, ks, cs, "changed");
            MC_CHECK(row == kd::Row(ks, cs), "changed-equal", "%d fields", n);
        }
    } else {
        BinaryArray arr;
        BinaryArrayWriter w(&arr, n, 8, kd::Pool().get());
        w.Reset();
        for (int i = 0; i < n; i++) {
            if (cs[i]) {
                w.WriteLong(i, static_cast<int64_t>(cs[i]->n));
            } else {
                w.SetNullAt(i);
            }
        }
        w.Complete();
        MC_CHECK(arr.Size() == n && arr.AnyNull() == any && w.GetNumElements() == n, "array-size", "%d elements", n);
        for (int i = 0; i < n; i++) {
            MC_CHECK(kd::Read(arr, i, k) == cs[i], "array-value", "element %d of %d", i, n);
        }
        auto plain = arr.ToLongArray();
        MC_CHECK(plain.ok() == !any, "array-null", "%d elements", n);
        for (int i = 0; plain.ok() && i < n; i++) MC_CHECK(plain.value()[i] == cs[i]->n, "array-plain", "element %d", i);
    }
    mc::Hash h;
    h.U(n);
    h.U(how);
    h.U(at);
    h.U(array);
    mc::State(h.h);
    if (n > 56) mc::Nontrivial();
    mc::Outcome(array ? "array" : "row");
}

int Width(const Kind& k) {
    switch (k.type) {
        case FieldType::BOOLEAN:
        case FieldType::TINYINT:
            return 1;
        case FieldType::SMALLINT:
            return 2;
        case FieldType::INT:
        case FieldType::DATE:
        case FieldType::FLOAT:
            return 4;
        default:
            return 8;
    }
}
void WriteNull(BinaryArrayWriter* w, int i, const Kind& k) {
    switch (Width(k)) {
        case 1:
            return w->SetNullValue<int8_t>(i);
        case 2:
            return w->SetNullValue<int16_t>(i);
        case 4:
            return w->SetNullValue<int32_t>(i);
        default:
            kd::WriteCell(w, i, k, std::nullopt);
    }
}
BinaryArray Array(const Kind& k, const std::vector<Cell>& cs) {
    BinaryArray arr;
    BinaryArrayWriter w(&arr, static_cast<int>(cs.size()), Width(k), kd::Pool().get());
    w.Reset();
    for (size_t i = 0; i < cs.size(); i++) {
        if (cs[i]) {
            kd::Write(&w, static_cast<int>(i), k, *cs[i]);
        } else {
            WriteNull(&w, static_cast<int>(i), k);
        }
    }
    w.Complete();
    return arr;
}
void CheckArray(const InternalArray& arr, const Kind& k, const std::vector<Cell>& cs, const char* form) {
    MC_CHECK(arr.Size() == static_cast<int>(cs.size()), "array-size", "%s: %d elements", form, arr.Size());
    bool any = false;
    for (size_t i = 0; i < cs.size(); i++) {
        Cell got = kd::Read(arr, static_cast<int>(i), k);
        MC_CHECK(got == cs[i], "array-value", "%s: element %zu of %s is %s and not %s", form, i, k.name,
                 kd::Text(got).c_str(), kd::Text(cs[i]).c_str());
        any |= !cs[i];
    }
    auto plain = [&](auto r, double scale) {
        MC_CHECK(r.ok() == !any, "array-plain", "%s: array of %s with null %d", form, k.name, any);
        for (size_t i = 0; r.ok() && i < cs.size(); i++) {
            MC_CHECK(static_cast<__int128>(r.value()[i] * scale) == cs[i]->n, "array-plain", "%s: element %zu", form, i);
        }
    };
    switch (k.type) {
        case FieldType::BOOLEAN:
            return plain(arr.ToBooleanArray(), 1);
        case FieldType::TINYINT: {
            auto r = arr.ToByteArray();
            MC_CHECK(r.ok() == !any, "array-plain", "%s", form);
            for (size_t i = 0; r.ok() && i < cs.size(); i++) {
                MC_CHECK(static_cast<int8_t>(r.value()[i]) == cs[i]->n, "array-plain", "%s: element %zu", form, i);
            }
            return;
        }
        case FieldType::SMALLINT:
            return plain(arr.ToShortArray(), 1);
        case FieldType::INT:
            return plain(arr.ToIntArray(), 1);
        case FieldType::BIGINT: {
            auto r = arr.ToLongArray();
            MC_CHECK(r.ok() == !any, "array-plain", "%s", form);
            for (size_t i = 0; r.ok() && i < cs.size(); i++) MC_CHECK(r.value()[i] == cs[i]->n, "array-plain", "%s", form);
            return;
        }
        case FieldType::FLOAT:
            return plain(arr.ToFloatArray(), 4);
        case FieldType::DOUBLE:
            return plain(arr.ToDoubleArray(), 4);
        default:
            return;
    }
}
MC_SCENARIO(arrays, mc::BOTH, 2,
            "arrays of up to 3 elements of all types: written, copied, inside a row, inside an array beside a row, "
            "projected, as columns cut out of a longer one") {
    const Kind& k = ChooseKind();
    int n = mc::Choose(4);
    std::vector<Cell> cs;
    for (int i = 0; i < n; i++) cs.push_back(ChooseCell(k, n == 1));
    BinaryArray arr = Array(k, cs);
    CheckArray(arr, k, cs, "written");
    MC_CHECK(arr.HashCode() == Array(k, cs).HashCode(), "array-hash", "two arrays of the same values");
    CheckArray(arr.Copy(kd::Pool().get()), k, cs, "copied");
    bool any = std::any_of(cs.begin(), cs.end(), [](const Cell& c) { return !c; });
    MC_CHECK(arr.AnyNull() == any, "array-any-null", "%s", k.name);
    // nested: a row (text, array, row) and an array of arrays
    const Kind& text = kd::Kinds()[14];
    BinaryRow inner = kd::Row({&k, &text}, {n ? cs[0] : Cell(), kd::S("inner text")});
    BinaryRow outer(4);
    {
        BinaryRowWriter w(&outer, 0, kd::Pool().get());
        w.Reset();
        kd::WriteCell(&w, 0, text, kd::S("before it"));
        w.WriteArray(1, arr);
        w.WriteRow(2, inner);
        kd::WriteCell(&w, 3, text, kd::S("after all"));
        w.Complete();
    }
    for (int form = 0; form < 2; form++) {
        BinaryRow r = form == 0 ? outer : Scattered(outer, outer.GetFixedLengthPartSize() + 8, 8);
        const char* name = form == 0 ? "in a row" : "in a scattered row";
        CheckArray(*r.GetArray(1), k, cs, name);
        CheckRow(*r.GetRow(2, 2), {&k, &text}, {n ? cs[0] : Cell(), kd::S("inner text")}, name);
        MC_CHECK(r.GetString(0).ToString() == "before it" && r.GetString(3).ToString() == "after all", "around", "%s", name);
    }
    {
        BinaryArray nested;
        BinaryArrayWriter w(&nested, 3, 8, kd::Pool().get());
        w.Reset();
        w.WriteArray(0, arr);
        w.SetNullAt(1);
        w.WriteArray(2, Array(text, {kd::S("third"), std::nullopt}));
        w.Complete();
        CheckArray(*nested.GetArray(0), k, cs, "in an array");
        MC_CHECK(!nested.IsNullAt(0) && nested.IsNullAt(1), "nested-null", "in an array");
        CheckArray(*nested.GetArray(2), text, {kd::S("third"), std::nullopt}, "in an array behind it");
    }
    std::vector<int32_t> map;
    std::vector<Cell> pc;
    for (int i = n - 1; i >= 0; i--) {
        map.push_back(i);
        map.push_back(-1);
        pc.push_back(cs[i]);
        pc.push_back(std::nullopt);
    }
    ProjectedArray projected(std::make_shared<BinaryArray>(arr), map);
    for (size_t i = 0; i < pc.size(); i++) {
        MC_CHECK(kd::Read(projected, static_cast<int>(i), k) == pc[i], "projected", "element %zu of %s", i, k.name);
    }
    // columns: a piece of a longer array
    kd::Column longer{k.values.back()};
    longer.insert(longer.end(), cs.begin(), cs.end());
    longer.push_back(k.values.front());
    auto column = kd::Build(k, longer);  // (a columnar array only refers to its columns)
    CheckArray(ColumnarArray(column, kd::Pool(), 1, n), k, cs, "columnar");
    if (k.type == FieldType::BIGINT) {
        ColumnarArray col(column, kd::Pool(), 1, n);
        CheckArray(BinaryArray::FromLongArray(&col, kd::Pool().get()), k, cs, "from columns");
        CheckArray(BinaryArray::FromLongArray(&arr, kd::Pool().get()), k, cs, "from an array");
        if (!any) {
            std::vector<int64_t> v;
            for (auto& c : cs) v.push_back(static_cast<int64_t>(c->n));
            CheckArray(BinaryArray::FromLongArray(v, kd::Pool().get()), k, cs, "from numbers");
        }
    }
    if (k.type == FieldType::INT && !any) {
        std::vector<int32_t> v;
        for (auto& c : cs) v.push_back(static_cast<int32_t>(c->n));
        CheckArray(BinaryArray::FromIntArray(v, kd::Pool().get()), k, cs, "from numbers");
    }
    if (k.type == FieldType::STRING) {
        std::vector<std::optional<std::string>> v;
        std::vector<std::string> full;
        for (auto& c : cs) {
            v.push_back(c ? std::optional<std::string>(c->s) : std::nullopt);
            full.push_back(c ? c->s : "");
        }
        auto t = InternalRowUtils::ToStringArrayData(v, kd::Pool());
        CheckArray(t, k, cs, "from texts");
        MC_CHECK(InternalRowUtils::FromStringArrayData(&t) == v, "texts", "texts come back");
        auto f = InternalRowUtils::ToNotNullStringArrayData(full, kd::Pool());
        MC_CHECK(InternalRowUtils::FromNotNullStringArrayData(&f) == full, "texts", "full texts come back");
    }
    mc::Hash h;
    h.S(k.name);
    for (auto& c : cs) h.S(kd::Text(c));
    mc::State(h.h);
    if (n > 0) mc::Nontrivial();
    mc::TraceValidated();
    mc::Outcome(any ? "with null" : "full");
}

MC_SCENARIO(row_history, mc::BOTH, 2,
            "all sequences of 4 (5) changes of 2 fields of a row of 3: other fields keep their values, the row equals a "
            "fresh one") {
    int op = mc::Choose(7);
    static const Kind kinds[] = {kd::Kinds()[0], kd::Kinds()[1], kd::Kinds()[2], kd::Kinds()[3],
                                 kd::Kinds()[4], kd::Kinds()[5], kd::Kinds()[6]};
    const Kind& k = kinds[op];
    const Kind& text = kd::Kinds()[14];
    std::vector<const Kind*> ks{&k, &k, &text};
    std::vector<Cell> cs{k.values[0], std::nullopt, kd::S("more than seven")};
    BinaryRow row = kd::Row(ks, cs);
    for (int i = 0; i < (mc::Thorough() ? 5 : 4); i++) {
        int at = mc::Choose(2);
        Cell c = ChooseCell(k, false);
        if (!c) {
            row.SetNullAt(at);
        } else {
            switch (op) {
                case 0:
                    row.SetBoolean(at, c->n != 0);
                    break;
                case 1:
                    row.SetByte(at, static_cast<char>(c->n));
                    break;
                case 2:
                    row.SetShort(at, static_cast<int16_t>(c->n));
                    break;
                case 3:
                    row.SetInt(at, static_cast<int32_t>(c->n));
                    break;
                case 4:
                    row.SetLong(at, static_cast<int64_t>(c->n));
                    break;
                case 5:
                    row.SetFloat(at, static_cast<float>(kd::Quarters(*c)));
                    break;
                default:
                    row.SetDouble(at, kd::Quarters(*c));
            }
        }
        cs[at] = c;
        CheckRow(row, ks, cs, "changed");
        BinaryRow fresh = kd::Row(ks, cs);
        MC_CHECK(row == fresh && row.HashCode() == fresh.HashCode(), "changed-equal", "%s", Show(ks, cs).c_str());
        mc::Hash h;
        h.S(Show(ks, cs));
        mc::State(h.h);
    }
    mc::Nontrivial();
    mc::TraceValidated();
    mc::Outcome("row");
}

MC_SCENARIO(buckets, mc::BOTH, 2,
            "batches of up to 2 rows of one key of all types or two of 4 types, 7 numbers of buckets: the bucket is in "
            "range, follows from the row alone and from its values alone") {
    static const int numbers[] = {1, 2, 3, 7, 1000, INT32_MAX, -1, -2, 0, -3};
    int num = numbers[mc::Choose(10)];
    bool pk = mc::ChooseBool();
    auto calc = BucketIdCalculator::Create(pk, num, kd::Pool());
    bool ok = num > 0 || (num == -1 && !pk) || (num == -2 && pk);
    MC_CHECK(calc.ok() == ok, "bucket-number", "%d buckets with key %d: %s", num, pk, calc.status().ToString().c_str());
    if (!ok) {
        mc::Outcome("refused");
        return;
    }
    int n = mc::Choose(2) + 1;
    static const int few[] = {2, 10, 13, 14};
    std::vector<const Kind*> ks;
    std::vector<std::vector<Cell>> rows(mc::Choose(3));
    for (int i = 0; i < n; i++) {
        ks.push_back(n == 1 ? &ChooseKind() : &kd::Kinds()[few[mc::Choose(4)]]);
        for (auto& r : rows) {
            r.push_back(ChooseCell(*ks[i], false));
        }
    }
    auto run = [&](const std::vector<std::vector<Cell>>& rs) {
        std::vector<std::shared_ptr<arrow::Array>> cols;
        std::vector<std::shared_ptr<arrow::Field>> fields;
        for (int i = 0; i < n; i++) {
            kd::Column c;
            for (auto& r : rs) c.push_back(r[i]);
            cols.push_back(kd::Build(*ks[i], c));
            fields.push_back(arrow::field("f" + std::to_string(i), ks[i]->arrow));
        }
        auto batch = arrow::StructArray::Make(cols, fields).ValueOrDie();
        ArrowArray ca;
        ArrowSchema cschema;
        (void)arrow::ExportArray(*batch, &ca, &cschema);
        std::vector<int32_t> ids(rs.size() + 1, -77);
        auto s = calc.value()->CalculateBucketIds(&ca, &cschema, ids.data());
        MC_CHECK(s.ok(), "bucket-status", "%s", s.ToString().c_str());
        MC_CHECK(ids.back() == -77, "bucket-overrun", "wrote past the end");
        MC_CHECK(ca.release == nullptr && cschema.release == nullptr, "bucket-release", "the batch is not released");
        ids.pop_back();
        return ids;
    };
    auto ids = run(rows);
    for (size_t i = 0; i < rows.size(); i++) {
        int want = num == -1 || num == 1 ? 0 : num == -2 ? -2 : std::abs(kd::Row(ks, rows[i]).HashCode() % num);
        MC_CHECK(ids[i] == want, "bucket", "row %zu of %zu, %s: bucket %d of %d, expected %d", i, rows.size(),
                 Show(ks, rows[i]).c_str(), ids[i], num, want);
        MC_CHECK(num < 0 || (ids[i] >= 0 && ids[i] < num), "bucket-range", "%d of %d", ids[i], num);
        MC_CHECK(run({rows[i]})[0] == ids[i], "bucket-alone", "%s", Show(ks, rows[i]).c_str());
    }
    mc::Hash h;
    h.U(num);
    for (auto& r : rows) h.S(Show(ks, r));
    mc::State(h.h);
    if (rows.size() == 2) mc::Nontrivial();
    mc::TraceValidated();
    mc::Outcome("bucket");
}

// ---- decimals and times -------------------------------------------------------------------------------------------
__int128 Pow10(int n) {
    __int128 p = 1;
    while (n-- > 0) p *= 10;
    return p;
}
// numbers of up to 76 digits: high * 10^38 + low, both of one sign
struct Wide {
    __int128 high, low;
};
int Compare(__int128 a, int sa, __int128 b, int sb) {
    // a / 10^sa against b / 10^sb, by digits
    auto digits = [](__int128 v, int scale) {
        std::string s;
        unsigned __int128 u = v < 0 ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
        while (u) {
            s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
            u /= 10;
        }
        while (static_cast<int>(s.size()) < scale + 1) s.insert(s.begin(), '0');
        return std::make_pair(s.substr(0, s.size() - scale), s.substr(s.size() - scale));
    };
    auto [ai, af] = digits(a, sa);
    auto [bi, bf] = digits(b, sb);
    size_t w = std::max(ai.size(), bi.size()), f = std::max(af.size(), bf.size());
    ai.insert(0, w - ai.size(), '0');
    bi.insert(0, w - bi.size(), '0');
    af.append(f - af.size(), '0');
    bf.append(f - bf.size(), '0');
    std::string x = ai + af, y = bi + bf;
    bool zx = x.find_first_not_of('0') == std::string::npos, zy = y.find_first_not_of('0') == std::string::npos;
    int signx = zx ? 0 : a < 0 ? -1 : 1, signy = zy ? 0 : b < 0 ? -1 : 1;
    if (signx != signy) return signx < signy ? -1 : 1;
    int c = x < y ? -1 : x > y ? 1 : 0;
    return signx < 0 ? -c : c;
}
std::vector<__int128> DecimalValues() {
    std::vector<__int128> v{0};
    for (int p : {0, 1, 2, 9, 17, 18, 19, 20, 36, 37, 38}) {
        for (int d : {-1, 0, 1}) v.push_back(p == 38 && d >= 0 ? Pow10(38) - 2 : Pow10(p) + d);
    }
    for (int b : {7, 8, 15, 16, 31, 32, 63, 64, 95, 120, 126}) {
        v.push_back((static_cast<__int128>(1) << b) - 1);
        v.push_back(static_cast<__int128>(1) << b);
    }
    v.push_back(5 * Pow10(17));
    v.push_back(Pow10(38) - 1);
    size_t n = v.size();
    for (size_t i = 0; i < n; i++) v.push_back(-v[i]);
    return v;
}
MC_SCENARIO(decimals, mc::BOTH, 2,
            "all pairs of 116 unscaled numbers around powers of ten and two with 8 x 8 scales: compared as numbers; each "
            "through its bytes and back, which are the shortest that carry the sign") {
    static const std::vector<__int128> vs = DecimalValues();
    static const int scales[] = {0, 1, 2, 17, 18, 19, 37, 38};
    __int128 a = vs[mc::Choose(static_cast<int>(vs.size()))];
    int sa = scales[mc::Choose(8)];
    Decimal da(38, sa, a);
    auto bytes = da.ToUnscaledBytes();
    // the model: big endian two's complement, shortest
    std::string want;
    for (int i = 15; i >= 0; i--) want += static_cast<char>(static_cast<unsigned __int128>(a) >> (8 * i));
    while (want.size() > 1 && ((want[0] == 0 && !(want[1] & 0x80)) || (want[0] == '\xff' && (want[1] & 0x80)))) want.erase(0, 1);
    MC_CHECK(std::string(bytes.begin(), bytes.end()) == want, "decimal-bytes", "%s", kd::Text(kd::N(a)).c_str());
    Bytes b(std::string(bytes.begin(), bytes.end()), kd::Pool().get());
    Decimal back = Decimal::FromUnscaledBytes(38, sa, &b);
    MC_CHECK(back.Value() == a && back.Scale() == sa && back.Precision() == 38, "decimal-back", "%s", kd::Text(kd::N(a)).c_str());
    MC_CHECK(kd::Unscaled(da) == a, "decimal-words", "%s", kd::Text(kd::N(a)).c_str());
    if (a >= -Pow10(18) + 1 && a <= Pow10(18) - 1) {
        Decimal small(18, sa > 18 ? 18 : sa, a);
        MC_CHECK(small.IsCompact() && small.ToUnscaledLong() == a &&
                     Decimal::FromUnscaledLong(static_cast<int64_t>(a), 18, 2).Value() == a,
                 "decimal-long", "%s", kd::Text(kd::N(a)).c_str());
    }
    for (int p = 1; p <= 38; p++) MC_CHECK(Decimal::IsCompact(p) == (p <= 18), "decimal-compact", "%d", p);
    for (__int128 other : vs) {
        for (int sb : scales) {
            int want_cmp = Compare(a, sa, other, sb);
            Decimal db(38, sb, other);
            int got = da.CompareTo(db);
            MC_CHECK((got < 0 ? -1 : got > 0) == want_cmp, "decimal-order", "%s / 10^%d and %s / 10^%d: %d",
                     kd::Text(kd::N(a)).c_str(), sa, kd::Text(kd::N(other)).c_str(), sb, got);
            MC_CHECK((da == db) == (want_cmp == 0) && (da < db) == (want_cmp < 0) && (da > db) == (want_cmp > 0),
                     "decimal-operators", "%s and %s", kd::Text(kd::N(a)).c_str(), kd::Text(kd::N(other)).c_str());
            mc::TraceValidated();
        }
    }
    mc::Hash h;
    h.S(want);
    h.U(sa);
    mc::State(h.h);
    if (want.size() > 8) mc::Nontrivial();
    mc::Outcome(a < 0 ? "negative" : "positive");
}
MC_SCENARIO(rescale, mc::BOTH, 2,
            "116 unscaled numbers x 9 scales x 9 target scales x 6 target precisions: the rounded number, or none when it "
            "does not fit; digits as text") {
    static const std::vector<__int128> vs = DecimalValues();
    static const int scales[] = {0, 1, 2, 5, 17, 18, 19, 37, 38};
    __int128 a = vs[mc::Choose(static_cast<int>(vs.size()))];
    int from = scales[mc::Choose(9)], to = scales[mc::Choose(9)];
    if (a <= -Pow10(38) || a >= Pow10(38)) mc::Prune();
    for (int precision : {1, 5, 18, 19, 37, 38}) {
        std::optional<__int128> want;
        if (to >= from) {
            __int128 m = Pow10(to - from), lim = (Pow10(precision) - 1) / m;
            if (a <= lim && a >= -lim) want = a * m;
        } else {
            __int128 m = Pow10(from - to), q = a / m, r = a % m;
            if (r >= m - r && r > 0) q++;  // half away from zero
            if (r < 0 && -r >= m + r) q--;
            if (q < Pow10(precision) && q > -Pow10(precision)) want = q;
        }
        auto got = DecimalUtils::RescaleDecimalWithOverflowCheck(
            arrow::Decimal128(static_cast<int64_t>(a >> 64), static_cast<uint64_t>(a)), from, precision, to);
        MC_CHECK(got.has_value() == want.has_value(), "rescale", "%s from scale %d to (%d,%d): %s", kd::Text(kd::N(a)).c_str(),
                 from, precision, to, got ? "kept" : "dropped");
        if (want) {
            __int128 g = static_cast<__int128>((static_cast<unsigned __int128>(got->high_bits()) << 64) | got->low_bits());
            MC_CHECK(g == *want, "rescale-value", "%s from scale %d to (%d,%d) is %s", kd::Text(kd::N(a)).c_str(), from,
                     precision, to, kd::Text(kd::N(g)).c_str());
        }
    }
    auto text = DecimalUtils::StrToInt128(a == 0 ? "0" : kd::Text(kd::N(a)));
    MC_CHECK(text.ok() && text.value() == a, "decimal-text", "%s", kd::Text(kd::N(a)).c_str());
    mc::Hash h;
    h.S(kd::Text(kd::N(a)));
    h.U(from);
    h.U(to);
    mc::State(h.h);
    if (to < from) mc::Nontrivial();
    mc::Outcome(to < from ? "rounded" : "kept");
}

MC_SCENARIO(times, mc::BOTH, 1,
            "40 instants around the epoch and unit boundaries, before and after 1970, converted between all units") {
    static const std::vector<int64_t> base{0, 1, 2, 999, 1000, 1001, 999999, 1000000, 1000001, 999999999, 1000000000,
                                           1000000001, 1700000000123456789LL, 4102444800000000000LL, 123456789012345678LL};
    int64_t v = base[mc::Choose(static_cast<int>(base.size()))];
    if (mc::ChooseBool()) v = -v;
    using D = DateTimeUtils;
    const D::TimeType types[] = {D::SECOND, D::MILLISECOND, D::MICROSECOND, D::NANOSECOND};
    const std::shared_ptr<arrow::TimestampType> arrows[] = {
        std::static_pointer_cast<arrow::TimestampType>(arrow::timestamp(arrow::TimeUnit::SECOND)),
        std::static_pointer_cast<arrow::TimestampType>(arrow::timestamp(arrow::TimeUnit::MILLI)),
        std::static_pointer_cast<arrow::TimestampType>(arrow::timestamp(arrow::TimeUnit::MICRO)),
        std::static_pointer_cast<arrow::TimestampType>(arrow::timestamp(arrow::TimeUnit::NANO))};
    const __int128 unit[] = {1000000000, 1000000, 1000, 1};
    int u = mc::Choose(4);
    MC_CHECK(D::GetPrecisionFromType(arrows[u]) == 3 * u, "time-precision", "unit %d", u);
    MC_CHECK(D::GetTimeTypeFromArrowType(arrows[u]) == types[u], "time-type", "unit %d", u);
    __int128 ns = v * unit[u];
    __int128 ms = ns / 1000000, rest = ns % 1000000;
    if (rest < 0) {
        rest += 1000000;
        ms--;
    }
    if (ms > INT64_MAX / 1000 || ms < INT64_MIN / 1000) mc::Prune();
    auto [milli, nano] = D::TimestampConverter(v, types[u], D::MILLISECOND, D::NANOSECOND);
    MC_CHECK(milli == ms && nano == rest, "time-convert", "%lld in unit %d: %lld ms and %lld ns", static_cast<long long>(v), u,
             static_cast<long long>(milli), static_cast<long long>(nano));
    Timestamp t(milli, static_cast<int32_t>(nano));
    MC_CHECK(D::TimestampToInteger(t, types[u]) == v, "time-back", "%lld in unit %d: %lld", static_cast<long long>(v), u,
             static_cast<long long>(D::TimestampToInteger(t, types[u])));
    mc::Hash h;
    h.U(static_cast<uint64_t>(v));
    h.U(u);
    mc::State(h.h);
    if (v < 0) mc::Nontrivial();
    mc::TraceValidated();
    mc::Outcome("time");
}

MC_SCENARIO(partition_values, mc::BOTH, 2,
            "partitions of 1 or 2 keys of 7 types over null, boundary values and neighbours: values to texts and back, "
            "both spellings of dates") {
    static const int types[] = {0, 1, 2, 3, 4, 7, 14};
    int n = mc::Choose(2) + 1;
    bool legacy = mc::ChooseBool();
    std::vector<const Kind*> ks;
    std::vector<Cell> cs;
    std::vector<std::string> keys;
    arrow::FieldVector fields;
    for (int i = 0; i < n; i++) {
        ks.push_back(&kd::Kinds()[types[mc::Choose(7)]]);
        cs.push_back(ChooseCell(*ks[i], n == 1));
        keys.push_back("k" + std::to_string(i));
        fields.push_back(arrow::field(keys[i], ks[i]->arrow));
        if (ks[i]->type == FieldType::DATE && !legacy && cs[i] && (cs[i]->n < -100000 || cs[i]->n > 2000000)) mc::Prune();
    }
    fields.push_back(arrow::field("other", arrow::int32()));
    auto pc = BinaryRowPartitionComputer::Create(keys, arrow::schema(fields), "__none__", legacy, kd::Pool());
    MC_CHECK(pc.ok(), "partition-create", "%s", pc.status().ToString().c_str());
    BinaryRow row = kd::Row(ks, cs);
    auto texts = pc.value()->GeneratePartitionVector(row);
    MC_CHECK(texts.ok() && texts.value().size() == keys.size(), "partition-texts", "%s", texts.status().ToString().c_str());
    std::map<std::string, std::string> m;
    std::vector<Cell> want = cs;
    for (int i = 0; i < n; i++) {
        auto& [key, text] = texts.value()[i];
        MC_CHECK(key == keys[i], "partition-key", "%s", key.c_str());
        std::string t;
        if (!cs[i] || (ks[i]->type == FieldType::STRING && cs[i]->s.empty())) {
            t = "__none__";
            want[i] = std::nullopt;
        } else if (ks[i]->type == FieldType::STRING) {
            t = cs[i]->s;
        } else if (ks[i]->type == FieldType::BOOLEAN) {
            t = cs[i]->n ? "true" : "false";
        } else if (ks[i]->type == FieldType::DATE && !legacy) {
            time_t secs = static_cast<time_t>(cs[i]->n) * 86400;
            struct tm g;
            gmtime_r(&secs, &g);
            char buf[16];
            strftime(buf, sizeof buf, "%Y-%m-%d", &g);
            t = buf;
        } else {
            t = cs[i]->n == 0 ? "0" : kd::Text(cs[i]);
        }
        MC_CHECK(text == t, "partition-text", "%s is '%s' and not '%s'", Show({ks[i]}, {cs[i]}).c_str(), text.c_str(), t.c_str());
        m[key] = text;
    }
    auto back = pc.value()->ToBinaryRow(m);
    MC_CHECK(back.ok(), "partition-back", "%s", back.status().ToString().c_str());
    CheckRow(back.value(), ks, want, "partition read back");
    MC_CHECK(back.value() == kd::Row(ks, want) && back.value().HashCode() == kd::Row(ks, want).HashCode(), "partition-equal",
             "%s", Show(ks, want).c_str());
    m.erase(keys[mc::Choose(n)]);
    MC_CHECK(!pc.value()->ToBinaryRow(m).ok(), "partition-missing", "a missing key is accepted");
    mc::Hash h;
    h.U(legacy);
    h.S(Show(ks, cs));
    mc::State(h.h);
    if (want == cs) mc::Nontrivial();
    mc::TraceValidated();
    mc::Outcome(legacy ? "legacy" : "plain");
}
}  // namespace
