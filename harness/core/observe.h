// Reads the durable state of a table straight from the simulated store, without the code under
// test: snapshot files, manifest lists and manifests. This is what every reader would see.
#pragma once
#include <algorithm>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "core/fileformat.h"
#include "core/world.h"
#include "rapidjson/document.h"

namespace ob {

struct Entry {
    int kind = 0;  // 0 added, 1 deleted
    std::string part;
    int bucket = 0, total = 0;
    std::string name;
    int64_t rows = 0;
    int64_t min_seq = 0, max_seq = 0;
    int64_t level = 0;
    std::optional<int64_t> first_row;
    std::string Key() const { return part + "/" + std::to_string(bucket) + "/" + name; }
};
struct Manifest {
    std::string name;
    int64_t size = 0, added = 0, deleted = 0;
    std::vector<Entry> entries;
};
struct Snap {
    int64_t id = 0, schema = 0, ident = 0, time = 0, total = 0, delta = 0;
    std::string base_list, delta_list, user, kind;
    std::optional<int64_t> watermark, next_row;
    std::optional<std::string> index;
    std::vector<Manifest> base_m, delta_m;
    std::map<std::string, Entry> live;  // files visible to a reader of this snapshot
};

inline const arrow::Array& Col(const arrow::StructArray& s, const char* n) {
    auto c = s.GetFieldByName(n);
    if (!c) mc::Fail("observe", "no column %s", n);
    static std::vector<std::shared_ptr<arrow::Array>> keep;
    if (keep.size() > 4096) keep.clear();
    keep.push_back(c);
    return *keep.back();
}
inline int64_t I64(const arrow::Array& a, int64_t i) { return static_cast<const arrow::Int64Array&>(a).Value(i); }
inline int32_t I32(const arrow::Array& a, int64_t i) { return static_cast<const arrow::Int32Array&>(a).Value(i); }
inline std::string Str(const arrow::Array& a, int64_t i) {
    return static_cast<const arrow::BinaryArray&>(a).GetString(i);
}

inline std::optional<std::string> Get(const w::World& w, const std::string& p) {
    auto i = w.t.find(p);
    if (i == w.t.end() || i->second.dir) return std::nullopt;
    return i->second.data;
}

// Fails the exploration if the file is missing or damaged.
inline std::shared_ptr<arrow::StructArray> Load(const w::World& w, const std::string& p, const char* what,
                                                int64_t snap) {
    auto s = Get(w, p);
    if (!s) mc::Fail("lost-file", "snapshot %ld refers to %s %s which does not exist", snap, what, p.c_str());
    auto a = ff::Decode(*s);
    if (!a) mc::Fail("damaged-file", "snapshot %ld refers to %s %s which is incomplete", snap, what, p.c_str());
    return std::static_pointer_cast<arrow::StructArray>(a);
}

inline std::vector<Entry> Entries(const arrow::StructArray& m) {
    std::vector<Entry> out;
    auto file_col = m.GetFieldByName("_FILE");
    auto& f = static_cast<const arrow::StructArray&>(*file_col);
    auto& kind = Col(m, "_KIND");
    auto& part = Col(m, "_PARTITION");
    auto& bucket = Col(m, "_BUCKET");
    auto& total = Col(m, "_TOTAL_BUCKETS");
    auto& name = Col(f, "_FILE_NAME");
    auto& rows = Col(f, "_ROW_COUNT");
    auto& mins = Col(f, "_MIN_SEQUENCE_NUMBER");
    auto& maxs = Col(f, "_MAX_SEQUENCE_NUMBER");
    auto& lvl = Col(f, "_LEVEL");
    auto& first = Col(f, "_FIRST_ROW_ID");
    for (int64_t i = 0; i < m.length(); i++) {
        Entry e;
        e.kind = static_cast<const arrow::Int8Array&>(kind).Value(i);
        e.part = Str(part, i);
        e.bucket = I32(bucket, i);
        e.total = I32(total, i);
        e.name = Str(name, i);
        e.rows = I64(rows, i);
        e.min_seq = I64(mins, i);
        e.max_seq = I64(maxs, i);
        e.level = I32(lvl, i);
        if (!first.IsNull(i)) e.first_row = I64(first, i);
        out.push_back(e);
    }
    return out;
}

inline std::vector<Manifest> List(const w::World& w, const std::string& table, const std::string& list, int64_t snap) {
    std::vector<Manifest> out;
    auto a = Load(w, table + "/manifest/" + list, "manifest list", snap);
    auto& name = Col(*a, "_FILE_NAME");
    auto& size = Col(*a, "_FILE_SIZE");
    auto& added = Col(*a, "_NUM_ADDED_FILES");
    auto& deleted = Col(*a, "_NUM_DELETED_FILES");
    for (int64_t i = 0; i < a->length(); i++) {
        Manifest m;
        m.name = Str(name, i);
        m.size = I64(size, i);
        m.added = I64(added, i);
        m.deleted = I64(deleted, i);
        // decoding is a function of the content
        static std::unordered_map<std::string, std::vector<Entry>> known;
        auto raw = w.t.find(table + "/manifest/" + m.name);
        auto hit = raw == w.t.end() ? known.end() : known.find(raw->second.data);
        if (hit != known.end()) {
            m.entries = hit->second;
        } else {
            auto body = Load(w, table + "/manifest/" + m.name, "manifest", snap);
            m.entries = Entries(*body);
            if (known.size() > 20000) known.clear();
            known.emplace(raw->second.data, m.entries);
        }
        out.push_back(std::move(m));
    }
    return out;
}

inline std::map<std::string, Entry> Fold(const std::vector<const Entry*>& es, int64_t snap) {
    std::map<std::string, Entry> live;
    for (auto* e : es) {
        auto k = e->Key();
        if (e->kind == 0) {
            if (!live.emplace(k, *e).second) {
                mc::Fail("file-twice", "snapshot %ld lists file %s twice", snap, e->name.c_str());
            }
        } else if (live.erase(k) == 0) {
            mc::Fail("delete-unknown", "snapshot %ld deletes file %s which is not in the table", snap,
                     e->name.c_str());
        }
    }
    return live;
}

// Parses one snapshot; nothing is returned if the file does not hold a complete snapshot.
inline std::optional<Snap> ParseSnap(const std::string& js) {
    rapidjson::Document d;
    d.Parse(js.c_str());
    if (d.HasParseError() || !d.IsObject() || !d.HasMember("id")) return std::nullopt;
    Snap s;
    s.id = d["id"].GetInt64();
    s.schema = d["schemaId"].GetInt64();
    s.base_list = d["baseManifestList"].GetString();
    s.delta_list = d["deltaManifestList"].GetString();
    s.user = d["commitUser"].GetString();
    s.ident = d["commitIdentifier"].GetInt64();
    s.kind = d["commitKind"].GetString();
    s.time = d["timeMillis"].GetInt64();
    auto opt = [&](const char* k) -> std::optional<int64_t> {
        if (!d.HasMember(k) || d[k].IsNull()) return std::nullopt;
        return d[k].GetInt64();
    };
    s.total = opt("totalRecordCount").value_or(-1);
    s.delta = opt("deltaRecordCount").value_or(-1);
    s.watermark = opt("watermark");
    s.next_row = opt("nextRowId");
    if (d.HasMember("indexManifest") && d["indexManifest"].IsString()) s.index = d["indexManifest"].GetString();
    return s;
}

inline void Resolve(const w::World& w, const std::string& table, Snap* s) {
    s->base_m = List(w, table, s->base_list, s->id);
    s->delta_m = List(w, table, s->delta_list, s->id);
    std::vector<const Entry*> es;
    for (auto* ms : {&s->base_m, &s->delta_m}) {
        for (auto& m : *ms) {
            for (auto& e : m.entries) es.push_back(&e);
        }
    }
    s->live = Fold(es, s->id);
}

inline std::vector<int64_t> SnapIds(const w::World& w, const std::string& table) {
    std::vector<int64_t> ids;
    std::string pre = table + "/snapshot/snapshot-";
    for (auto& p : w.Files(pre)) ids.push_back(atoll(p.c_str() + pre.size()));
    std::sort(ids.begin(), ids.end());
    return ids;
}

// All snapshots (from the given id on), completely resolved.
inline std::vector<Snap> All(const w::World& w, const std::string& table, int64_t from = 0) {
    std::vector<Snap> out;
    for (int64_t id : SnapIds(w, table)) {
        if (id < from) continue;
        auto js = Get(w, table + "/snapshot/snapshot-" + std::to_string(id));
        auto s = ParseSnap(*js);
        if (!s) mc::Fail("torn-snapshot", "snapshot file %ld is visible but incomplete", id);
        if (s->id != id) mc::Fail("snapshot-id", "snapshot file %ld holds snapshot %ld", id, s->id);
        Resolve(w, table, &*s);
        out.push_back(std::move(*s));
    }
    return out;
}

inline int64_t Rows(const std::map<std::string, Entry>& live) {
    int64_t n = 0;
    for (auto& [k, e] : live) n += e.rows;
    return n;
}

}  // namespace ob
