// Requests to a table, what they mean, and checking that a table's snapshots are exactly a sequence
// of such requests.
#pragma once
#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "core/observe.h"
#include "core/table.h"

namespace {
using namespace paimon;  // NOLINT

// ---- operations a client can ask for --------------------------------------------------------

struct Ask {
    enum Kind { APPEND, FILTER, OVERWRITE, FILTER_OVERWRITE, DROP } kind = APPEND;
    std::string user;
    int64_t ident = 1;
    std::vector<tb::Change> changes;
    std::vector<std::map<std::string, std::string>> parts;  // overwrite / drop target
    std::vector<int32_t> target;                             // the same, as values of p
    std::optional<int64_t> watermark;
    // set: the client hands in the same message objects every time it tries
    std::shared_ptr<std::vector<std::shared_ptr<CommitMessage>>> msgs;
};

// The partition values of an entry as seen in the store (a serialized row: 4-byte arity, then the
// row: 8 bytes of header and null bits, 8 bytes per field).
std::string PartOf(const ob::Entry& e) {
    if (e.part.size() < 20) return "-";
    int32_t v = 0;
    memcpy(&v, e.part.data() + 12, 4);
    return std::to_string(v);
}

using Live = std::map<std::string, int64_t>;  // "p/b/name" -> rows
std::string Key(const std::string& part, int bucket, const std::string& name) {
    return part + "/" + std::to_string(bucket) + "/" + name;
}
Live LiveOf(const ob::Snap& s) {
    Live l;
    for (auto& [k, e] : s.live) l[Key(PartOf(e), e.bucket, e.name)] = e.rows;
    return l;
}
std::string Show(const Live& l) {
    std::string s;
    for (auto& [k, r] : l) s += k + "(" + std::to_string(r) + ") ";
    return s;
}

// What the request means: the files after it, given the files before it. Returns false if the
// request cannot be applied (it removes a file that is not there / adds one that is).
bool Apply(const Ask& a, Live* l) {
    Live n = *l;
    if (a.kind == Ask::OVERWRITE || a.kind == Ask::FILTER_OVERWRITE || a.kind == Ask::DROP) {
        for (auto i = n.begin(); i != n.end();) {
            bool hit = a.target.empty();
            for (int32_t t : a.target) {
                std::string pre = std::to_string(t) + "/";
                hit = hit || i->first.compare(0, pre.size(), pre) == 0;
            }
            i = hit ? n.erase(i) : std::next(i);
        }
    }
    for (auto& c : a.changes) {
        std::string p = c.part.empty() ? "-" : std::to_string(c.part[0]);
        for (auto& [f, r] : c.add) {
            if (!n.emplace(Key(p, c.bucket, f), r).second) return false;
        }
        for (auto& [f, r] : c.del) {
            if (n.erase(Key(p, c.bucket, f)) == 0) return false;
        }
    }
    *l = n;
    return true;
}

const tb::Opts& TableOpts() {
    static tb::Opts o{{"bucket", "2"}, {"bucket-key", "k"}};
    return o;
}

Status Do(int proc, const Ask& a, const tb::Opts& more) {
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<FileStoreCommit> c, tb::Committer(proc, a.user, more));
    auto msgs = a.msgs ? *a.msgs : tb::Messages(a.changes, 2);
    switch (a.kind) {
        case Ask::APPEND:
            return c->Commit(msgs, a.ident, a.watermark);
        case Ask::FILTER: {
            auto r = c->FilterAndCommit({{a.ident, msgs}}, a.watermark);
            return r.ok() ? Status::OK() : r.status();
        }
        case Ask::OVERWRITE:
            return c->Overwrite(a.parts, msgs, a.ident, a.watermark);
        case Ask::FILTER_OVERWRITE: {
            auto r = c->FilterAndOverwrite(a.parts, msgs, a.ident, a.watermark);
            return r.ok() ? Status::OK() : r.status();
        }
        case Ask::DROP:
            return c->DropPartition(a.parts, a.ident);
    }
    return Status::OK();
}

// The client's data files exist before it commits.
void PutData(w::World* w, const Ask& a) {
    for (auto& c : a.changes) {
        for (auto& [f, r] : c.add) {
            w->Put(std::string(tb::kTable) + "/p=" + std::to_string(c.part[0]) + "/bucket-" +
                       std::to_string(c.bucket) + "/" + f,
                   "data");
        }
    }
}

tb::Change Add(int p, int b, const std::string& f, int64_t rows) {
    tb::Change c;
    c.part = {p};
    c.bucket = b;
    c.add = {{f, rows}};
    return c;
}
tb::Change Del(int p, int b, const std::string& f, int64_t rows) {
    tb::Change c;
    c.part = {p};
    c.bucket = b;
    c.del = {{f, rows}};
    return c;
}
Ask Append(const std::string& user, int64_t ident, std::vector<tb::Change> cs, Ask::Kind k = Ask::APPEND) {
    Ask a;
    a.kind = k;
    a.user = user;
    a.ident = ident;
    a.changes = std::move(cs);
    return a;
}
Ask Over(const std::string& user, int64_t ident, std::vector<int32_t> target, std::vector<tb::Change> cs,
         Ask::Kind k = Ask::OVERWRITE) {
    Ask a;
    a.kind = k;
    a.user = user;
    a.ident = ident;
    a.changes = std::move(cs);
    a.target = target;
    for (int32_t t : target) a.parts.push_back({{"p", std::to_string(t)}});
    return a;
}

// Where the store keeps a live file.
std::string DataPath(const ob::Entry& e) {
    return std::string(tb::kTable) + "/p=" + PartOf(e) + "/bucket-" + std::to_string(e.bucket) + "/" + e.name;
}
// Every file a reader of the snapshot would open is there.
void CheckReadable(const w::World& w, const ob::Snap& s) {
    for (auto& [k, e] : s.live) {
        MC_CHECK(w.t.count(DataPath(e)), "lost-data", "snapshot %ld needs %s which does not exist", s.id,
                 DataPath(e).c_str());
    }
    MC_CHECK(w.t.count(std::string(tb::kTable) + "/schema/schema-" + std::to_string(s.schema)), "lost-schema",
             "snapshot %ld needs schema %ld", s.id, s.schema);
}

// ---- checking a whole history ----------------------------------------------------------------

struct History {
    Live base;             // files before the first snapshot considered
    int64_t base_id = 0;   // id of the snapshot holding `base`
    int64_t base_rows = 0;
    int64_t base_next_row = 0;
    std::optional<int64_t> base_wm;
    std::vector<Ask> asks;  // everything that was ever asked for after `base`
    bool row_tracking = false;
};

// Every snapshot is complete, ids have no gap, and each is exactly its predecessor plus one request,
// applied entirely. Returns how often each request was applied.
std::vector<int> CheckHistory(const w::World& w, const History& h) {
    std::vector<int> applied(h.asks.size(), 0);
    auto snaps = ob::All(w, tb::kTable, h.base_id);
    Live cur = h.base;
    int64_t id = h.base_id, rows = h.base_rows, next_row = h.base_next_row;
    std::optional<int64_t> wm = h.base_wm;
    int64_t last_time = 0;
    for (auto& s : snaps) {
        if (s.id <= h.base_id) continue;
        MC_CHECK(s.id == id + 1, "gap", "snapshot %ld follows snapshot %ld", s.id, id);
        id = s.id;
        int which = -1;
        for (size_t i = 0; i < h.asks.size(); i++) {
            if (h.asks[i].user == s.user && h.asks[i].ident == s.ident) which = static_cast<int>(i);
        }
        MC_CHECK(which >= 0, "unknown-commit", "snapshot %ld is by %s/%ld, which nobody asked for", s.id,
                 s.user.c_str(), s.ident);
        applied[which]++;
        const Ask& a = h.asks[which];
        Live want = cur;
        bool ok = Apply(a, &want);
        Live got = LiveOf(s);
        if (ok) {
            MC_CHECK(got == want, "partial", "snapshot %ld by %s/%ld on top of {%s} holds {%s}, expected {%s}", s.id,
                     s.user.c_str(), s.ident, Show(cur).c_str(), Show(got).c_str(), Show(want).c_str());
        } else {
            mc::Fail("conflict", "snapshot %ld by %s/%ld was accepted although it does not fit {%s}", s.id,
                     s.user.c_str(), s.ident, Show(cur).c_str());
        }
        MC_CHECK(s.kind == (a.kind == Ask::APPEND || a.kind == Ask::FILTER ? "APPEND" : "OVERWRITE"), "kind",
                 "snapshot %ld has kind %s", s.id, s.kind.c_str());
        int64_t now_rows = ob::Rows(s.live);
        MC_CHECK(s.total == now_rows, "total-count", "snapshot %ld says %ld records in total, its files hold %ld", s.id,
                 s.total, now_rows);
        MC_CHECK(s.delta == now_rows - rows, "delta-count", "snapshot %ld says it changed %ld records, it changed %ld",
                 s.id, s.delta, now_rows - rows);
        if (a.watermark) wm = wm ? std::max(*wm, *a.watermark) : *a.watermark;
        MC_CHECK(s.watermark == wm || (!wm && (!s.watermark || *s.watermark == INT64_MIN)), "watermark",
                 "snapshot %ld has watermark %ld", s.id, s.watermark.value_or(-1));
        MC_CHECK(s.time >= last_time, "time", "snapshot %ld is older than its predecessor", s.id);
        last_time = s.time;
        // the delta list alone describes the change
        std::vector<const ob::Entry*> ds;
        for (auto& m : s.delta_m) {
            for (auto& e : m.entries) ds.push_back(&e);
        }
        Live from_delta = cur;
        for (auto* e : ds) {
            std::string k = Key(PartOf(*e), e->bucket, e->name);
            if (e->kind == 0) {
                from_delta[k] = e->rows;
            } else {
                from_delta.erase(k);
            }
        }
        MC_CHECK(from_delta == got, "delta-list", "the changes listed for snapshot %ld do not lead to its files", s.id);
        for (auto* ms : {&s.base_m, &s.delta_m}) {
            for (auto& m : *ms) {
                int64_t na = 0, nd = 0;
                for (auto& e : m.entries) (e.kind == 0 ? na : nd)++;
                MC_CHECK(na == m.added && nd == m.deleted, "manifest-counts",
                         "manifest %s of snapshot %ld: %ld+%ld entries, list says %ld+%ld", m.name.c_str(), s.id, na,
                         nd, m.added, m.deleted);
                auto body = ob::Get(w, std::string(tb::kTable) + "/manifest/" + m.name);
                MC_CHECK(static_cast<int64_t>(body->size()) == m.size, "manifest-size",
                         "manifest %s has %zu bytes, list says %ld", m.name.c_str(), body->size(), m.size);
            }
        }
        if (h.row_tracking) {
            // new rows get the numbers that follow all numbers handed out so far
            MC_CHECK(s.next_row.has_value(), "row-id", "snapshot %ld has no next row id", s.id);
            int64_t added = 0;
            std::vector<std::pair<int64_t, int64_t>> ranges;
            for (auto* e : ds) {
                if (e->kind != 0) continue;
                added += e->rows;
                MC_CHECK(e->first_row.has_value(), "row-id", "file %s has no first row id", e->name.c_str());
                MC_CHECK(*e->first_row >= next_row && *e->first_row + e->rows <= *s.next_row, "row-id-range",
                         "file %s of snapshot %ld has rows [%ld,%ld), new rows are [%ld,%ld)", e->name.c_str(), s.id,
                         *e->first_row, *e->first_row + e->rows, next_row, *s.next_row);
                MC_CHECK(e->min_seq == s.id && e->max_seq == s.id, "row-seq",
                         "file %s of snapshot %ld has sequence [%ld,%ld]", e->name.c_str(), s.id, e->min_seq,
                         e->max_seq);
                ranges.emplace_back(*e->first_row, *e->first_row + e->rows);
            }
            MC_CHECK(*s.next_row == next_row + added, "row-id-next",
                     "snapshot %ld: next row id %ld after %ld plus %ld new rows", s.id, *s.next_row, next_row, added);
            std::sort(ranges.begin(), ranges.end());
            for (size_t i = 1; i < ranges.size(); i++) {
                MC_CHECK(ranges[i].first >= ranges[i - 1].second, "row-id-overlap", "snapshot %ld: row ids overlap",
                         s.id);
            }
            next_row = *s.next_row;
        }
        cur = got;
        rows = now_rows;
    }
    for (size_t i = 0; i < h.asks.size(); i++) {
        MC_CHECK(applied[i] <= 1, "twice", "commit %s/%ld was applied %d times", h.asks[i].user.c_str(),
                 h.asks[i].ident, applied[i]);
    }
    mc::Hash hs;
    for (auto& [k, r] : cur) hs.S(k).U(r);
    hs.U(id);
    auto hint = ob::Get(w, std::string(tb::kTable) + "/snapshot/LATEST");
    hs.S(hint.value_or("none"));
    mc::State(hs.h);
    return applied;
}

// ---- prepared tables ---------------------------------------------------------------------------

struct Prepared {
    w::World world;
    History h;
};

// Builds (once) the world after the given requests; each must succeed.
const Prepared& PrepareTimed(const std::string& key, const std::vector<Ask>& asks, const tb::Opts& topts,
                             int64_t step_ms) {
    static std::map<std::string, Prepared> cache;
    auto i = cache.find(key);
    if (i != cache.end()) return i->second;
    Prepared p;
    det::Reset(1000000);
    w::Proc proc;
    proc.world = &p.world;
    w::Procs()[0] = &proc;
    tb::CreateTable(0, {arrow::field("p", arrow::int32()), arrow::field("k", arrow::int32()),
                        arrow::field("v", arrow::int64())},
                    {"p"}, {}, topts);
    p.h.row_tracking = topts.count("row-tracking.enabled") > 0;
    for (auto& a : asks) {
        PutData(&p.world, a);
        det::now_us += step_ms * 1000;
        Status s = Do(0, a, {});
        if (!s.ok()) mc::Fail("setup", "preparing: %s", s.ToString().c_str());
        p.h.asks.push_back(a);
    }
    auto n = CheckHistory(p.world, p.h);
    for (int k : n) {
        if (k != 1) mc::Fail("setup-lost", "a commit that reported success is not in the table");
    }
    auto snaps = ob::All(p.world, tb::kTable);
    if (!snaps.empty()) {
        p.h.base = LiveOf(snaps.back());
        p.h.base_id = snaps.back().id;
        p.h.base_rows = ob::Rows(snaps.back().live);
        p.h.base_next_row = snaps.back().next_row.value_or(0);
        p.h.base_wm = snaps.back().watermark;
    }
    p.h.asks.clear();
    return cache[key] = p;
}

const Prepared& Prepare(const std::string& key, const std::vector<Ask>& asks, const tb::Opts& topts) {
    return PrepareTimed(key, asks, topts, 0);
}

tb::Opts With(tb::Opts o, const tb::Opts& more) {
    for (auto& [k, v] : more) o[k] = v;
    return o;
}

// Tables of 0..4 earlier commits with different manifest situations.
const Prepared& Start(int n, bool merging, bool rows = false) {
    std::vector<Ask> asks;
    auto f = [](int i) { return "data-old-" + std::to_string(i) + ".orc"; };
    if (n >= 1) asks.push_back(Append("old", 1, {Add(0, 0, f(1), 3), Add(1, 1, f(2), 2)}));
    if (n >= 2) asks.push_back(Append("old", 2, {Add(0, 1, f(3), 5)}));
    if (n >= 3) asks.push_back(Over("old", 3, {1}, {Add(1, 0, f(4), 4)}));
    if (n >= 4) asks.push_back(Append("old", 4, {Del(0, 0, f(1), 3), Add(0, 0, f(5), 1)}));
    if (rows && n >= 4) asks.pop_back();
    // merging: manifests are merged into one another as soon as there are two
    tb::Opts o = TableOpts();
    if (rows) o = With({{"bucket", "-1"}, {"row-tracking.enabled", "true"}}, {});
    o = With(o, merging ? tb::Opts{{"manifest.merge-min-count", "2"}, {"manifest.full-compaction-threshold-size", "1b"}}
                        : tb::Opts{});
    return Prepare(std::to_string(n) + (merging ? "m" : "") + (rows ? "r" : ""), asks, o);
}

// What the client under test asks for.
Ask Request(int r, const std::string& user, int64_t ident, const std::string& tag, bool filter = false) {
    std::string f = "data-" + tag + ".orc", g = "data-" + tag + "b.orc";
    switch (r) {
        case 0:
            return Append(user, ident, {Add(0, 0, f, 7)}, filter ? Ask::FILTER : Ask::APPEND);
        case 1:
            return Append(user, ident, {Add(0, 0, f, 7), Add(1, 1, g, 9)}, filter ? Ask::FILTER : Ask::APPEND);
        case 2:
            return Over(user, ident, {0}, {Add(0, 1, f, 6)}, filter ? Ask::FILTER_OVERWRITE : Ask::OVERWRITE);
        case 3:
            return Over(user, ident, {0}, {}, filter ? Ask::FILTER_OVERWRITE : Ask::DROP);
        case 4:
            return Append(user, ident, {Del(0, 0, "data-old-1.orc", 3), Add(0, 0, f, 3)},
                          filter ? Ask::FILTER : Ask::APPEND);
        default:
            return Over(user, ident, {}, {Add(2, 0, f, 2)}, filter ? Ask::FILTER_OVERWRITE : Ask::OVERWRITE);
    }
}

struct Env {
    w::World world;
    w::Proc p[4];
    explicit Env(const Prepared& s) : world(s.world) {
        det::Reset();
        for (int i = 0; i < 4; i++) {
            p[i].id = i;
            p[i].world = &world;
            w::Procs()[i] = &p[i];
        }
    }
};

// A client that was told its commit may have failed tries again: it must be there exactly once then.
void Retry(int proc, const w::World& w, const History& h, int i) {
    Ask again = h.asks[i];
    again.kind = again.kind == Ask::APPEND || again.kind == Ask::FILTER ? Ask::FILTER : Ask::FILTER_OVERWRITE;
    Status s = Do(proc, again, {});
    MC_CHECK(s.ok(), "retry-refused", "retrying commit %d: %s", i + 1, s.ToString().c_str());
    auto k = CheckHistory(w, h);
    MC_CHECK(k[i] == 1, "lost-update", "commit %d is in the table %d times after a retry", i + 1, k[i]);
}

// A later client must always be able to go on, and the interrupted request must be completable.
void Recover(Env* e, History h, const Ask& first, bool must_be_there) {
    auto n = CheckHistory(e->world, h);
    int before = n[0];
    MC_CHECK(!must_be_there || before == 1, "lost", "the commit reported success but is not in the table");
    mc::Outcome(before ? "interrupted commit visible" : "interrupted commit absent");
    // the same request again, as recovery does
    Ask again = first;
    again.kind = first.kind == Ask::APPEND || first.kind == Ask::FILTER ? Ask::FILTER : Ask::FILTER_OVERWRITE;
    Status s = Do(2, again, {});
    MC_CHECK(s.ok(), "recovery-refused", "retrying the interrupted commit fails: %s", s.ToString().c_str());
    n = CheckHistory(e->world, h);
    MC_CHECK(n[0] == 1, "recovery-lost", "after the retry the commit is in the table %d times", n[0]);
    // somebody else
    Ask other = Append("other", 1, {Add(3, 0, "data-other.orc", 1)});
    PutData(&e->world, other);
    h.asks.push_back(other);
    s = Do(3, other, {});
    MC_CHECK(s.ok(), "blocked", "after the interruption nobody else can commit: %s", s.ToString().c_str());
    n = CheckHistory(e->world, h);
    MC_CHECK(n[0] == 1 && n[1] == 1, "lost-later", "a later commit lost an earlier one");
}

}  // namespace
