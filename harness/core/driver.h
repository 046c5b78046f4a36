// Driver for a table: writes, commits and reads it through the public interface.
#pragma once
#include <functional>
#include <set>

#include "core/rw.h"
#include "core/world.h"
#include "mc/mc.h"

namespace {
using namespace rw;  // NOLINT

struct Env {
    w::World world;
    w::Proc p[2];
    Env() { Install(); }
    void Install() {
        det::Reset();
        for (int i = 0; i < 2; i++) {
            p[i].id = i;
            p[i].world = &world;
            w::Procs()[i] = &p[i];
        }
    }
};

// The empty table, made once.
const w::World& Fresh(const std::vector<std::string>& names, const std::vector<std::string>& parts,
                      const std::vector<std::string>& keys, const tb::Opts& opts) {
    static std::map<std::string, w::World> cache;
    std::string id;
    for (auto* l : {&names, &parts, &keys}) {
        for (auto& n : *l) id += n + ",";
        id += "|";
    }
    for (auto& [k, v] : opts) id += k + "=" + v + ";";
    auto i = cache.find(id);
    if (i == cache.end()) {
        Env e;
        tb::CreateTable(0, Fields(names), parts, keys, opts);
        i = cache.emplace(id, e.world).first;
    }
    return i->second;
}

const std::vector<std::string> kKV = {"k", "v", "s"};

// What follows a record: more of the same batch, a new batch, a flush to a file, a commit, a commit by a new writer.
enum Cut { SAME, BATCH, COMMIT, WRITER, CUTS };

struct Table {
    std::vector<std::string> names;
    tb::Opts opts;
    Env env;
    std::unique_ptr<paimon::FileStoreWrite> wr;
    std::vector<Rec> pending;
    int64_t ident = 0;
    int snapshots = 0;
    std::vector<std::shared_ptr<paimon::CommitMessage>> last_messages;

    Table(std::vector<std::string> n, const std::vector<std::string>& parts, const std::vector<std::string>& keys,
          const tb::Opts& o)
        : names(std::move(n)), opts(o) {
        tb::RegisterAll();
        auto& w = Fresh(names, parts, keys, o);
        env.world = w;
        env.Install();
    }
    void Open() {
        if (!wr) wr = Writer(0, "u");
    }
    void Flush(int bucket = 0, const tb::Opts& part = {}) {
        if (pending.empty()) return;
        Open();
        Status s = wr->Write(Batch(names, pending, bucket, part));
        MC_CHECK(s.ok(), "write-refused", "writing: %s", s.ToString().c_str());
        pending.clear();
    }
    void Commit() {
        Open();
        ident++;
        auto m = wr->PrepareCommit(true, ident);
        MC_CHECK(m.ok(), "prepare-refused", "preparing the commit: %s", m.status().ToString().c_str());
        auto c = tb::Must(tb::Committer(0, "u", {{"enable-pk-commit-in-inte-test", ""}}), "committer");
        Status s = c->Commit(m.value(), ident, {});
        MC_CHECK(s.ok(), "commit-refused", "committing: %s", s.ToString().c_str());
        last_messages = m.value();
        snapshots++;
    }
    // Commits messages of the caller's own making.
    void Commit(const std::vector<std::shared_ptr<paimon::CommitMessage>>& m) {
        auto c = tb::Must(tb::Committer(0, "c", {{"enable-pk-commit-in-inte-test", ""}}), "committer");
        Status s = c->Commit(m, ++ident, {});
        MC_CHECK(s.ok(), "commit-refused", "committing: %s", s.ToString().c_str());
        snapshots++;
    }
    void CloseWriter() {
        if (wr) {
            Status s = wr->Close();
            MC_CHECK(s.ok(), "close-refused", "closing the writer: %s", s.ToString().c_str());
        }
        wr.reset();
    }
    std::vector<Row> Now(const Read& rd = {}, const Scan& sc = {}) {
        auto g = ScanAndRead(1, sc, rd);
        MC_CHECK(g.ok(), "read-refused", "reading: %s", g.status().ToString().c_str());
        return Rows(g.value().recs);
    }
};

// All rows of the records, folded per key by the given function; keys in column 0.
template <typename F>
std::vector<Row> Fold(const std::vector<Rec>& recs, F merge) {
    std::map<int32_t, std::vector<Rec>> by;
    for (auto& r : recs) by[*r.row[0]].push_back(r);
    std::vector<Row> out;
    for (auto& [k, v] : by) {
        std::optional<Row> m = merge(v);
        if (m) out.push_back(*m);
    }
    return out;
}


// How rows of one key combine, as the documentation of each merge engine says.
using Merge = std::function<std::optional<Row>(const std::vector<Rec>&)>;

std::optional<Row> LastWins(const std::vector<Rec>& v) {
    if (v.back().kind == DEL || v.back().kind == UB) return {};
    return v.back().row;
}
std::vector<Rec> WithoutDeletes(const std::vector<Rec>& v) {
    std::vector<Rec> r;
    for (auto& x : v) {
        if (x.kind == INS || x.kind == UA) r.push_back(x);
    }
    return r;
}

// Writes a history, cut into batches, commits and writers in every way; `bad` tells, from the
// batch or the commit each record is in, whether to leave a history out.
template <typename Next, typename Bad>
std::vector<Rec> WriteAll(Table* t, int n, int cuts, Next next, Bad bad) {
    std::vector<Rec> all;
    std::vector<int> cut;
    for (int i = 0; i < n; i++) {
        all.push_back(next(i));
        cut.push_back(i + 1 == n ? static_cast<int>(COMMIT) : mc::Choose(cuts));
    }
    for (int by : {BATCH, COMMIT}) {
        std::vector<int> group;
        for (int i = 0, c = 0; i < n; i++) {
            group.push_back(c);
            c += cut[i] >= by;
        }
        if (bad(all, group)) mc::Prune();
    }
    for (int i = 0; i < n; i++) {
        t->pending.push_back(all[i]);
        if (cut[i] != SAME) t->Flush();
        if (cut[i] >= COMMIT) t->Commit();
        if (cut[i] == WRITER) t->CloseWriter();
    }
    t->CloseWriter();
    return all;
}
bool Any(const std::vector<Rec>&, const std::vector<int>&) { return false; }
// some key begins with a retraction
bool NothingToRetract(const std::vector<Rec>& all, const std::vector<int>&) {
    std::set<int32_t> seen;
    for (auto& r : all) {
        if ((r.kind == DEL || r.kind == UB) && !seen.count(*r.row[0])) return true;
        seen.insert(*r.row[0]);
    }
    return false;
}

std::vector<Row> Pick(const std::vector<Row>& rows, const std::vector<std::string>& names,
                      const std::vector<std::string>& want) {
    std::vector<Row> out;
    for (auto& r : rows) {
        Row x;
        for (auto& w : want) x.push_back(r[std::find(names.begin(), names.end(), w) - names.begin()]);
        out.push_back(x);
    }
    return out;
}

// Reads back with both sort engines and compares, in key order.
void CheckRead(Table* t, const std::vector<Row>& want, const std::vector<std::vector<std::string>>& projections = {}) {
    for (const char* e : {"loser-tree", "min-heap"}) {
        Read rd;
        rd.more = {{"sort-engine", e}};
        auto got = t->Now(rd);
        MC_CHECK(got == want, "content", "%s reads %s instead of %s", e, Show(got).c_str(), Show(want).c_str());
        for (auto& p : projections) {
            rd.fields = p;
            auto g = t->Now(rd), x = Pick(want, t->names, p);
            std::string l;
            for (auto& f : p) l += f + " ";
            MC_CHECK(g == x, "projection", "%s reads %s of columns %sinstead of %s", e, Show(g).c_str(), l.c_str(),
                     Show(x).c_str());
        }
    }
    mc::Nontrivial();
    mc::State(mc::Hash().S(Show(want)).U(t->snapshots).h);
}

}  // namespace
