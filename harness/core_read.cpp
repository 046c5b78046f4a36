// Reading tables: projections, batching, predicates, older snapshots, following a table, levels.
#include "core/driver.h"
#include "core/observe.h"
#include "paimon/predicate/literal.h"
#include "paimon/predicate/predicate_builder.h"

namespace {
using paimon::FieldType;
using paimon::Literal;
using paimon::Predicate;
using paimon::PredicateBuilder;

std::vector<Row> FoldBy(const std::vector<Rec>& recs, const std::vector<int>& key) {
    std::map<Row, Rec> last;
    for (auto& r : recs) {
        Row k;
        for (int c : key) k.push_back(r.row[c]);
        last[k] = r;
    }
    std::vector<Row> out;
    for (auto& [k, r] : last) {
        if (r.kind == INS || r.kind == UA) out.push_back(r.row);
    }
    return out;
}

// One ordered selection of the columns, all of them enumerated.
std::vector<std::string> SomeColumns(const std::vector<std::string>& names) {
    std::vector<std::string> left = names, out;
    while (!left.empty()) {
        int c = mc::Choose(static_cast<int>(left.size()) + (out.empty() ? 0 : 1));
        if (c == static_cast<int>(left.size())) break;
        out.push_back(left[c]);
        left.erase(left.begin() + c);
    }
    return out;
}
std::string Join(const std::vector<std::string>& v) {
    std::string l;
    for (auto& f : v) l += f + " ";
    return l;
}

MC_SCENARIO(composite, mc::BOTH, 4,
            "all histories of 3 (thorough 4) records of 4 two-column keys whose columns come in another order in the "
            "table, cut into commits in every way; every ordered selection of the 4 columns") {
    std::vector<std::string> names = {"v", "b", "w", "a"};
    Table t(names, {}, {"a", "b"}, {{"bucket", "1"}});
    int n = mc::Thorough() ? 4 : 3;
    std::vector<Rec> all;
    for (int i = 0; i < n; i++) {
        int c = mc::Choose(4);
        all.push_back(Rec{{10 + i, c & 1, 20 + i, c >> 1}, i == 2 && c == 3 ? DEL : INS});
        t.pending.push_back(all.back());
        if (i + 1 == n || mc::ChooseBool()) {
            t.Flush();
            t.Commit();
        }
    }
    auto want = FoldBy(all, {3, 1});
    Read rd;
    rd.fields = SomeColumns(names);
    auto got = t.Now(rd), x = Pick(want, names, rd.fields);
    MC_CHECK(got == x, "content", "reads %s of columns %sinstead of %s", Show(got).c_str(), Join(rd.fields).c_str(),
             Show(x).c_str());
    mc::Nontrivial();
    mc::State(mc::Hash().S(Show(x)).S(Join(rd.fields)).h);
}

MC_SCENARIO(batches, mc::BOTH, 4,
            "2 commits each writing any subset of 4 (thorough 5) keys, 3 stripe sizes of files, 3 sizes of read "
            "batches, both sort engines, with and without workers that build batches") {
    int keys = mc::Thorough() ? 5 : 4;
    static const int sizes[] = {1, 2, 1000};
    ff::StripeRows() = sizes[mc::Choose(3)];
    int batch = sizes[mc::Choose(3)];
    Table t(kKV, {}, {"k"}, {{"bucket", "1"}});
    std::vector<Rec> all;
    for (int c = 0; c < 2; c++) {
        int m = mc::Choose(1 << keys);
        for (int k = 0; k < keys; k++) {
            if (m & (1 << k)) t.pending.push_back(Rec{{k, 10 * c + k, c}, c && k == 2 ? DEL : INS});
        }
        all.insert(all.end(), t.pending.begin(), t.pending.end());
        t.Flush();
        t.Commit();
    }
    auto want = FoldBy(all, {0});
    for (const char* e : {"loser-tree", "min-heap"}) {
        for (int th : {0, 2}) {
            Read rd;
            rd.more = {{"sort-engine", e}, {"read.batch-size", std::to_string(batch)}};
            rd.threads = th;
            auto got = t.Now(rd);
            // workers may finish out of order
            if (th) got = Sorted(got);
            MC_CHECK(got == want, "content", "%s, %d workers, batches of %d: reads %s instead of %s", e, th, batch,
                     Show(got).c_str(), Show(want).c_str());
        }
    }
    ff::StripeRows() = 1000;
    mc::Nontrivial();
    mc::State(mc::Hash().S(Show(want)).U(batch).h);
}

// A predicate together with what it means.
struct Pred {
    std::string text;
    std::shared_ptr<Predicate> p;
    std::function<bool(const Row&)> eval;
};
std::vector<Pred> Leaves(const std::vector<std::string>& names) {
    std::vector<Pred> out;
    for (size_t c = 0; c < names.size(); c++) {
        int i = static_cast<int>(c);
        const std::string& n = names[c];
        auto T = FieldType::INT;
        auto add = [&](std::string text, std::shared_ptr<Predicate> p, std::function<bool(V)> f) {
            out.push_back({n + text, std::move(p), [c, f](const Row& r) { return f(r[c]); }});
        };
        add("=1", PredicateBuilder::Equal(i, n, T, Literal(1)), [](V v) { return v && *v == 1; });
        add("<>1", PredicateBuilder::NotEqual(i, n, T, Literal(1)), [](V v) { return v && *v != 1; });
        add("<1", PredicateBuilder::LessThan(i, n, T, Literal(1)), [](V v) { return v && *v < 1; });
        add("<=1", PredicateBuilder::LessOrEqual(i, n, T, Literal(1)), [](V v) { return v && *v <= 1; });
        add(">1", PredicateBuilder::GreaterThan(i, n, T, Literal(1)), [](V v) { return v && *v > 1; });
        add(">=1", PredicateBuilder::GreaterOrEqual(i, n, T, Literal(1)), [](V v) { return v && *v >= 1; });
        add(" in (1)", PredicateBuilder::In(i, n, T, {Literal(1)}), [](V v) { return v && *v == 1; });
        add(" in (0,2)", PredicateBuilder::In(i, n, T, {Literal(0), Literal(2)}),
            [](V v) { return v && (*v == 0 || *v == 2); });
        add(" not in (1)", PredicateBuilder::NotIn(i, n, T, {Literal(1)}), [](V v) { return v && *v != 1; });
        add(" not in (0,2)", PredicateBuilder::NotIn(i, n, T, {Literal(0), Literal(2)}),
            [](V v) { return v && *v != 0 && *v != 2; });
        add(" between 1 and 2", PredicateBuilder::Between(i, n, T, Literal(1), Literal(2)),
            [](V v) { return v && *v >= 1 && *v <= 2; });
        add(" is null", PredicateBuilder::IsNull(i, n, T), [](V v) { return !v; });
        add(" is not null", PredicateBuilder::IsNotNull(i, n, T), [](V v) { return v.has_value(); });
    }
    return out;
}
std::vector<Pred> Predicates(const std::vector<std::string>& names) {
    auto out = Leaves(names);
    size_t n = out.size(), per = n / names.size();
    // pairs of leaves of different columns
    for (size_t a = 0; a < n; a += 5) {
        for (size_t b = a + per; b < n; b += 7) {
            Pred x = out[a], y = out[b];
            auto an = PredicateBuilder::And({x.p, y.p}), o = PredicateBuilder::Or({x.p, y.p});
            if (!an.ok() || !o.ok()) mc::Fail("setup", "predicate");
            out.push_back({x.text + " and " + y.text, an.value(),
                           [x, y](const Row& r) { return x.eval(r) && y.eval(r); }});
            out.push_back({x.text + " or " + y.text, o.value(),
                           [x, y](const Row& r) { return x.eval(r) || y.eval(r); }});
        }
    }
    return out;
}

std::vector<Row> Keep(const std::vector<Row>& rows, const std::function<bool(const Row&)>& f) {
    std::vector<Row> out;
    for (auto& r : rows) {
        if (f(r)) out.push_back(r);
    }
    return out;
}

MC_SCENARIO(filter, mc::BOTH, 4,
            "tables with and without a key, 2 partitions, all pairs (thorough triples) of rows out of 12 in one or more "
            "commits; 39 simple and 60 composed predicates each, in the scan, in the read and as a filter; statistics "
            "present or not") {
    bool pk = mc::ChooseBool();
    bool stats = mc::ChooseBool();
    ff::CollectStats() = stats;
    std::vector<std::string> names = {"p", "v", "k"};
    Table t(names, {"p"}, pk ? std::vector<std::string>{"p", "k"} : std::vector<std::string>{},
            {{"bucket", pk ? "1" : "-1"}});
    int n = mc::Thorough() ? 3 : 2;
    std::vector<Rec> all;
    static const V vs[] = {V(), V(1), V(2)};
    int last = 0;
    for (int i = 0; i < n; i++) {
        int c = mc::Choose(12);
        bool cut = i + 1 == n || mc::ChooseBool();
        // in one commit the order of partitions does not matter, nor that of rows of different keys
        all.push_back(Rec{{c & 1, vs[c / 4], (c >> 1) & 1}, INS});
        t.pending.push_back(all.back());
        t.Flush(0, {{"p", std::to_string(c & 1)}});
        if (cut) t.Commit();
        last = c;
    }
    (void)last;
    auto rows = Sorted(pk ? FoldBy(all, {0, 2}) : [&] {
        std::vector<Row> r;
        for (auto& x : all) r.push_back(x.row);
        return r;
    }());
    static const auto preds = Predicates(names);
    for (auto& p : preds) {
        auto want = Keep(rows, p.eval);
        Scan sc;
        sc.predicate = p.p;
        Read rd;
        rd.predicate = p.p;
        rd.filter = true;
        auto got = Sorted(t.Now(rd, sc));
        MC_CHECK(got == want, "filtered", "%s: reads %s instead of %s", p.text.c_str(), Show(got).c_str(),
                 Show(want).c_str());
        rd.filter = false;
        got = Sorted(t.Now(rd, sc));
        MC_CHECK(std::includes(got.begin(), got.end(), want.begin(), want.end()), "lost-row",
                 "%s: reads %s, which lacks some of %s", p.text.c_str(), Show(got).c_str(), Show(want).c_str());
        MC_CHECK(std::includes(rows.begin(), rows.end(), got.begin(), got.end()), "invented-row",
                 "%s: reads %s, which is not part of %s", p.text.c_str(), Show(got).c_str(), Show(rows).c_str());
        mc::Steps(2);
    }
    ff::CollectStats() = true;
    mc::Nontrivial();
    mc::State(mc::Hash().S(Show(rows)).U(pk).h);
}

MC_SCENARIO(scan_filter, mc::BOTH, 4,
            "tables with and without a key, all placements of 3 (thorough 4) rows in 2 partitions and 2 buckets, in one "
            "or more commits; every set of partitions, every bucket, every limit up to 4, split sizes small and large") {
    bool pk = mc::ChooseBool();
    std::vector<std::string> names = {"p", "k", "v"};
    Table t(names, {"p"}, pk ? std::vector<std::string>{"p", "k"} : std::vector<std::string>{},
            {{"bucket", "2"}, {"bucket-key", "k"}});
    int n = mc::Thorough() ? 4 : 3;
    struct Placed {
        Row row;
        int part, bucket;
    };
    std::vector<Placed> all;
    for (int i = 0; i < n; i++) {
        int c = mc::Choose(4);
        bool cut = i + 1 == n || mc::ChooseBool();
        all.push_back({{c & 1, i, 10 + i}, c & 1, c >> 1});
        t.pending.push_back(Rec{all.back().row, INS});
        t.Flush(c >> 1, {{"p", std::to_string(c & 1)}});
        if (cut) t.Commit();
    }
    auto want = [&](const std::set<int>& parts, std::optional<int> bucket) {
        std::vector<Row> out;
        for (auto& p : all) {
            if (!parts.empty() && !parts.count(p.part)) continue;
            if (bucket && p.bucket != *bucket) continue;
            out.push_back(p.row);
        }
        return Sorted(out);
    };
    for (const std::set<int>& parts : std::vector<std::set<int>>{{}, {0}, {1}, {0, 1}, {7}}) {
        for (int b = -1; b < 2; b++) {
            for (const char* size : {"1", "1000000"}) {
                Scan sc;
                sc.more = {{"source.split.target-size", size}, {"source.split.open-file-cost", "1"}};
                for (int p : parts) sc.parts.push_back({{"p", std::to_string(p)}});
                if (b >= 0) sc.bucket = b;
                auto got = Sorted(t.Now({}, sc)), x = want(parts, sc.bucket);
                MC_CHECK(got == x, "content", "%zu partitions, bucket %d, splits of %s: reads %s instead of %s",
                         parts.size(), b, size, Show(got).c_str(), Show(x).c_str());
                for (int l = 1; l <= n + 1 && parts.empty() && b < 0; l++) {
                    sc.limit = l;
                    auto lim = Sorted(t.Now({}, sc));
                    MC_CHECK(static_cast<int>(lim.size()) >= std::min(l, n), "limit", "limit %d of %d rows: reads %s", l,
                             n, Show(lim).c_str());
                    MC_CHECK(std::includes(got.begin(), got.end(), lim.begin(), lim.end()), "invented-row",
                             "limit %d: reads %s", l, Show(lim).c_str());
                }
            }
        }
    }
    mc::Nontrivial();
    mc::State(mc::Hash().S(Show(want({}, {}))).U(pk).h);
}

MC_SCENARIO(travel, mc::BOTH, 4,
            "all histories of up to 4 (thorough 5) commits of one row (2 keys, 2 kinds) or an empty commit; every "
            "snapshot is read by its number, before and after the next ones and after the writer went away") {
    bool pk = mc::ChooseBool();
    Table t(kKV, {}, pk ? std::vector<std::string>{"k"} : std::vector<std::string>{}, {{"bucket", pk ? "1" : "-1"}});
    std::vector<Rec> all;
    std::vector<std::vector<Row>> at;
    int n = 1 + mc::Choose(mc::Thorough() ? 5 : 4);
    auto check = [&](int id) {
        Scan sc;
        sc.more = {{"scan.snapshot-id", std::to_string(id)}};
        if (mc::Thorough()) sc.more["scan.mode"] = id % 2 ? "from-snapshot" : "from-snapshot-full";
        auto g = ScanAndRead(1, sc, {});
        MC_CHECK(g.ok(), "read-refused", "snapshot %d: %s", id, g.status().ToString().c_str());
        MC_CHECK(g.value().snapshot == id, "wrong-snapshot", "asked for snapshot %d, planned %ld", id,
                 static_cast<long>(g.value().snapshot.value_or(-1)));
        auto got = Sorted(Rows(g.value().recs));
        MC_CHECK(got == at[id - 1], "content", "snapshot %d of %zu: reads %s instead of %s", id, at.size(),
                 Show(got).c_str(), Show(at[id - 1]).c_str());
    };
    for (int i = 0; i < n; i++) {
        int c = mc::Choose(pk ? 4 : 2);
        all.push_back(Rec{{c & 1, 10 + i, i}, c & 2 ? DEL : INS});
        t.pending.push_back(all.back());
        t.Flush();
        t.Commit();
        std::vector<Row> rows;
        if (pk) {
            rows = FoldBy(all, {0});
        } else {
            for (auto& r : all) rows.push_back(r.row);
        }
        at.push_back(Sorted(rows));
        check(i + 1);
        auto g = ScanAndRead(1, {}, {});
        MC_CHECK(g.ok() && g.value().snapshot == i + 1, "not-latest", "the plan is not of the latest snapshot %d", i + 1);
    }
    for (int i = 0; i < n; i++) check(i + 1);
    Scan sc;
    sc.more = {{"scan.snapshot-id", std::to_string(n + 1)}};
    auto g = ScanAndRead(1, sc, {});
    MC_CHECK(!g.ok(), "future", "a snapshot that does not exist is read as %s", Show(Rows(g.value().recs)).c_str());
    mc::Nontrivial();
    mc::State(mc::Hash().S(Show(at.back())).U(n).h);
}

// ---- following a table -------------------------------------------------------------------------------------------
struct Change {
    bool append = true;
    std::vector<Rec> recs;      // what this snapshot changed
    std::vector<Row> content;   // what the table holds afterwards
};
std::vector<std::pair<int, Row>> Bag(const std::vector<Rec>& v) {
    std::vector<std::pair<int, Row>> out;
    for (auto& r : v) out.emplace_back(static_cast<int>(r.kind), r.row);
    std::sort(out.begin(), out.end());
    return out;
}
std::string ShowBag(const std::vector<std::pair<int, Row>>& b) {
    std::string s;
    for (auto& [k, r] : b) s += "+-+-"[k == 1 ? 3 : k == 3 ? 1 : 0] + Show(r) + " ";
    return s.empty() ? "nothing" : s;
}

MC_SCENARIO(follow, mc::BOTH, 4,
            "all sequences of up to 5 (thorough 6) steps: commit a row, commit two rows, drop the oldest snapshots, ask "
            "for the next plan; 7 ways to start; tables with and without a key") {
    bool pk = mc::ChooseBool();
    static const struct {
        const char* mode;
        int id;
    } starts[] = {{"latest-full", 0}, {"latest", 0}, {"from-snapshot", 1}, {"from-snapshot", 2}, {"from-snapshot", 3},
                  {"from-snapshot-full", 1}, {"from-snapshot-full", 2}};
    auto& start = starts[mc::Choose(7)];
    std::string mode = start.mode;
    Table t(kKV, {}, pk ? std::vector<std::string>{"k"} : std::vector<std::string>{}, {{"bucket", pk ? "1" : "-1"}});
    Scan sc;
    sc.streaming = true;
    sc.more = {{"scan.mode", mode}};
    if (start.id) sc.more["scan.snapshot-id"] = std::to_string(start.id);
    auto scan = Scanner(1, sc);
    MC_CHECK(scan.ok(), "scan-refused", "streaming scan: %s", scan.status().ToString().c_str());
    std::vector<Change> log;
    std::vector<Rec> all;
    int earliest = 1, row = 0;
    // what the follower is to deliver next; 0: not decided yet
    int next = 0;
    bool asked_empty = false, dead = false;
    auto ask = [&] {
        auto plan = scan.value()->CreatePlan();
        int latest = static_cast<int>(log.size());
        if (!plan.ok()) {
            // refusing is right only if what comes next is gone, or was never there
            bool gone = next ? next < earliest : false;
            bool ahead = next ? next > latest + 1 : start.id > latest;
            MC_CHECK(gone || ahead, "refused", "%s %d: plan refused, although snapshot %d is next of %d..%d: %s", start.mode,
                     start.id, next, earliest, latest, plan.status().ToString().c_str());
            mc::Outcome(gone ? "expired" : "ahead");
            dead = true;
            return 0;
        }
        std::vector<Rec> recs;
        if (!plan.value()->Splits().empty()) {
            auto r = ReadSplits(1, {}, plan.value()->Splits());
            MC_CHECK(r.ok(), "read-refused", "reading a plan: %s", r.status().ToString().c_str());
            recs = r.value();
        }
        bool full = mode == "latest-full" || mode == "from-snapshot-full";
        auto expect = [&](const std::vector<Rec>& x, int64_t id, const char* what) {
            auto a = Bag(recs), b = Bag(x);
            MC_CHECK(a == b, "content", "%s %d: the plan of %s %ld reads %s instead of %s", start.mode, start.id, what,
                     static_cast<long>(id), ShowBag(a).c_str(), ShowBag(b).c_str());
            MC_CHECK(plan.value()->SnapshotId() == id, "wrong-snapshot", "the plan of %s %ld says snapshot %ld", what,
                     static_cast<long>(id), static_cast<long>(plan.value()->SnapshotId().value_or(-1)));
        };
        auto nothing = [&](const char* why) {
            MC_CHECK(recs.empty(), "unexpected", "%s %d: a plan reads %s although %s", start.mode, start.id,
                     ShowBag(Bag(recs)).c_str(), why);
        };
        if (!next) {
            if (!latest) {
                nothing("the table is empty");
                asked_empty = true;
                return 0;
            }
            if (full) {
                int at = mode == "latest-full" ? latest : std::max(start.id, earliest);
                std::vector<Rec> x;
                for (auto& r : log[at - 1].content) x.push_back(Rec{r, INS});
                expect(x, at, "all of snapshot");
                next = at + 1;
                return 1;
            }
            next = mode == "latest" ? (asked_empty ? 1 : latest + 1) : std::max(start.id, earliest);
            nothing("following has only started");
            return 1;
        }
        if (next > latest) {
            nothing("there is no further snapshot");
            return 0;
        }
        expect(log[next - 1].recs, next, "the change of snapshot");
        next++;
        return 1;
    };
    int steps = mc::Thorough() ? 6 : 5;
    for (int i = 0; i < steps && !dead; i++) {
        int op = mc::Choose(4);
        if (op < 2) {
            Change c;
            for (int j = 0; j <= op; j++) {
                Rec r{{row % 2, 10 + row, j}, pk && row % 3 == 2 ? DEL : INS};
                row++;
                c.recs.push_back(r);
                all.push_back(r);
            }
            t.pending = c.recs;
            t.Flush();
            t.Commit();
            if (pk) {
                c.content = FoldBy(all, {0});
            } else {
                for (auto& r : all) c.content.push_back(r.row);
            }
            log.push_back(c);
        } else if (op == 2) {
            if (static_cast<int>(log.size()) <= earliest) mc::Prune();
            auto c = tb::Must(tb::Committer(0, "u", {{"enable-pk-commit-in-inte-test", ""},
                                                     {"snapshot.num-retained.min", "1"},
                                                     {"snapshot.num-retained.max", "1"},
                                                     {"snapshot.time-retained", "1 ms"}}), "committer");
            auto e = c->Expire();
            MC_CHECK(e.ok(), "expire-refused", "%s", e.status().ToString().c_str());
            earliest = static_cast<int>(log.size());
        } else {
            ask();
        }
    }
    for (int i = 0; i < static_cast<int>(log.size()) + 3 && !dead; i++) ask();
    if (!dead && next) {
        MC_CHECK(next > static_cast<int>(log.size()), "behind", "%s %d: after enough plans snapshot %d of %zu is not yet "
                 "delivered", start.mode, start.id, next, log.size());
    }
    mc::Nontrivial();
    mc::State(mc::Hash().U(log.size()).U(next).U(earliest).S(mode).h);
}
}  // namespace
