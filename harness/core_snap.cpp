// Life of snapshots: finding them, expiring them, cleaning up around them, creating tables.
#include "core/history.h"
#include "paimon/core/utils/snapshot_manager.h"
#include "paimon/orphan_files_cleaner.h"

namespace {

std::string T(const std::string& rel) { return std::string(tb::kTable) + rel; }

// ---- finding snapshots -------------------------------------------------------------------------

std::string SnapJson(int64_t id, const std::string& user) {
    return "{\"version\":3,\"id\":" + std::to_string(id) +
           ",\"schemaId\":0,\"baseManifestList\":\"manifest-list-a\",\"deltaManifestList\":\"manifest-list-b\","
           "\"commitUser\":\"" +
           user + "\",\"commitIdentifier\":" + std::to_string(id) +
           ",\"commitKind\":\"APPEND\",\"timeMillis\":1700000000000,\"logOffsets\":{},\"totalRecordCount\":0,"
           "\"deltaRecordCount\":0,\"changelogRecordCount\":0}";
}

const std::vector<std::string>& Hints() {
    static std::vector<std::string> h{"<none>", "",  "0",  "1",  "2",  "3",   "8",  "9",  "10",
                                      "11",     "12", "13", "90", "99", "-1",  "x",  "1x", "9223372036854775807",
                                      "99999999999999999999"};
    return h;
}

MC_SCENARIO(find, mc::BOTH, 3,
            "every contiguous range of snapshots within 1..3 and within 8..12 (and none at all), every LATEST and "
            "EARLIEST hint of 19 (stale, ahead, torn, garbage, missing), with and without temporary files around, "
            "and (when hints are sane) each single read failing") {
    Env e{Prepared{}};
    tb::RegisterAll();
    struct R { int a, b; };
    static const std::vector<R> ranges = [] {
        std::vector<R> r{{0, -1}};
        for (int a = 1; a <= 3; a++) for (int b = a; b <= 3; b++) r.push_back({a, b});
        for (int a = 8; a <= 12; a++) for (int b = a; b <= 12; b++) r.push_back({a, b});
        return r;
    }();
    R r = ranges[mc::Choose(static_cast<int>(ranges.size()))];
    const std::string& latest = Hints()[mc::Choose(static_cast<int>(Hints().size()))];
    const std::string& earliest = Hints()[mc::Choose(static_cast<int>(Hints().size()))];
    bool junk = mc::ChooseBool();
    e.world.MkParents(T("/snapshot"));
    for (int i = r.a; i <= r.b; i++) {
        e.world.Put(T("/snapshot/snapshot-" + std::to_string(i)), SnapJson(i, i % 2 ? "odd" : "even"));
    }
    if (latest != "<none>") e.world.Put(T("/snapshot/LATEST"), latest);
    if (earliest != "<none>") e.world.Put(T("/snapshot/EARLIEST"), earliest);
    if (junk) {
        e.world.Put(T("/snapshot/.snapshot-13.00000000-0000-4000-8000-000000000001.tmp"), "{");
        e.world.Put(T("/snapshot/.LATEST.00000000-0000-4000-8000-000000000002.tmp"), "7");
    }
    auto fs = std::make_shared<w::MemFs>(&e.p[0]);
    SnapshotManager sm(fs, tb::kTable);
    mc::SetDeviationBound(1);
    w::FaultGate g;
    g.may = [&](const w::OpInfo& op) { return mc::Thorough() || !junk; };
    bool sane = latest == "<none>" || latest == std::to_string(r.b);
    if (sane) e.p[0].gate = &g;
    auto l = sm.LatestSnapshotId();
    auto ea = sm.EarliestSnapshotId();
    auto of = sm.LatestSnapshotOfUser("odd");
    auto ls = sm.LatestSnapshot();
    e.p[0].gate = nullptr;
    mc::Nontrivial();
    bool some = r.b >= r.a;
    bool faulty = g.hits > 0;
    MC_CHECK(l.ok() || faulty, "latest-error", "latest: %s", l.status().ToString().c_str());
    MC_CHECK(ea.ok() || faulty, "earliest-error", "earliest: %s", ea.status().ToString().c_str());
    MC_CHECK(ls.ok() || faulty, "latest-error", "latest: %s", ls.status().ToString().c_str());
    MC_CHECK(of.ok() || faulty, "of-user-error", "latest of user: %s", of.status().ToString().c_str());
    if (l.ok()) {
        MC_CHECK(l.value().has_value() == some && (!some || *l.value() == r.b), "latest",
                 "latest of %d..%d with hint '%s' is %ld", r.a, r.b, latest.c_str(), l.value().value_or(-1));
    }
    if (ea.ok()) {
        int64_t want = r.a;
        for (int i = r.a; i <= r.b; i++) {
            if (earliest == std::to_string(i) || earliest == std::to_string(i) + "x") want = i;
        }
        bool ok = ea.value().has_value() == some && (!some || *ea.value() == want || *ea.value() == r.a);
        MC_CHECK(ok, "earliest", "earliest of %d..%d with hint '%s' is %ld", r.a, r.b, earliest.c_str(),
                 ea.value().value_or(-1));
    }
    if (ls.ok()) {
        MC_CHECK(ls.value().has_value() == some && (!some || ls.value()->Id() == r.b), "latest",
                 "latest of %d..%d with hint '%s'", r.a, r.b, latest.c_str());
    }
    if (of.ok()) {
        int64_t lo = r.a;
        for (int i = r.a; i <= r.b; i++) {
            if (earliest == std::to_string(i)) lo = i;
        }
        int64_t want = 0, want_all = 0;
        for (int i = r.a; i <= r.b; i++) {
            if (i % 2 == 1) {
                want_all = i;
                if (i >= lo) want = i;
            }
        }
        int64_t got = of.value().has_value() ? of.value()->Id() : 0;
        MC_CHECK(got == want || got == want_all, "of-user", "latest of user in %d..%d is %ld, expected %ld", r.a, r.b,
                 got, want_all);
    }
    mc::State(mc::Hash().U(r.a).U(r.b).S(latest).S(earliest).U(junk).h);
}

// ---- expiring --------------------------------------------------------------------------------

// A table with `n` snapshots one second apart; history h picks what the commits do.
const Prepared& Chain(int h, int n, bool merging) {
    std::vector<Ask> asks;
    auto f = [](int i) { return "data-c" + std::to_string(i) + ".orc"; };
    for (int i = 1; i <= n; i++) {
        switch (h) {
            case 0:  // appends only
                asks.push_back(Append("old", i, {Add(i % 2, 0, f(i), i)}));
                break;
            case 1:  // each commit replaces the file of the previous one
                if (i == 1) {
                    asks.push_back(Append("old", i, {Add(0, 0, f(i), i)}));
                } else {
                    asks.push_back(Append("old", i, {Del(0, 0, f(i - 1), i - 1), Add(0, 0, f(i), i)}));
                }
                break;
            case 2:  // overwrites of alternating partitions
                asks.push_back(Over("old", i, {i % 2}, {Add(i % 2, i % 2, f(i), i), Add((i % 2), 0, "data-x" + std::to_string(i) + ".orc", 1)}));
                break;
            default:  // fill, drop, fill
                if (i % 3 == 0) {
                    asks.push_back(Over("old", i, {0}, {}, Ask::DROP));
                } else {
                    asks.push_back(Append("old", i, {Add(0, 0, f(i), i), Add(1, 1, "data-y" + std::to_string(i) + ".orc", 2)}));
                }
        }
    }
    tb::Opts o = With(TableOpts(), merging ? tb::Opts{{"manifest.merge-min-count", "2"},
                                                      {"manifest.full-compaction-threshold-size", "1b"}}
                                           : tb::Opts{});
    std::string key = "chain" + std::to_string(h) + "," + std::to_string(n) + (merging ? "m" : "");
    return PrepareTimed(key, asks, o, 1000);
}

Result<int32_t> Expire(int proc, int min, int max, int64_t keep_ms, int limit, bool clean_dirs) {
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<FileStoreCommit> c,
                           tb::Committer(proc, "expirer",
                                         {{"snapshot.num-retained.min", std::to_string(min)},
                                          {"snapshot.num-retained.max", std::to_string(max)},
                                          {"snapshot.time-retained", std::to_string(keep_ms) + "ms"},
                                          {"snapshot.expire.limit", std::to_string(limit)},
                                          {"snapshot.clean-empty-directories", clean_dirs ? "true" : "false"}}));
    return c->Expire();
}

// First snapshot that the policy keeps.
int64_t FirstKept(const std::vector<ob::Snap>& s, int min, int max, int64_t older_than, int limit) {
    size_t i = 0;
    int deleted = 0;
    while (i < s.size()) {
        int64_t left = static_cast<int64_t>(s.size() - i);
        if (left <= min || deleted >= limit) break;
        bool too_many = left > max;
        bool old = s[i].time < older_than;
        if (!too_many && !old) break;
        i++;
        deleted++;
    }
    return s[i].id;
}

// The files that must be there for the snapshots from `first` on.
void CheckKept(const w::World& w, int64_t first, const std::vector<ob::Snap>& before) {
    auto ids = ob::SnapIds(w, tb::kTable);
    auto now = ob::All(w, tb::kTable, first);
    size_t k = 0;
    for (auto& s : before) {
        if (s.id < first) continue;
        MC_CHECK(k < now.size() && now[k].id == s.id, "lost-snapshot", "snapshot %ld, which is to be kept, is gone",
                 s.id);
        MC_CHECK(LiveOf(now[k]) == LiveOf(s), "changed-snapshot", "snapshot %ld changed", s.id);
        CheckReadable(w, now[k]);
        k++;
    }
}

MC_SCENARIO(policy, mc::BOTH, 3,
            "chains of 0..5 snapshots of 4 kinds (with and without manifest merging, starting at 1 or after an "
            "earlier expiry), every minimum and maximum count of 1..6, 3 (thorough 7) ages, 4 limits, with and "
            "without removal of empty directories") {
    int n = mc::Choose(6);
    int h = n ? mc::Choose(4) : 0;
    bool merging = n >= 2 && mc::ChooseBool();
    bool earlier = n >= 3 && mc::ChooseBool();
    int min = 1 + mc::Choose(mc::Thorough() ? 6 : 4), max = 1 + mc::Choose(6);
    int age = mc::Thorough() ? mc::Choose(7) : mc::Pick({0, 3, 6});
    int limit = mc::Pick({0, 1, 2, 100});
    bool clean = mc::ChooseBool();
    const Prepared& p = Chain(h, n, merging);
    Env e(p);
    if (earlier) {
        auto r = Expire(1, n - 1, 100, 0, 100, false);
        if (!r.ok()) mc::Fail("setup", "%s", r.status().ToString().c_str());
    }
    auto before = ob::All(e.world, tb::kTable);
    // age k: the k newest snapshots are within the time to keep
    int64_t now_ms = 1700000100000;
    det::now_us = now_ms * 1000;
    int64_t keep = 0;
    if (!before.empty()) {
        keep = age == 0 ? 0
               : age >= static_cast<int>(before.size()) ? 100000000
                                                        : now_ms - before[before.size() - age].time + 500;
    }
    auto files = e.world.Files(T("/"));
    auto r = Expire(0, min, max, keep, limit, clean);
    if (max < min) {
        MC_CHECK(!r.ok(), "bad-config", "a maximum below the minimum is accepted");
        MC_CHECK(e.world.Files(T("/")) == files, "bad-config", "files are deleted although the call is refused");
        return;
    }
    MC_CHECK(r.ok(), "refused", "%s", r.status().ToString().c_str());
    if (before.empty()) {
        MC_CHECK(r.value() == 0, "count", "%d snapshots expired in an empty table", r.value());
        return;
    }
    int64_t first = FirstKept(before, min, max, now_ms - keep, limit);
    if (first != before[0].id) mc::Nontrivial();
    CheckKept(e.world, first, before);
    auto ids = ob::SnapIds(e.world, tb::kTable);
    MC_CHECK(!ids.empty() && ids[0] == first, "kept-too-much",
             "of %ld..%ld (at least %d, at most %d, limit %d) the first kept is %ld, expected %ld", before[0].id,
             before.back().id, min, max, limit, ids.empty() ? -1 : ids[0], first);
    MC_CHECK(r.value() == first - before[0].id, "count", "%d snapshots reported, %ld expired", r.value(),
             first - before[0].id);
    // nothing else was lost, and nothing was left behind
    std::set<std::string> need, was;
    for (auto& s : before) {
        for (auto& [k, en] : s.live) (s.id >= first ? need : was).insert(DataPath(en));
        for (auto* ms : {&s.base_m, &s.delta_m}) {
            for (auto& m : *ms) (s.id >= first ? need : was).insert(T("/manifest/" + m.name));
        }
        (s.id >= first ? need : was).insert(T("/manifest/" + s.base_list));
        (s.id >= first ? need : was).insert(T("/manifest/" + s.delta_list));
        (s.id >= first ? need : was).insert(T("/snapshot/snapshot-" + std::to_string(s.id)));
    }
    for (auto& f : files) {
        bool there = e.world.t.count(f) > 0;
        if (was.count(f) && !need.count(f)) {
            MC_CHECK(!there, "left-behind", "%s belongs to expired snapshots only and is left behind", f.c_str());
        } else {
            MC_CHECK(there, "lost-file", "%s was deleted", f.c_str());
        }
    }
    // the table goes on
    SnapshotManager sm(std::make_shared<w::MemFs>(&e.p[2]), tb::kTable);
    auto ea = sm.EarliestSnapshotId();
    MC_CHECK(ea.ok() && ea.value() == first, "earliest", "earliest is %ld, expected %ld",
             ea.ok() ? ea.value().value_or(-1) : -2, first);
    mc::State(mc::Hash().U(h).U(n).U(first).U(merging).U(earlier).U(clean).h);
}

MC_SCENARIO(expire_crash, mc::BOTH, 3,
            "chains of 2..4 (thorough 5) snapshots of 4 kinds, with and without manifest merging, keeping 1 or 2, the "
            "expiring process stopped at each of its changes to the store (torn writes included); then a second run, "
            "and a commit") {
    int n = 2 + mc::Choose(mc::Thorough() ? 4 : 3);
    int h = mc::Choose(4);
    bool merging = mc::ChooseBool();
    int min = 1 + mc::Choose(2);
    const Prepared& p = Chain(h, n, merging);
    Env e(p);
    auto before = ob::All(e.world, tb::kTable);
    det::now_us = 1700000100000LL * 1000;
    int64_t first = FirstKept(before, min, min, INT64_MAX, 100);
    mc::SetDeviationBound(mc::Thorough() ? 2 : 1);
    w::CrashGate g(&e.p[0]);
    e.p[0].gate = &g;
    auto r = Expire(0, min, min, 0, 100, true);
    e.p[0].gate = nullptr;
    CheckKept(e.world, first, before);
    if (e.p[0].dead) mc::Nontrivial();
    if (mc::Thorough() && e.p[0].dead) {
        w::CrashGate g1(&e.p[1]);
        e.p[1].gate = &g1;
        (void)Expire(1, min, min, 0, 100, true);
        e.p[1].gate = nullptr;
        CheckKept(e.world, first, before);
    }
    r = Expire(2, min, min, 0, 100, true);
    MC_CHECK(r.ok(), "rerun", "expiring again after an interruption: %s", r.status().ToString().c_str());
    CheckKept(e.world, first, before);
    auto ids = ob::SnapIds(e.world, tb::kTable);
    MC_CHECK(ids[0] == first, "not-converged", "after the second run the first snapshot is %ld, expected %ld", ids[0],
             first);
    History hist = p.h;
    Ask a = Append("later", 1, {Add(0, 0, "data-later.orc", 2)});
    PutData(&e.world, a);
    hist.asks.push_back(a);
    Status s = Do(3, a, {});
    MC_CHECK(s.ok(), "blocked", "nobody can commit any more: %s", s.ToString().c_str());
    auto k = CheckHistory(e.world, hist);
    MC_CHECK(k[0] == 1, "lost", "the later commit is not in the table");
    mc::State(mc::Hash().U(h).U(n).U(min).U(merging).U(g.at).h);
}

MC_SCENARIO(expire_fault, mc::BOTH, 3,
            "chains of 2..4 snapshots of 4 kinds, with and without manifest merging, keeping 1 or 2, any one (thorough "
            "two of the changing) store operations failing in any way; then a second run, and a commit") {
    int n = 2 + mc::Choose(3);
    int h = mc::Choose(4);
    bool merging = mc::ChooseBool();
    int min = 1 + mc::Choose(2);
    const Prepared& p = Chain(h, n, merging);
    Env e(p);
    auto before = ob::All(e.world, tb::kTable);
    det::now_us = 1700000100000LL * 1000;
    int64_t first = FirstKept(before, min, min, INT64_MAX, 100);
    mc::SetDeviationBound(mc::Thorough() ? 2 : 1);
    w::FaultGate g;
    if (mc::Thorough()) g.may = [](const w::OpInfo& op) { return w::Mutates(op.op) || op.op == w::EXISTS; };
    e.p[0].gate = &g;
    auto r = Expire(0, min, min, 0, 100, true);
    e.p[0].gate = nullptr;
    CheckKept(e.world, first, before);
    if (g.hits) mc::Nontrivial();
    MC_CHECK(r.ok() || g.hits, "refused", "%s", r.status().ToString().c_str());
    r = Expire(2, min, min, 0, 100, true);
    CheckKept(e.world, first, before);
    MC_CHECK(r.ok(), "rerun", "expiring again after a failure: %s", r.status().ToString().c_str());
    History hist = p.h;
    Ask a = Append("later", 1, {Add(0, 0, "data-later.orc", 2)});
    PutData(&e.world, a);
    hist.asks.push_back(a);
    Status s = Do(3, a, {});
    MC_CHECK(s.ok(), "blocked", "nobody can commit any more: %s", s.ToString().c_str());
    auto k = CheckHistory(e.world, hist);
    MC_CHECK(k[0] == 1, "lost", "the later commit is not in the table");
    mc::State(mc::Hash().U(h).U(n).U(min).U(merging).U(g.hits ? e.p[0].ops : 0).h);
}

MC_SCENARIO(expire_race, mc::BOTH, 4,
            "a committer (append or overwrite) and an expirer, or two expirers, on chains of 3 snapshots of 4 kinds "
            "with and without manifest merging, all interleavings of their operations on snapshots and of all their "
            "deletions with at most 1 (thorough 2) switches away from a process that could go on") {
    int h = mc::Choose(4);
    bool merging = mc::ChooseBool();
    int other = mc::Choose(3);  // append, overwrite, second expirer
    const Prepared& p = Chain(h, 3, merging);
    Env e(p);
    auto before = ob::All(e.world, tb::kTable);
    det::now_us = 1700000100000LL * 1000;
    History hist = p.h;
    Ask a = other == 1 ? Over("later", 1, {0}, {Add(0, 0, "data-later.orc", 2)})
                       : Append("later", 1, {Add(0, 0, "data-later.orc", 2)});
    PutData(&e.world, a);
    if (other < 2) hist.asks.push_back(a);
    mc::SetDeviationBound(mc::Thorough() ? 2 : 1);
    Status s;
    Result<int32_t> r1 = 0, r2 = 0;
    int sw;
    {
        w::Interleaving il([](const w::OpInfo& op) {
            return op.op == w::DELETE || op.path.find("/snapshot") != std::string::npos ||
                   op.path2.find("/snapshot") != std::string::npos;
        });
        il.Spawn(&e.p[0], [&] { r1 = Expire(0, 1, 1, 0, 100, true); });
        il.Spawn(&e.p[1], [&] {
            if (other < 2) {
                s = Do(1, a, {});
            } else {
                r2 = Expire(1, 2, 2, 0, 100, true);
            }
        });
        sw = il.Run();
    }
    if (sw > 1) mc::Nontrivial();
    auto ids = ob::SnapIds(e.world, tb::kTable);
    MC_CHECK(!ids.empty(), "lost-snapshot", "no snapshot is left");
    if (other < 2) {
        // the newest of the old snapshots and what was built on it; the expirer may have run before
        // or after the commit
        auto now = ob::All(e.world, tb::kTable, ids.back());
        MC_CHECK(now.size() == 1, "lost-snapshot", "the latest snapshot is gone");
        CheckReadable(e.world, now[0]);
        if (s.ok()) {
            MC_CHECK(ids.back() == 4, "lost-update", "the commit reported success, the latest snapshot is %ld",
                     ids.back());
            Live want = p.h.base;
            Apply(a, &want);
            MC_CHECK(LiveOf(now[0]) == want, "lost-update", "snapshot 4 holds {%s}, expected {%s}",
                     Show(LiveOf(now[0])).c_str(), Show(want).c_str());
        } else {
            mc::Outcome("commit reports failure");
            Ask again = a;
            again.kind = a.kind == Ask::APPEND ? Ask::FILTER : Ask::FILTER_OVERWRITE;
            Status s2 = Do(2, again, {});
            MC_CHECK(s2.ok(), "blocked", "retrying: %s", s2.ToString().c_str());
        }
    } else {
        CheckKept(e.world, 3, before);
    }
    auto r3 = Expire(3, 1, 1, 0, 100, true);
    MC_CHECK(r3.ok(), "rerun", "expiring again: %s", r3.status().ToString().c_str());
    auto last = ob::All(e.world, tb::kTable, ob::SnapIds(e.world, tb::kTable).back());
    CheckReadable(e.world, last[0]);
}

// ---- orphan files --------------------------------------------------------------------------------

constexpr int64_t kNow = 1700000000000, kDay = 86400000;

Result<std::set<std::string>> Clean(int proc, std::function<bool(const std::string&)> keep = nullptr,
                                    int64_t older_than = kNow - kDay) {
    CleanContextBuilder b(tb::kTable);
    b.SetOptions(tb::BaseOpts(proc)).WithOlderThanMs(older_than).WithMemoryPool(tb::Pool()).WithExecutor(tb::Exec());
    if (keep) b.WithFileRetainCondition(keep);
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<CleanContext> ctx, b.Finish());
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<OrphanFilesCleaner> c, OrphanFilesCleaner::Create(std::move(ctx)));
    return c->Clean();
}

struct Junk {
    const char* path;
    bool cleanable;
};
const std::vector<Junk>& JunkFiles() {
    static std::vector<Junk> j{{"/p=0/bucket-0/data-orphan.orc", true},
                               {"/p=1/bucket-1/data-orphan.parquet", true},
                               {"/p=7/bucket-0/data-orphan.avro", true},
                               {"/p=0/bucket-0/other-file.orc", false},
                               {"/p=0/bucket-0/data-orphan.index", false},
                               {"/p=0/bucket-0/changelog-orphan.orc", false},
                               {"/manifest/manifest-orphan-0", true},
                               {"/manifest/manifest-list-orphan-0", true},
                               {"/manifest/index-manifest-orphan-0", false},
                               {"/snapshot/.snapshot-9.00000000-0000-4000-8000-00000000aaaa.tmp", true},
                               {"/snapshot/notes.txt", false},
                               {"/p=0/data-orphan.orc", false},
                               {"/elsewhere/data-orphan.orc", false}};
    return j;
}

std::set<std::string> Referenced(const w::World& w) {
    std::set<std::string> need;
    for (auto& s : ob::All(w, tb::kTable)) {
        for (auto* ms : {&s.base_m, &s.delta_m}) {
            for (auto& m : *ms) {
                need.insert(T("/manifest/" + m.name));
                for (auto& en : m.entries) {
                    if (en.kind == 0) need.insert(DataPath(en));
                }
            }
        }
        need.insert(T("/manifest/" + s.base_list));
        need.insert(T("/manifest/" + s.delta_list));
        need.insert(T("/snapshot/snapshot-" + std::to_string(s.id)));
    }
    return need;
}

// Ages every file of the table, so that only references protect them.
void Age(w::World* w, int64_t mtime) {
    for (auto& [p, n] : w->t) {
        if (p.compare(0, strlen(tb::kTable), tb::kTable) == 0) n.mtime = mtime;
    }
}

MC_SCENARIO(orphan, mc::BOTH, 3,
            "tables with 0..4 snapshots of 4 kinds, with and without manifest merging, all files old; 13 stray files "
            "of recognised and unrecognised kinds, old, exactly at the threshold, or new; with and without a retain "
            "condition; with and without tags, branches and external paths (which must be refused); any one store "
            "operation failing in any way") {
    int n = mc::Choose(5);
    int h = n ? mc::Choose(4) : 0;
    bool merging = n >= 2 && mc::ChooseBool();
    int age = mc::Choose(3);
    int special = mc::Choose(5);  // none, tag, branch, external path, retain condition
    const Prepared& p = Chain(h, n, merging);
    Env e(p);
    Age(&e.world, kNow - 10 * kDay);
    int64_t at = age == 0 ? kNow - 2 * kDay : age == 1 ? kNow - kDay : kNow - kDay / 2;
    for (auto& j : JunkFiles()) {
        e.world.Put(T(j.path), "junk");
        e.world.t[T(j.path)].mtime = at;
    }
    auto need = Referenced(e.world);
    if (special == 1) {
        e.world.Put(T("/tag/tag-one"), SnapJson(1, "x"));
    } else if (special == 2) {
        e.world.Put(T("/branch/branch-b/schema/schema-0"), "{}");
    } else if (special == 3) {
        auto& s = e.world.t[T("/schema/schema-0")].data;
        auto i = s.find("\"options\"");
        i = s.find('{', i);
        if (i == std::string::npos) mc::Fail("setup", "no options in the schema file");
        s.insert(i + 1, "\"data-file.external-paths\":\"FILE:///elsewhere\",\"data-file.external-paths.strategy\":"
                        "\"round-robin\",");
    }
    auto files = e.world.Files(T("/"));
    mc::SetDeviationBound(1);
    w::FaultGate g;
    e.p[0].gate = &g;
    auto keep = [](const std::string& name) { return name.find("parquet") != std::string::npos; };
    auto r = special == 4 ? Clean(0, keep) : Clean(0);
    e.p[0].gate = nullptr;
    if (g.hits) mc::Nontrivial();
    std::set<std::string> gone;
    for (auto& f : files) {
        if (!e.world.t.count(f)) gone.insert(f);
    }
    for (auto& f : gone) {
        MC_CHECK(!need.count(f), "deleted-used", "%s is used and was deleted", f.c_str());
    }
    bool refuse = special >= 1 && special <= 3;
    if (refuse) {
        MC_CHECK(!r.ok(), "not-refused", "cleaning goes ahead although the table has features it does not support");
        MC_CHECK(gone.empty(), "not-refused", "%s was deleted although cleaning is refused", gone.begin()->c_str());
        return;
    }
    std::set<std::string> want;
    for (auto& j : JunkFiles()) {
        if (j.cleanable && age == 0 && !(special == 4 && keep(j.path))) want.insert(T(j.path));
    }
    // files that belong to no snapshot although a former snapshot wrote them
    for (auto& f : gone) {
        MC_CHECK(want.count(f), "deleted-foreign", "%s was deleted (age %d)", f.c_str(), age);
    }
    MC_CHECK(r.ok() || g.hits, "refused", "%s", r.status().ToString().c_str());
    if (!g.hits) {
        MC_CHECK(gone == want, "left-behind", "%zu of %zu stray files were removed", gone.size(), want.size());
        MC_CHECK(r.value() == gone, "report", "the report names %zu files, %zu were deleted", r.value().size(),
                 gone.size());
    }
    mc::State(mc::Hash().U(h).U(n).U(merging).U(age).U(special).U(gone.size()).h);
}

MC_SCENARIO(orphan_race, mc::BOTH, 4,
            "a cleaner next to a committer (append, overwrite) or an expirer on chains of 2 snapshots of 4 kinds; "
            "data and metadata of the running commit are new; all interleavings at directory listings, deletions and "
            "snapshot operations with at most 1 (thorough 2) switches away from a process that could go on") {
    int h = mc::Choose(4);
    bool merging = mc::ChooseBool();
    int other = mc::Choose(3);
    const Prepared& p = Chain(h, 2, merging);
    Env e(p);
    Age(&e.world, kNow - 10 * kDay);
    e.world.Put(T("/p=0/bucket-0/data-orphan.orc"), "junk");
    e.world.t[T("/p=0/bucket-0/data-orphan.orc")].mtime = kNow - 2 * kDay;
    auto before = ob::All(e.world, tb::kTable);
    det::now_us = 1700000100000LL * 1000;
    History hist = p.h;
    Ask a = other == 1 ? Over("later", 1, {0}, {Add(0, 0, "data-later.orc", 2)})
                       : Append("later", 1, {Add(0, 0, "data-later.orc", 2)});
    PutData(&e.world, a);
    if (other < 2) hist.asks.push_back(a);
    mc::SetDeviationBound(mc::Thorough() ? 2 : 1);
    Status s;
    Result<std::set<std::string>> r = std::set<std::string>();
    Result<int32_t> r2 = 0;
    int sw;
    {
        w::Interleaving il([](const w::OpInfo& op) {
            return op.op == w::DELETE || op.op == w::LIST || op.path.find("/snapshot") != std::string::npos ||
                   op.path2.find("/snapshot") != std::string::npos;
        });
        il.Spawn(&e.p[0], [&] { r = Clean(0); });
        il.Spawn(&e.p[1], [&] {
            if (other < 2) {
                s = Do(1, a, {});
            } else {
                r2 = Expire(1, 1, 1, 0, 100, true);
            }
        });
        sw = il.Run();
    }
    if (sw > 1) mc::Nontrivial();
    if (!r.ok()) mc::Outcome("cleaning gives up");
    if (other < 2) {
        MC_CHECK(s.ok(), "blocked", "the commit fails: %s", s.ToString().c_str());
        auto k = CheckHistory(e.world, hist);
        MC_CHECK(k[0] == 1, "lost-update", "the commit is not in the table");
        for (auto& sn : ob::All(e.world, tb::kTable)) CheckReadable(e.world, sn);
    } else {
        MC_CHECK(r2.ok(), "blocked", "expiring fails: %s", r2.status().ToString().c_str());
        CheckKept(e.world, 2, before);
    }
}

// ---- creating tables -----------------------------------------------------------------------------

struct TableAsk {
    arrow::FieldVector fields;
    std::vector<std::string> parts, keys;
    tb::Opts opts;
};
const TableAsk& TableKind(int i) {
    static const std::vector<TableAsk> k{
        {{arrow::field("a", arrow::int32()), arrow::field("b", arrow::utf8())}, {}, {}, {{"bucket", "-1"}}},
        {{arrow::field("a", arrow::int32()), arrow::field("p", arrow::int32())}, {"p"}, {}, {{"bucket", "2"}, {"bucket-key", "a"}}},
        {{arrow::field("k", arrow::int64(), false), arrow::field("v", arrow::int64())}, {}, {"k"}, {{"bucket", "1"}}}};
    return k[i];
}

Status Create(int proc, int kind, bool ignore) {
    tb::RegisterAll();
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<Catalog> cat, Catalog::Create(tb::kRoot, tb::BaseOpts(proc)));
    PAIMON_RETURN_NOT_OK(cat->CreateDatabase("db", {}, true));
    const TableAsk& k = TableKind(kind);
    ::ArrowSchema s;
    if (!arrow::ExportSchema(*arrow::schema(k.fields), &s).ok()) return Status::Invalid("export");
    Status st = cat->CreateTable(Identifier("db", "t"), &s, k.parts, k.keys, k.opts, ignore);
    if (s.release) s.release(&s);
    return st;
}

// Which kind of table is there: -1 none; fails if it is not exactly one of those asked for.
int Kind(const w::World& w) {
    auto all = w.Files(T("/schema/schema-"));
    if (all.empty()) return -1;
    MC_CHECK(all.size() == 1 && all[0] == T("/schema/schema-0"), "schemas", "%zu schema files", all.size());
    rapidjson::Document d;
    auto js = ob::Get(w, all[0]);
    d.Parse(js->c_str());
    MC_CHECK(!d.HasParseError() && d.IsObject(), "torn-schema", "the schema file is incomplete");
    for (int i = 0; i < 3; i++) {
        auto& k = TableKind(i);
        auto& f = d["fields"];
        if (f.Size() != k.fields.size()) continue;
        bool same = true;
        for (size_t j = 0; j < k.fields.size(); j++) {
            same = same && f[j]["name"].GetString() == k.fields[j]->name();
        }
        same = same && d["partitionKeys"].Size() == k.parts.size() && d["primaryKeys"].Size() == k.keys.size();
        if (same) {
            for (auto& [key, v] : k.opts) {
                MC_CHECK(d["options"].HasMember(key) && d["options"][key].GetString() == v, "options",
                         "option %s is lost", key.c_str());
            }
            MC_CHECK(d["id"].GetInt64() == 0, "schema-id", "id");
            return i;
        }
    }
    mc::Fail("mixed-schema", "the schema is none of those asked for");
}

// The catalog's own view agrees.
void CheckCatalog(int proc, const w::World& w, bool faulted) {
    int kind = Kind(w);
    auto cat = Catalog::Create(tb::kRoot, tb::BaseOpts(proc));
    MC_CHECK(cat.ok(), "catalog", "%s", cat.status().ToString().c_str());
    auto tables = cat.value()->ListTables("db");
    MC_CHECK(tables.ok(), "catalog", "%s", tables.status().ToString().c_str());
    MC_CHECK(tables.value().size() == (kind >= 0 ? 1u : 0u), "list-tables", "%zu tables listed", tables.value().size());
    auto sch = cat.value()->LoadTableSchema(Identifier("db", "t"));
    MC_CHECK(sch.ok() == (kind >= 0), "load-schema", "%s", sch.status().ToString().c_str());
    if (kind >= 0) {
        auto names = sch.value()->FieldNames();
        auto& k = TableKind(kind);
        MC_CHECK(names.size() == k.fields.size(), "load-schema", "%zu fields", names.size());
        for (size_t i = 0; i < names.size(); i++) {
            MC_CHECK(names[i] == k.fields[i]->name(), "load-schema", "field %s", names[i].c_str());
        }
    }
}

MC_SCENARIO(create_crash, mc::BOTH, 2,
            "creating each of 3 kinds of table, stopped at each change to the store (torn writes included) or with "
            "any one operation, or all later operations of one sort, failing; then creating it, or another kind, again") {
    int kind = mc::Choose(3), next = mc::Choose(3);
    int how = mc::Choose(3);  // stop, one failure, everything of one sort failing from some point on
    Env e{Prepared{}};
    mc::SetDeviationBound(1);
    w::CrashGate cg(&e.p[0]);
    w::FaultGate fg;
    fg.forever = how == 2;
    e.p[0].gate = how == 0 ? static_cast<w::Gate*>(&cg) : &fg;
    Status s = Create(0, kind, false);
    e.p[0].gate = nullptr;
    bool hit = e.p[0].dead || fg.hits;
    if (hit) mc::Nontrivial();
    MC_CHECK(s.ok() || hit, "refused", "%s", s.ToString().c_str());
    int there = Kind(e.world);
    MC_CHECK(there == -1 || there == kind, "mixed-schema", "another table is there");
    MC_CHECK(!s.ok() || there == kind, "lost-table", "creation reported success but there is no table");
    if (e.world.IsDir("/w/db.db")) CheckCatalog(1, e.world, hit);
    Status s2 = Create(2, next, false);
    MC_CHECK(s2.ok() == (there == -1), "recreate", "creating again: %s", s2.ToString().c_str());
    MC_CHECK(Kind(e.world) == (there == -1 ? next : there), "replaced", "the existing table was replaced");
    MC_CHECK(Create(2, next, true).ok(), "ignore", "an existing table is not ignored");
    CheckCatalog(3, e.world, false);
    mc::State(mc::Hash().U(kind).U(next).U(there + 1).U(e.world.t.size()).h);
}

MC_SCENARIO(create_race, mc::BOTH, 2,
            "2 processes (thorough 3) creating the same table with any of 3 definitions, all interleavings of all "
            "their store operations with at most 3 (thorough 3) switches away from a process that could go on, and "
            "with one of them stopping at a change") {
    int procs = mc::Thorough() ? 3 : 2;
    int kind[3], ignore = mc::ChooseBool();
    for (int i = 0; i < procs; i++) kind[i] = mc::Choose(3);
    Env e{Prepared{}};
    mc::SetDeviationBound(3);
    Status s[3];
    {
        w::Interleaving il([](const w::OpInfo&) { return true; });
        il.crashes = true;
        for (int i = 0; i < procs; i++) {
            il.Spawn(&e.p[i], [&, i] { s[i] = Create(i, kind[i], ignore); });
        }
        if (il.Run() > procs - 1) mc::Nontrivial();
    }
    int there = Kind(e.world), alive = 0, won = 0, dead = 0;
    for (int i = 0; i < procs; i++) {
        if (e.p[i].dead) {
            dead++;
            continue;
        }
        alive++;
        if (s[i].ok()) {
            won++;
            MC_CHECK(ignore || there == kind[i], "lost-table", "process %d created table %d, there is %d", i, kind[i],
                     there);
        }
    }
    bool asked = there == -1;
    for (int i = 0; i < procs; i++) asked = asked || there == kind[i];
    MC_CHECK(asked, "unknown-table", "the table is none of those asked for");
    MC_CHECK(ignore || won <= 1, "two-winners", "%d processes created the table", won);
    MC_CHECK(alive == 0 || there >= 0, "no-table", "a process ran to its end and there is no table");
    MC_CHECK(dead || won >= 1, "no-winner", "nobody created the table");
    if (e.world.IsDir("/w/db.db")) CheckCatalog(3, e.world, false);
    mc::State(mc::Hash().U(there + 1).U(won).U(dead).U(e.world.t.size()).h);
}

}  // namespace
