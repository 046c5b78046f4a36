// Commit protocol: atomicity under crashes and faults, concurrent committers, retries.
#include "core/history.h"

namespace {

MC_SCENARIO(crash, mc::BOTH, 3,
            "6 kinds of request on tables with 0..4 earlier commits (with and without manifest merging), stopping "
            "the committing process at each of its changes to the store and after each of 3 prefixes of each write "
            "(thorough: the recovering process is stopped as well), then recovery by retry and by another client") {
    int n = mc::Choose(5);
    bool merging = n >= 2 ? mc::ChooseBool() : false;
    int r = mc::Choose(6);
    if (r == 4 && (n < 1 || n >= 4)) mc::Prune();
    Env e(Start(n, merging));
    History h = Start(n, merging).h;
    Ask a = Request(r, "me", 1, "new");
    PutData(&e.world, a);
    h.asks.push_back(a);
    mc::SetDeviationBound(mc::Thorough() ? 2 : 1);
    w::CrashGate g(&e.p[0]);
    e.p[0].gate = &g;
    Status s = Do(0, a, {});
    e.p[0].gate = nullptr;
    if (e.p[0].dead) mc::Nontrivial();
    if (e.p[0].dead && mc::Thorough()) {
        // the first attempt to recover is interrupted, too
        CheckHistory(e.world, h);
        Ask again = Request(r, "me", 1, "new", /*filter=*/true);
        w::CrashGate g2(&e.p[1]);
        e.p[1].gate = &g2;
        s = Do(1, again, {});
        e.p[1].gate = nullptr;
        bool done = s.ok() && !e.p[1].dead;
        Recover(&e, h, a, done);
        return;
    }
    if (!e.p[0].dead) {
        MC_CHECK(s.ok(), "refused", "the commit fails without any interruption: %s", s.ToString().c_str());
    }
    Recover(&e, h, a, !e.p[0].dead);
}

MC_SCENARIO(fault, mc::BOTH, 3,
            "6 kinds of request on tables with 0..3 earlier commits (with and without manifest merging), any one "
            "(thorough: any two) of the store operations failing: without effect, after taking effect, or half way "
            "through a write; then a retry and another client") {
    int n = mc::Choose(4);
    bool merging = n >= 2 ? mc::ChooseBool() : false;
    int r = mc::Choose(6);
    if (r == 4 && n < 1) mc::Prune();
    Env e(Start(n, merging));
    History h = Start(n, merging).h;
    Ask a = Request(r, "me", 1, "new");
    PutData(&e.world, a);
    h.asks.push_back(a);
    mc::SetDeviationBound(mc::Thorough() ? 2 : 1);
    w::FaultGate g;
    if (mc::Thorough()) {
        g.may = [](const w::OpInfo& op) { return w::Mutates(op.op) || op.op == w::EXISTS; };
    }
    e.p[0].gate = &g;
    Status s = Do(0, a, {});
    e.p[0].gate = nullptr;
    if (g.hits) mc::Nontrivial();
    MC_CHECK(s.ok() || g.hits, "refused", "the commit fails without any fault: %s", s.ToString().c_str());
    Recover(&e, h, a, s.ok());
}

bool SharedOp(const w::OpInfo& op) {
    return op.path.find("/snapshot") != std::string::npos || op.path2.find("/snapshot") != std::string::npos;
}

MC_SCENARIO(race2, mc::BOTH, 3,
            "two committers with any two of 6 kinds of request on tables with 0..2 earlier commits, all interleavings "
            "of their snapshot directory operations with at most 2 (thorough 4) switches away from a committer that "
            "could go on") {
    int n = mc::Choose(3);
    bool merging = n >= 2 ? mc::ChooseBool() : false;
    int r1 = mc::Choose(6), r2 = mc::Choose(6);
    if (r2 < r1) mc::Prune();
    if ((r1 == 4 || r2 == 4) && n < 1) mc::Prune();
    Env e(Start(n, merging));
    History h = Start(n, merging).h;
    Ask a = Request(r1, "u1", 1, "one"), b = Request(r2, "u2", 1, "two");
    // plain commits do not look for conflicts; those that remove files go the checking way
    if (r1 == 4) a.kind = Ask::FILTER;
    if (r2 == 4) b.kind = Ask::FILTER;
    PutData(&e.world, a);
    PutData(&e.world, b);
    h.asks = {a, b};
    mc::SetDeviationBound(mc::Thorough() ? 4 : 2);
    Status s1, s2;
    int sw;
    {
        w::Interleaving il(SharedOp);
        il.Spawn(&e.p[0], [&] { s1 = Do(0, a, {}); });
        il.Spawn(&e.p[1], [&] { s2 = Do(1, b, {}); });
        sw = il.Run();
    }
    if (sw > 1) mc::Nontrivial();
    auto k = CheckHistory(e.world, h);
    MC_CHECK(!s1.ok() || k[0] == 1, "lost-update", "the first commit reported success but is not in the table");
    MC_CHECK(!s2.ok() || k[1] == 1, "lost-update", "the second commit reported success but is not in the table");
    MC_CHECK(s1.ok() || s2.ok(), "both-failed", "both commits fail: %s / %s", s1.ToString().c_str(),
             s2.ToString().c_str());
    mc::Outcome(s1.ok() && s2.ok() ? "both succeed" : s1.ok() ? "second reports failure" : "first reports failure");
    // whoever was refused can retry, unless the request cannot apply any more
    const Ask* bad = !s1.ok() ? &a : !s2.ok() ? &b : nullptr;
    if (bad) {
        auto snaps = ob::All(e.world, tb::kTable);
        Live now = LiveOf(snaps.back());
        int idx = bad == &a ? 0 : 1;
        bool fits = k[idx] == 1 || Apply(*bad, &now);
        Ask again = *bad;
        again.kind = bad->kind == Ask::APPEND || bad->kind == Ask::FILTER ? Ask::FILTER : Ask::FILTER_OVERWRITE;
        Status s = Do(2, again, {});
        MC_CHECK(s.ok() == fits, fits ? "retry-refused" : "conflict-accepted", "retry: %s", s.ToString().c_str());
        k = CheckHistory(e.world, h);
        MC_CHECK(!s.ok() || k[idx] == 1, "lost-update", "the retried commit is not in the table");
    }
}


MC_SCENARIO(race_crash, mc::BOTH, 3,
            "two committers with any two of 4 kinds of request on tables with 0..2 earlier commits, all interleavings "
            "of their snapshot directory operations with at most 2 (thorough 3) deviations, each deviation being a "
            "switch or the end of a process; then both requests are retried") {
    int n = mc::Choose(3);
    bool merging = n >= 2;
    int r1 = mc::Choose(4), r2 = mc::Choose(4);
    Env e(Start(n, merging));
    History h = Start(n, merging).h;
    Ask a = Request(r1, "u1", 1, "one"), b = Request(r2, "u2", 1, "two");
    PutData(&e.world, a);
    PutData(&e.world, b);
    h.asks = {a, b};
    mc::SetDeviationBound(mc::Thorough() ? 3 : 2);
    Status s1, s2;
    {
        w::Interleaving il(SharedOp);
        il.crashes = true;
        il.Spawn(&e.p[0], [&] { s1 = Do(0, a, {}); });
        il.Spawn(&e.p[1], [&] { s2 = Do(1, b, {}); });
        il.Run();
    }
    bool d1 = e.p[0].dead, d2 = e.p[1].dead;
    if (d1 || d2) mc::Nontrivial();
    auto k = CheckHistory(e.world, h);
    MC_CHECK(d1 || !s1.ok() || k[0] == 1, "lost-update", "the first commit reported success but is not in the table");
    MC_CHECK(d2 || !s2.ok() || k[1] == 1, "lost-update", "the second commit reported success but is not in the table");
    for (int i = 0; i < 2; i++) Retry(2 + i, e.world, h, i);
}

MC_SCENARIO(race3, mc::BOTH, 3,
            "three committers with any of 2 (thorough 4) kinds of request on a table with 1 earlier commit, all "
            "interleavings of their snapshot directory operations with at most 1 (thorough 2) switches away from a "
            "committer that could go on") {
    int kinds = mc::Thorough() ? 4 : 2;
    int r[3];
    for (int& x : r) x = mc::Thorough() ? mc::Choose(kinds) : mc::Choose(2) * 2;
    if (r[1] < r[0] || r[2] < r[1]) mc::Prune();
    Env e(Start(1, false));
    History h = Start(1, false).h;
    for (int i = 0; i < 3; i++) {
        h.asks.push_back(Request(r[i], "u" + std::to_string(i), 1, "n" + std::to_string(i)));
        PutData(&e.world, h.asks.back());
    }
    mc::SetDeviationBound(mc::Thorough() ? 2 : 1);
    Status s[3];
    int sw;
    {
        w::Interleaving il(SharedOp);
        for (int i = 0; i < 3; i++) {
            il.Spawn(&e.p[i], [&, i] { s[i] = Do(i, h.asks[i], {}); });
        }
        sw = il.Run();
    }
    if (sw > 2) mc::Nontrivial();
    auto k = CheckHistory(e.world, h);
    MC_CHECK(s[0].ok() || s[1].ok() || s[2].ok(), "all-failed", "all commits fail: %s", s[0].ToString().c_str());
    for (int i = 0; i < 3; i++) {
        MC_CHECK(!s[i].ok() || k[i] == 1, "lost-update", "commit %d reported success but is not in the table", i);
        if (!s[i].ok()) Retry(3, e.world, h, i);
    }
}

MC_SCENARIO(retry_exhausted, mc::BOTH, 2,
            "a committer allowed 0..2 retries that loses the race for the snapshot 0..4 times in a row (appends and "
            "overwrites): it succeeds iff it loses no more often than it may retry, and leaves nothing behind when "
            "it gives up") {
    int n = mc::Choose(2);
    int retries = mc::Choose(3), loses = mc::Choose(5);
    int r = mc::Pick({0, 2});
    Env e(Start(n, false));
    History h = Start(n, false).h;
    Ask a = Request(r, "me", 1, "new");
    PutData(&e.world, a);
    h.asks.push_back(a);
    for (int i = 0; i < loses; i++) {
        Ask o = Append("other", i + 1, {Add(0, 0, "data-other" + std::to_string(i) + ".orc", 1)});
        PutData(&e.world, o);
        h.asks.push_back(o);
    }
    // once the committer has looked at the table, somebody else commits
    struct G : w::Gate {
        Env* e;
        History* h;
        int left, next = 1;
        bool armed = true;
        w::Act Before(const w::OpInfo& op) override {
            // the first thing it writes after looking at the snapshots
            bool first = op.op == w::CREATE && armed;
            if (!w::Mutates(op.op) && op.path.find("/snapshot") != std::string::npos) armed = true;
            if (first) armed = false;
            if (first && left > 0) {
                left--;
                Status s = Do(1, h->asks[next++], {});
                if (!s.ok()) mc::Fail("setup", "%s", s.ToString().c_str());
            }
            return {};
        }
    } g;
    g.e = &e;
    g.h = &h;
    g.left = loses;
    e.p[0].gate = &g;
    Status s = Do(0, a, {{"commit.max-retries", std::to_string(retries)}});
    e.p[0].gate = nullptr;
    auto k = CheckHistory(e.world, h);
    mc::Nontrivial();
    MC_CHECK(s.ok() == (k[0] == 1), "lost-update", "answer: %s, in the table %d times", s.ToString().c_str(), k[0]);
    MC_CHECK(s.ok() == (loses <= retries), "retries", "%d retries allowed, lost %d times: %s", retries, loses,
             s.ToString().c_str());
    mc::Outcome(s.ok() ? "succeeds" : "gives up");
    if (!s.ok()) {
        // everything in the manifest directory belongs to some snapshot
        std::set<std::string> used;
        for (auto& sn : ob::All(e.world, tb::kTable)) {
            used.insert(sn.base_list);
            used.insert(sn.delta_list);
            for (auto* ms : {&sn.base_m, &sn.delta_m}) {
                for (auto& m : *ms) used.insert(m.name);
            }
        }
        std::string dir = std::string(tb::kTable) + "/manifest/";
        for (auto& f : e.world.Files(dir)) {
            MC_CHECK(used.count(f.substr(dir.size())), "left-behind", "the failed commit leaves %s behind", f.c_str());
        }
    }
}

MC_SCENARIO(idempotent, mc::BOTH, 4,
            "two clients on one table, histories of 3 calls, each handing in any of 5 (thorough all 7) non-empty sets of "
            "the commits numbered 1..3 of one of them for filtered commit, with at most one (thorough 2) of all the store "
            "changes stopping the process that makes it") {
    const Prepared& st = Start(0, false);
    Env e(st);
    History h = st.h;
    for (int u = 0; u < 2; u++) {
        for (int i = 1; i <= 3; i++) {
            h.asks.push_back(Append("u" + std::to_string(u), i,
                                    {Add(u, 0, "data-" + std::to_string(u) + std::to_string(i) + ".orc", i)}));
            PutData(&e.world, h.asks.back());
        }
    }
    int done[2] = {0, 0};  // highest commit number in the table
    mc::SetDeviationBound(mc::Thorough() ? 2 : 1);
    int depth = 3;
    std::vector<int> want(6, 0);
    for (int d = 0; d < depth; d++) {
        int u = d == 0 ? 0 : mc::Choose(2);  // the clients are interchangeable
        int set = mc::Thorough() ? 1 + mc::Choose(7) : mc::Pick({1, 2, 3, 6, 7});
        std::map<int64_t, std::vector<std::shared_ptr<CommitMessage>>> m;
        for (int i = 1; i <= 3; i++) {
            if (set & (1 << (i - 1))) m[i] = tb::Messages(h.asks[u * 3 + i - 1].changes, 2);
        }
        w::Proc& p = e.p[d % 4];
        w::CrashGate g(&p);
        p.gate = &g;
        auto c = tb::Committer(d % 4, "u" + std::to_string(u));
        Result<int32_t> r = c.ok() ? c.value()->FilterAndCommit(m) : Result<int32_t>(c.status());
        p.gate = nullptr;
        auto k = CheckHistory(e.world, h);
        int expect = 0;
        bool open_end = p.dead;
        for (auto& [i, _] : m) {
            if (i <= done[u]) continue;
            if (open_end) {
                // an interrupted call commits a prefix
                if (k[u * 3 + i - 1] == 0) break;
            }
            want[u * 3 + i - 1] = 1;
            expect++;
            done[u] = static_cast<int>(i);
        }
        for (int i = 0; i < 6; i++) {
            MC_CHECK(k[i] == want[i], "exactly-once", "after call %d: commit u%d/%d is in the table %d times, expected %d",
                     d + 1, i / 3, i % 3 + 1, k[i], want[i]);
        }
        if (!p.dead) {
            MC_CHECK(r.ok(), "refused", "filtered commit fails: %s", r.status().ToString().c_str());
            MC_CHECK(r.value() == expect, "count", "call %d says it committed %d, it committed %d", d + 1, r.value(),
                     expect);
        } else {
            mc::Nontrivial();
            p.dead = false;  // restarted
        }
    }
}

// One call of a sequence: what it asks for, given how many calls went before.
Ask Step(int op, int d) {
    std::string u = "s" + std::to_string(d), f = "data-step" + std::to_string(d) + ".orc";
    switch (op) {
        case 0:
            return Append(u, 1, {Add(0, 0, "data-first" + std::to_string(d) + ".orc", 2)}, Ask::FILTER);
        case 1:
            return Append(u, 1, {Add(1, 1, f, 4)});
        case 2:
            return Append(u, 1, {Del(0, 0, "data-old-1.orc", 3), Add(0, 0, f, 3)}, Ask::FILTER);
        case 3:
            return Append(u, 1, {Del(1, 1, "data-old-2.orc", 2)}, Ask::FILTER);
        case 4:  // the file is in another bucket
            return Append(u, 1, {Add(0, 1, f, 1), Del(0, 1, "data-old-1.orc", 3)}, Ask::FILTER);
        case 5:  // the file is there already
            return Append(u, 1, {Add(0, 0, "data-old-1.orc", 3)}, Ask::FILTER);
        case 6:
            return Over(u, 1, {0}, {Add(0, 1, f, 5)});
        case 7:
            return Over(u, 1, {0, 1}, {Add(1, 0, f, 5)}, Ask::FILTER_OVERWRITE);
        case 8:
            return Over(u, 1, {}, {Add(2, 0, f, 5)});
        case 9:
            return Over(u, 1, {1}, {}, Ask::DROP);
        case 10:  // no such partition
            return Over(u, 1, {9}, {}, Ask::DROP);
        case 11:  // two partitions at once, one change does not fit after the first call of its kind
            return Append(u, 1, {Add(1, 0, f, 1), Del(0, 0, "data-old-1.orc", 3), Del(1, 1, "data-old-2.orc", 2)},
                          Ask::FILTER);
        case 12:  // replaces what an earlier call of the sequence added
            return Append(u, 1, {Del(0, 0, "data-first0.orc", 2), Add(0, 0, f, 2)}, Ask::FILTER);
        default:  // a file that was never written
            return Append(u, 1, {Add(0, 0, "data-missing.orc", 2)}, Ask::FILTER);
    }
}

MC_SCENARIO(conflict, mc::BOTH, 3,
            "all sequences of 3 (thorough 4) calls out of 14 kinds (additions, replacements, removals, files in the "
            "wrong bucket or already present or missing, overwrites of one, two, no named and absent partitions, "
            "drops) on tables with 1..3 earlier commits, with and without manifest merging") {
    int n = 1 + mc::Choose(3);
    bool merging = mc::ChooseBool();
    const Prepared& st = Start(n, merging);
    Env e(st);
    History h = st.h;
    Live now = st.h.base;
    int depth = mc::Thorough() ? 4 : 3;
    uint64_t good = 0;
    for (int d = 0; d < depth; d++) {
        int op = mc::Choose(14);
        // a file name is never used again after the file was removed
        if (op == 5 && !now.count(Key("0", 0, "data-old-1.orc"))) mc::Prune();
        Ask a = Step(op, d);
        if (op < 13) PutData(&e.world, a);
        Live next = now;
        bool fits = op < 13 && Apply(a, &next);
        auto files = e.world.Files(std::string(tb::kTable) + "/");
        h.asks.push_back(a);
        Status s = Do(d % 4, a, {});
        MC_CHECK(s.ok() == fits, fits ? "refused" : "conflict-accepted", "call %d of kind %d: %s", d + 1, op,
                 s.ToString().c_str());
        if (!fits) {
            h.asks.pop_back();
            auto after = e.world.Files(std::string(tb::kTable) + "/");
            MC_CHECK(files == after, "left-behind", "a refused commit left %zu files instead of %zu", after.size(),
                     files.size());
        } else {
            good |= 1u << d;
        }
        CheckHistory(e.world, h);
        now = next;
        auto last = ob::All(e.world, tb::kTable, ob::SnapIds(e.world, tb::kTable).back());
        MC_CHECK(LiveOf(last[0]) == now, "content", "after call %d the table holds {%s}, expected {%s}", d + 1,
                 Show(LiveOf(last[0])).c_str(), Show(now).c_str());
    }
    if (good) mc::Nontrivial();
    mc::State(mc::Hash().S(Show(now)).U(good).h);
}

MC_SCENARIO(merge, mc::BOTH, 4,
            "histories of 5 (thorough 6) commits, each adding a file to one of two partitions, removing the oldest "
            "file, overwriting or dropping a partition, under 6 manifest merging configurations; every snapshot of "
            "the history must still show exactly its files") {
    static const tb::Opts cfg[] = {
        {{"manifest.merge-min-count", "2"}},
        {{"manifest.merge-min-count", "2"}, {"manifest.target-file-size", "1b"}},
        {{"manifest.merge-min-count", "3"}, {"manifest.full-compaction-threshold-size", "1b"}},
        {{"manifest.merge-min-count", "2"}, {"manifest.target-file-size", "5kb"},
         {"manifest.full-compaction-threshold-size", "1b"}},
        {{"manifest.merge-min-count", "30"}, {"manifest.full-compaction-threshold-size", "4kb"}},
        {{"manifest.merge-min-count", "2"}, {"manifest.target-file-size", "8kb"},
         {"manifest.full-compaction-threshold-size", "6kb"}}};
    int c = mc::Choose(6);
    const Prepared& st = Prepare("merge" + std::to_string(c), {}, With(TableOpts(), cfg[c]));
    Env e(st);
    History h = st.h;
    int depth = mc::Thorough() ? 6 : 5;
    std::vector<std::pair<int, std::string>> files;  // live, oldest first
    int fresh = 0;
    for (int d = 0; d < depth; d++) {
        int op = mc::Choose(5);
        std::string f = "data-" + std::to_string(fresh++) + ".orc";
        Ask a;
        if (op < 2) {
            a = Append("u", d + 1, {Add(op, 0, f, d + 1)});
            files.emplace_back(op, f);
        } else if (op == 2) {
            if (files.empty()) mc::Prune();
            auto [p, old] = files.front();
            files.erase(files.begin());
            int64_t rows = atoi(old.c_str() + 5) + 1;
            a = Append("u", d + 1, {Del(p, 0, old, rows)});
        } else {
            if (files.empty()) mc::Prune();
            int p = 0;
            std::vector<std::pair<int, std::string>> rest;
            for (auto& x : files) {
                if (x.first != p) rest.push_back(x);
            }
            files = rest;
            if (op == 3) {
                a = Over("u", d + 1, {p}, {Add(p, 0, f, d + 1)});
                files.emplace_back(p, f);
            } else {
                a = Over("u", d + 1, {p}, {}, Ask::DROP);
            }
        }
        PutData(&e.world, a);
        h.asks.push_back(a);
        Status s = Do(0, a, {});
        MC_CHECK(s.ok(), "refused", "commit %d: %s", d + 1, s.ToString().c_str());
    }
    auto k = CheckHistory(e.world, h);
    for (size_t i = 0; i < k.size(); i++) MC_CHECK(k[i] == 1, "lost", "commit %zu is not in the table", i + 1);
    bool merged = false;
    for (auto& s : ob::All(e.world, tb::kTable)) merged = merged || s.base_m.size() + 1 < static_cast<size_t>(s.id);
    if (merged) mc::Nontrivial();
}

Ask Keep(Ask a) {
    a.msgs = std::make_shared<std::vector<std::shared_ptr<CommitMessage>>>(tb::Messages(a.changes, 2));
    return a;
}

MC_SCENARIO(row_fault, mc::BOTH, 3,
            "row tracking tables with 0..3 earlier commits, 5 kinds of request, any one store operation failing in "
            "any way, then a retry with the same message objects and another client") {
    int n = mc::Choose(4);
    bool merging = n >= 2 ? mc::ChooseBool() : false;
    int r = mc::Pick({0, 1, 2, 3, 5});
    Env e(Start(n, merging, true));
    History h = Start(n, merging, true).h;
    Ask a = Keep(Request(r, "me", 1, "new"));
    PutData(&e.world, a);
    h.asks.push_back(a);
    mc::SetDeviationBound(1);
    w::FaultGate g;
    e.p[0].gate = &g;
    Status s = Do(0, a, {});
    e.p[0].gate = nullptr;
    if (g.hits) mc::Nontrivial();
    if (!s.ok() && mc::ChooseBool()) {
        // somebody else gets in between
        Ask o = Append("between", 1, {Add(3, 0, "data-between.orc", 4)});
        PutData(&e.world, o);
        h.asks.insert(h.asks.begin() + 1, o);
        Status so = Do(1, o, {});
        MC_CHECK(so.ok(), "blocked", "after the failure nobody else can commit: %s", so.ToString().c_str());
    }
    auto k = CheckHistory(e.world, h);
    MC_CHECK(!s.ok() || k[0] == 1, "lost", "the commit reported success but is not in the table");
    Ask again = a;
    again.kind = a.kind == Ask::APPEND ? Ask::FILTER : Ask::FILTER_OVERWRITE;
    Status s2 = Do(2, again, {});
    MC_CHECK(s2.ok(), "recovery-refused", "retrying the failed commit fails: %s", s2.ToString().c_str());
    k = CheckHistory(e.world, h);
    MC_CHECK(k[0] == 1, "recovery-lost", "after the retry the commit is in the table %d times", k[0]);
}

MC_SCENARIO(row_race, mc::BOTH, 3,
            "two committers with any two of 4 kinds of request on row tracking tables with 0..2 earlier commits, all "
            "interleavings of their snapshot directory operations with at most 2 (thorough 3) switches") {
    int n = mc::Choose(3);
    int r1 = mc::Choose(4), r2 = mc::Choose(4);
    if (r2 < r1) mc::Prune();
    Env e(Start(n, false, true));
    History h = Start(n, false, true).h;
    Ask a = Keep(Request(r1, "u1", 1, "one")), b = Keep(Request(r2, "u2", 1, "two"));
    PutData(&e.world, a);
    PutData(&e.world, b);
    h.asks = {a, b};
    mc::SetDeviationBound(mc::Thorough() ? 3 : 2);
    Status s1, s2;
    int sw;
    {
        w::Interleaving il(SharedOp);
        il.Spawn(&e.p[0], [&] { s1 = Do(0, a, {}); });
        il.Spawn(&e.p[1], [&] { s2 = Do(1, b, {}); });
        sw = il.Run();
    }
    if (sw > 1) mc::Nontrivial();
    auto k = CheckHistory(e.world, h);
    MC_CHECK(s1.ok() || s2.ok(), "all-failed", "both commits fail: %s", s1.ToString().c_str());
    MC_CHECK(!s1.ok() || k[0] == 1, "lost-update", "the first commit reported success but is not in the table");
    MC_CHECK(!s2.ok() || k[1] == 1, "lost-update", "the second commit reported success but is not in the table");
    if (!s1.ok()) Retry(2, e.world, h, 0);
    if (!s2.ok()) Retry(2, e.world, h, 1);
}

}  // namespace
