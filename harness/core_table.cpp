// Tables with a primary key: whatever was written is what is read, by the rules of each merge engine.
#include "core/driver.h"

namespace {
MC_SCENARIO(dedup, mc::BOTH, 4,
            "all histories of up to 4 (thorough 5) records of 2 keys and 2 kinds, cut into batches, commits and writers "
            "in every way, read with both sort engines") {
    int n = 1 + mc::Choose(mc::Thorough() ? 5 : 4);
    Table t(kKV, {}, {"k"}, {{"bucket", "1"}});
    auto all = WriteAll(&t, n, n > 3 ? 3 : CUTS, [](int i) {
        int c = mc::Choose(4);
        return Rec{{c & 1, 10 + i, i}, c & 2 ? DEL : INS};
    }, Any);
    CheckRead(&t, Fold(all, LastWins), n < 3 ? std::vector<std::vector<std::string>>{{"v"}, {"s", "k"}}
                                             : std::vector<std::vector<std::string>>{});
}

MC_SCENARIO(seq_field, mc::BOTH, 4,
            "all histories of up to 3 (thorough 4) records of 2 keys, 2 kinds and 3 sequence values (one missing), cut "
            "into batches and commits in every way, ascending and descending") {
    bool desc = mc::ChooseBool();
    int n = 1 + mc::Choose(mc::Thorough() ? 4 : 3);
    tb::Opts o{{"bucket", "1"}, {"sequence.field", "s"}};
    if (desc) o["sequence.field.sort-order"] = "descending";
    Table t(kKV, {}, {"k"}, o);
    auto all = WriteAll(&t, n, 3, [&](int i) {
        int c = mc::Choose(4);
        int s = mc::Choose(3);
        return Rec{{c & 1, 10 + i, s == 2 ? V() : V(s)}, c & 2 ? DEL : INS};
    }, Any);
    auto want = Fold(all, [&](std::vector<Rec> v) {
        std::stable_sort(v.begin(), v.end(), [&](const Rec& a, const Rec& b) {
            // a missing value comes first in either order
            return desc && a.row[2] && b.row[2] ? b.row[2] < a.row[2] : a.row[2] < b.row[2];
        });
        return LastWins(v);
    });
    CheckRead(&t, want, n < 3 ? std::vector<std::vector<std::string>>{{"v"}, {"v", "k"}}
                              : std::vector<std::vector<std::string>>{});
}

MC_SCENARIO(ignore_delete, mc::BOTH, 4,
            "all histories of up to 4 (thorough 5) records of 2 keys and 2 kinds with deletions ignored, 2 merge "
            "engines, cut into batches and commits in every way") {
    int engine = mc::Choose(2);
    int n = 1 + mc::Choose(mc::Thorough() ? 5 : 4);
    const char* names[] = {"deduplicate", "partial-update"};
    Table t(kKV, {}, {"k"}, {{"bucket", "1"}, {"ignore-delete", "true"}, {"merge-engine", names[engine]}});
    auto all = WriteAll(&t, n, 3, [&](int i) {
        int c = mc::Choose(4);
        return Rec{{c & 1, 10 + i, i % 2 ? V() : V(i)}, c & 2 ? DEL : INS};
    }, Any);
    auto want = Fold(all, [&](const std::vector<Rec>& v) -> std::optional<Row> {
        auto kept = WithoutDeletes(v);
        if (kept.empty()) return {};
        if (engine == 0) return kept.back().row;
        Row r(3);
        for (auto& x : kept) {
            for (int c = 0; c < 3; c++) {
                if (x.row[c]) r[c] = x.row[c];
            }
        }
        return r;
    });
    CheckRead(&t, want);
}

MC_SCENARIO(partial_update, mc::BOTH, 4,
            "all histories of up to 3 (thorough 4) records of 2 keys with 2 columns present or missing, deletions "
            "removing the row, cut into batches and commits in every way") {
    int n = 1 + mc::Choose(mc::Thorough() ? 4 : 3);
    Table t(kKV, {}, {"k"}, {{"bucket", "1"}, {"merge-engine", "partial-update"},
                             {"partial-update.remove-record-on-delete", "true"}});
    auto all = WriteAll(&t, n, 3, [&](int i) {
        int c = mc::Choose(10);
        if (c >= 8) return Rec{{c & 1, V(), V()}, DEL};
        return Rec{{c & 1, c & 2 ? V(10 + i) : V(), c & 4 ? V(20 + i) : V()}, INS};
    }, [](const std::vector<Rec>& all, const std::vector<int>& group) {
        // a deletion and a later insertion of one batch (commit) are combined before earlier ones are known
        for (size_t i = 0; i < all.size(); i++) {
            if (all[i].kind != DEL) continue;
            bool before = false, after = false;
            for (size_t j = 0; j < all.size(); j++) {
                if (all[j].row[0] != all[i].row[0] || all[j].kind == DEL) continue;
                before |= group[j] < group[i];
                after |= j > i && group[j] == group[i];
            }
            if (before && after) return true;
        }
        return false;
    });
    auto want = Fold(all, [&](const std::vector<Rec>& v) -> std::optional<Row> {
        std::optional<Row> r;
        for (auto& x : v) {
            if (x.kind == DEL) {
                r.reset();
                continue;
            }
            if (!r) r = Row(3);
            for (int c = 0; c < 3; c++) {
                if (x.row[c]) (*r)[c] = x.row[c];
            }
        }
        return r;
    });
    CheckRead(&t, want, n < 3 ? std::vector<std::vector<std::string>>{{"v"}, {"s", "k"}}
                              : std::vector<std::vector<std::string>>{});
}

MC_SCENARIO(sequence_group, mc::BOTH, 4,
            "all histories of up to 3 records of 1 key (thorough 2 keys) with 2 columns guarded by 2 sequence columns "
            "with 4 (7) pairs of values, some missing, and a free column, insertions and retractions, cut into batches and commits in "
            "every way") {
    std::vector<std::string> names = {"k", "v", "s", "u", "r", "f"};
    int n = 1 + mc::Choose(3);
    Table t(names, {}, {"k"}, {{"bucket", "1"}, {"merge-engine", "partial-update"}, {"fields.s.sequence-group", "v"},
                               {"fields.r.sequence-group", "u"}});
    auto all = WriteAll(&t, n, 3, [&](int i) {
        int key = mc::Thorough() ? mc::Choose(2) : 0;
        static const int seqs[][2] = {{1, 2}, {2, 1}, {0, 2}, {2, 2}, {1, 0}, {1, 1}, {0, 0}};
        auto& sq = seqs[mc::Choose(mc::Thorough() ? 7 : 4)];
        int a = sq[0], b = sq[1], have = mc::Choose(2);
        bool del = mc::ChooseBool();
        return Rec{{key, have ? V(10 + i) : V(), a ? V(a) : V(), V(20 + i), b ? V(b) : V(), have ? V() : V(30 + i)},
                   del ? DEL : INS};
    }, NothingToRetract);
    auto want = Fold(all, [&](const std::vector<Rec>& v) -> std::optional<Row> {
        // a lone row is kept as it was written
        if (v.size() == 1) return v[0].row;
        Row r(6);
        for (auto& x : v) {
            if (x.kind == INS) {
                r[0] = x.row[0];
                if (x.row[5]) r[5] = x.row[5];
            }
            for (int g : {1, 3}) {
                if (!x.row[g + 1] || x.row[g + 1] < r[g + 1]) continue;
                r[g + 1] = x.row[g + 1];
                r[g] = x.kind == INS ? x.row[g] : V();
            }
        }
        return r;
    });
    CheckRead(&t, want, n < 3 ? std::vector<std::vector<std::string>>{{"v"}, {"u", "k"}, {"f"}}
                              : std::vector<std::vector<std::string>>{});
}

MC_SCENARIO(aggregation, mc::BOTH, 4,
            "all histories of up to 3 (thorough 4) records of 1 key with a value of 3 (one missing), 8 aggregate "
            "functions, insertions and retractions, cut into batches and commits in every way") {
    struct Fn {
        const char* name;
        bool ignore, retract;
    };
    static const Fn fns[] = {{"sum", false, true},        {"max", true, true},          {"min", true, true},
                             {"last_value", false, true}, {"last_non_null_value", false, false},
                             {"first_value", true, true}, {"first_non_null_value", true, true}, {"sum", true, true}};
    auto& f = fns[mc::Choose(8)];
    int n = 1 + mc::Choose(mc::Thorough() ? 4 : 3);
    tb::Opts o{{"bucket", "1"}, {"merge-engine", "aggregation"}, {"fields.v.aggregate-function", f.name}};
    if (f.ignore) o["fields.v.ignore-retract"] = "true";
    Table t(kKV, {}, {"k"}, o);
    static const int val[] = {5, -3, 0};
    auto all = WriteAll(&t, n, 3, [&](int i) {
        int c = mc::Choose(3);
        bool del = f.retract && mc::ChooseBool();
        return Rec{{0, c == 2 ? V() : V(val[c]), V(i)}, del ? DEL : INS};
    }, [&](const std::vector<Rec>& all, const std::vector<int>& c) {
        // the other column keeps its last value, which a retraction takes back only when told so
        return NothingToRetract(all, c);
    });
    std::string fn = f.name;
    auto want = Fold(all, [&](const std::vector<Rec>& v) -> std::optional<Row> {
        Row r(3);
        r[0] = v[0].row[0];
        bool first = true;
        for (auto& x : v) {
            bool del = x.kind == DEL;
            V in = x.row[1];
            V& acc = r[1];
            if (del && f.ignore) {
            } else if (fn == "sum") {
                if (in) acc = V((acc ? *acc : 0) + (del ? -*in : *in));
            } else if (fn == "last_value") {
                acc = del ? V() : in;
            } else if (fn == "last_non_null_value") {
                if (in) acc = in;
            } else if (fn == "first_value") {
                if (first) acc = in;
            } else if (fn == "first_non_null_value") {
                if (!acc) acc = in;
            } else if (in) {
                acc = !acc ? in : fn == "max" ? std::max(acc, in) : std::min(acc, in);
            }
            first = false;
        }
        return r;
    });
    // the unguarded column is compared only where no retraction touches it
    Read rd;
    rd.fields = {"k", "v"};
    for (const char* e : {"loser-tree", "min-heap"}) {
        rd.more = {{"sort-engine", e}};
        auto got = t.Now(rd), x = Pick(want, t.names, rd.fields);
        MC_CHECK(got == x, "content", "%s reads %s instead of %s", e, Show(got).c_str(), Show(x).c_str());
    }
    mc::Nontrivial();
    mc::State(mc::Hash().S(Show(want)).U(t.snapshots).S(fn).h);
}
}  // namespace
