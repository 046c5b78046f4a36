// Row ranges: merge, intersection, exclusion and grouping against an explicit model, for every list
// of ranges up to a length over a small universe and over the extreme ends of the row-id space.
#include <algorithm>
#include <set>

#include "mc/mc.h"
#include "paimon/common/utils/range_helper.h"
#include "paimon/utils/range.h"

using namespace paimon;  // NOLINT
using I = __int128;
namespace {

using CI = std::pair<I, I>;  // closed interval

std::string Show(const std::vector<Range>& v) {
    std::string s;
    for (auto& r : v) s += "[" + std::to_string(r.from) + "," + std::to_string(r.to) + "] ";
    return s;
}

// maximal merging of closed intervals; gap = 1 merges adjacent ones as well
std::vector<CI> Canon(std::vector<CI> v, int gap) {
    std::sort(v.begin(), v.end());
    std::vector<CI> out;
    for (auto& x : v) {
        if (!out.empty() && x.first <= out.back().second + gap) {
            out.back().second = std::max(out.back().second, x.second);
        } else {
            out.push_back(x);
        }
    }
    return out;
}
std::vector<CI> Lift(const std::vector<Range>& v) {
    std::vector<CI> out;
    for (auto& r : v) out.emplace_back(r.from, r.to);
    return out;
}
std::vector<CI> Meet(const std::vector<CI>& a, const std::vector<CI>& b) {
    std::vector<CI> out;
    for (auto& x : a) {
        for (auto& y : b) {
            I lo = std::max(x.first, y.first), hi = std::min(x.second, y.second);
            if (lo <= hi) out.emplace_back(lo, hi);
        }
    }
    return Canon(out, 1);
}
std::vector<CI> Minus(CI a, const std::vector<CI>& b) {
    std::vector<CI> out;
    I cur = a.first;
    for (auto& x : Canon(b, 1)) {
        if (x.second < cur || x.first > a.second) continue;
        if (x.first > cur) out.emplace_back(cur, x.first - 1);
        cur = x.second + 1;
    }
    if (cur <= a.second) out.emplace_back(cur, a.second);
    return out;
}
bool SortedDisjoint(const std::vector<CI>& v) {
    for (size_t i = 0; i < v.size(); i++) {
        if (v[i].first > v[i].second) return false;
        if (i && v[i].first <= v[i - 1].second) return false;
    }
    return true;
}

const std::vector<int64_t>& Universe(int which) {
    static const std::vector<int64_t> small{0, 1, 2, 3, 4, 5};
    static const std::vector<int64_t> big{INT64_MIN, INT64_MIN + 1, -1, 0, INT64_MAX - 1, INT64_MAX};
    return which ? big : small;
}
Range PickRange(const std::vector<int64_t>& u) {
    int n = static_cast<int>(u.size());
    int a = mc::Choose(n);
    int b = a + mc::Choose(n - a);
    return Range(u[a], u[b]);
}
std::vector<Range> PickList(const std::vector<int64_t>& u, int max) {
    int n = mc::Choose(max + 1);
    std::vector<Range> v;
    for (int i = 0; i < n; i++) v.push_back(PickRange(u));
    return v;
}
uint64_t H(const std::vector<Range>& v, int tag) {
    mc::Hash h;
    h.U(tag);
    for (auto& r : v) h.U(r.from).U(r.to);
    return h.h;
}

MC_SCENARIO(merge, mc::BOTH, 4, "all lists of <=3 (thorough 4) ranges over two 6-point universes") {
    const auto& u = Universe(mc::Choose(2));
    auto v = PickList(u, mc::Thorough() ? 4 : 3);
    mc::State(H(v, 1));
    if (v.size() > 1) mc::Nontrivial();
    mc::Log("merge %s", Show(v).c_str());
    for (bool adjacent : {false, true}) {
        auto in = v;
        auto got = Range::SortAndMergeOverlap(in, adjacent);
        mc::Steps();
        MC_CHECK(in == v, "merge-input-changed", "input changed");
        MC_CHECK(Lift(got) == Canon(Lift(v), adjacent ? 1 : 0), "merge",
                 "SortAndMergeOverlap(%s, adjacent=%d) = %s", Show(v).c_str(), adjacent,
                 Show(got).c_str());
    }
}

MC_SCENARIO(exclude, mc::BOTH, 4, "every range minus all lists of <=3 ranges") {
    const auto& u = Universe(mc::Choose(2));
    Range base = PickRange(u);
    auto v = PickList(u, mc::Thorough() ? 3 : 2);
    mc::State(H(v, 2) ^ H({base}, 3));
    mc::Nontrivial();
    mc::Log("exclude %s from %s", Show(v).c_str(), Show({base}).c_str());
    auto got = base.Exclude(v);
    mc::Steps();
    MC_CHECK(Lift(got) == Minus({base.from, base.to}, Lift(v)), "exclude", "%s.Exclude(%s) = %s",
             Show({base}).c_str(), Show(v).c_str(), Show(got).c_str());
}

MC_SCENARIO(meet, mc::BOTH, 4, "intersection of all pairs of sorted disjoint lists of <=3 ranges") {
    const auto& u = Universe(mc::Choose(2));
    auto a = PickList(u, 3);
    mc::Assume(SortedDisjoint(Lift(a)));
    auto b = PickList(u, 3);
    mc::Assume(SortedDisjoint(Lift(b)));
    mc::State(H(a, 4) * 31 + H(b, 5));
    mc::Nontrivial();
    mc::Log("and %s and %s", Show(a).c_str(), Show(b).c_str());
    auto got = Range::And(a, b);
    mc::Steps();
    MC_CHECK(SortedDisjoint(Lift(got)), "and-order", "And(%s, %s) = %s not sorted and disjoint",
             Show(a).c_str(), Show(b).c_str(), Show(got).c_str());
    MC_CHECK(Canon(Lift(got), 1) == Meet(Lift(a), Lift(b)), "and", "And(%s, %s) = %s",
             Show(a).c_str(), Show(b).c_str(), Show(got).c_str());
}

MC_SCENARIO(pairs, mc::BOTH, 2, "all pairs of ranges of both universes") {
    const auto& u = Universe(mc::Choose(2));
    Range a = PickRange(u), b = PickRange(u);
    mc::State(H({a, b}, 6));
    mc::Nontrivial();
    I lo = std::max(a.from, b.from), hi = std::min(a.to, b.to);
    auto x = Range::Intersection(a, b);
    MC_CHECK(x.has_value() == (lo <= hi), "intersection", "%s %s", Show({a}).c_str(),
             Show({b}).c_str());
    if (x) {
        MC_CHECK(x->from == lo && x->to == hi, "intersection-value", "%s %s", Show({a}).c_str(),
                 Show({b}).c_str());
    }
    MC_CHECK(Range::HasIntersection(a, b) == (lo <= hi), "hasintersection", "%s %s",
             Show({a}).c_str(), Show({b}).c_str());
    MC_CHECK((a == b) == (a.from == b.from && a.to == b.to), "eq", "eq");
    MC_CHECK((a < b) == (std::make_pair(a.from, a.to) < std::make_pair(b.from, b.to)), "less",
             "%s < %s", Show({a}).c_str(), Show({b}).c_str());
    I cnt = static_cast<I>(a.to) - a.from + 1;
    if (cnt <= INT64_MAX) {
        MC_CHECK(static_cast<I>(a.Count()) == cnt, "count", "%s Count=%lld", Show({a}).c_str(),
                 static_cast<long long>(a.Count()));
    }
    MC_CHECK(a.ToString() == "[" + std::to_string(a.from) + ", " + std::to_string(a.to) + "]",
             "tostring", "%s", a.ToString().c_str());
    mc::Steps(6);
}

// ---- grouping of files by overlapping row ranges ----------------------------------------------

struct Item {
    Range r;
    int id;
    bool bad_start = false, bad_end = false;
};

MC_SCENARIO(group, mc::BOTH, 4, "grouping of all lists of <=4 ranges over a 6-point universe") {
    const auto& u = Universe(mc::Choose(2));
    int max = mc::Thorough() ? 4 : 3;
    auto v = PickList(u, max);
    std::vector<Item> items;
    for (size_t i = 0; i < v.size(); i++) items.push_back({v[i], static_cast<int>(i)});
    int fault = v.empty() ? 0 : mc::Choose(static_cast<int>(v.size()) * 2 + 1);
    if (fault) {
        if (fault % 2) {
            items[(fault - 1) / 2].bad_start = true;
        } else {
            items[(fault - 1) / 2].bad_end = true;
        }
    }
    mc::State(H(v, 7) + fault);
    if (v.size() > 1) mc::Nontrivial();
    RangeHelper<Item> h(
        [](const Item& i) -> Result<int64_t> {
            if (i.bad_start) return Status::Invalid("start");
            return i.r.from;
        },
        [](const Item& i) -> Result<int64_t> {
            if (i.bad_end) return Status::Invalid("end");
            return i.r.to;
        });
    mc::Log("group %s fault %d", Show(v).c_str(), fault);
    auto same = h.AreAllRangesSame(items);
    if (!fault) {
        bool want = true;
        for (auto& r : v) want = want && r == v[0];
        MC_CHECK(same.ok() && same.value() == want, "same", "AreAllRangesSame(%s)", Show(v).c_str());
    } else if (fault <= 2) {
        MC_CHECK(!same.ok(), "same-fault", "error of the first range is lost");
    }
    auto got = h.MergeOverlappingRanges(std::vector<Item>(items));
    mc::Steps(2);
    if (fault) {
        MC_CHECK(!got.ok(), "group-fault", "error of a bound is lost");
        return;
    }
    MC_CHECK(got.ok(), "group-status", "%s", got.status().ToString().c_str());
    auto comps = Canon(Lift(v), 0);
    MC_CHECK(got.value().size() == comps.size(), "group-count", "%zu groups, want %zu for %s",
             got.value().size(), comps.size(), Show(v).c_str());
    for (size_t g = 0; g < comps.size(); g++) {
        std::vector<int> want;
        for (size_t i = 0; i < v.size(); i++) {
            if (v[i].from >= comps[g].first && v[i].to <= comps[g].second) want.push_back(i);
        }
        std::vector<int> ids;
        for (auto& it : got.value()[g]) ids.push_back(it.id);
        MC_CHECK(ids == want, "group-members", "group %zu of %s has %zu members, want %zu, or order",
                 g, Show(v).c_str(), ids.size(), want.size());
        for (auto& it : got.value()[g]) {
            MC_CHECK(it.r == v[it.id], "group-value", "value of item %d changed", it.id);
        }
    }
}

MC_SCENARIO(many, mc::BOTH, 3,
            "20 and 40 ranges (apart, adjacent, overlapping, nested, equal) in 5 orders with one more range of 7 anywhere: merging, "
            "grouping, exclusion, intersection") {
    int n = mc::Pick(std::vector<int>{20, 40});
    int kind = mc::Choose(6), order = mc::Choose(5);
    std::vector<Range> v;
    for (int64_t i = 0; i < n; i++) {
        if (kind == 0) v.emplace_back(i * 5, i * 5 + 2);
        if (kind == 1) v.emplace_back(i * 3, i * 3 + 2);
        if (kind == 2) v.emplace_back(i * 3, i * 3 + 3);
        if (kind == 3) v.emplace_back(i, 2 * n - i);
        if (kind == 4) v.emplace_back(i / 4 * 10, i / 4 * 10 + i % 4);
        if (kind == 5) v.emplace_back(i * 5, i * 5 + (i % 3 == 0 ? 5 : 2));
    }
    std::vector<Range> p;
    for (int i = 0; i < n; i++) {
        int k = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i * 7) % n : order == 3 ? (i + n / 2) % n : i ^ 1;
        p.push_back(v[k]);
    }
    Range extra = mc::Pick(std::vector<Range>{Range(0, 0), Range(3, 3), Range(7, 60), Range(0, 1000), Range(61, 61), Range(99, 205), Range(1000, 1001)});
    int at = mc::Choose(n + 1);
    p.insert(p.begin() + at, extra);
    mc::State(H(p, 21));
    mc::Nontrivial();
    mc::Steps(6);
    for (bool adjacent : {false, true}) {
        auto got = Range::SortAndMergeOverlap(p, adjacent);
        MC_CHECK(Lift(got) == Canon(Lift(p), adjacent ? 1 : 0), "merge-many", "%d ranges of kind %d in order %d, adjacent %d: %s", n, kind, order,
                 adjacent, Show(got).c_str());
    }
    for (Range base : {Range(0, 300), Range(4, 57), Range(60, 61)}) {
        auto got = base.Exclude(p);
        MC_CHECK(Lift(got) == Minus({base.from, base.to}, Lift(p)), "exclude-many", "%d ranges of kind %d in order %d from %s: %s", n, kind, order,
                 Show({base}).c_str(), Show(got).c_str());
    }
    auto left = Range::SortAndMergeOverlap(p, false);
    std::vector<Range> right;
    for (int64_t i = 0; i < 25; i++) right.emplace_back(i * 8 + 1, i * 8 + (at % 3) * 3 + 1);
    for (bool swap : {false, true}) {
        auto got = swap ? Range::And(right, left) : Range::And(left, right);
        MC_CHECK(SortedDisjoint(Lift(got)) && Canon(Lift(got), 1) == Meet(Lift(left), Lift(right)), "and-many", "%d ranges of kind %d: %s", n, kind,
                 Show(got).c_str());
    }
    std::vector<Item> items;
    for (size_t i = 0; i < p.size(); i++) items.push_back({p[i], static_cast<int>(i)});
    RangeHelper<Item> h([](const Item& i) -> Result<int64_t> { return i.r.from; }, [](const Item& i) -> Result<int64_t> { return i.r.to; });
    auto got = h.MergeOverlappingRanges(std::vector<Item>(items));
    auto comps = Canon(Lift(p), 0);
    MC_CHECK(got.ok() && got.value().size() == comps.size(), "group-many", "%d ranges of kind %d in order %d", n, kind, order);
    for (size_t g = 0; g < comps.size(); g++) {
        std::vector<int> want, ids;
        for (size_t i = 0; i < p.size(); i++)
            if (p[i].from >= comps[g].first && p[i].to <= comps[g].second) want.push_back(static_cast<int>(i));
        for (auto& it : got.value()[g]) ids.push_back(it.id);
        MC_CHECK(ids == want, "group-many", "group %zu of %d ranges of kind %d in order %d", g, n, kind, order);
    }
}

}  // namespace
