// Packing ordered items into weighted bins.
#include <memory>

#include "mc/mc.h"
#include "paimon/common/utils/bin_packing.h"

using namespace paimon;  // NOLINT

MC_SCENARIO(pack, mc::BOTH, 3,
            "all weight sequences of <=6 (thorough 8) items with weights 0..4 and targets 0..7") {
    int64_t target = mc::Choose(8);
    bool huge = mc::ChooseBool();
    int64_t unit = huge ? (1LL << 40) : 1;
    int n = mc::Choose(mc::Thorough() ? 9 : 7);
    struct It {
        int id;
        int64_t w;
    };
    std::vector<It> items;
    mc::Hash h;
    h.U(target).U(huge);
    for (int i = 0; i < n; i++) {
        items.push_back({i, mc::Choose(huge ? 3 : 5) * (huge ? 3 : 1) * unit});
        h.U(items.back().w);
    }
    target *= unit;
    mc::State(h.h);
    if (n > 1) mc::Nontrivial();
    auto w = [&](const It& x) { return x.w; };
    auto copy = items;
    auto bins = BinPacking::PackForOrdered<It>(std::move(copy), w, target);
    mc::Steps();
    int next = 0;
    for (size_t b = 0; b < bins.size(); b++) {
        MC_CHECK(!bins[b].empty(), "pack-empty", "bin %zu is empty", b);
        int64_t sum = 0;
        for (auto& x : bins[b]) {
            MC_CHECK(x.id == next && x.w == items[next].w, "pack-order",
                     "item %d found where item %d belongs (target %lld)", x.id, next,
                     static_cast<long long>(target));
            next++;
            sum += x.w;
        }
        MC_CHECK(sum <= target || bins[b].size() == 1, "pack-weight",
                 "bin %zu of %zu items weighs %lld, target %lld", b, bins[b].size(),
                 static_cast<long long>(sum), static_cast<long long>(target));
        if (b + 1 < bins.size()) {
            MC_CHECK(sum + bins[b + 1][0].w > target, "pack-greedy",
                     "bin %zu could have taken the next item (%lld + %lld <= %lld)", b,
                     static_cast<long long>(sum), static_cast<long long>(bins[b + 1][0].w),
                     static_cast<long long>(target));
        }
    }
    MC_CHECK(next == n, "pack-lost", "%d of %d items packed", next, n);
}

MC_SCENARIO(pack_many, mc::BOTH, 2, "20, 33 and 100 items of 4 patterns of weights, one of 5 other weights at every place, 6 targets") {
    int n = mc::Pick(std::vector<int>{20, 33, 100});
    int pattern = mc::Choose(4);
    int64_t target = mc::Pick(std::vector<int64_t>{0, 1, 7, 16, 40, INT64_MAX / 4});
    std::vector<std::pair<int, int64_t>> items;
    for (int i = 0; i < n; i++) items.emplace_back(i, pattern == 0 ? 1 : pattern == 1 ? i % 5 : pattern == 2 ? 8 : (n - i) % 17);
    int at = mc::Choose(n);
    items[at].second = mc::Pick(std::vector<int64_t>{0, 1, 16, 41, INT64_MAX / 2});
    mc::State(mc::Hash().U(n).U(pattern).U(target).U(at).U(items[at].second).h);
    mc::Nontrivial();
    mc::Steps();
    std::vector<std::vector<std::pair<int, int64_t>>> want;
    int64_t sum = 0;
    for (auto& x : items) {
        if (want.empty() || sum + x.second > target) want.emplace_back(), sum = 0;
        want.back().push_back(x);
        sum += x.second;
    }
    auto copy = items;
    auto bins = BinPacking::PackForOrdered<std::pair<int, int64_t>>(
        std::move(copy), [](const std::pair<int, int64_t>& x) { return x.second; }, target);
    MC_CHECK(bins == want, "pack-many", "%d items of pattern %d, item %d weighs %lld, target %lld: %zu bins want %zu", n, pattern, at,
             static_cast<long long>(items[at].second), static_cast<long long>(target), bins.size(), want.size());
}

