// Reference model: a set of int64 values kept as the sorted list of its toggle points
// (even positions open an interval, odd positions close it, exclusive).
#pragma once
#include <algorithm>
#include <cstdint>
#include <string>
#include <vector>

struct ISet {
    std::vector<int64_t> t;

    static ISet Interval(int64_t lo, int64_t hi) {
        ISet s;
        if (lo < hi) s.t = {lo, hi};
        return s;
    }
    static ISet Of(const std::vector<int64_t>& v) {
        ISet s;
        for (auto x : v) s.Add(x, x + 1);
        return s;
    }
    template <typename F>
    static ISet Combine(const ISet& a, const ISet& b, F f) {
        ISet r;
        size_t i = 0, j = 0;
        bool cur = false;
        while (i < a.t.size() || j < b.t.size()) {
            int64_t x;
            if (j >= b.t.size() || (i < a.t.size() && a.t[i] <= b.t[j])) {
                x = a.t[i];
            } else {
                x = b.t[j];
            }
            while (i < a.t.size() && a.t[i] == x) i++;
            while (j < b.t.size() && b.t[j] == x) j++;
            bool n = f((i & 1) != 0, (j & 1) != 0);
            if (n != cur) {
                r.t.push_back(x);
                cur = n;
            }
        }
        return r;
    }
    static ISet Or(const ISet& a, const ISet& b) {
        return Combine(a, b, [](bool x, bool y) { return x || y; });
    }
    static ISet And(const ISet& a, const ISet& b) {
        return Combine(a, b, [](bool x, bool y) { return x && y; });
    }
    static ISet AndNot(const ISet& a, const ISet& b) {
        return Combine(a, b, [](bool x, bool y) { return x && !y; });
    }
    static ISet Xor(const ISet& a, const ISet& b) {
        return Combine(a, b, [](bool x, bool y) { return x != y; });
    }
    void Add(int64_t lo, int64_t hi) {
        if (lo >= hi) return;
        if (t.empty() || lo > t.back()) {
            t.push_back(lo);
            t.push_back(hi);
            return;
        }
        *this = Or(*this, Interval(lo, hi));
    }
    void Remove(int64_t lo, int64_t hi) { *this = AndNot(*this, Interval(lo, hi)); }
    void Flip(int64_t lo, int64_t hi) { *this = Xor(*this, Interval(lo, hi)); }
    size_t Idx(int64_t x) const { return std::upper_bound(t.begin(), t.end(), x) - t.begin(); }
    bool Has(int64_t x) const { return Idx(x) & 1; }
    bool Empty() const { return t.empty(); }
    uint64_t Card() const {
        uint64_t n = 0;
        for (size_t i = 0; i + 1 < t.size(); i += 2) {
            n += static_cast<uint64_t>(t[i + 1]) - static_cast<uint64_t>(t[i]);
        }
        return n;
    }
    // smallest element >= x; false when there is none
    bool Ceil(int64_t x, int64_t* out) const {
        size_t i = Idx(x);
        if (i & 1) {
            *out = x;
            return true;
        }
        if (i >= t.size()) return false;
        *out = t[i];
        return true;
    }
    bool AnyIn(int64_t lo, int64_t hi) const {
        int64_t v;
        return lo < hi && Ceil(lo, &v) && v < hi;
    }
    bool operator==(const ISet& o) const { return t == o.t; }
    std::string Str() const {
        std::string s = "{";
        for (size_t i = 0; i + 1 < t.size(); i += 2) {
            if (i > 16) {
                s += " ...";
                break;
            }
            s += " [" + std::to_string(t[i]) + "," + std::to_string(t[i + 1]) + ")";
        }
        return s + " }";
    }
    std::vector<int64_t> Elements(size_t limit) const {
        std::vector<int64_t> r;
        for (size_t i = 0; i + 1 < t.size() && r.size() < limit; i += 2) {
            for (int64_t x = t[i]; x < t[i + 1] && r.size() < limit; x++) r.push_back(x);
        }
        return r;
    }
};
