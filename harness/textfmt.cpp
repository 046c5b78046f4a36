// Partition directory names and timestamps.
#include <set>

#include "mc/mc.h"
#include "paimon/core/utils/partition_path_utils.h"
#include "paimon/data/timestamp.h"

using namespace paimon;  // NOLINT
namespace {

std::string Unescape(const std::string& s) {
    std::string out;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '%' && i + 2 < s.size() + 0 && isxdigit(s[i + 1]) && isxdigit(s[i + 2])) {
            out += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16));
            i += 2;
        } else {
            out += s[i];
        }
    }
    return out;
}

bool MustEscape(unsigned char c) {
    static const std::string special = "\"#%'*/:=?\\{}[]^\x7f";
    return c < 0x20 || special.find(static_cast<char>(c)) != std::string::npos;
}
std::string RefEscape(const std::string& s) {
    std::string out;
    char buf[4];
    for (unsigned char c : s) {
        if (c < 128 && MustEscape(c)) {
            snprintf(buf, sizeof(buf), "%%%02X", c);
            out += buf;
        } else {
            out += static_cast<char>(c);
        }
    }
    return out;
}

void One(const std::string& s) {
    auto r = PartitionPathUtils::EscapePathName(s);
    mc::State(mc::Hash().S(s).h);
    mc::Steps();
    if (s.empty()) {
        MC_CHECK(!r.ok(), "escape-empty", "the empty name was accepted");
        return;
    }
    mc::Nontrivial();
    MC_CHECK(r.ok(), "escape-status", "name refused");
    const std::string& e = r.value();
    MC_CHECK(e.find('/') == std::string::npos && e.find('=') == std::string::npos, "escape-separator",
             "an escaped name contains a separator: '%s'", e.c_str());
    MC_CHECK(Unescape(e) == s, "escape-reversible", "'%s' does not decode to the name", e.c_str());
    MC_CHECK(e == RefEscape(s), "escape-format", "'%s', want '%s'", e.c_str(), RefEscape(s).c_str());
}

MC_SCENARIO(escape, mc::BOTH, 2, "every name of <=2 bytes over all 256 byte values") {
    int n = mc::Choose(3);
    std::string s;
    for (int i = 0; i < n; i++) s += static_cast<char>(mc::Choose(256));
    One(s);
}

MC_SCENARIO(escape3, mc::BOTH, 3, "every name of 3..5 bytes over {a, %, 2, F, /, =, 0x01, 0x80}") {
    const char alpha[] = {'a', '%', '2', 'F', '/', '=', '\x01', '\x80'};
    int n = 3 + mc::Choose(mc::Thorough() ? 4 : 2);
    std::string s;
    for (int i = 0; i < n; i++) s += alpha[mc::Choose(8)];
    One(s);
}

MC_SCENARIO(partition_path, mc::BOTH, 3,
            "every spec of <=3 columns over 8 names and values: path, hierarchy, refusal of empty "
            "parts") {
    const std::vector<std::string> names{"a", "b=", "", "x/y", "%", "a=b", "\x7f", "\xc3\xa9"};
    int n = mc::Choose(4);
    std::vector<std::pair<std::string, std::string>> spec;
    bool valid = true;
    std::string want;
    std::vector<std::string> want_h;
    for (int i = 0; i < n; i++) {
        std::string k = i < 2 ? mc::Pick(names) : names[mc::Choose(3)];
        std::string v = i < 2 ? mc::Pick(names) : names[mc::Choose(4)];
        valid = valid && !k.empty() && !v.empty();
        spec.emplace_back(k, v);
        want += RefEscape(k) + "=" + RefEscape(v) + "/";
        want_h.push_back(want);
    }
    mc::State(mc::Hash().S(want).U(valid).U(n).h);
    mc::Nontrivial();
    mc::Steps(2);
    auto p = PartitionPathUtils::GeneratePartitionPath(spec);
    auto h = PartitionPathUtils::GenerateHierarchicalPartitionPaths(spec);
    MC_CHECK(p.ok() == valid && h.ok() == valid, "path-status", "%d columns valid=%d: %d %d", n, valid,
             p.ok(), h.ok());
    if (!valid) return;
    MC_CHECK(p.value() == want, "path", "'%s' want '%s'", p.value().c_str(), want.c_str());
    MC_CHECK(h.value() == want_h, "hierarchy", "%d columns", n);
}

// ---- timestamps --------------------------------------------------------------------------------

int64_t Days(int64_t y, int m, int d) {
    y -= m <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400;
    auto yoe = static_cast<unsigned>(y - era * 400);
    unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + static_cast<int64_t>(doe) - 719468;
}

MC_SCENARIO(timestamp_text, mc::BOTH, 2,
            "the first and last day of every month of every year 0000..9999 at 4 times of day "
            "(thorough: every day)") {
    int century = mc::Choose(100);
    int yy = mc::Choose(100);
    int y = century * 100 + yy;
    static const int mdays[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    mc::State(y);
    mc::Nontrivial();
    for (int m = 1; m <= 12; m++) {
        int last = mdays[m - 1] + (m == 2 && (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)));
        for (int d = 1; d <= last; d++) {
            if (!mc::Thorough() && d != 1 && d != last) continue;
            struct {
                int64_t ms;
                int32_t ns;
                const char* t;
            } times[] = {{0, 0, "00:00:00.000000000"},
                         {0, 1, "00:00:00.000000001"},
                         {86399999, 999999, "23:59:59.999999999"},
                         {43205678, 123456, "12:00:05.678123456"}};
            for (auto& t : times) {
                int64_t ms = Days(y, m, d) * 86400000LL + t.ms;
                Timestamp ts(ms, t.ns);
                char want[64];
                snprintf(want, sizeof(want), "%04d-%02d-%02d %s", y, m, d, t.t);
                std::string got = ts.ToString();
                MC_CHECK(got == want, "timestamp-text", "%lld ms + %d ns: '%s' want '%s'",
                         static_cast<long long>(ms), t.ns, got.c_str(), want);
                MC_CHECK(ts.ToMicrosecond() == ms * 1000 + t.ns / 1000, "timestamp-micros",
                         "%lld ms + %d ns", static_cast<long long>(ms), t.ns);
                mc::Steps(2);
            }
        }
    }
}

MC_SCENARIO(timestamp_order, mc::BOTH, 2,
            "all pairs over 11 millisecond and 6 nanosecond values: order, equality, conversions") {
    const std::vector<int64_t> msv{-62167219200000LL, -1001, -1000, -999, -1, 0,
                                   1,                 999,   1000,  1001, 253402300799999LL};
    const std::vector<int32_t> nsv{0, 1, 999, 1000, 1001, 999999};
    int64_t m1 = mc::Pick(msv), m2 = mc::Pick(msv);
    int32_t n1 = mc::Pick(nsv), n2 = mc::Pick(nsv);
    Timestamp a(m1, n1), b = Timestamp::FromEpochMillis(m2, n2);
    mc::State(mc::Hash().U(m1).U(m2).U(n1).U(n2).h);
    mc::Nontrivial();
    mc::Steps(5);
    __int128 x = static_cast<__int128>(m1) * 1000000 + n1, y = static_cast<__int128>(m2) * 1000000 + n2;
    MC_CHECK((a < b) == (x < y), "timestamp-less", "(%lld,%d) < (%lld,%d)", static_cast<long long>(m1),
             n1, static_cast<long long>(m2), n2);
    MC_CHECK((a == b) == (x == y), "timestamp-equal", "equality");
    MC_CHECK(a.GetMillisecond() == m1 && a.GetNanoOfMillisecond() == n1, "timestamp-parts", "parts");
    Timestamp c = a.ToMillisTimestamp();
    MC_CHECK(c.GetMillisecond() == m1 && c.GetNanoOfMillisecond() == 0, "timestamp-millis", "millis");
    if (m1 > -9000000000000LL && m1 < 9000000000000LL) {
        MC_CHECK(a.ToNanosecond() == static_cast<int64_t>(x), "timestamp-nanos", "nanos");
    }
    MC_CHECK(a.ToMicrosecond() == m1 * 1000 + n1 / 1000, "timestamp-micros2", "micros");
    MC_CHECK(Timestamp::FromEpochMillis(m1) == Timestamp(m1, 0), "timestamp-from", "from millis");
    // the text form orders and identifies timestamps
    MC_CHECK((a.ToString() < b.ToString()) == (x < y), "timestamp-text-order", "text order");
}

MC_SCENARIO(timestamp_compact, mc::BOTH, 1, "compactness of every precision 0..9") {
    int p = mc::Choose(10);
    mc::State(p);
    mc::Nontrivial();
    MC_CHECK(Timestamp::IsCompact(p) == (p <= 3), "compact", "precision %d", p);
}

MC_SCENARIO(escape_long, mc::BOTH, 2, "names of 6..300 bytes with each of the 256 byte values at 5 places, next to plain and escaped bytes") {
    int n = mc::Pick(std::vector<int>{6, 7, 8, 15, 16, 17, 32, 33, 64, 65, 300});
    std::string s(n, mc::Pick(std::vector<char>{'a', '/', '\x80'}));
    int at = mc::Pick(std::vector<int>{0, 1, n / 2, n - 2, n - 1});
    s[at] = static_cast<char>(mc::Choose(256));
    One(s);
}

MC_SCENARIO(partition_deep, mc::BOTH, 2, "specs of 1..12 columns with one of 8 names or values at every place") {
    const std::vector<std::string> names{"a", "b=", "", "x/y", "%", "a=b", "\x7f", "\xc3\xa9"};
    int n = 1 + mc::Choose(12);
    int at = mc::Choose(n);
    bool value = mc::ChooseBool();
    std::string odd = mc::Pick(names);
    std::vector<std::pair<std::string, std::string>> spec;
    std::string want;
    std::vector<std::string> want_h;
    for (int i = 0; i < n; i++) {
        std::string k = "k" + std::to_string(i), v = std::to_string(i * i);
        if (i == at) (value ? v : k) = odd;
        spec.emplace_back(k, v);
        want += RefEscape(k) + "=" + RefEscape(v) + "/";
        want_h.push_back(want);
    }
    mc::State(mc::Hash().S(want).h);
    mc::Nontrivial();
    mc::Steps(2);
    auto p = PartitionPathUtils::GeneratePartitionPath(spec);
    auto h = PartitionPathUtils::GenerateHierarchicalPartitionPaths(spec);
    MC_CHECK(p.ok() == !odd.empty() && h.ok() == !odd.empty(), "path-status", "%d columns, '%s' at %d", n, odd.c_str(), at);
    if (!p.ok()) return;
    MC_CHECK(p.value() == want && h.value() == want_h, "path", "'%s' want '%s'", p.value().c_str(), want.c_str());
}

}  // namespace
