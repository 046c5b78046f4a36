// Segmented memory: a region spread over segments behaves as one contiguous byte array, whatever
// the segment size and offset; strings over segments behave as the flat string; the hash is the
// documented Murmur3 variant and independent of the layout.
#include "mc/mc.h"
#include "paimon/common/data/binary_section.h"
#include "paimon/common/data/binary_string.h"
#include "paimon/common/memory/memory_segment.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/common/utils/murmurhash_utils.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"

using namespace paimon;  // NOLINT
namespace {

MemoryPool* Pool() {
    static std::shared_ptr<MemoryPool> p = GetDefaultPool();
    return p.get();
}

// Segments of `size` bytes holding `flat` (padded at the end with '#').
std::vector<MemorySegment> Layout(const std::string& flat, int size) {
    std::vector<MemorySegment> v;
    size_t at = 0;
    do {
        std::string part = flat.substr(at, size);
        part.resize(size, '#');
        v.push_back(MemorySegment::Wrap(std::make_shared<Bytes>(part, Pool())));
        at += size;
    } while (at < flat.size());
    return v;
}
std::string Flat(const std::vector<MemorySegment>& v) {
    std::string s;
    for (auto& m : v) s.append(m.GetArray()->data(), m.Size());
    return s;
}
std::string Str(const Bytes& b) { return std::string(b.data() ? b.data() : "", b.size()); }
int Sign(int64_t x) { return x < 0 ? -1 : x > 0; }

uint32_t Rotl(uint32_t x, int r) { return (x << r) | (x >> (32 - r)); }
int32_t RefHash(const std::string& s) {
    auto mix_k = [](uint32_t k) { return Rotl(k * 0xcc9e2d51u, 15) * 0x1b873593u; };
    auto mix_h = [](uint32_t h, uint32_t k) { return Rotl(h ^ k, 13) * 5 + 0xe6546b64u; };
    uint32_t h = 42;
    size_t n = s.size() / 4 * 4;
    for (size_t i = 0; i < n; i += 4) {
        uint32_t w;
        memcpy(&w, s.data() + i, 4);
        h = mix_h(h, mix_k(w));
    }
    for (size_t i = n; i < s.size(); i++) {
        h = mix_h(h, mix_k(static_cast<uint32_t>(static_cast<int32_t>(static_cast<signed char>(s[i])))));
    }
    h ^= static_cast<uint32_t>(s.size());
    h ^= h >> 16;
    h *= 0x85ebca6bu;
    h ^= h >> 13;
    h *= 0xc2b2ae35u;
    h ^= h >> 16;
    return static_cast<int32_t>(h);
}

const std::vector<int>& SegSizes() {
    static const std::vector<int> v{1, 2, 3, 4, 5, 7, 8, 9, 11, 16, 24};
    return v;
}
std::string Pattern(int n) {
    std::string s;
    for (int i = 0; i < n; i++) s += static_cast<char>(0x80 ^ (i * 37 + 11));
    return s;
}

MC_SCENARIO(copy, mc::BOTH, 3,
            "all copies out of and into a 24 byte region, 11 segment sizes, all offsets and lengths") {
    int total = 24;
    int size = mc::Pick(SegSizes());
    int off = mc::Choose(total);
    int len = mc::Choose(total - off + 1);
    std::string flat = Pattern(total);
    auto segs = Layout(flat, size);
    std::string want = flat.substr(off, len);
    mc::State(mc::Hash().U(size).U(off).U(len).h);
    mc::Nontrivial();
    mc::Steps(6);
    auto b = MemorySegmentUtils::CopyToBytes(segs, off, len, Pool());
    MC_CHECK(Str(*b) == want, "copy-to-bytes", "size %d off %d len %d", size, off, len);
    auto g = MemorySegmentUtils::GetBytes(segs, off, len, Pool());
    MC_CHECK(Str(*g) == want, "get-bytes", "size %d off %d len %d", size, off, len);
    std::vector<char> raw(len + 2, '~');
    MemorySegmentUtils::CopyToUnsafe(segs, off, raw.data() + 1, len);
    MC_CHECK(std::string(raw.data() + 1, len) == want && raw[0] == '~' && raw[len + 1] == '~',
             "copy-to-unsafe", "size %d off %d len %d", size, off, len);
    int shift = mc::Choose(3);
    std::string dst(len + shift, '~');
    MemorySegmentUtils::CopyToBytes(segs, off, &dst, shift, len);
    MC_CHECK(dst == std::string(shift, '~') + want, "copy-to-offset", "size %d off %d len %d", size,
             off, len);
    BinarySection sec(segs, off, len);
    MC_CHECK(Str(*sec.ToBytes(Pool())) == want, "section-bytes", "size %d off %d len %d", size, off,
             len);
    if (size >= total) {
        Bytes part(std::string(len, '~'), Pool());
        segs[0].Get(off, &part);
        MC_CHECK(Str(part) == want, "segment-get", "off %d len %d", off, len);
        auto copied = Layout(flat, size);
        copied[0].Put(off, Bytes(std::string(len, '?'), Pool()));
        MC_CHECK(Flat(copied) == flat.substr(0, off) + std::string(len, '?') + flat.substr(off + len), "segment-put", "off %d len %d",
                 off, len);
    }
    // into the region
    Bytes src(std::string(shift, '~') + std::string(len, '!'), Pool());
    std::string before = Flat(segs);
    MemorySegmentUtils::CopyFromBytes(&segs, off, src, shift, len);
    std::string after = before;
    for (int i = 0; i < len; i++) after[off + i] = '!';
    MC_CHECK(Flat(segs) == after, "copy-from-bytes", "size %d off %d len %d", size, off, len);
}

template <typename T>
void Value(std::vector<MemorySegment>* segs, int off, T v, int size) {
    std::string before = Flat(*segs);
    T ref;
    memcpy(&ref, before.data() + off, sizeof(T));
    if constexpr (!std::is_same_v<T, bool>) {
        T got = MemorySegmentUtils::GetValue<T>(*segs, off);
        MC_CHECK(memcmp(&got, &ref, sizeof(T)) == 0, "get-value", "size %d off %d width %zu", size,
                 off, sizeof(T));
    }
    MemorySegmentUtils::SetValue<T>(segs, off, v);
    std::string after = before;
    memcpy(&after[off], &v, sizeof(T));
    MC_CHECK(Flat(*segs) == after, "set-value", "size %d off %d width %zu", size, off, sizeof(T));
    T got = MemorySegmentUtils::GetValue<T>(*segs, off);
    MC_CHECK(memcmp(&got, &v, sizeof(T)) == 0, "reget-value", "size %d off %d width %zu", size, off,
             sizeof(T));
    mc::Steps(3);
}

MC_SCENARIO(values, mc::BOTH, 3, "typed loads and stores of every width at every offset and layout") {
    int total = 24;
    int size = mc::Pick(SegSizes());
    auto segs = Layout(Pattern(total), size);
    int type = mc::Choose(7);
    int width[] = {1, 2, 4, 8, 4, 8, 1};
    int off = mc::Choose(total - width[type] + 1);
    int which = mc::Choose(4);
    uint64_t bits[] = {0, 0xffffffffffffffffULL, 0x8081828384858687ULL, 0x0102030405060708ULL};
    uint64_t v = bits[which];
    mc::State(mc::Hash().U(size).U(type).U(off).U(which).h);
    mc::Nontrivial();
    if (type == 0) Value<char>(&segs, off, static_cast<char>(v), size);
    if (type == 1) Value<int16_t>(&segs, off, static_cast<int16_t>(v), size);
    if (type == 2) Value<int32_t>(&segs, off, static_cast<int32_t>(v), size);
    if (type == 3) Value<int64_t>(&segs, off, static_cast<int64_t>(v), size);
    if (type == 4) {
        float f;
        memcpy(&f, &v, 4);
        Value<float>(&segs, off, f, size);
    }
    if (type == 5) {
        double d;
        memcpy(&d, &v, 8);
        Value<double>(&segs, off, d, size);
    }
    if (type == 6) Value<bool>(&segs, off, v & 1, size);
}

MC_SCENARIO(bits, mc::BOTH, 3, "all sequences of 2 bit updates in a 6 byte region, all layouts") {
    int total = 6;
    int size = mc::Pick(std::vector<int>{1, 2, 3, 4, 5, 6, 8});
    std::string flat = mc::ChooseBool() ? std::string(total, '\0') : std::string(total, '\xff');
    auto segs = Layout(flat, size);
    flat = Flat(segs);
    int base = mc::Choose(3);
    for (int k = 0; k < 2; k++) {
        int op = mc::Choose(2);
        int bit = k == 0 ? mc::Choose((total - base) * 8) : mc::Choose((total - base)) * 8 + 7;
        if (op == 0) {
            flat[base + bit / 8] |= static_cast<char>(1 << (bit % 8));
            MemorySegmentUtils::BitSet(&segs, base, bit);
        } else {
            flat[base + bit / 8] &= static_cast<char>(~(1 << (bit % 8)));
            MemorySegmentUtils::BitUnSet(&segs, base, bit);
        }
        MC_CHECK(Flat(segs) == flat, "bit-update", "size %d base %d bit %d", size, base, bit);
        mc::State(mc::Hash().U(size).U(base).S(flat).h);
        mc::Nontrivial();
        mc::Steps();
        for (int i = 0; i < (total - base) * 8; i++) {
            bool want = (flat[base + i / 8] >> (i % 8)) & 1;
            MC_CHECK(MemorySegmentUtils::BitGet(segs, base, i) == want, "bit-get",
                     "size %d base %d bit %d", size, base, i);
            if (size >= total) {
                MC_CHECK(MemorySegmentUtils::BitGet(segs[0], base, i) == want, "bit-get-one",
                         "base %d bit %d", base, i);
            }
        }
    }
    if (size >= total) {
        int bit = mc::Choose((total - base) * 8);
        MemorySegmentUtils::BitUnSet(&segs[0], base, bit);
        flat[base + bit / 8] &= static_cast<char>(~(1 << (bit % 8)));
        MC_CHECK(Flat(segs) == flat, "bit-unset-one", "base %d bit %d", base, bit);
        MemorySegmentUtils::BitSet(&segs[0], base, bit);
        flat[base + bit / 8] |= static_cast<char>(1 << (bit % 8));
        MC_CHECK(Flat(segs) == flat, "bit-set-one", "base %d bit %d", base, bit);
    }
}

MC_SCENARIO(equal, mc::BOTH, 4,
            "equality and hash of two regions of up to 17 bytes over all pairs of layouts, with no "
            "or one differing byte") {
    const std::vector<int> sizes{1, 2, 3, 4, 5, 8, 9, 16, 32};
    int s1 = mc::Pick(sizes), s2 = mc::Pick(sizes);
    int len = mc::Choose(18);
    int o1 = mc::Choose(4), o2 = mc::Choose(4) * 2;
    int diff = mc::Choose(len + 1) - 1;
    std::string body = Pattern(len);
    std::string other = body;
    if (diff >= 0) other[diff] ^= mc::ChooseBool() ? 0x80 : 1;
    auto a = Layout(std::string(o1, '-') + body + "x", s1);
    auto b = Layout(std::string(o2, '+') + other + "y", s2);
    mc::State(mc::Hash().U(s1).U(s2).U(len).U(o1).U(o2).U(diff).h);
    mc::Nontrivial();
    mc::Steps(4);
    bool want = body == other;
    MC_CHECK(MemorySegmentUtils::Equals(a, o1, b, o2, len) == want, "equals",
             "sizes %d %d offsets %d %d len %d diff %d", s1, s2, o1, o2, len, diff);
    BinarySection x(a, o1, len), y(b, o2, len);
    MC_CHECK((x == y) == want, "section-equals", "sizes %d %d offsets %d %d len %d diff %d", s1, s2,
             o1, o2, len, diff);
    if (len > 0) {
        BinarySection z(b, o2, len - 1);
        MC_CHECK(!(x == z), "section-length", "sections of different length are equal");
    }
    MC_CHECK(x.HashCode() == RefHash(body), "hash", "size %d offset %d len %d: %d want %d", s1, o1,
             len, x.HashCode(), RefHash(body));
    MC_CHECK(MemorySegmentUtils::Hash(b, o2, len, Pool()) == RefHash(other), "hash2",
             "size %d offset %d len %d", s2, o2, len);
    if (len % 4 == 0) {
        MC_CHECK(MemorySegmentUtils::HashByWords(b, o2, len, Pool()) == RefHash(other), "hash-words",
                 "size %d offset %d len %d", s2, o2, len);
    }
    auto bytes = std::make_shared<Bytes>(body, Pool());
    MC_CHECK(MurmurHashUtils::HashBytes(bytes) == RefHash(body), "hash-bytes", "len %d", len);
    MC_CHECK(MurmurHashUtils::HashBytesPositive(bytes) == (RefHash(body) & 0x7fffffff),
             "hash-positive", "len %d", len);
    MC_CHECK(MurmurHashUtils::HashUnsafeBytes(body.data(), 0, len) == RefHash(body), "hash-unsafe",
             "len %d", len);
}

MC_SCENARIO(order, mc::BOTH, 3,
            "three-way comparison of regions of up to 17 bytes with up to two differing bytes") {
    int l1 = mc::Choose(18);
    int l2 = mc::Choose(18);
    int o1 = mc::Choose(3), o2 = mc::Choose(3);
    std::string a = Pattern(l1), b = Pattern(l2);
    int d1 = mc::Choose(std::min(l1, 10) + 1) - 1;
    if (d1 >= 0) a[d1] = static_cast<char>(mc::ChooseBool() ? 0xff : 0);
    int d2 = mc::Choose(l2 > 0 ? 3 : 1) - 1;
    if (d2 == 0) b[l2 - 1] = static_cast<char>(0xfe);
    if (d2 == 1) b[l2 / 2] = 1;
    auto sa = MemorySegment::Wrap(std::make_shared<Bytes>(std::string(o1, 'p') + a, Pool()));
    auto sb = MemorySegment::Wrap(std::make_shared<Bytes>(std::string(o2, 'q') + b, Pool()));
    mc::State(mc::Hash().S(a).S(b).U(o1).U(o2).h);
    mc::Nontrivial();
    mc::Steps(2);
    auto cmp = [](const std::string& p, const std::string& q) {
        int c = memcmp(p.data(), q.data(), std::min(p.size(), q.size()));
        return c ? Sign(c) : Sign(static_cast<int64_t>(p.size()) - static_cast<int64_t>(q.size()));
    };
    int want = cmp(a, b);
    MC_CHECK(Sign(sa.Compare(sb, o1, o2, l1, l2)) == want, "compare", "len %d %d d1 %d d2 %d", l1, l2,
             d1, d2);
    int m = std::min(l1, l2);
    MC_CHECK(Sign(sa.Compare(sb, o1, o2, m)) == cmp(a.substr(0, m), b.substr(0, m)), "compare-len",
             "len %d d1 %d d2 %d", m, d1, d2);
    MC_CHECK(sa.EqualTo(sb, o1, o2, m) == (a.substr(0, m) == b.substr(0, m)), "equal-to", "len %d",
             m);
    // swap and copy
    Bytes tmp(std::string(m, ' '), Pool());
    MemorySegment ca = MemorySegment::Wrap(std::make_shared<Bytes>(std::string(o1, 'p') + a, Pool()));
    MemorySegment cb = MemorySegment::Wrap(std::make_shared<Bytes>(std::string(o2, 'q') + b, Pool()));
    ca.SwapBytes(&tmp, &cb, o1, o2, m);
    MC_CHECK(Str(*ca.GetArray()) == std::string(o1, 'p') + b.substr(0, m) + a.substr(m) &&
                 Str(*cb.GetArray()) == std::string(o2, 'q') + a.substr(0, m) + b.substr(m),
             "swap", "len %d", m);
    sa.CopyTo(o1, &cb, o2, m);
    MC_CHECK(Str(*cb.GetArray()) == std::string(o2, 'q') + a.substr(0, m) + b.substr(m), "copy-to",
             "len %d", m);
}

MC_SCENARIO(find, mc::BOTH, 4,
            "substring search: all haystacks of up to 5 bytes and needles of up to 3 bytes over two "
            "letters, 6x4 layouts") {
    int n = mc::Choose(mc::Thorough() ? 7 : 6);
    std::string h, d;
    for (int i = 0; i < n; i++) h += static_cast<char>('a' + mc::Choose(2));
    int m = mc::Choose(4);
    for (int i = 0; i < m; i++) d += static_cast<char>('a' + mc::Choose(2));
    int s1 = mc::Pick(std::vector<int>{1, 2, 3, 5, 16}), s2 = mc::Pick(std::vector<int>{1, 2, 16});
    int o1 = mc::Choose(3), o2 = mc::Choose(2);
    auto a = Layout(std::string(o1, 'a') + h + "b", s1);
    auto b = Layout(std::string(o2, 'b') + d + "a", s2);
    mc::State(mc::Hash().S(h).S(d).U(s1).U(s2).U(o1).U(o2).h);
    if (m > 0 && n > 0) mc::Nontrivial();
    mc::Steps(4);
    size_t f = h.find(d);
    int want = f == std::string::npos ? -1 : static_cast<int>(f) + o1;
    int got = MemorySegmentUtils::Find(a, o1, n, b, o2, m);
    MC_CHECK(got == want, "find", "'%s' in '%s' layouts %d/%d %d/%d: %d want %d", d.c_str(),
             h.c_str(), s1, o1, s2, o2, got, want);
    BinaryString x(a, o1, n), y(b, o2, m);
    MC_CHECK(x.Contains(y) == (f != std::string::npos), "contains", "'%s' in '%s'", d.c_str(),
             h.c_str());
    bool sw = h.compare(0, m, d) == 0 && n >= m;
    bool ew = n >= m && h.compare(n - m, m, d) == 0;
    MC_CHECK(x.StartsWith(y) == sw, "starts-with", "'%s' in '%s' layouts %d/%d %d/%d", d.c_str(),
             h.c_str(), s1, o1, s2, o2);
    MC_CHECK(x.EndsWith(y) == ew, "ends-with", "'%s' in '%s' layouts %d/%d %d/%d", d.c_str(),
             h.c_str(), s1, o1, s2, o2);
    if (m == 0) MC_CHECK(x.IndexOf(y, 0) == 0, "index-of", "the empty text is not found at the start of '%s'", h.c_str());
    if (m > 0) {
        int from = mc::Choose(n + 3) - 1;
        size_t p = h.find(d, std::max(0, from));
        int wi = p == std::string::npos ? -1 : static_cast<int>(p);
        MC_CHECK(x.IndexOf(y, from) == wi, "index-of", "'%s' in '%s' from %d: %d want %d", d.c_str(),
                 h.c_str(), from, x.IndexOf(y, from), wi);
    }
    MC_CHECK(Sign(x.CompareTo(y)) == Sign(h.compare(d)), "string-compare",
             "'%s' '%s' layouts %d/%d %d/%d", h.c_str(), d.c_str(), s1, o1, s2, o2);
    MC_CHECK((x == y) == (h == d) && (x < y) == (h < d), "string-order", "'%s' '%s'", h.c_str(),
             d.c_str());
}

// ---- characters of several bytes ---------------------------------------------------------------

const std::vector<std::string>& Chars() {
    static const std::vector<std::string> v{"a",        "Z",            "\xc3\xa9", "\xe4\xb8\xad",
                                            "\xf0\x9f\x98\x80", "\x80"};
    return v;
}

// The characters of a byte string by the lead-byte rule; a cut-off last character counts as one.
std::vector<std::string> Split(const std::string& s) {
    std::vector<std::string> out;
    size_t i = 0;
    while (i < s.size()) {
        auto b = static_cast<unsigned char>(s[i]);
        size_t n = 1;
        if (b >= 0xc2 && b <= 0xdf) n = 2;
        if (b >= 0xe0 && b <= 0xef) n = 3;
        if (b >= 0xf0 && b <= 0xf7) n = 4;
        out.push_back(s.substr(i, n));
        i += n;
    }
    return out;
}

MC_SCENARIO(chars, mc::BOTH, 4,
            "strings of up to 3 characters of 1..4 bytes, the last possibly cut off or invalid, all "
            "substrings, 7 segment sizes, 3 offsets, lower and upper case") {
    int n = mc::Choose(4);
    std::string s;
    for (int i = 0; i < n; i++) s += mc::Pick(Chars());
    int cut = mc::Choose(std::min<int>(3, static_cast<int>(s.size())) + 1);
    s.resize(s.size() - cut);
    int size = mc::Pick(std::vector<int>{1, 2, 3, 4, 5, 7, 32});
    int off = mc::Choose(3);
    // the region ends exactly where the string ends when the layout allows it
    auto segs = Layout(std::string(off, 'u') + s + (s.empty() ? "x" : ""), size);
    BinaryString x(segs, off, static_cast<int>(s.size()));
    auto chars = Split(s);
    int nc = static_cast<int>(chars.size());
    mc::State(mc::Hash().S(s).U(size).U(off).h);
    if (nc > 0) mc::Nontrivial();
    mc::Steps(6);
    MC_CHECK(x.NumChars() == nc, "num-chars", "size %d off %d bytes %zu: %d want %d", size, off,
             s.size(), x.NumChars(), nc);
    MC_CHECK(x.ToString() == s, "to-string", "size %d off %d", size, off);
    MC_CHECK(x.Copy(Pool()).ToString() == s, "copy", "size %d off %d", size, off);
    for (size_t i = 0; i < s.size(); i++) {
        MC_CHECK(x.ByteAt(static_cast<int>(i)) == s[i], "byte-at", "size %d off %d at %zu", size, off,
                 i);
    }
    std::string up = s, low = s;
    for (auto& c : up) c = (c >= 'a' && c <= 'z') ? static_cast<char>(c - 32) : c;
    for (auto& c : low) c = (c >= 'A' && c <= 'Z') ? static_cast<char>(c + 32) : c;
    MC_CHECK(x.ToUpperCase(Pool()).ToString() == up, "upper", "size %d off %d", size, off);
    MC_CHECK(x.ToLowerCase(Pool()).ToString() == low, "lower", "size %d off %d", size, off);
    int b = mc::Choose(nc + 3) - 1;
    int e = mc::Choose(nc + 3) - 1;
    std::string want;
    for (int i = std::max(0, b); i < std::min(e, nc); i++) want += chars[i];
    std::string got = x.Substring(b, e, Pool()).ToString();
    MC_CHECK(got == want, "substring", "chars [%d,%d) of %d, size %d off %d: %zu bytes want %zu", b, e,
             nc, size, off, got.size(), want.size());
    // search for one of the own characters and for a foreign one
    std::string needle = mc::Pick(Chars());
    BinaryString y = BinaryString::FromString(needle, Pool());
    int wi = -1;
    size_t at = 0;
    for (int i = 0; i < nc && wi < 0; i++) {
        if (i >= b && s.compare(at, needle.size(), needle) == 0) wi = i;
        at += chars[i].size();
    }
    MC_CHECK(x.IndexOf(y, b) == wi, "index-of-char", "from %d size %d off %d: %d want %d", b, size,
             off, x.IndexOf(y, b), wi);
}

MC_SCENARIO(compare3, mc::BOTH, 4,
            "order of strings of up to 4 bytes over {0x01,0x7f,0x80,0xff} in all layout pairs") {
    const char alpha[] = {'\x01', '\x7f', '\x80'};
    std::string a, b;
    int n = mc::Choose(4), m = mc::Choose(4);
    for (int i = 0; i < n; i++) a += alpha[mc::Choose(3)];
    for (int i = 0; i < m; i++) b += alpha[mc::Choose(3)];
    int s1 = mc::Pick(std::vector<int>{1, 2, 3, 8}), s2 = mc::Pick(std::vector<int>{1, 2, 3, 8});
    int o1 = mc::Choose(3), o2 = mc::Choose(3);
    BinaryString x(Layout(std::string(o1, 'u') + a + "x", s1), o1, n);
    BinaryString y(Layout(std::string(o2, 'v') + b + "y", s2), o2, m);
    mc::State(mc::Hash().S(a).S(b).U(s1).U(s2).U(o1).U(o2).h);
    mc::Nontrivial();
    mc::Steps();
    MC_CHECK(Sign(x.CompareTo(y)) == Sign(a.compare(b)), "order3", "layouts %d/%d %d/%d", s1, o1, s2,
             o2);
    MC_CHECK((x == y) == (a == b), "eq3", "layouts %d/%d %d/%d", s1, o1, s2, o2);
}

MC_SCENARIO(variable_part, mc::BOTH, 3,
            "inline and out-of-line binary fields of every length at every offset and layout") {
    int size = mc::Pick(SegSizes());
    int base = mc::Choose(3);
    std::string flat = Pattern(28);
    auto segs = Layout(flat, size);
    std::string want;
    int64_t word;
    int field = base + mc::Choose(4);
    if (mc::ChooseBool()) {
        int len = mc::Choose(8);
        word = static_cast<int64_t>((0x80ULL | static_cast<uint64_t>(len)) << 56);
        want = flat.substr(field, len);
        mc::State(mc::Hash().U(1).U(size).U(field).U(len).h);
    } else {
        int off = mc::Choose(12), len = mc::Choose(14);
        word = (static_cast<int64_t>(off) << 32) | len;
        want = flat.substr(base + off, len);
        mc::State(mc::Hash().U(2).U(size).U(base).U(off).U(len).h);
    }
    mc::Nontrivial();
    mc::Steps();
    auto b = BinarySection::ReadBinary(segs, base, field, word, Pool());
    MC_CHECK(Str(*b) == want, "read-binary", "size %d base %d word %llx", size, base,
             static_cast<unsigned long long>(word));
}

MC_SCENARIO(long_text, mc::BOTH, 3,
            "texts of 7..140 bytes at offsets beyond the first segment, 7x5 layouts, no or one differing byte at every position or one "
            "byte more: order, equality, hash, search, prefix, suffix, case, substrings") {
    int len = mc::Pick(std::vector<int>{7, 8, 9, 15, 16, 17, 24, 31, 33, 40, 64, 70, 140});
    int s1 = mc::Pick(std::vector<int>{1, 3, 7, 8, 9, 16, 128});
    int s2 = mc::Pick(std::vector<int>{2, 8, 11, 16, 128});
    int o1 = mc::Pick(std::vector<int>{0, 1, 17}), o2 = mc::Pick(std::vector<int>{0, 9});
    int diff = mc::Choose(len + 2) - 2;
    std::string body;
    for (int i = 0; i < len; i++) body += static_cast<char>('A' + (i * 7 + i / 10) % 50);
    std::string other = body;
    if (diff == -2) other += 'q';
    if (diff >= 0) other[diff] = mc::ChooseBool() ? '\x7f' : '\x01';
    int lo = static_cast<int>(other.size());
    mc::State(mc::Hash().U(len).U(s1).U(s2).U(o1).U(o2).U(diff + 2).S(other).h);
    mc::Nontrivial();
    mc::Steps(12);
    auto a = Layout(std::string(o1, '-') + body + "x", s1);
    auto b = Layout(std::string(o2, '+') + other + "y", s2);
    BinaryString x(a, o1, len), y(b, o2, lo);
    std::string where = "length " + std::to_string(len) + " layouts " + std::to_string(s1) + "/" + std::to_string(o1) + " " +
                        std::to_string(s2) + "/" + std::to_string(o2) + " difference at " + std::to_string(diff);
    const char* w = where.c_str();
    MC_CHECK(Sign(x.CompareTo(y)) == Sign(body.compare(other)) && Sign(y.CompareTo(x)) == Sign(other.compare(body)), "long-order", "%s", w);
    MC_CHECK((x == y) == (body == other) && (x < y) == (body < other), "long-equal", "%s", w);
    MC_CHECK(MemorySegmentUtils::Equals(a, o1, b, o2, len) == (other.compare(0, len, body) == 0), "long-equals", "%s", w);
    MC_CHECK(x.HashCode() == RefHash(body) && y.HashCode() == RefHash(other), "long-hash", "%s", w);
    MC_CHECK(x.ToString() == body && y.Copy(Pool()).ToString() == other, "long-copy", "%s", w);
    MC_CHECK(y.StartsWith(x) == (other.compare(0, len, body) == 0), "long-prefix", "%s", w);
    // the other text inside a longer one, and its tail
    std::string hay = "AB" + body + "CD";
    BinaryString h(Layout(std::string(o1, '-') + hay + "z", s1), o1, static_cast<int>(hay.size()));
    size_t f = hay.find(other);
    int at = f == std::string::npos ? -1 : static_cast<int>(f);
    MC_CHECK(h.IndexOf(y, 0) == at && h.Contains(y) == (at >= 0), "long-find", "%s", w);
    MC_CHECK(h.IndexOf(y, 3) == -1, "long-find", "%s: found behind its place", w);
    for (int k : {1, 8, len - 1}) {
        if (k > len) continue;
        std::string tail = other.substr(other.size() - k);
        BinaryString t(Layout(std::string(o2, '+') + tail + "y", s2), o2, k);
        MC_CHECK(x.EndsWith(t) == (body.compare(len - k, k, tail) == 0), "long-suffix", "%s tail of %d", w, k);
        MC_CHECK(x.StartsWith(t) == (body.compare(0, k, tail) == 0), "long-prefix", "%s tail of %d", w, k);
        size_t ft = hay.find(tail);
        MC_CHECK(h.IndexOf(t, 0) == (ft == std::string::npos ? -1 : static_cast<int>(ft)), "long-find", "%s tail of %d", w, k);
        ft = hay.find(tail, len / 2);
        MC_CHECK(h.IndexOf(t, len / 2) == (ft == std::string::npos ? -1 : static_cast<int>(ft)), "long-find",
                 "%s tail of %d from the middle", w, k);
    }
    std::string up = other, low = other;
    for (auto& c : up) c = (c >= 'a' && c <= 'z') ? static_cast<char>(c - 32) : c;
    for (auto& c : low) c = (c >= 'A' && c <= 'Z') ? static_cast<char>(c + 32) : c;
    MC_CHECK(y.ToUpperCase(Pool()).ToString() == up && y.ToLowerCase(Pool()).ToString() == low, "long-case", "%s", w);
    MC_CHECK(y.NumChars() == lo, "long-chars", "%s: %d", w, y.NumChars());
    int from = diff < 0 ? len / 2 : diff;
    MC_CHECK(y.Substring(from, from + 9, Pool()).ToString() == other.substr(from, 9), "long-substring", "%s", w);
    MC_CHECK(y.ByteAt(from) == other[from], "long-byte", "%s", w);
}

MC_SCENARIO(long_sizes, mc::BOTH, 2,
            "order and equality of all pairs of prefixes of 9 lengths up to 70000 bytes, with and without a differing "
            "last byte, and out-of-line fields of those lengths in 2 layouts") {
    const std::vector<int> lens{0, 1, 127, 128, 255, 256, 257, 65536, 70000};
    int la = mc::Pick(lens), lb = mc::Pick(lens);
    bool differ = mc::ChooseBool();
    std::string a = Pattern(la), b = Pattern(lb);
    if (differ && lb) b[lb - 1] = static_cast<char>(b[lb - 1] + 1);
    int size = mc::ChooseBool() ? 1024 : 1 << 17;
    mc::State(mc::Hash().U(la).U(lb).U(differ).U(size).h);
    mc::Nontrivial();
    mc::Steps(5);
    Bytes x(a, Pool()), y(b, Pool());
    MC_CHECK(Sign(x.compare(y)) == Sign(a.compare(b)) && (x < y) == (a < b) && (x == y) == (a == b), "long-bytes",
             "%d and %d bytes", la, lb);
    BinaryString s(Layout("-" + a, size), 1, la), t(Layout("--" + b, size), 2, lb);
    MC_CHECK(Sign(s.CompareTo(t)) == Sign(a.compare(b)) && (s == t) == (a == b), "long-strings", "%d and %d bytes in segments of %d",
             la, lb, size);
    auto sa = MemorySegment::Wrap(std::make_shared<Bytes>("-" + a, Pool()));
    auto sb = MemorySegment::Wrap(std::make_shared<Bytes>("--" + b, Pool()));
    MC_CHECK(Sign(sa.Compare(sb, 1, 2, la, lb)) == Sign(a.compare(b)), "long-segments", "%d and %d bytes", la, lb);
    auto f = BinarySection::ReadBinary(Layout(std::string(5, '-') + a, size), 3, 0, (static_cast<int64_t>(2) << 32) | la, Pool());
    MC_CHECK(Str(*f) == a, "long-field", "a field of %d bytes in segments of %d", la, size);
}

MC_SCENARIO(long_copy, mc::BOTH, 3, "copies out of and into a 200 byte region: 6 segment sizes, offsets and lengths around multiples of 8 "
            "and of the segment size") {
    int total = 200;
    int size = mc::Pick(std::vector<int>{5, 8, 16, 33, 64, 256});
    int off = mc::Pick(std::vector<int>{0, 1, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129});
    int len = mc::Choose(total - off + 1);
    std::string flat = Pattern(total), want = flat.substr(off, len);
    auto segs = Layout(flat, size);
    mc::State(mc::Hash().U(size).U(off).U(len).h);
    mc::Nontrivial();
    mc::Steps(5);
    MC_CHECK(Str(*MemorySegmentUtils::CopyToBytes(segs, off, len, Pool())) == want, "long-copy-out", "size %d off %d len %d", size, off, len);
    MC_CHECK(Str(*MemorySegmentUtils::GetBytes(segs, off, len, Pool())) == want, "long-copy-out", "size %d off %d len %d", size, off, len);
    std::vector<char> raw(len + 2, '~');
    MemorySegmentUtils::CopyToUnsafe(segs, off, raw.data() + 1, len);
    MC_CHECK(std::string(raw.data() + 1, len) == want && raw[0] == '~' && raw[len + 1] == '~', "long-copy-out", "size %d off %d len %d", size,
             off, len);
    std::string before = Flat(segs), text(len, '!');
    for (int i = 0; i < len; i++) text[i] = static_cast<char>(i);
    MemorySegmentUtils::CopyFromBytes(&segs, off, Bytes("~" + text, Pool()), 1, len);
    before.replace(off, len, text);
    MC_CHECK(Flat(segs) == before, "long-copy-in", "size %d off %d len %d", size, off, len);
    if (size >= total && off + len <= total) {
        auto dst = MemorySegment::Wrap(std::make_shared<Bytes>(std::string(len + 2, '~'), Pool()));
        segs[0].CopyTo(off, &dst, 1, len);
        MC_CHECK(Str(*dst.GetArray()) == "~" + before.substr(off, len) + "~", "long-copy-to", "off %d len %d", off, len);
        MC_CHECK(segs[0].EqualTo(dst, off, 1, len), "long-copy-to", "off %d len %d: not equal", off, len);
    }
}

}  // namespace
