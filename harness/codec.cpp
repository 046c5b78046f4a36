// Delta varint arrays, blob descriptors: decode(encode(x)) = x for all inputs in the space, every
// truncation and corruption is an error or a value, never a crash or an over-read.
#include <climits>

#include "mc/mc.h"
#include "paimon/common/data/blob_descriptor.h"
#include "paimon/common/utils/delta_varint_compressor.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"

using namespace paimon;  // NOLINT
namespace {

// values at every varint length boundary, of both signs
const std::vector<int64_t>& Edges() {
    static const std::vector<int64_t> v = [] {
        std::vector<int64_t> r{0, 1, -1, 2, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1};
        for (int k = 6; k <= 62; k += 7) {
            r.push_back((1LL << k) - 1);
            r.push_back(1LL << k);
            r.push_back(-(1LL << k));
            r.push_back(-(1LL << k) - 1);
        }
        return r;
    }();
    return v;
}

std::string RefEncode(const std::vector<int64_t>& v) {
    std::string out;
    uint64_t prev = 0;
    for (int64_t x : v) {
        uint64_t d = static_cast<uint64_t>(x) - prev;
        prev = static_cast<uint64_t>(x);
        uint64_t z = (d << 1) ^ (static_cast<int64_t>(d) < 0 ? ~0ULL : 0);
        while (z >= 0x80) {
            out += static_cast<char>(z | 0x80);
            z >>= 7;
        }
        out += static_cast<char>(z);
    }
    return out;
}

MC_SCENARIO(varint, mc::BOTH, 2,
            "all arrays of <=3 numbers (quick <=2 plus a third of 6) out of 44 boundary values, "
            "encoding, decoding and every truncation") {
    int n = mc::Choose(4);
    std::vector<int64_t> v;
    for (int i = 0; i < n; i++) {
        if (i < 2 || mc::Thorough()) {
            v.push_back(mc::Pick(Edges()));
        } else {
            v.push_back(Edges()[mc::Choose(6)]);
        }
    }
    std::vector<char> enc = DeltaVarintCompressor::Compress(v);
    std::string ref = RefEncode(v);
    mc::State(mc::Hash().S(ref).h);
    if (n > 1) mc::Nontrivial();
    mc::Steps(2);
    MC_CHECK(std::string(enc.begin(), enc.end()) == ref, "varint-format",
             "%d numbers, first %lld: %zu bytes, reference %zu", n,
             n ? static_cast<long long>(v[0]) : 0LL, enc.size(), ref.size());
    auto dec = DeltaVarintCompressor::Decompress(enc);
    MC_CHECK(dec.ok() && dec.value() == v, "varint-roundtrip", "%d numbers, first %lld", n,
             n ? static_cast<long long>(v[0]) : 0LL);
    // every prefix decodes to a prefix of the numbers, or is refused inside a number
    std::vector<size_t> ends{0};
    for (int i = 1; i <= n; i++) {
        ends.push_back(RefEncode(std::vector<int64_t>(v.begin(), v.begin() + i)).size());
    }
    for (size_t cut = 0; cut <= ref.size(); cut++) {
        std::vector<char> part(enc.begin(), enc.begin() + cut);
        part.shrink_to_fit();
        auto r = DeltaVarintCompressor::Decompress(part);
        int whole = -1;
        for (int i = 0; i <= n; i++) {
            if (ends[i] == cut) whole = i;
        }
        MC_CHECK(r.ok() == (whole >= 0), "varint-truncated", "cut at %zu of %zu: ok=%d", cut,
                 ref.size(), r.ok());
        if (r.ok()) {
            MC_CHECK(r.value() == std::vector<int64_t>(v.begin(), v.begin() + whole),
                     "varint-prefix", "cut at %zu of %zu", cut, ref.size());
        }
        mc::Steps();
    }
}

MC_SCENARIO(varint_bytes, mc::BOTH, 2,
            "every input of <=2 arbitrary bytes, and runs of 1..12 continuation bytes with 4 ends: "
            "decoding is total, and re-encoding a minimal input gives it back") {
    std::vector<char> in;
    if (mc::ChooseBool()) {
        int n = mc::Choose(3);
        for (int i = 0; i < n; i++) in.push_back(static_cast<char>(mc::Choose(256)));
    } else {
        int n = mc::Choose(13);
        for (int i = 0; i < n; i++) in.push_back(static_cast<char>(0x80 | (i * 11 + 1)));
        int e = mc::Choose(5);
        if (e) in.push_back(static_cast<char>((const int[]){0, 0, 1, 2, 0x7f}[e]));
        in.shrink_to_fit();
        auto r = DeltaVarintCompressor::Decompress(in);
        // a 64 bit number has at most 10 bytes
        if (n > 9) MC_CHECK(!r.ok(), "varint-overlong", "%d continuation bytes accepted", n);
        if (n <= 9) {
            MC_CHECK(r.ok() == (e > 0 || n == 0), "varint-unterminated",
                     "%d continuation bytes, end %d: ok=%d", n, e, r.ok());
        }
    }
    in.shrink_to_fit();
    mc::State(mc::Hash().S(std::string(in.begin(), in.end())).h);
    mc::Nontrivial();
    mc::Steps(2);
    auto r = DeltaVarintCompressor::Decompress(in);
    if (!r.ok()) return;
    std::vector<char> again = DeltaVarintCompressor::Compress(r.value());
    auto r2 = DeltaVarintCompressor::Decompress(again);
    MC_CHECK(r2.ok() && r2.value() == r.value(), "varint-canonical", "re-encoding changes the value");
    MC_CHECK(again.size() <= in.size(), "varint-minimal", "the encoding is not minimal");
}

MC_SCENARIO(blob, mc::BOTH, 2,
            "descriptors over 7 uris, 9 offsets, 9 lengths; wire format, round trip, every "
            "truncation, every single corrupted byte") {
    const std::vector<std::string> uris{"", "a", "file:/x", std::string(255, 'u'),
                                        std::string(70000, 'v'), std::string("\0x", 2),
                                        "\xf0\x9f\x98\x80"};
    const std::vector<int64_t> nums{INT64_MIN, -2, -1, 0, 1, 255, 1LL << 31, 1LL << 32, INT64_MAX};
    std::string uri = mc::Pick(uris);
    int64_t off = mc::Pick(nums), len = mc::Pick(nums);
    auto d = BlobDescriptor::Create(uri, off, len);
    bool valid = off >= 0 && len >= -1;
    mc::State(mc::Hash().S(uri).U(off).U(len).h);
    mc::Steps();
    MC_CHECK(d.ok() == valid, "blob-create", "offset %lld length %lld ok=%d",
             static_cast<long long>(off), static_cast<long long>(len), d.ok());
    if (!valid) return;
    mc::Nontrivial();
    auto pool = GetDefaultPool();
    auto bytes = d.value()->Serialize(pool);
    std::string ref(1, '\x01');
    auto le = [&](uint64_t v, int w) {
        for (int i = 0; i < w; i++) ref += static_cast<char>(v >> (8 * i));
    };
    le(uri.size(), 4);
    ref += uri;
    le(static_cast<uint64_t>(off), 8);
    le(static_cast<uint64_t>(len), 8);
    MC_CHECK(std::string(bytes->data(), bytes->size()) == ref, "blob-format", "wire format differs");
    auto back = BlobDescriptor::Deserialize(bytes->data(), bytes->size());
    MC_CHECK(back.ok() && back.value()->Uri() == uri && back.value()->Offset() == off &&
                 back.value()->Length() == len,
             "blob-roundtrip", "uri of %zu bytes, offset %lld, length %lld", uri.size(),
             static_cast<long long>(off), static_cast<long long>(len));
    if (uri.size() > 300) return;
    for (size_t cut = 0; cut < ref.size(); cut++) {
        std::vector<char> part(ref.begin(), ref.begin() + cut);
        part.shrink_to_fit();
        char dummy;
        auto r = BlobDescriptor::Deserialize(cut ? part.data() : &dummy, cut);
        MC_CHECK(!r.ok(), "blob-truncated", "accepted with %zu of %zu bytes", cut, ref.size());
        mc::Steps();
    }
    size_t fixed = std::min<size_t>(ref.size(), 5 + uri.size() + 16);
    for (size_t i = 0; i < fixed; i++) {
        if (i >= 6 && i + 17 < fixed) continue;
        for (int x : {0x01, 0x80, 0xff}) {
            std::vector<char> part(ref.begin(), ref.end());
            part.shrink_to_fit();
            part[i] = static_cast<char>(part[i] ^ x);
            auto r = BlobDescriptor::Deserialize(part.data(), part.size());
            if (i == 0) MC_CHECK(!r.ok(), "blob-version", "version byte %d accepted", part[0]);
            if (r.ok()) {
                MC_CHECK(r.value()->Offset() >= 0 && r.value()->Length() >= -1 &&
                             r.value()->Uri().size() <= uri.size(),
                         "blob-corrupt", "corrupted byte %zu gives an impossible descriptor", i);
            }
            mc::Steps();
        }
    }
}

MC_SCENARIO(varint_long, mc::BOTH, 2,
            "arrays of 4..1000 numbers (equal, rising, falling, alternating) with one of 44 boundary values at 6 places: encoding, "
            "decoding and the last 12 truncations") {
    int n = mc::Pick(std::vector<int>{4, 5, 7, 8, 9, 16, 17, 63, 64, 65, 128, 300, 1000});
    int kind = mc::Choose(4);
    std::vector<int64_t> v;
    for (int64_t i = 0; i < n; i++) v.push_back(kind == 0 ? 7 : kind == 1 ? i * 3 : kind == 2 ? -i * 1000 : (i % 2 ? i : -i) * 70000);
    int at = mc::Pick(std::vector<int>{0, 1, 2, n / 2, n - 2, n - 1});
    v[at] = mc::Pick(Edges());
    std::vector<char> enc = DeltaVarintCompressor::Compress(v);
    std::string ref = RefEncode(v);
    mc::State(mc::Hash().U(n).U(kind).U(at).U(v[at]).h);
    mc::Nontrivial();
    mc::Steps(2);
    MC_CHECK(std::string(enc.begin(), enc.end()) == ref, "varint-format", "%d numbers of kind %d: %zu bytes, reference %zu", n, kind,
             enc.size(), ref.size());
    auto dec = DeltaVarintCompressor::Decompress(enc);
    MC_CHECK(dec.ok() && dec.value() == v, "varint-roundtrip", "%d numbers of kind %d", n, kind);
    size_t last = RefEncode(std::vector<int64_t>(v.begin(), v.end() - 1)).size();
    for (size_t cut = last; cut < ref.size(); cut++) {
        std::vector<char> part(enc.begin(), enc.begin() + cut);
        part.shrink_to_fit();
        auto r = DeltaVarintCompressor::Decompress(part);
        MC_CHECK(r.ok() == (cut == last), "varint-truncated", "%d numbers, cut at %zu of %zu: ok=%d", n, cut, ref.size(), r.ok());
        if (r.ok()) MC_CHECK(r.value() == std::vector<int64_t>(v.begin(), v.end() - 1), "varint-prefix", "cut at %zu of %zu", cut, ref.size());
        mc::Steps();
    }
}

}  // namespace
