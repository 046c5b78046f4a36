// Byte streams: every sequence of seeks and reads up to a depth on memory, window and buffered
// streams (over well-behaved, short-reading and failing sources) against a position/content model;
// typed values through the data streams in both byte orders; every truncation point.
#include <climits>

#include "mc/mc.h"
#include "paimon/common/io/data_output_stream.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/io/offset_input_stream.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/fs/file_system.h"
#include "paimon/io/buffered_input_stream.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"

using namespace paimon;  // NOLINT
namespace {

std::string Content(int n) {
    std::string s;
    for (int i = 0; i < n; i++) s += static_cast<char>('A' + i);
    return s;
}

// A source with the semantics of a POSIX file: reads at the end are short, not errors.
// fail_at: the index of the call that fails with an I/O error and has no effect.
struct FileLike : public InputStream {
    std::string data;
    int64_t pos = 0;
    mutable int calls = 0;
    int fail_at = -1;
    int short_at = -1;  // the index of the read that delivers only half of what it could
    bool Tick() const { return calls++ == fail_at; }
    Status Seek(int64_t offset, SeekOrigin origin) override {
        if (Tick()) return Status::IOError("injected");
        int64_t base = origin == FS_SEEK_SET ? 0
                       : origin == FS_SEEK_CUR ? pos
                                               : static_cast<int64_t>(data.size());
        if (base + offset < 0) return Status::IOError("negative seek");
        pos = base + offset;
        return Status::OK();
    }
    Result<int64_t> GetPos() const override { return pos; }
    Result<int32_t> Read(char* buffer, uint32_t size) override {
        if (Tick()) return Status::IOError("injected");
        int64_t n = std::max<int64_t>(
            0, std::min<int64_t>(size, static_cast<int64_t>(data.size()) - pos));
        if (calls - 1 == short_at) n /= 2;
        memcpy(buffer, data.data() + pos, n);
        pos += n;
        return static_cast<int32_t>(n);
    }
    Result<int32_t> Read(char* buffer, uint32_t size, uint64_t offset) override {
        if (Tick()) return Status::IOError("injected");
        if (offset > data.size()) return 0;
        int64_t n = std::min<int64_t>(size, data.size() - offset);
        memcpy(buffer, data.data() + offset, n);
        return static_cast<int32_t>(n);
    }
    void ReadAsync(char* buffer, uint32_t size, uint64_t offset,
                   std::function<void(Status)>&& callback) override {
        auto r = Read(buffer, size, offset);
        if (!r.ok()) {
            callback(r.status());
        } else if (r.value() != static_cast<int32_t>(size)) {
            callback(Status::IOError("short"));
        } else {
            callback(Status::OK());
        }
    }
    Result<std::string> GetUri() const override { return std::string("mem"); }
    Result<uint64_t> Length() const override { return data.size(); }
    Status Close() override { return Status::OK(); }
};

struct Expect {
    std::string content;  // what the stream shows
    int64_t pos = 0;
    std::string ctx;
};

// One operation on the stream and on the model. Returns false when the stream's position is
// unspecified afterwards (a failed read of a buffered stream).
bool Op(InputStream* in, Expect* e, bool buffered, bool may_fail) {
    int64_t len = static_cast<int64_t>(e->content.size());
    int op = mc::Choose(buffered ? 2 : 4);
    if (op == 0) {
        int origin = mc::Choose(3);
        int64_t base = origin == 0 ? 0 : origin == 1 ? e->pos : len;
        // all targets from one before the start to one behind the end, and an absurd one
        int64_t target = mc::ChooseRange(-1, len + 2);
        int64_t off = target - base;
        if (target == len + 2) off = mc::ChooseBool() ? (INT64_MAX / 2) : (INT64_MIN / 2);
        target = base + off;
        // a buffered stream inherits the range check of its source
        if (buffered && (target < 0 || target > len)) mc::Prune();
        e->ctx += " seek(" + std::to_string(off) + "," + std::to_string(origin) + ")";
        Status st = in->Seek(off, static_cast<SeekOrigin>(origin));
        mc::Steps();
        bool want = target >= 0 && target <= len;
        if (want && !st.ok() && may_fail) {
            mc::Outcome("injected fault surfaced by seek");
        } else {
            MC_CHECK(st.ok() == want, "seek-status", "%s: %s", e->ctx.c_str(),
                     st.ToString().c_str());
            if (want) e->pos = target;
        }
    } else if (op == 1) {
        int64_t n = mc::ChooseRange(0, len + 1);
        e->ctx += " read(" + std::to_string(n) + ")";
        std::vector<char> buf(n + 1, '~');
        auto r = in->Read(buf.data(), static_cast<uint32_t>(n));
        mc::Steps();
        bool want = e->pos + n <= len;
        MC_CHECK(buf[n] == '~', "read-overrun", "%s wrote behind the buffer", e->ctx.c_str());
        if (want && !r.ok() && may_fail) {
            mc::Outcome("injected fault surfaced by read");
            if (buffered) return false;
        } else {
            MC_CHECK(r.ok() == want, "read-status", "%s at %lld of %lld: %s", e->ctx.c_str(),
                     static_cast<long long>(e->pos), static_cast<long long>(len),
                     r.ok() ? "ok" : r.status().ToString().c_str());
            if (want) {
                MC_CHECK(r.value() == n, "read-count", "%s: read %d", e->ctx.c_str(), r.value());
                MC_CHECK(std::string(buf.data(), n) == e->content.substr(e->pos, n), "read-bytes",
                         "%s at %lld: got '%s' want '%s'", e->ctx.c_str(),
                         static_cast<long long>(e->pos), std::string(buf.data(), n).c_str(),
                         e->content.substr(e->pos, n).c_str());
                e->pos += n;
                if (n > 0) mc::Nontrivial();
            } else if (buffered) {
                return false;
            }
        }
    } else {
        // positioned reads do not move the position
        int64_t n = mc::ChooseRange(0, len + 1);
        int oi = mc::Choose(static_cast<int>(len) + 4);
        uint64_t off = oi <= len + 1 ? oi : oi == len + 2 ? (1ULL << 32) : UINT64_MAX - n + 1;
        e->ctx += (op == 2 ? " pread(" : " aread(") + std::to_string(n) + "@" +
                  std::to_string(off) + ")";
        std::vector<char> buf(n + 1, '~');
        bool want = off <= static_cast<uint64_t>(len) && off + n <= static_cast<uint64_t>(len);
        // reading zero bytes at 2^64 wraps to offset 0 (harmless)
        bool ok;
        if (op == 2) {
            auto r = in->Read(buf.data(), static_cast<uint32_t>(n), off);
            ok = r.ok();
            if (ok && want) {
                MC_CHECK(r.value() == n, "pread-count", "%s: read %d", e->ctx.c_str(), r.value());
            }
        } else {
            int called = 0;
            Status res;
            in->ReadAsync(buf.data(), static_cast<uint32_t>(n), off, [&](Status s) {
                called++;
                res = s;
            });
            MC_CHECK(called == 1, "aread-callback", "%s: callback ran %d times", e->ctx.c_str(),
                     called);
            ok = res.ok();
        }
        mc::Steps();
        if (want && !ok && may_fail) {
            mc::Outcome("injected fault surfaced by positioned read");
        } else {
            MC_CHECK(ok == want, "pread-status", "%s of %lld ok=%d", e->ctx.c_str(),
                     static_cast<long long>(len), ok);
            if (want) {
                MC_CHECK(std::string(buf.data(), n) == e->content.substr(off, n), "pread-bytes",
                         "%s: got '%s'", e->ctx.c_str(), std::string(buf.data(), n).c_str());
            }
        }
    }
    auto p = in->GetPos();
    MC_CHECK(p.ok(), "getpos", "%s", e->ctx.c_str());
    MC_CHECK(p.value() == e->pos, "position", "%s: position %lld, want %lld", e->ctx.c_str(),
             static_cast<long long>(p.value()), static_cast<long long>(e->pos));
    auto l = in->Length();
    MC_CHECK(l.ok() && l.value() == e->content.size(), "length", "%s", e->ctx.c_str());
    return true;
}

uint64_t StateHash(const Expect& e, int kind, int a, int b) {
    return mc::Hash().U(kind).U(a).U(b).U(e.pos).U(e.content.size()).h;
}

void Drive(InputStream* in, Expect* e, int depth, bool buffered, bool may_fail, int kind, int a,
           int b) {
    for (int i = 0; i < depth; i++) {
        if (!Op(in, e, buffered, may_fail)) return;
        mc::State(StateHash(*e, kind, a, b));
        if (mc::Thorough() && mc::Choose(2)) break;
    }
    // whatever happened before, the stream still shows the right bytes
    std::vector<char> buf(e->content.size() + 1);
    int64_t left = static_cast<int64_t>(e->content.size()) - e->pos;
    auto r = in->Read(buf.data(), static_cast<uint32_t>(left));
    if (!r.ok() && may_fail) return;
    MC_CHECK(r.ok() && r.value() == left &&
                 std::string(buf.data(), left) == e->content.substr(e->pos),
             "tail", "%s: remaining bytes '%s', want '%s'", e->ctx.c_str(),
             r.ok() ? std::string(buf.data(), r.value()).c_str() : r.status().ToString().c_str(),
             e->content.substr(e->pos).c_str());
}

MC_SCENARIO(bytearray, mc::BOTH, 4, "memory stream of 0..3 bytes, all sequences of <=3 operations") {
    int n = mc::Choose(mc::Thorough() ? 5 : 4);
    std::string c = Content(n);
    std::vector<char> exact(c.begin(), c.end());
    exact.shrink_to_fit();
    char dummy;
    ByteArrayInputStream in(n ? exact.data() : &dummy, n);
    Expect e{c, 0, "bytearray[" + std::to_string(n) + "]"};
    Drive(&in, &e, n <= 2 ? 3 : 2, false, false, 1, n, 0);
}

MC_SCENARIO(window, mc::BOTH, 4,
            "window [offset, offset+length) of a 5 byte source, all sequences of <=2 operations, "
            "all windows, every failing call of the source") {
    int total = 5;
    int64_t offset = mc::ChooseRange(-1, total + 1);
    int64_t length = mc::ChooseRange(-2, total + 1);
    int source = mc::Choose(2);
    std::string c = Content(total);
    std::shared_ptr<InputStream> src;
    int fail = -1;
    if (source == 0) {
        static std::vector<char> keep;
        keep.assign(c.begin(), c.end());
        src = std::make_shared<ByteArrayInputStream>(keep.data(), keep.size());
    } else {
        auto f = std::make_shared<FileLike>();
        f->data = c;
        fail = mc::Choose(4) - 1;
        f->fail_at = fail;
        src = f;
    }
    auto r = OffsetInputStream::Create(src, length, offset);
    bool valid = offset >= 0 && offset <= total && length >= -1 &&
                 (length == -1 || offset + length <= total);
    if (!r.ok() && fail >= 0) return;
    MC_CHECK(r.ok() == valid, "window-create", "offset %lld length %lld: ok=%d",
             static_cast<long long>(offset), static_cast<long long>(length), r.ok());
    if (!valid) return;
    if (length == -1) length = total - offset;
    Expect e{c.substr(offset, length), 0,
             "window[" + std::to_string(offset) + "+" + std::to_string(length) + "]"};
    Drive(r.value().get(), &e, length <= 1 || mc::Thorough() ? 3 : 2, false, fail >= 0, 2,
          static_cast<int>(offset), fail);
}

// A source of 5 GiB whose bytes are a function of the position.
struct Huge : public InputStream {
    int64_t pos = 0;
    static constexpr int64_t kLen = 5LL << 30;
    static char At(int64_t p) { return static_cast<char>((p * 2654435761LL) >> 13); }
    Status Seek(int64_t offset, SeekOrigin origin) override {
        int64_t np = (origin == FS_SEEK_SET ? 0 : origin == FS_SEEK_CUR ? pos : kLen) + offset;
        if (np < 0 || np > kLen) return Status::Invalid("seek");
        pos = np;
        return Status::OK();
    }
    Result<int64_t> GetPos() const override { return pos; }
    Result<int32_t> Read(char* b, uint32_t n) override {
        if (pos + n > kLen) return Status::Invalid("eof");
        for (uint32_t i = 0; i < n; i++) b[i] = At(pos + i);
        pos += n;
        return static_cast<int32_t>(n);
    }
    Result<int32_t> Read(char* b, uint32_t n, uint64_t off) override {
        if (off > kLen || off + n > kLen) return Status::Invalid("eof");
        for (uint32_t i = 0; i < n; i++) b[i] = At(off + i);
        return static_cast<int32_t>(n);
    }
    void ReadAsync(char* b, uint32_t n, uint64_t off,
                   std::function<void(Status)>&& callback) override {
        auto r = Read(b, n, off);
        callback(r.ok() ? Status::OK() : r.status());
    }
    Result<std::string> GetUri() const override { return std::string("huge"); }
    Result<uint64_t> Length() const override { return kLen; }
    Status Close() override { return Status::OK(); }
};

MC_SCENARIO(window_huge, mc::BOTH, 3,
            "windows of a 5 GiB source: reads and seeks around 2^31 and 2^32, <=2 operations") {
    auto src = std::make_shared<Huge>();
    int64_t offset = mc::Pick(std::vector<int64_t>{0, 7, 1LL << 31, 1LL << 32});
    auto r = OffsetInputStream::Create(src, -1, offset);
    MC_CHECK(r.ok(), "huge-create", "offset %lld", static_cast<long long>(offset));
    int64_t len = Huge::kLen - offset;
    MC_CHECK(r.value()->Length().value() == static_cast<uint64_t>(len), "huge-length", "length");
    std::vector<int64_t> pts;
    for (int64_t b : {0LL, 1LL << 31, 1LL << 32, static_cast<long long>(len)}) {
        for (int64_t d : {-2, -1, 0, 1}) {
            int64_t p = b + d;
            if (p >= -1) pts.push_back(p);
        }
    }
    int64_t pos = 0;
    for (int i = 0; i < 2; i++) {
        int op = mc::Choose(3);
        int64_t p = mc::Pick(pts);
        char buf[4];
        mc::State(mc::Hash().U(offset).U(op).U(p).U(pos).h);
        mc::Nontrivial();
        mc::Steps();
        if (op == 0) {
            int origin = mc::Choose(3);
            int64_t base = origin == 0 ? 0 : origin == 1 ? pos : len;
            Status st = r.value()->Seek(p - base, static_cast<SeekOrigin>(origin));
            bool want = p >= 0 && p <= len;
            MC_CHECK(st.ok() == want, "huge-seek", "seek to %lld of %lld: %s",
                     static_cast<long long>(p), static_cast<long long>(len), st.ToString().c_str());
            if (want) pos = p;
        } else if (op == 1) {
            bool want = p >= 0 && p + 3 <= len;
            auto x = r.value()->Read(buf, 3, static_cast<uint64_t>(p));
            MC_CHECK(x.ok() == want, "huge-pread", "pread at %lld of %lld: %d",
                     static_cast<long long>(p), static_cast<long long>(len), x.ok());
            if (want) {
                MC_CHECK(buf[0] == Huge::At(offset + p) && buf[2] == Huge::At(offset + p + 2),
                         "huge-pread-bytes", "pread at %lld", static_cast<long long>(p));
            }
        } else {
            bool want = pos + 2 <= len;
            auto x = r.value()->Read(buf, 2);
            MC_CHECK(x.ok() == want, "huge-read", "read at %lld of %lld: %d",
                     static_cast<long long>(pos), static_cast<long long>(len), x.ok());
            if (want) {
                MC_CHECK(buf[0] == Huge::At(offset + pos) && buf[1] == Huge::At(offset + pos + 1),
                         "huge-read-bytes", "read at %lld", static_cast<long long>(pos));
                pos += 2;
            }
        }
        MC_CHECK(r.value()->GetPos().value() == pos, "huge-pos", "position %lld want %lld",
                 static_cast<long long>(r.value()->GetPos().value()), static_cast<long long>(pos));
    }
}

MC_SCENARIO(bytearray_sizes, mc::BOTH, 2,
            "reads of sizes around 2^31 and 2^32 from a memory stream of 4 bytes and from a window of 3 of them, at every "
            "position: refused without touching anything") {
    std::string c = Content(4);
    auto src = std::make_shared<ByteArrayInputStream>(c.data(), c.size());
    std::shared_ptr<InputStream> in = src;
    int64_t len = 4;
    if (mc::ChooseBool()) {
        auto w = OffsetInputStream::Create(src, 3, 1);
        MC_CHECK(w.ok(), "window-create", "%s", w.status().ToString().c_str());
        in = std::move(w).value();
        len = 3;
    }
    int64_t at = mc::ChooseRange(0, len);
    uint32_t size = mc::Pick(std::vector<uint32_t>{5, 0x7ffffffeu, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu});
    MC_CHECK(in->Seek(at, FS_SEEK_SET).ok(), "seek", "seek to %lld", static_cast<long long>(at));
    char buf[8] = "~~~~~~~";
    int how = mc::Choose(3);
    bool ok = true;
    if (how == 0) ok = in->Read(buf, size).ok();
    if (how == 1) ok = in->Read(buf, size, static_cast<uint64_t>(at)).ok();
    if (how == 2) in->ReadAsync(buf, size, static_cast<uint64_t>(at), [&](Status s) { ok = s.ok(); });
    MC_CHECK(!ok && buf[0] == '~', "huge-size", "a read of %u of %lld bytes succeeds", size, static_cast<long long>(len));
    MC_CHECK(in->GetPos().value() == at, "huge-size", "a refused read moves the position");
    mc::State(mc::Hash().U(len).U(at).U(size).U(how).h);
    mc::Nontrivial();
}

MC_SCENARIO(window_short, mc::BOTH, 3,
            "window of 4..8 bytes over a source that delivers only half of one of the reads: the number of bytes "
            "returned, the bytes and the position agree over all sequences of 3 reads of 0..4 bytes") {
    auto f = std::make_shared<FileLike>();
    f->data = Content(10);
    int64_t len = mc::ChooseRange(4, 8);
    auto w = OffsetInputStream::Create(f, len, 1);
    MC_CHECK(w.ok(), "window-create", "%s", w.status().ToString().c_str());
    f->calls = 0;
    f->short_at = mc::Choose(4);
    int64_t pos = 0;
    for (int i = 0; i < 3; i++) {
        uint32_t n = static_cast<uint32_t>(mc::Choose(5));
        char buf[8] = "~~~~~~~";
        auto r = w.value()->Read(buf, n);
        bool fits = pos + n <= len;
        MC_CHECK(r.ok() == fits, "short-status", "read of %u at %lld of %lld", n, static_cast<long long>(pos), static_cast<long long>(len));
        if (r.ok()) {
            MC_CHECK(r.value() >= 0 && static_cast<uint32_t>(r.value()) <= n &&
                         std::string(buf, r.value()) == f->data.substr(1 + pos, r.value()),
                     "short-bytes", "read of %u at %lld gives other bytes", n, static_cast<long long>(pos));
            pos += r.value();
        }
        MC_CHECK(w.value()->GetPos().value() == pos, "short-pos", "position %lld want %lld",
                 static_cast<long long>(w.value()->GetPos().value()), static_cast<long long>(pos));
        mc::Steps();
    }
    mc::State(mc::Hash().U(len).U(f->short_at).U(pos).h);
    mc::Nontrivial();
}

MC_SCENARIO(typed_huge, mc::BOTH, 2,
            "values, bytes and texts read around 2^31, 2^32 and the end of a source of 5 GiB, directly and through a "
            "buffer of 1, 3 or 64 bytes or a window") {
    auto src = std::make_shared<Huge>();
    auto pool = GetDefaultPool();
    int kind = mc::Choose(5);
    std::shared_ptr<InputStream> base = src;
    int64_t shift = 0;
    if (kind >= 1 && kind <= 3) {
        const int sizes[] = {1, 3, 64};
        base = std::make_shared<BufferedInputStream>(src, sizes[kind - 1], pool.get());
    }
    if (kind == 4) {
        auto w = OffsetInputStream::Create(src, -1, 9);
        MC_CHECK(w.ok(), "window-create", "%s", w.status().ToString().c_str());
        base = std::move(w).value();
        shift = 9;
    }
    DataInputStream in(base);
    bool big = mc::ChooseBool();
    in.SetOrder(big ? ByteOrder::PAIMON_BIG_ENDIAN : ByteOrder::PAIMON_LITTLE_ENDIAN);
    int64_t at = mc::Pick(std::vector<int64_t>{1LL << 31, 1LL << 32, Huge::kLen - shift}) + mc::ChooseRange(-9, 0);
    MC_CHECK(in.Seek(at).ok(), "huge-typed", "seek to %lld", static_cast<long long>(at));
    for (int i = 0; i < 2; i++) {
        int type = mc::Choose(4);
        int width = type == 0 ? 4 : type == 1 ? 8 : type == 2 ? 2 : 5;
        bool fits = at + width <= Huge::kLen - shift;
        uint64_t want = 0, got = 0;
        for (int b = 0; b < width && width <= 8; b++) {
            uint64_t x = static_cast<unsigned char>(Huge::At(at + shift + b));
            want |= x << (8 * (big ? width - 1 - b : b));
        }
        bool ok = false;
        if (type == 0) {
            auto r = in.ReadValue<int32_t>();
            if ((ok = r.ok())) got = static_cast<uint32_t>(r.value());
        } else if (type == 1) {
            auto r = in.ReadValue<int64_t>();
            if ((ok = r.ok())) got = static_cast<uint64_t>(r.value());
        } else if (type == 2) {
            auto r = in.ReadValue<uint16_t>();
            if ((ok = r.ok())) got = r.value();
        } else {
            char buf[5];
            ok = in.Read(buf, 5).ok();
            for (int b = 0; ok && b < 5; b++) {
                got |= static_cast<uint64_t>(static_cast<unsigned char>(buf[b])) << (8 * (big ? 4 - b : b));
            }
        }
        MC_CHECK(ok == fits, "huge-typed", "type %d at %lld: %d want %d", type, static_cast<long long>(at), ok, fits);
        if (!ok) break;
        MC_CHECK(got == want, "huge-typed", "type %d at %lld: other bytes", type, static_cast<long long>(at));
        at += width;
        MC_CHECK(in.GetPos().value() == at, "huge-typed", "position after type %d", type);
        mc::Steps();
    }
    mc::State(mc::Hash().U(kind).U(big).U(at).h);
    mc::Nontrivial();
}

MC_SCENARIO(buffered, mc::BOTH, 4,
            "buffered stream, buffer 1..4, source of 0..6 bytes (memory or short-reading), all "
            "sequences of <=3 operations, every failing or short call of the source") {
    int n = mc::Choose(mc::Thorough() ? 8 : 6);
    int bs = 1 + mc::Choose(4);
    int source = mc::Choose(2);
    std::string c = Content(n);
    std::vector<char> exact(c.begin(), c.end());
    exact.shrink_to_fit();
    std::shared_ptr<InputStream> src;
    char dummy;
    int fail = -1;
    if (source == 0) {
        src = std::make_shared<ByteArrayInputStream>(n ? exact.data() : &dummy, n);
    } else {
        auto f = std::make_shared<FileLike>();
        f->data = c;
        fail = mc::Choose(5) - 1;
        if (fail < 2) {
            f->fail_at = fail;
        } else {
            f->short_at = fail - 2;
        }
        src = f;
    }
    auto pool = GetDefaultPool();
    BufferedInputStream in(src, bs, pool.get());
    Expect e{c, 0, "buffered[" + std::to_string(n) + "/" + std::to_string(bs) + "]"};
    Drive(&in, &e, n <= 3 ? 3 : 2, true, fail >= 0, 3, bs, source);
}

MC_SCENARIO(buffered_retry, mc::BOTH, 3,
            "buffered stream, buffer 1..4, source of 9 bytes of which any one call fails without effect or delivers half, "
            "all sequences of 4 reads of 1..5 bytes, going on after the failure: the position never goes back and "
            "every read delivers the bytes of its position") {
    int bs = 1 + mc::Choose(4);
    auto f = std::make_shared<FileLike>();
    f->data = Content(9);
    bool half = mc::ChooseBool();
    (half ? f->short_at : f->fail_at) = mc::Choose(5);
    auto pool = GetDefaultPool();
    BufferedInputStream in(f, bs, pool.get());
    int64_t pos = 0;
    for (int i = 0; i < 4; i++) {
        int n = 1 + mc::Choose(5);
        char buf[8] = "~~~~~~~";
        auto r = in.Read(buf, static_cast<uint32_t>(n));
        auto p = in.GetPos();
        MC_CHECK(p.ok(), "retry-pos", "no position");
        if (r.ok()) {
            MC_CHECK(r.value() == n && pos + n <= 9 && std::string(buf, n) == f->data.substr(pos, n), "retry-bytes",
                     "buffer %d, call %d: read of %d at %lld gives other bytes", bs, f->fail_at, n, static_cast<long long>(pos));
            MC_CHECK(p.value() == pos + n, "retry-pos", "position %lld after reading %d at %lld",
                     static_cast<long long>(p.value()), n, static_cast<long long>(pos));
        } else {
            MC_CHECK(p.value() >= pos && p.value() <= 9, "retry-pos", "position %lld after a failed read of %d at %lld",
                     static_cast<long long>(p.value()), n, static_cast<long long>(pos));
        }
        pos = p.value();
        mc::Steps();
    }
    mc::State(mc::Hash().U(bs).U(half).U(f->calls).U(pos).h);
    mc::Nontrivial();
}

MC_SCENARIO(buffered_deep, mc::BOTH, 3,
            "buffered stream, buffer 2..4, source of 8 (thorough 9) bytes, all sequences of 4 "
            "operations among seeks to every position (absolute and relative) and reads of 1..6 "
            "bytes, then reading to the end; 5 operations with absolute seeks only (thorough: "
            "with both)") {
    bool five = mc::ChooseBool();
    int bs = 2 + mc::Choose(3);
    int n = mc::Thorough() ? 9 : 8;
    bool relative = !five || mc::Thorough();
    std::string c = Content(n);
    auto src = std::make_shared<ByteArrayInputStream>(c.data(), n);
    auto pool = GetDefaultPool();
    BufferedInputStream in(src, bs, pool.get());
    int64_t pos = 0;
    std::string ctx = "buffered[" + std::to_string(n) + "/" + std::to_string(bs) + "]";
    for (int i = 0; i < (five ? 5 : 4); i++) {
        int op = mc::Choose(6 + (n + 1) * (relative ? 2 : 1));
        if (op < 6) {
            int64_t want = op + 1;
            if (pos + want > n) mc::Prune();
            char buf[16];
            auto r = in.Read(buf, static_cast<uint32_t>(want));
            ctx += " read(" + std::to_string(want) + ")";
            MC_CHECK(r.ok() && r.value() == want, "read-status", "%s", ctx.c_str());
            MC_CHECK(std::string(buf, want) == c.substr(pos, want), "read-bytes",
                     "%s: got '%s' want '%s'", ctx.c_str(), std::string(buf, want).c_str(),
                     c.substr(pos, want).c_str());
            pos += want;
            mc::Nontrivial();
        } else {
            bool rel = op - 6 > n;
            int64_t to = rel ? op - 6 - n - 1 : op - 6;
            ctx += (rel ? " move(" : " seek(") + std::to_string(to) + ")";
            Status st = in.Seek(rel ? to - pos : to, rel ? FS_SEEK_CUR : FS_SEEK_SET);
            MC_CHECK(st.ok(), "seek-status", "%s: %s", ctx.c_str(), st.ToString().c_str());
            pos = to;
        }
        mc::Steps();
        auto p = in.GetPos();
        MC_CHECK(p.ok() && p.value() == pos, "position", "%s", ctx.c_str());
    }
    while (pos < n) {
        char b;
        auto r = in.Read(&b, 1);
        MC_CHECK(r.ok() && b == c[pos], "tail", "%s: byte %lld is '%c'", ctx.c_str(),
                 static_cast<long long>(pos), b);
        pos++;
    }
}

// All sequences of `depth` operations (seeks to every position by the origins given, reads of every
// length up to `longest`, seeks outside the stream, and positioned reads) on a stream that shows c.
void Deep(InputStream* in, const std::string& c, int depth, int longest, bool relative,
          bool positioned, std::string ctx) {
    int n = static_cast<int>(c.size());
    int64_t pos = 0;
    int moves = (n + 1) * (relative ? 3 : 1);
    for (int i = 0; i < depth; i++) {
        int op = mc::Choose(longest + moves + 2 + (positioned ? 3 : 0));
        mc::Steps();
        if (op < longest) {
            int64_t want = op + 1;
            if (pos + want > n) mc::Prune();
            char buf[16];
            auto r = in->Read(buf, static_cast<uint32_t>(want));
            ctx += " read(" + std::to_string(want) + ")";
            MC_CHECK(r.ok() && r.value() == want, "read-status", "%s", ctx.c_str());
            MC_CHECK(std::string(buf, want) == c.substr(pos, want), "read-bytes",
                     "%s: got '%s' want '%s'", ctx.c_str(), std::string(buf, want).c_str(),
                     c.substr(pos, want).c_str());
            pos += want;
            mc::Nontrivial();
        } else if (op < longest + moves) {
            int origin = (op - longest) / (n + 1);
            int64_t to = (op - longest) % (n + 1);
            ctx += " seek" + std::to_string(origin) + "(" + std::to_string(to) + ")";
            int64_t base = origin == 0 ? 0 : origin == 1 ? pos : n;
            Status st = in->Seek(to - base, static_cast<SeekOrigin>(origin));
            MC_CHECK(st.ok(), "seek-status", "%s: %s", ctx.c_str(), st.ToString().c_str());
            pos = to;
        } else if (op < longest + moves + 2) {
            // refused, and nothing changes
            bool low = op == longest + moves;
            Status st = low ? in->Seek(-1 - pos, FS_SEEK_CUR) : in->Seek(1, FS_SEEK_END);
            ctx += low ? " seek(-1)" : " seek(end+1)";
            MC_CHECK(!st.ok(), "seek-status", "%s: accepted", ctx.c_str());
        } else {
            int at = op - longest - moves - 2;
            if (at + 3 > n) mc::Prune();
            char buf[3];
            ctx += " pread(3@" + std::to_string(at) + ")";
            auto r = in->Read(buf, 3, static_cast<uint64_t>(at));
            MC_CHECK(r.ok() && r.value() == 3 && std::string(buf, 3) == c.substr(at, 3),
                     "pread-bytes", "%s", ctx.c_str());
        }
        auto p = in->GetPos();
        MC_CHECK(p.ok() && p.value() == pos, "position", "%s: position %lld want %lld",
                 ctx.c_str(), static_cast<long long>(p.ok() ? p.value() : -1),
                 static_cast<long long>(pos));
    }
    mc::State(mc::Hash().S(ctx).h);
    while (pos < n) {
        char b;
        auto r = in->Read(&b, 1);
        MC_CHECK(r.ok() && b == c[pos], "tail", "%s: byte %lld is '%c'", ctx.c_str(),
                 static_cast<long long>(pos), b);
        pos++;
    }
    char b;
    auto r = in->Read(&b, 1);
    MC_CHECK(!r.ok(), "tail", "%s: a byte behind the end", ctx.c_str());
}

MC_SCENARIO(bytearray_deep, mc::BOTH, 3,
            "memory stream of 5 bytes, all sequences of 4 operations: reads of 1..4 bytes, seeks to "
            "every position by every origin, refused seeks, positioned reads") {
    std::string c = Content(5);
    ByteArrayInputStream in(c.data(), c.size());
    Deep(&in, c, 4, 4, true, true, "bytearray");
}

MC_SCENARIO(window_deep, mc::BOTH, 3,
            "window of 5 of 9 bytes, of a window, of a buffered stream and of a window of a buffered "
            "stream: all sequences of 4 operations (3 for the stacked ones), including refused "
            "seeks and positioned reads") {
    std::string c = Content(9);
    auto src = std::make_shared<ByteArrayInputStream>(c.data(), c.size());
    auto pool = GetDefaultPool();
    int kind = mc::Choose(4);
    std::shared_ptr<InputStream> base = src;
    std::string shown = c.substr(2, 5);
    int64_t offset = 2;
    if (kind >= 2) base = std::make_shared<BufferedInputStream>(src, 2, pool.get());
    if (kind % 2) {
        auto w = OffsetInputStream::Create(base, 8, 1);
        MC_CHECK(w.ok(), "window-create", "%s", w.status().ToString().c_str());
        base = std::move(w).value();
        offset = 1;
    }
    auto w = OffsetInputStream::Create(base, 5, offset);
    MC_CHECK(w.ok(), "window-create", "%s", w.status().ToString().c_str());
    Deep(w.value().get(), shown, kind == 0 ? 4 : 3, 4, true, kind < 2,
         "window" + std::to_string(kind));
}

MC_SCENARIO(buffered_stacked, mc::BOTH, 3,
            "buffered stream with buffer 1..3 over a window of 5 of 9 bytes or over another "
            "buffered stream: all sequences of 4 operations, including refused seeks") {
    std::string c = Content(9);
    auto src = std::make_shared<ByteArrayInputStream>(c.data(), c.size());
    auto pool = GetDefaultPool();
    int bs = 1 + mc::Choose(3);
    bool window = mc::ChooseBool();
    std::shared_ptr<InputStream> base;
    std::string shown = c.substr(2, 5);
    if (window) {
        auto w = OffsetInputStream::Create(src, 5, 2);
        MC_CHECK(w.ok(), "window-create", "%s", w.status().ToString().c_str());
        base = std::move(w).value();
    } else {
        shown = c.substr(0, 6);
        auto s6 = std::make_shared<ByteArrayInputStream>(c.data(), 6);
        base = std::make_shared<BufferedInputStream>(s6, 2, pool.get());
    }
    BufferedInputStream in(base, bs, pool.get());
    Deep(&in, shown, 4, 5, true, false, std::string("buffered") + (window ? "/window" : "/buffered"));
}

MC_SCENARIO(buffered_large, mc::BOTH, 3,
            "buffers of 16, 64, 1024 and the default 8192 bytes over sources of up to four buffers: "
            "all sequences of 3 reads around fractions and multiples of the buffer with a seek before "
            "any of them, then reading to the end in steps") {
    int bs = mc::Pick(std::vector<int>{16, 64, 1024, 8192});
    int total = bs * (1 + mc::Choose(4)) + mc::Choose(3) - 1;
    std::string c(total, 0);
    for (int i = 0; i < total; i++) c[i] = static_cast<char>((i * 2654435761U) >> 11);
    auto src = std::make_shared<ByteArrayInputStream>(c.data(), c.size());
    auto pool = GetDefaultPool();
    BufferedInputStream in(src, bs, pool.get());
    const std::vector<int> sizes{1, bs / 2, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 2 * bs + 1, 3 * bs};
    std::vector<char> buf(5 * bs + 2);
    int64_t pos = 0;
    int when = mc::Choose(4);
    for (int i = 0; i < 3; i++) {
        if (when == i) {
            pos = mc::Pick(std::vector<int>{0, 1, bs - 1, bs, bs + bs / 2, total - 1, total});
            mc::Assume(pos <= total);
            MC_CHECK(in.Seek(pos, FS_SEEK_SET).ok(), "seek-status", "seek");
        }
        int want = mc::Pick(sizes);
        mc::Assume(pos + want <= total);
        auto r = in.Read(buf.data(), want);
        mc::Steps();
        MC_CHECK(r.ok() && r.value() == want && memcmp(buf.data(), c.data() + pos, want) == 0,
                 "read-bytes", "buffer %d total %d: %d bytes at %lld", bs, total, want,
                 static_cast<long long>(pos));
        pos += want;
        MC_CHECK(in.GetPos().value() == pos, "position", "buffer %d", bs);
        mc::State(mc::Hash().U(bs).U(total).U(when).U(i).U(pos).U(want).h);
        mc::Nontrivial();
    }
    int step = bs / 3;
    while (pos < total) {
        int want = static_cast<int>(std::min<int64_t>(step, total - pos));
        auto r = in.Read(buf.data(), want);
        MC_CHECK(r.ok() && memcmp(buf.data(), c.data() + pos, want) == 0, "tail",
                 "buffer %d total %d at %lld", bs, total, static_cast<long long>(pos));
        pos += want;
    }
}

// ---- typed values ------------------------------------------------------------------------------

struct StringOut : public OutputStream {
    std::string data;
    int short_at = -1, calls = 0;
    Result<int32_t> Write(const char* b, uint32_t n) override {
        if (calls++ == short_at) {
            if (n == 0) return Status::IOError("injected");
            data.append(b, n - 1);
            return static_cast<int32_t>(n - 1);
        }
        data.append(b, n);
        return static_cast<int32_t>(n);
    }
    Status Flush() override { return Status::OK(); }
    Result<int64_t> GetPos() const override { return static_cast<int64_t>(data.size()); }
    Result<std::string> GetUri() const override { return std::string("out"); }
    Status Close() override { return Status::OK(); }
};

std::string Ref(uint64_t v, int width, bool big) {
    std::string s;
    for (int i = 0; i < width; i++) {
        int sh = big ? (width - 1 - i) * 8 : i * 8;
        s += static_cast<char>(v >> sh);
    }
    return s;
}

const std::vector<uint64_t>& Values() {
    static const std::vector<uint64_t> v{0,
                                         1,
                                         0x7f,
                                         0x80,
                                         0xff,
                                         0x1234,
                                         0x7fff,
                                         0x8000,
                                         0xffff,
                                         0x12345678,
                                         0x80000000ULL,
                                         0xffffffffULL,
                                         0x0102030405060708ULL,
                                         0x8000000000000000ULL,
                                         0xffffffffffffffffULL};
    return v;
}

// One typed write through `put` and the bytes it must produce.
template <typename W>
std::string WriteOne(W* w, bool big, std::string* ref);

struct Item {
    int type;
    uint64_t v;
    std::string s;
};
Item PickItem(bool small = false) {
    Item it;
    it.type = mc::Choose(7);
    if (it.type <= 3) {
        if (small) {
            it.v = 0x8102030405060708ULL;
        } else {
            it.v = mc::Pick(Values());
        }
    } else if (it.type == 4) {
        it.v = mc::Choose(2);
    } else {
        it.s = Content(mc::Choose(small ? 4 : 6));
    }
    return it;
}
std::string RefOf(const Item& it, bool big) {
    switch (it.type) {
        case 0:
            return Ref(it.v & 0xff, 1, big);
        case 1:
            return Ref(it.v & 0xffff, 2, big);
        case 2:
            return Ref(it.v & 0xffffffff, 4, big);
        case 3:
            return Ref(it.v, 8, big);
        case 4:
            return Ref(it.v, 1, big);
        case 5:
            return Ref(it.s.size(), 2, big) + it.s;
        default:
            return it.s;
    }
}

MC_SCENARIO(typed, mc::BOTH, 3,
            "all sequences of 2 typed values (15 boundary values, all types, both byte orders) "
            "written, compared with the wire format, read back, and read at every truncation") {
    bool big = mc::ChooseBool();
    ByteOrder order = big ? ByteOrder::PAIMON_BIG_ENDIAN : ByteOrder::PAIMON_LITTLE_ENDIAN;
    int n = 1 + mc::Choose(2);
    std::vector<Item> items;
    std::string ref;
    for (int i = 0; i < n; i++) {
        items.push_back(PickItem(i > 0));
        ref += RefOf(items.back(), big);
    }
    auto out = std::make_shared<StringOut>();
    out->short_at = mc::Choose(3) - 1;
    DataOutputStream dos(out);
    dos.SetOrder(order);
    auto pool = GetDefaultPool();
    bool failed = false;
    mc::Hash h;
    h.U(big).U(out->short_at);
    for (auto& it : items) {
        Status st;
        h.U(it.type).U(it.v).S(it.s);
        switch (it.type) {
            case 0:
                st = dos.WriteValue<char>(static_cast<char>(it.v));
                break;
            case 1:
                st = dos.WriteValue<int16_t>(static_cast<int16_t>(it.v));
                break;
            case 2:
                st = dos.WriteValue<int32_t>(static_cast<int32_t>(it.v));
                break;
            case 3:
                st = dos.WriteValue<int64_t>(static_cast<int64_t>(it.v));
                break;
            case 4:
                st = dos.WriteValue<bool>(it.v != 0);
                break;
            case 5:
                st = dos.WriteString(it.s);
                break;
            default:
                st = dos.WriteBytes(std::make_shared<Bytes>(it.s, pool.get()));
                break;
        }
        mc::Steps();
        if (!st.ok()) {
            failed = true;
            break;
        }
    }
    mc::State(h.h);
    if (out->short_at >= 0 && out->calls > out->short_at) {
        MC_CHECK(failed, "short-write-lost", "a short write of the sink was not reported");
        return;
    }
    MC_CHECK(!failed, "write-status", "write failed");
    MC_CHECK(out->data == ref, "wire-format", "type %d value %llx big=%d: %zu bytes differ",
             items[0].type, static_cast<unsigned long long>(items[0].v), big, out->data.size());
    mc::Nontrivial();
    // read back, with every truncation of the stored bytes
    int cut = mc::Choose(static_cast<int>(ref.size()) + 1);
    std::vector<char> stored(ref.begin(), ref.begin() + (ref.size() - cut));
    stored.shrink_to_fit();
    char dummy;
    std::shared_ptr<InputStream> src;
    FileLike* lagging = nullptr;
    if (mc::ChooseBool()) {
        src = std::make_shared<ByteArrayInputStream>(stored.empty() ? &dummy : stored.data(),
                                                     stored.size());
    } else {
        auto f = std::make_shared<FileLike>();
        f->data.assign(stored.begin(), stored.end());
        if (cut == 0) f->short_at = mc::Choose(4) - 1;
        lagging = f.get();
        src = f;
    }
    DataInputStream dis(src);
    dis.SetOrder(order);
    size_t at = 0;
    for (size_t i = 0; i < items.size(); i++) {
        auto& it = items[i];
        size_t len = RefOf(it, big).size();
        bool fits = at + len <= stored.size();
        bool ok = false;
        uint64_t got = 0;
        std::string gs;
        auto take = [&](auto r) {
            ok = r.ok();
            if (ok) got = static_cast<uint64_t>(r.value());
        };
        switch (it.type) {
            case 0:
                if (it.v & 1) {
                    take(dis.ReadValue<char>());
                } else {
                    take(dis.ReadValue<int8_t>());
                }
                got &= 0xff;
                MC_CHECK(!ok || got == (it.v & 0xff), "read-int8", "int8 %llx",
                         static_cast<unsigned long long>(got));
                break;
            case 1:
                if (it.v & 1) {
                    take(dis.ReadValue<int16_t>());
                    MC_CHECK(!ok || static_cast<int16_t>(got) == static_cast<int16_t>(it.v),
                             "read-int16", "int16 %llx", static_cast<unsigned long long>(got));
                } else {
                    take(dis.ReadValue<uint16_t>());
                    MC_CHECK(!ok || got == (it.v & 0xffff), "read-uint16", "uint16 %llx",
                             static_cast<unsigned long long>(got));
                }
                break;
            case 2:
                if (it.v == 0x12345678) {
                    auto r = dis.ReadValue<float>();
                    ok = r.ok();
                    if (ok) {
                        float f = r.value();
                        uint32_t u;
                        memcpy(&u, &f, 4);
                        MC_CHECK(u == 0x12345678, "read-float", "float %x", u);
                    }
                    break;
                }
                take(dis.ReadValue<int32_t>());
                MC_CHECK(!ok || static_cast<int32_t>(got) == static_cast<int32_t>(it.v),
                         "read-int32", "int32 %llx", static_cast<unsigned long long>(got));
                break;
            case 3:
                take(dis.ReadValue<int64_t>());
                MC_CHECK(!ok || got == it.v, "read-int64", "int64 %llx",
                         static_cast<unsigned long long>(got));
                break;
            case 4:
                take(dis.ReadValue<bool>());
                MC_CHECK(!ok || got == it.v, "read-bool", "bool %llx",
                         static_cast<unsigned long long>(got));
                break;
            case 5: {
                auto r = dis.ReadString();
                ok = r.ok();
                MC_CHECK(!ok || r.value() == it.s, "read-string", "string '%s'",
                         ok ? r.value().c_str() : "");
                break;
            }
            default: {
                if (mc::ChooseBool()) {
                    auto b = Bytes::AllocateBytes(static_cast<int32_t>(it.s.size()), pool.get());
                    ok = dis.ReadBytes(b.get()).ok();
                    MC_CHECK(!ok || it.s == std::string(b->data() ? b->data() : "", b->size()),
                             "read-bytes-value", "bytes");
                } else {
                    std::vector<char> b(it.s.size() + 1);
                    ok = dis.Read(b.data(), static_cast<uint32_t>(it.s.size())).ok();
                    MC_CHECK(!ok || it.s == std::string(b.data(), it.s.size()), "read-raw", "raw");
                }
                break;
            }
        }
        mc::Steps();
        // an answer in spite of a short read is the right one, as checked above
        if (!ok && lagging && lagging->short_at >= 0 && lagging->calls > lagging->short_at) return;
        MC_CHECK(ok == fits, "truncated-value", "item %zu type %d: ok=%d with %zu of %zu bytes", i,
                 it.type, ok, stored.size(), ref.size());
        if (!ok) return;
        at += len;
        MC_CHECK(dis.GetPos().value() == static_cast<int64_t>(at), "typed-pos", "position");
        MC_CHECK(dis.Length().value() == stored.size(), "typed-length", "length");
    }
    // absolute seek and re-read of the first item
    if (cut == 0 && items[0].type == 3 && !(lagging && lagging->short_at >= 0)) {
        MC_CHECK(dis.Seek(0).ok() && dis.GetPos().value() == 0, "typed-seek", "seek");
        auto r = dis.ReadValue<int64_t>();
        MC_CHECK(r.ok() && static_cast<uint64_t>(r.value()) == items[0].v, "typed-reread", "reread");
    }
}

MC_SCENARIO(typed_bytes_long, mc::BOTH, 1, "byte arrays of 8 lengths up to 1 MiB written between two numbers and read back") {
    size_t n = mc::Pick(std::vector<size_t>{255, 256, 32767, 32768, 65535, 65536, 70000, 1 << 20});
    auto pool = GetDefaultPool();
    std::string s(n, 'q');
    for (size_t i = 0; i < n; i += 97) s[i] = static_cast<char>(i >> 3);
    mc::State(n);
    mc::Nontrivial();
    mc::Steps(3);
    auto out = std::make_shared<StringOut>();
    DataOutputStream dos(out);
    MC_CHECK(dos.WriteValue<int32_t>(77).ok() && dos.WriteBytes(std::make_shared<Bytes>(s, pool.get())).ok() &&
                 dos.WriteValue<int32_t>(78).ok(),
             "bytes-write", "%zu bytes", n);
    auto in = std::make_shared<ByteArrayInputStream>(out->data.data(), out->data.size());
    DataInputStream dis(in);
    bool raw = mc::ChooseBool();
    Bytes b(n, pool.get());
    auto first = dis.ReadValue<int32_t>();
    Status st = raw ? dis.Read(b.data(), static_cast<uint32_t>(n)) : dis.ReadBytes(&b);
    auto last = dis.ReadValue<int32_t>();
    MC_CHECK(first.ok() && first.value() == 77 && st.ok() && std::string(b.data(), n) == s && last.ok() && last.value() == 78,
             "bytes-lost", "%zu bytes read back otherwise", n);
}

MC_SCENARIO(string_limit, mc::BOTH, 1, "strings around the 64 KiB limit of the length prefix") {
    size_t n = mc::Pick(std::vector<size_t>{32767, 32768, 65534, 65535, 65536, 65537, 131072});
    std::string s(n, 'q');
    s[n / 2] = 'z';
    mc::State(n);
    mc::Nontrivial();
    auto out = std::make_shared<StringOut>();
    DataOutputStream dos(out);
    auto st = dos.WriteString(s);
    mc::Steps();
    if (!st.ok()) {
        MC_CHECK(n > 65535, "string-limit", "string of %zu bytes refused", n);
        return;
    }
    auto in = std::make_shared<ByteArrayInputStream>(out->data.data(), out->data.size());
    DataInputStream dis(in);
    auto r = dis.ReadString();
    MC_CHECK(r.ok() && r.value() == s, "string-lost",
             "a string of %zu bytes was accepted and reads back as %zu bytes", n,
             r.ok() ? r.value().size() : 0);
}

MC_SCENARIO(segments, mc::BOTH, 4,
            "segmented output, segment size 1..9, all sequences of <=3 typed writes, both orders") {
    int seg = 1 + mc::Choose(9);
    bool big = mc::ChooseBool();
    auto pool = std::shared_ptr<MemoryPool>(GetMemoryPool());
    std::string ref;
    {
        MemorySegmentOutputStream out(seg, pool);
        out.SetOrder(big ? ByteOrder::PAIMON_BIG_ENDIAN : ByteOrder::PAIMON_LITTLE_ENDIAN);
        int n = 1 + mc::Choose(3);
        for (int i = 0; i < n; i++) {
            Item it = PickItem(true);
            ref += RefOf(it, big);
            switch (it.type) {
                case 0:
                    out.WriteValue<char>(static_cast<char>(it.v));
                    break;
                case 1:
                    out.WriteValue<int16_t>(static_cast<int16_t>(it.v));
                    break;
                case 2:
                    out.WriteValue<int32_t>(static_cast<int32_t>(it.v));
                    break;
                case 3:
                    out.WriteValue<int64_t>(static_cast<int64_t>(it.v));
                    break;
                case 4:
                    out.WriteValue<bool>(it.v != 0);
                    break;
                case 5:
                    out.WriteString(it.s);
                    break;
                default:
                    if (it.s.size() % 2) {
                        out.WriteBytes(std::make_shared<Bytes>(it.s, pool.get()));
                    } else {
                        out.Write(it.s.data(), it.s.size());
                    }
                    break;
            }
            mc::Steps();
            MC_CHECK(out.CurrentSize() == static_cast<int64_t>(ref.size()), "segment-size",
                     "segment %d: CurrentSize %lld want %zu", seg,
                     static_cast<long long>(out.CurrentSize()), ref.size());
        }
        mc::State(mc::Hash().U(seg).U(big).S(ref).h);
        mc::Nontrivial();
        auto bytes = MemorySegmentUtils::CopyToBytes(out.Segments(), 0, out.CurrentSize(),
                                                     pool.get());
        MC_CHECK(std::string(bytes->data() ? bytes->data() : "", bytes->size()) == ref,
                 "segment-bytes", "segment %d big %d: bytes differ", seg, big);
        // copied into another segmented stream from every offset
        if (!ref.empty()) {
            int seg2 = 1 + mc::Choose(4) * 2;
            int off = mc::Choose(static_cast<int>(ref.size()));
            MemorySegmentOutputStream copy(seg2, pool);
            auto st = MemorySegmentUtils::CopyToStream(out.Segments(), off,
                                                       static_cast<int>(ref.size()) - off, &copy);
            MC_CHECK(st.ok(), "segment-copy-status", "%s", st.ToString().c_str());
            auto b2 = MemorySegmentUtils::CopyToBytes(copy.Segments(), 0, copy.CurrentSize(),
                                                      pool.get());
            MC_CHECK(std::string(b2->data(), b2->size()) == ref.substr(off), "segment-copy",
                     "copy from offset %d", off);
        }
    }
    MC_CHECK(pool->CurrentUsage() == 0, "segment-leak", "%llu bytes of the pool still in use",
             static_cast<unsigned long long>(pool->CurrentUsage()));
}

MC_SCENARIO(segments_long, mc::BOTH, 4,
            "segments of 1..9, 16, 64, 1000 and the default size, a first write of 0..1 or around the segment "
            "size, a bulk write of up to 4 segments around every boundary, typed values behind it: "
            "content, size, copies from 5 offsets and lengths, memory given back") {
    int seg = mc::Pick(std::vector<int>{1, 2, 3, 4, 5, 7, 8, 9, 16, 64, 1000, 65536});
    auto pool = std::shared_ptr<MemoryPool>(GetMemoryPool());
    std::string ref;
    {
        MemorySegmentOutputStream out(seg, pool);
        int first = mc::Pick(std::vector<int>{0, 1, seg - 1, seg, seg + 1});
        int bulk = mc::Choose(4) * seg + mc::Pick(std::vector<int>{0, 1, seg / 2, seg - 1});
        auto text = [](int n, int salt) {
            std::string t(n, 0);
            for (int i = 0; i < n; i++) t[i] = static_cast<char>(((i + salt) * 2654435761U) >> 13);
            return t;
        };
        std::string a = text(first, 1), b = text(bulk, 77);
        out.Write(a.data(), a.size());
        ref += a;
        int how = mc::Choose(3);
        if (how == 0) {
            out.Write(b.data(), b.size());
        } else if (how == 1) {
            out.WriteBytes(std::make_shared<Bytes>(b, pool.get()));
        } else {
            mc::Assume(b.size() < 65536);
            out.WriteString(b);
            ref += static_cast<char>(b.size() >> 8);
            ref += static_cast<char>(b.size());
        }
        ref += b;
        mc::Steps(2);
        int tail = mc::Choose(3);
        for (int i = 0; i < tail; i++) {
            out.WriteValue<int64_t>(0x0102030405060708LL + i);
            ref += std::string("\x01\x02\x03\x04\x05\x06\x07", 7) + static_cast<char>(8 + i);
            out.WriteValue<int16_t>(static_cast<int16_t>(0x1122));
            ref += "\x11\x22";
            out.WriteValue<int32_t>(0x31323334);
            ref += "1234";
            mc::Steps(3);
        }
        mc::State(mc::Hash().U(seg).U(first).U(bulk).U(how).U(tail).h);
        mc::Nontrivial();
        int total = static_cast<int>(ref.size());
        MC_CHECK(out.CurrentSize() == total, "segment-size", "segment %d first %d bulk %d: %lld", seg,
                 first, bulk, static_cast<long long>(out.CurrentSize()));
        const std::vector<std::pair<int, int>> parts{{0, total},
                                                     {total / 3, total - total / 3},
                                                     {std::min(seg, total), total - std::min(seg, total)},
                                                     {total / 2, total / 3},
                                                     {std::max(0, total - 3), std::min(3, total)}};
        for (auto [off, len] : parts) {
            auto bytes = MemorySegmentUtils::CopyToBytes(out.Segments(), off, len, pool.get());
            MC_CHECK(std::string(bytes->data() ? bytes->data() : "", bytes->size()) ==
                         ref.substr(off, len),
                     "segment-bytes", "segment %d first %d bulk %d how %d: bytes %d+%d differ", seg,
                     first, bulk, how, off, len);
            MemorySegmentOutputStream copy(seg > 64 ? seg / 2 + 1 : 7, pool);
            auto st = MemorySegmentUtils::CopyToStream(out.Segments(), off, len, &copy);
            MC_CHECK(st.ok() && copy.CurrentSize() == len, "segment-copy-status", "%s",
                     st.ToString().c_str());
            auto b2 = MemorySegmentUtils::CopyToBytes(copy.Segments(), 0, len, pool.get());
            MC_CHECK(std::string(b2->data() ? b2->data() : "", b2->size()) == ref.substr(off, len),
                     "segment-copy", "segment %d first %d bulk %d: copy of %d+%d", seg, first, bulk,
                     off, len);
        }
    }
    MC_CHECK(pool->CurrentUsage() == 0, "segment-leak", "%llu bytes of the pool still in use",
             static_cast<unsigned long long>(pool->CurrentUsage()));
}

}  // namespace
