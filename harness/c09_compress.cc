// C09: compression followed by decompression is the identity, for any stream operations; standard formats.
#include "pbt.h"
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <google/protobuf/io/coded_stream.h>
#include <sofa/pbrpc/buffer.h>
#include <sofa/pbrpc/compressed_stream.h>
#include "gen_msg.h"
#include "zref.h"
using namespace sofa::pbrpc;
using namespace pbt;
namespace io = google::protobuf::io;

static const char* kType[] = {"none", "gzip", "zlib", "snappy", "lz4"};

static std::string payload(Src& s) {
    int parts = 1 + (int)s.draw(2);
    std::string d;
    for (int i = 0; i < parts; ++i) d += s.data(s.size_near({0, 1, 100, 32768, 65535, 65536, 131072, 196608}, 220000));
    return d;
}
// Writes d through a compressing stream with generated pieces and give-backs.
static std::string compress(Src& s, Ctx& c, int type, const std::string& d, int level) {
    std::string out;
    int style = s.weighted({2, 2, 3});
    int flushes = 0, backups = 0;
    {
        std::string arr;
        WriteBuffer wb;
        io::StringOutputStream ss(&out);
        std::unique_ptr<io::ArrayOutputStream> as;
        io::ZeroCopyOutputStream* base;
        int under = s.weighted({2, 2, 2});
        if (under == 0) base = &wb;
        else if (under == 1) base = &ss;
        else { arr.resize(d.size() * 2 + 200000); as.reset(new io::ArrayOutputStream(&arr[0], arr.size(), 16 + s.logsize(5000))); base = as.get(); }
        {
            std::unique_ptr<AbstractCompressedOutputStream> os(get_compressed_output_stream(base, (CompressType)type, level));
            PBT_CHECK(os.get() != NULL, "no stream");
            size_t pos = 0;
            int ops = 0;
            while (pos < d.size() || (ops == 0 && s.chance(50))) {
                ++ops;
                void* p; int n;
                PBT_CHECK(os->Next(&p, &n), "Next refused at %zu", pos);
                PBT_CHECK(n > 0, "Next gave %d bytes", n);
                size_t want = d.size() - pos;
                size_t k = std::min<size_t>(want, n);
                if (style == 1 || (style == 2 && ops < 30 && s.chance(60))) k = std::min<size_t>(k, style == 1 && ops < 40 ? 1 + s.logsize(n - 1) : s.logsize(n));
                memcpy(p, d.data() + pos, k);
                if ((size_t)n > k) { os->BackUp(n - (int)k); ++backups; }
                pos += k;
                PBT_CHECK(os->ByteCount() == (int64)pos, "ByteCount %lld after writing %zu bytes", (long long)os->ByteCount(), pos);
                if (ops < 20 && s.chance(10)) {
                    PBT_CHECK(os->Flush(), "Flush reports failure");
                    PBT_CHECK(os->ByteCount() == (int64)pos, "ByteCount %lld after flushing %zu bytes", (long long)os->ByteCount(), pos);
                    ++flushes;
                }
            }
            if (s.chance(40)) PBT_CHECK(os->Close(), "Close reports failure");
            else PBT_CHECK(os->Flush(), "Flush reports failure");
        }
        if (under == 0) {
            ReadBuffer rb;
            wb.SwapOut(&rb);
            out = rb.ToString();
        } else if (under == 2) out = arr.substr(0, as->ByteCount());
    }
    if (flushes) c.label("flushed in between");
    if (backups) c.label("give-backs");
    c.note(fmt("compress %s %zu bytes style %d flushes %d -> %zu", kType[type], d.size(), style, flushes, out.size()));
    return out;
}
// Reads everything with generated pieces, give-backs and skips; checks against expect.
static void decompress(Src& s, Ctx& c, int type, const std::string& z, const std::string& expect, const char* what) {
    int under = s.weighted({3, 2});
    std::unique_ptr<io::ZeroCopyInputStream> base;
    if (under == 0) base.reset(new io::ArrayInputStream(z.data(), z.size(), s.chance(50) ? -1 : (int)(1 + s.logsize(3000))));
    else {
        ReadBuffer* rb = new ReadBuffer();
        base.reset(rb);
        size_t pos = 0;
        WriteBuffer wb;
        wb.Append(z);
        wb.SwapOut(rb);
        (void)pos;
    }
    std::unique_ptr<AbstractCompressedInputStream> is(get_compressed_input_stream(base.get(), (CompressType)type));
    size_t pos = 0;
    int ops = 0, back = 0, skips = 0;
    bool canback = false;
    int last = 0;
    while (true) {
        ++ops;
        PBT_CHECK(ops < (int)(expect.size() + 3 * z.size()) + 1000, "no end of data after %d reads", ops);
        if (pos < expect.size() && ops < 60 && s.chance(15)) {
            size_t k = 1 + s.logsize(expect.size() - pos - 1);
            PBT_CHECK(is->Skip((int)k), "%s: Skip(%zu) at %zu of %zu refused", what, k, pos, expect.size());
            pos += k;
            canback = false;
            ++skips;
            continue;
        }
        const void* p; int n = -1;
        if (!is->Next(&p, &n)) break;
        PBT_CHECK(n >= 0, "Next gave size %d", n);
        PBT_CHECK(pos + n <= expect.size(), "%s: more data than written: %zu + %d > %zu", what, pos, n, expect.size());
        PBT_CHECK(memcmp(p, expect.data() + pos, n) == 0, "%s: wrong data in [%zu,%zu)", what, pos, pos + n);
        pos += n;
        last = n;
        canback = n > 0;
        if (canback && ops < 60 && s.chance(30)) {
            int k = s.chance(20) ? last : (int)s.draw(last);
            is->BackUp(k);
            pos -= k;
            canback = false;
            ++back;
        }
        if (type >= 3) PBT_CHECK(is->ByteCount() == (int64)pos, "ByteCount %lld at %zu", (long long)is->ByteCount(), pos);
    }
    PBT_CHECK(pos == expect.size(), "%s: data ends at %zu of %zu", what, pos, expect.size());
    const void* p; int n;
    PBT_CHECK(!is->Next(&p, &n), "%s: data after the end", what);
    if (back) c.label("read give-backs");
    if (skips) c.label("skips");
}

static void streams(Src& s, Ctx& c) {
    int type = 1 + (int)s.draw(3);
    std::string d = payload(s);
    int level = type <= 2 && s.chance(50) ? s.irange(0, 9) : 1;
    std::string z = compress(s, c, type, d, level);
    c.label(kType[type]);
    std::string r;
    PBT_CHECK(zref::decode(type, z, &r), "reference decoder refuses the %s output (%zu bytes for %zu)", kType[type], z.size(), d.size());
    PBT_CHECK(r == d, "reference decoder gives other data (%zu bytes, %zu written)", r.size(), d.size());
    decompress(s, c, type, z, d, kType[type]);
    if (d.size() > 65536) c.label("more than one block");
    c.nontrivial(d.size() > 0);
}
static void foreign(Src& s, Ctx& c) {
    int type = 1 + (int)s.draw(3);
    std::string d = payload(s);
    if (type == 4 && d.size() > 100000) d.resize(100000);
    int members = 1;
    std::string z = zref::encode(type, d, s, &members);
    std::string r;
    if (!zref::decode(type, z, &r) || r != d) abort();     // the reference codecs must agree with each other
    c.label(kType[type]);
    if (members > 1) c.label("several gzip members");
    c.note(fmt("foreign %s %zu bytes -> %zu, %d members", kType[type], d.size(), z.size(), members));
    decompress(s, c, type, z, d, "foreign");
    c.nontrivial(d.size() > 0);
}
static void messages(Src& s, Ctx& c) {
    int type = 1 + (int)s.draw(3);
    vtest::AllTypes a;
    gm::Opt o;
    bool empty = s.chance(4);
    if (!empty) gm::fill(s, &a, o);
    if (s.chance(30)) a.set_y(payload(s));
    WriteBuffer wb;
    {
        std::unique_ptr<AbstractCompressedOutputStream> os(get_compressed_output_stream(&wb, (CompressType)type));
        PBT_CHECK(a.SerializePartialToZeroCopyStream(os.get()), "serialize failed");
        os->Flush();
    }
    ReadBuffer rb;
    wb.SwapOut(&rb);
    vtest::AllTypes b;
    {
        std::unique_ptr<AbstractCompressedInputStream> is(get_compressed_input_stream(&rb, (CompressType)type));
        PBT_CHECK(b.ParsePartialFromZeroCopyStream(is.get()), "parse failed for %s, message of %zu bytes", kType[type], a.ByteSizeLong());
    }
    PBT_CHECK(a.SerializePartialAsString() == b.SerializePartialAsString(), "message differs after %s", kType[type]);
    c.label(fmt("message %s%s", kType[type], a.ByteSizeLong() ? "" : " empty"));
    c.note(fmt("%s message of %zu bytes", kType[type], a.ByteSizeLong()));
    c.nontrivial(a.ByteSizeLong() > 0);
}

int main(int argc, char** argv) {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    Prop p;
    p.id = "C09";
    p.rule = "non-trivial: at least one byte is compressed; a case is a type, a payload (sizes concentrated around the 64 KB blocks), a history of writes, give-backs and flushes, and a history of reads, give-backs and skips";
    p.subs = {{"streams", streams, 30000, 400000}, {"foreign", foreign, 5000, 150000}, {"messages", messages, 20000, 300000}};
    p.case_timeout_s = 20;
    p.quick_budget_s = 60;
    return run(argc, argv, p);
}
