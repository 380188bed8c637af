// C10: corrupt compressed data is reported, never trusted, never fatal.
#include "pbt.h"
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <sofa/pbrpc/common.h>
#include <sofa/pbrpc/compressed_stream.h>
#include "gen_msg.h"
#include "zref.h"
using namespace sofa::pbrpc;
using namespace pbt;
namespace io = google::protobuf::io;

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static size_t g_max_alloc;
static void on_malloc(const volatile void*, size_t n) { if (n > g_max_alloc) g_max_alloc = n; }
static void on_free(const volatile void*) {}
static void init() { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }

static const char* kType[] = {"none", "gzip", "zlib", "snappy", "lz4"};
static const size_t kCap = 24 << 20;

static std::string own_encode(int type, const std::string& d) {
    std::string out;
    {
        io::StringOutputStream ss(&out);
        std::unique_ptr<AbstractCompressedOutputStream> os(get_compressed_output_stream(&ss, (CompressType)type));
        size_t pos = 0;
        while (pos < d.size()) {
            void* p; int n;
            if (!os->Next(&p, &n)) fail("Next refused");
            size_t k = std::min<size_t>(n, d.size() - pos);
            memcpy(p, d.data() + pos, k);
            pos += k;
            if ((int)k < n) os->BackUp(n - (int)k);
        }
        os->Flush();
    }
    return out;
}
static void mutate(Src& s, Ctx& c, std::string* z, int type) {
    int n = 1 + (int)s.draw(3);
    for (int i = 0; i < n; ++i) {
        if (z->empty()) { *z = s.any_bytes(20); continue; }
        size_t at = s.chance(50) ? std::min<size_t>(z->size() - 1, s.logsize(40)) : s.draw(z->size() - 1);
        if (s.chance(15)) at = z->size() - 1 - s.draw(std::min<size_t>(z->size() - 1, 12));
        switch (s.weighted({3, 3, 2, 2, 3, 2, 1})) {
        case 0: (*z)[at] ^= (char)(1 << s.draw(7)); c.label("bit flip"); break;
        case 1: (*z)[at] = (char)s.pick<int>({0, 0xff, 0x7f, 0x80, 1, 0xf0, 0x0f}); c.label("byte set"); break;
        case 2: z->erase(at, 1 + s.logsize(std::min<size_t>(z->size() - at - 1, 64))); c.label("erase"); break;
        case 3: z->insert(at, s.any_bytes(12)); c.label("insert"); break;
        case 4: z->resize(at); c.label("cut"); break;
        case 5: { size_t l = 1 + s.logsize(std::min<size_t>(z->size() - at - 1, 300)); z->insert(s.draw(z->size()), z->substr(at, l)); c.label("copy part"); break; }
        default:
            if (type >= 3) {   // change a length prefix into another
                std::string v;
                zref::varint(&v, (uint32_t)s.pick<uint64_t>({0, 1, 131072, 131073, 65536, 0xffffffffu, 0x7fffffff}));
                z->replace(0, 1, v);
                c.label("length prefix");
            } else *z += s.any_bytes(40);
        }
    }
}
// What the reference gives before it stops; ok when the whole input is well formed.
static bool reference(int type, const std::string& z, std::string* out) { return zref::decode(type, z, out, kCap); }

static void drive(Src& s, Ctx& c, int type, const std::string& z) {
    std::string ref;
    bool ok = reference(type, z, &ref);
    g_max_alloc = 0;
    std::string got;
    bool capped = false;
    {
        io::ArrayInputStream base(z.data(), z.size(), s.chance(50) ? -1 : (int)(1 + s.logsize(3000)));
        std::unique_ptr<AbstractCompressedInputStream> is(get_compressed_input_stream(&base, (CompressType)type));
        int idle = 0, ops = 0;
        while (true) {
            const void* p; int n = 0;
            if (s.chance(2) && ops++ < 50) {
                size_t k = 1 + s.logsize(5000);
                bool all = is->Skip((int)k);
                PBT_CHECK(!all || ref.size() - got.size() >= k, "Skip(%zu) succeeded with %zu bytes left", k, ref.size() - got.size());
                if (!all) { got = ref; capped = true; break; }   // the rest was consumed
                got += ref.substr(got.size(), k);
                continue;
            }
            if (!is->Next(&p, &n)) break;
            PBT_CHECK(n >= 0, "Next gave size %d", n);
            if (n == 0) { PBT_CHECK(++idle < (int)(4 * z.size() + 1000), "endless empty reads"); continue; }
            got.append((const char*)p, n);
            if (got.size() > kCap) { capped = true; break; }
            if (ops++ < 50 && s.chance(10)) { int k = (int)s.draw(n); is->BackUp(k); got.resize(got.size() - k); }
        }
        const void* p; int n;
        if (!capped) PBT_CHECK(!is->Next(&p, &n) || n == 0, "data after the end or failure");
        if (!capped && type != 4) PBT_CHECK(is->ExpectAtEnd() == ok, "%s data is reported as %s", ok ? "well-formed" : "damaged", ok ? "damaged" : "well-formed");
    }
    size_t bound = 1 << 20;
    PBT_CHECK(g_max_alloc <= std::max<size_t>(bound + 4 * got.size() + 4 * ref.size(), 64 * z.size()), "allocated %zu bytes at once for %zu input bytes", g_max_alloc, z.size());
    if (!capped) {
        PBT_CHECK(got.size() <= ref.size() && memcmp(got.data(), ref.data(), got.size()) == 0,
                  "%s: delivered %zu bytes that are no prefix of the %zu the reference decoder gives", kType[type], got.size(), ref.size());
        if (ok && type != 4) PBT_CHECK(got == ref, "%s: well-formed data of %zu bytes, only %zu delivered", kType[type], ref.size(), got.size());
    }
    c.label(std::string(kType[type]) + (ok ? " still valid" : " invalid"));
}
static void mutated(Src& s, Ctx& c) {
    int type = 1 + (int)s.draw(3);
    std::string d = s.data(s.size_near({0, 10, 300, 65536}, 140000));
    if (type == 4 && d.size() > 70000) d.resize(70000);
    std::string z = s.chance(50) ? own_encode(type, d) : zref::encode(type, d, s);
    size_t before = z.size();
    mutate(s, c, &z, type);
    c.note(fmt("%s %zu bytes -> %zu, altered to %zu: %s", kType[type], d.size(), before, z.size(), show(z, 40).c_str()));
    drive(s, c, type, z);
    c.nontrivial(z.size() > 0);
}
static void arbitrary(Src& s, Ctx& c) {
    int type = 1 + (int)s.draw(3);
    std::string z;
    if (type <= 2) {
        if (s.chance(80)) z = type == 1 ? std::string("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\x03", 10) : std::string("\x78\x9c", 2);
        z += s.chance(50) ? s.any_bytes(60) : s.data(s.logsize(3000));
    } else {
        int n = 1 + (int)s.draw(3);
        for (int i = 0; i < n; ++i) {
            std::string b = s.chance(70) ? s.any_bytes(60) : s.data(s.logsize(3000));
            if (type == 3 && s.chance(70)) { std::string v; zref::varint(&v, (uint32_t)(s.chance(50) ? s.logsize(70000) : s.draw(0xffffffffu))); b = v + b; }
            if (type == 4 && s.chance(40)) {   // runs of tokens with long lengths
                b = std::string(1, (char)(s.draw(255))) + std::string(s.logsize(2000), '\xff') + b;
            }
            zref::varint(&z, s.chance(90) ? b.size() : (uint32_t)s.logsize(200000));
            z += b;
        }
    }
    c.note(fmt("%s arbitrary %zu: %s", kType[type], z.size(), show(z, 60).c_str()));
    drive(s, c, type, z);
    c.nontrivial(z.size() > 2);
}
// Whole messages: what the server and the client do with a received body.
static void message(Src& s, Ctx& c) {
    int type = 1 + (int)s.draw(3);
    vtest::EchoRequest a;
    a.set_id(s.draw(UINT64_MAX));
    if (s.chance(70)) a.set_data(s.data(s.size_near({100, 65536}, 100000)));
    if (s.chance(50)) a.set_text(gm::gen_text(s, 60));
    std::string z = own_encode(type, a.SerializeAsString());
    bool altered = s.chance(80);
    if (altered) mutate(s, c, &z, type);
    std::string ref;
    bool ok = reference(type, z, &ref);
    vtest::EchoRequest b;
    bool parsed;
    {
        io::ArrayInputStream base(z.data(), z.size(), s.chance(50) ? -1 : (int)(1 + s.logsize(3000)));
        std::unique_ptr<AbstractCompressedInputStream> is(get_compressed_input_stream(&base, (CompressType)type));
        parsed = b.ParseFromZeroCopyStream(is.get()) && is->ExpectAtEnd();     // as the server and the client do
    }
    if (!ok && type != 4) PBT_CHECK(!parsed, "message read from damaged data: %s", show(z, 200).c_str());
    if (!altered) PBT_CHECK(parsed && b.SerializeAsString() == a.SerializeAsString(), "unaltered message not parsed");
    else if (ok && type != 4) {
        vtest::EchoRequest r;
        bool rp = r.ParseFromString(ref);
        PBT_CHECK(parsed == rp && (!rp || r.SerializeAsString() == b.SerializeAsString()), "message read differs from the one the data encodes");
    }
    c.label(parsed ? "message parsed" : "message refused");
    c.note(fmt("%s message %zu compressed, altered %d", kType[type], z.size(), altered));
    c.nontrivial(altered);
}

int main(int argc, char** argv) {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    Prop p;
    p.id = "C10";
    p.rule = "non-trivial: the input is altered or arbitrary data of more than two bytes; cases are a type, a payload, one to four alterations and a history of reads";
    p.subs = {{"mutated", mutated, 60000, 900000}, {"arbitrary", arbitrary, 200000, 1500000}, {"message", message, 60000, 600000}};
    p.case_timeout_s = 20;
    p.quick_budget_s = 60;
    p.init = init;
    return run(argc, argv, p);
}
