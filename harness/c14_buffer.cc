// C14: chained-block buffers behave like byte strings, share blocks safely and free them.
#include "pbt.h"
#include <atomic>
#include <thread>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <google/protobuf/io/coded_stream.h>
#include <sofa/pbrpc/buffer.h>
#include <sofa/pbrpc/tran_buf_pool.h>
#include "vtest.pb.h"
using namespace sofa::pbrpc;
using namespace pbt;

static std::string read_all(ReadBuffer* rb) {
    std::string s;
    const void* p; int n;
    while (rb->Next(&p, &n)) { PBT_CHECK(n > 0, "Next gave an empty chunk"); s.append((const char*)p, n); }
    return s;
}

// Operation histories on a write buffer against a std::string.
static void write_model(Src& s, Ctx& c) {
    {
        WriteBuffer wb;
        std::string model;
        if (s.chance(40)) wb.set_base_block_factor(s.draw(9));
        int steps = 1 + s.draw(14);
        int last_next = -1;      // size of the last Next, when BackUp is allowed
        int swaps = 0, multi = 0, backups = 0, sets = 0;
        for (int k = 0; k < steps; ++k) {
            switch (s.weighted({4, 3, 3, 2, 3, 2})) {
            case 0: {
                std::string d = s.data(s.size_near({56, 120, 1016, 2040, 4088, 32760}, 70000));
                PBT_CHECK(wb.Append(d), "append failed");
                model += d;
                last_next = -1;
                c.note(fmt("append %zu", d.size()));
                break;
            }
            case 1: {
                void* p; int n;
                PBT_CHECK(wb.Next(&p, &n), "next failed");
                PBT_CHECK(n > 0, "next gave %d bytes", n);
                std::string d = s.data(n);
                memcpy(p, d.data(), n);
                model += d;
                last_next = n;
                c.note(fmt("next %d", n));
                break;
            }
            case 2:
                if (last_next >= 0) {
                    int b = s.chance(30) ? last_next : (int)s.draw(last_next);
                    wb.BackUp(b);
                    model.resize(model.size() - b);
                    last_next = -1;
                    ++backups;
                    c.note(fmt("backup %d", b));
                } else wb.BackUp(0);   // as protobuf does after an empty message
                break;
            case 3: {
                int n = 1 + s.size_near({8, 24, 56, 120, 1016, 32760, 65528}, 70000);
                int64 head = wb.Reserve(n);
                PBT_CHECK(head == (int64)model.size(), "reserve returned %lld, %zu bytes were written", (long long)head, model.size());
                std::string d = s.data(n);
                wb.SetData(head, d.data(), n);
                model += d;
                last_next = -1;
                c.note(fmt("reserve+set %d", n));
                break;
            }
            case 4:
                if (model.size()) {
                    size_t pos = s.chance(30) ? model.size() - 1 - s.logsize(std::min<size_t>(model.size() - 1, 64)) : s.draw(model.size() - 1);
                    size_t n = 1 + (s.chance(40) ? model.size() - pos - 1 : s.logsize(model.size() - pos - 1));
                    std::string d = s.data(n);
                    wb.SetData(pos, d.data(), n);
                    model.replace(pos, n, d);
                    ++sets;
                    c.note(fmt("set %zu@%zu", n, pos));
                }
                break;
            default: {
                ReadBuffer rb;
                bool pre = s.chance(30);
                std::string want;
                if (pre) { WriteBuffer o; want = s.data(1 + s.logsize(5000)); o.Append(want); o.SwapOut(&rb); }
                int64 cap = rb.TotalBlockSize() + wb.TotalBlockSize();
                if (wb.BlockCount() > 1) ++multi;
                wb.SwapOut(&rb);
                want += model;
                PBT_CHECK(rb.TotalBlockSize() <= cap, "block size grew in a swap");
                PBT_CHECK(rb.TotalBlockSize() >= (int64)want.size(), "block size %lld below the %zu bytes held", (long long)rb.TotalBlockSize(), want.size());
                PBT_CHECK(rb.TotalCount() == (int64)want.size(), "swapped out %lld bytes, wrote %zu", (long long)rb.TotalCount(), want.size());
                PBT_CHECK(rb.ToString() == want, "ToString differs from what was written");
                PBT_CHECK(read_all(&rb) == want, "reading differs from what was written");
                PBT_CHECK(wb.ByteCount() == 0 && wb.BlockCount() == 0 && wb.TotalBlockSize() == 0 && wb.TotalCapacity() == 0, "buffer not empty after swapping out");
                model.clear();
                last_next = -1;
                ++swaps;
                c.note("swap");
                break;
            }
            }
            PBT_CHECK(wb.ByteCount() == (int64)model.size(), "ByteCount %lld, model has %zu", (long long)wb.ByteCount(), model.size());
            PBT_CHECK(wb.TotalCapacity() >= wb.ByteCount() && wb.TotalBlockSize() >= wb.TotalCapacity(), "capacity accounting");
        }
        ReadBuffer rb;
        if (wb.BlockCount() > 1) ++multi;
        wb.SwapOut(&rb);
        PBT_CHECK(rb.ToString() == model && rb.TotalCount() == (int64)model.size(), "final content differs");
        PBT_CHECK(read_all(&rb) == model, "final reading differs");
        if (swaps) c.label("swap-mid-history");
        if (multi) c.label("several-blocks");
        if (backups) c.label("backup");
        if (sets) c.label("set-data");
        c.nontrivial(multi && steps >= 3);
    }
}

struct Block { char* p; int cap; std::string content; };

// Reading histories over buffers that share blocks, with the buffers destroyed in any order.
static void read_model(Src& s, Ctx& c) {
    std::vector<Block> blocks;
    int nb = 1 + s.draw(5);
    for (int i = 0; i < nb; ++i) {
        Block b;
        b.p = (char*)TranBufPool::malloc(s.draw(9));
        b.cap = TranBufPool::capacity(b.p);
        b.content = s.data(b.cap);
        memcpy(b.p, b.content.data(), b.cap);
        blocks.push_back(b);
    }
    int nr = 1 + s.draw(3);
    std::vector<ReadBuffer*> rb;
    std::vector<std::string> model;
    bool shared = false;
    std::vector<int> uses(nb, 0);
    for (int i = 0; i < nr; ++i) {
        ReadBuffer* r = new ReadBuffer();
        std::string m;
        int64 blk = 0;
        int pieces = 1 + s.draw(5);
        for (int k = 0; k < pieces; ++k) {
            if (i > 0 && s.chance(25)) {
                int j = s.draw(i - 1);
                r->Append(rb[j]);
                m += model[j];
                blk += rb[j]->TotalBlockSize();
                shared = true;
                c.note(fmt("rb%d+=rb%d", i, j));
                continue;
            }
            int bi = s.draw(nb - 1);
            int off = s.chance(40) ? 0 : (int)s.draw(blocks[bi].cap - 1);
            int n = s.chance(30) ? blocks[bi].cap - off : 1 + (int)s.draw(blocks[bi].cap - off - 1);
            r->Append(BufHandle(blocks[bi].p, n, off));
            blk += TranBufPool::block_size(blocks[bi].p);
            if (uses[bi]++) shared = true;
            m += blocks[bi].content.substr(off, n);
            c.note(fmt("rb%d+=b%d[%d,%d]", i, bi, off, n));
        }
        PBT_CHECK(r->TotalCount() == (int64)m.size(), "TotalCount %lld, %zu bytes appended", (long long)r->TotalCount(), m.size());
        PBT_CHECK(r->TotalBlockSize() == blk, "TotalBlockSize %lld, blocks are %lld", (long long)r->TotalBlockSize(), (long long)blk);
        rb.push_back(r);
        model.push_back(m);
    }
    for (size_t i = 0; i < blocks.size(); ++i) {
        if (s.chance(70)) { TranBufPool::free(blocks[i].p); blocks[i].p = NULL; }   // buffers keep it alive
    }
    std::vector<size_t> pos(nr, 0);
    std::vector<int> last(nr, -1);
    int steps = s.draw(24), backups = 0, skips = 0;
    bool destroyed = false;
    for (int k = 0; k < steps; ++k) {
        int i = s.draw(nr - 1);
        if (!rb[i]) continue;
        size_t left = model[i].size() - pos[i];
        switch (s.weighted({5, 4, 4, 1, 1})) {
        case 0: {
            const void* p; int n;
            bool ok = rb[i]->Next(&p, &n);
            PBT_CHECK(ok == (left > 0), "Next %d with %zu bytes left", ok, left);
            if (ok) {
                PBT_CHECK(n > 0 && (size_t)n <= left, "Next gave %d of %zu left", n, left);
                PBT_CHECK(!memcmp(p, model[i].data() + pos[i], n), "Next gave other bytes");
                pos[i] += n;
                last[i] = n;
            } else last[i] = -1;
            c.note(fmt("next%d", i));
            break;
        }
        case 1:
            if (last[i] > 0) {
                int b = s.chance(30) ? last[i] : (int)s.draw(last[i]);
                rb[i]->BackUp(b);
                pos[i] -= b;
                last[i] = -1;
                ++backups;
                c.note(fmt("backup%d %d", i, b));
            }
            break;
        case 2: {
            int n = s.chance(20) ? (int)(left + s.draw(3)) : s.chance(20) ? 0 : (int)s.draw(left);
            bool ok = rb[i]->Skip(n);
            PBT_CHECK(ok == ((size_t)n <= left), "Skip(%d) gave %d with %zu left", n, ok, left);
            pos[i] = std::min(model[i].size(), pos[i] + n);
            last[i] = -1;
            ++skips;
            c.note(fmt("skip%d %d", i, n));
            break;
        }
        case 3:
            PBT_CHECK(rb[i]->ToString() == model[i], "ToString differs");
            break;
        default:
            if (nr > 1 && rb[i]) { delete rb[i]; rb[i] = NULL; destroyed = true; c.note(fmt("del%d", i)); }
            break;
        }
        if (rb[i]) PBT_CHECK(rb[i]->ByteCount() == (int64)pos[i], "ByteCount %lld, read %zu", (long long)rb[i]->ByteCount(), pos[i]);
    }
    for (int i = 0; i < nr; ++i)
        if (rb[i]) PBT_CHECK(rb[i]->ToString() == model[i], "content of buffer %d changed", i);
    for (int i = 0; i < nr; ++i) delete rb[i];
    for (size_t i = 0; i < blocks.size(); ++i)
        if (blocks[i].p) {
            PBT_CHECK(!memcmp(blocks[i].p, blocks[i].content.data(), blocks[i].cap), "block content changed");
            TranBufPool::free(blocks[i].p);
        }
    if (shared) c.label("shared-blocks");
    if (backups) c.label("read-backup");
    if (skips) c.label("skip");
    if (destroyed) c.label("destroyed-mid-history");
    c.nontrivial(steps >= 3 && (shared || nb > 1));
}

// A message serialised through the buffers parses back, with bytes around it untouched.
static void message_through(Src& s, Ctx& c) {
    vtest::EchoRequest m, back;
    m.set_id(s.draw(UINT64_MAX));
    m.set_data(s.data(s.size_near({56, 120, 1016, 2040, 32760, 65528}, 140000)));
    int k = s.logsize(40);
    for (int i = 0; i < k; ++i) m.add_nums(s.any_i64());
    m.set_text(s.str("abcXYZ \n", 200));
    WriteBuffer wb;
    std::string head = s.data(s.logsize(200)), tail = s.data(s.logsize(200));
    wb.Append(head);
    int64 at = wb.Reserve(24);
    PBT_CHECK(m.SerializeToZeroCopyStream(&wb), "serialise failed");
    int64 end = wb.ByteCount();
    PBT_CHECK(end - at - 24 == (int64)m.ByteSizeLong(), "serialised %lld bytes, size is %zu", (long long)(end - at - 24), m.ByteSizeLong());
    std::string hdr = s.data(24);
    wb.SetData(at, hdr.data(), 24);
    wb.Append(tail);
    ReadBuffer rb;
    wb.SwapOut(&rb);
    std::string all = rb.ToString();
    PBT_CHECK(all == head + hdr + m.SerializeAsString() + tail, "bytes differ");
    if (head.size() + 24) PBT_CHECK(rb.Skip(head.size() + 24), "skip");
    PBT_CHECK(back.ParseFromBoundedZeroCopyStream(&rb, m.ByteSizeLong()), "parse failed");
    PBT_CHECK(back.SerializeAsString() == m.SerializeAsString(), "message changed");
    PBT_CHECK(rb.ByteCount() == end, "stream at %lld after parsing, message ends at %lld", (long long)rb.ByteCount(), (long long)end);
    PBT_CHECK(read_all(&rb) == tail, "tail differs");
    c.note(fmt("head %zu data %zu nums %d tail %zu blocks %d", head.size(), m.data().size(), k, tail.size(), rb.BlockCount()));
    c.nontrivial(rb.BlockCount() > 1);
    if (rb.BlockCount() > 3) c.label("message-over-3-blocks");
}

// Several threads share blocks: each builds, reads and drops its own buffers over them.
static void threads(Src& s, Ctx& c) {
    int nb = 1 + s.draw(2), nt = 2 + s.draw(3), rounds = 200 + s.draw(2000);
    std::vector<Block> blocks;
    size_t total = 0;
    for (int i = 0; i < nb; ++i) {
        Block b;
        b.p = (char*)TranBufPool::malloc(s.draw(4));
        b.cap = TranBufPool::capacity(b.p);
        b.content = s.data(b.cap);
        memcpy(b.p, b.content.data(), b.cap);
        total += TranBufPool::block_size(b.p);
        blocks.push_back(b);
    }
    uint64_t seed = s.seed();
    std::atomic<int> go(0), bad(0);
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t) ts.emplace_back([&, t] {
        uint64_t x = seed + t;
        ++go;
        while (go < nt) {}
        for (int r = 0; r < rounds && !bad; ++r) {
            ReadBuffer rb, copy;
            std::string m;
            int k = 1 + (x = mix(x)) % 3;
            for (int i = 0; i < k; ++i) {
                Block& b = blocks[(x = mix(x)) % nb];
                int off = (x = mix(x)) % b.cap, n = 1 + (x = mix(x)) % (b.cap - off);
                rb.Append(BufHandle(b.p, n, off));
                m.append(b.content, off, n);
            }
            copy.Append(&rb);
            if (copy.ToString() != m) ++bad;
        }
    });
    for (auto& t : ts) t.join();
    PBT_CHECK(!bad, "a thread read something else than is in the shared blocks");
    for (auto& b : blocks) PBT_CHECK(memcmp(b.p, b.content.data(), b.cap) == 0, "contents of a shared block changed");
    size_t before = __sanitizer_get_current_allocated_bytes();
    for (auto& b : blocks) TranBufPool::free(b.p);
    size_t after = __sanitizer_get_current_allocated_bytes();
    PBT_CHECK(before - after == total, "dropping the last references freed %zd bytes, the blocks have %zu", (ssize_t)(before - after), total);
    c.note(fmt("%d threads, %d blocks, %d rounds", nt, nb, rounds));
    c.nontrivial(true);
}

// No allocation survives a case.
template <void (*F)(Src&, Ctx&)> static void leakfree(Src& s, Ctx& c) {
    size_t before = __sanitizer_get_current_allocated_bytes();
    F(s, c);
    size_t after = __sanitizer_get_current_allocated_bytes();
    PBT_CHECK(after <= before + 4096, "%zu bytes still allocated after the case", after - before);   // slack: the case's labels
}
static void warm_up() {
    vtest::EchoRequest m, n;
    m.set_id(1);
    std::string x;
    m.SerializeToString(&x);
    n.ParseFromString(x);
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C14";
    p.rule = "Generated operation histories (append, next, back-up, reserve/set, swap-out, skip, share, destroy) on write and read buffers compared "
             "with std::string after every step; messages serialised through the buffers; threads that share blocks. Non-trivial: at least three steps and data crossing a block boundary or a block shared by several readers.";
    p.subs = {{"write", leakfree<write_model>, 100000, 3000000}, {"read", leakfree<read_model>, 160000, 4500000}, {"message", leakfree<message_through>, 36000, 900000}, {"threads", threads, 400, 10000}};
    p.quick_budget_s = 20;
    p.init = warm_up;
    return run(argc, argv, p);
}
