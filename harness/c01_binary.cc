// LINK: -Wl,--wrap=usleep
// C01: binary requests over a raw socket, cut into pieces, pipelined; each answered exactly once and exactly.
#include "net.h"
#include "zref.h"
using namespace net;
using namespace sofa::pbrpc;
NET_FAST_START

static TestServer* g_srv;
static void init() {
    quiet();
    g_srv = new TestServer();
    if (!g_srv->start()) { fprintf(stderr, "server does not start\n"); _exit(3); }
}
struct Call {
    uint64_t seq, id;
    int kind;            // 0 answered 1 fails in the method 2 no such service 3 no such method 4 bad name 5 undecodable 6 lacks a required field 7 empty messages
    string method, req, fail;
    vtest::EchoResponse want;
    int expect;          // compression of the answer asked for
    bool done;
};
// Meta data in any field order, with unknown fields, defaults spelled out or left out.
static string gen_meta(Src& s, uint64_t seq, const string& method, int64_t timeout, int ctype, int expect) {
    std::vector<string> f;
    string x;
    put_field(&x, 1, (uint64_t)0); f.push_back(x); x.clear();
    put_field(&x, 2, seq); f.push_back(x); x.clear();
    put_field(&x, 100, method); f.push_back(x); x.clear();
    if (timeout) { put_field(&x, 101, (uint64_t)timeout); f.push_back(x); x.clear(); }
    if (ctype >= 0) { put_field(&x, 300, (uint64_t)ctype); f.push_back(x); x.clear(); }
    if (expect >= 0) { put_field(&x, 301, (uint64_t)expect); f.push_back(x); x.clear(); }
    int unk = s.weighted({6, 1, 1});
    if (unk == 1) { put_field(&x, 77, s.data(s.logsize(3000))); f.push_back(x); }
    if (unk == 2) { put_field(&x, 5000, (uint64_t)s.any_i64()); f.push_back(x); }
    for (size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[s.draw(1) ? i - 1 : s.draw(i - 1)]);
    string m;
    for (auto& e : f) m += e;
    return m;
}
static void pipeline(Src& s, Ctx& c) {
    int n = 1 + s.logsize(12);
    size_t maxd = s.weighted({5, 4, 2, 1}) ;
    static const size_t lim[] = {300, 20000, 200000, 3000000};
    maxd = lim[maxd];
    std::vector<Call> calls(n);
    std::map<uint64_t, size_t> by_seq;
    int64_t nothings = g_srv->echo->nothings;
    string out, d;
    uint64_t base = s.chance(50) ? s.draw(100) : (uint64_t)s.any_i64();
    for (int i = 0; i < n; ++i) {
        Call& k = calls[i];
        k.done = false;
        k.seq = s.chance(70) ? base + i : (uint64_t)s.any_i64();
        while (by_seq.count(k.seq)) ++k.seq;
        by_seq[k.seq] = i;
        k.id = fresh_id();
        k.kind = s.weighted({10, 2, 1, 1, 1, 1, 1, 1});
        static const char* ms[] = {"Echo", "Reverse", "EchoZip", "EchoT400"};
        string mname = ms[s.draw(3)];
        k.method = "vtest.EchoService." + mname;
        vtest::EchoRequest q;
        gen_request(s, &q, k.id, i == 0 ? maxd : std::min<size_t>(maxd, 60000));
        if (s.chance(10)) q.set_response_size(1 + s.logsize(maxd));
        if (s.chance(10)) q.set_delay_ms(1 + s.draw(5));
        if (k.kind == 1) { k.fail = s.data(s.logsize(300)); q.set_fail(k.fail); }
        if (k.kind == 2) k.method = s.pick<string>({"vtest.NoService.Echo", "vtest.echoservice.Echo", "EchoService.Echo", "x.y.z.Echo", ".Echo"});
        if (k.kind == 3) k.method = "vtest.EchoService." + s.pick<string>({"echo", "Echo2", "", "Ech", " Echo"});
        if (k.kind == 4) k.method = s.pick<string>({"Echo", "", "vtestEchoServiceEcho"});
        answer(mname, g_srv->name, q, &k.want);
        if (k.kind == 6) q.clear_id();
        q.SerializePartialToString(&k.req);
        if (k.kind == 7) { k.method = "vtest.EchoService.Nothing"; k.req.clear(); ++nothings; }
        string body = k.req;
        if (k.kind == 5) { string trunc; put_varint(&trunc, 2 << 3 | 2); put_varint(&trunc, 1000 + s.draw(100000)); body += trunc + "x"; }
        int ct = s.weighted({6, 2, 1, 1, 1, 1}) - 1;
        if (ct > 0) body = zref::encode(ct, body, s, NULL);
        k.expect = s.weighted({6, 2, 1, 1, 1, 1}) - 1;
        out += raw_frame(gen_meta(s, k.seq, k.method, s.chance(20) ? 60000 + (int64_t)s.draw(100000) : 0, ct, k.expect), body);
        if (d.size() < 1000) d += fmt("%s(%zu bytes%s, kind %d) ", mname.c_str(), body.size(), ct > 0 ? fmt(", z%d", ct).c_str() : "", k.kind);
        if (k.expect > 0) c.label("compressed answer");
        if (ct > 0) c.label("compressed request");
        if (k.kind) c.label(k.kind == 7 ? "empty request" : "failing request");
    }
    std::vector<size_t> cuts = s.chunks(out.size());
    int pause = s.weighted({5, 3, 1});
    uint64_t pseed = s.seed();
    c.note(fmt("%d requests, %zu bytes in %zu pieces: %s", n, out.size(), cuts.size(), d.c_str()));
    c.label(cuts.size() > 1 ? "cut" : "whole");
    Conn conn;
    if (!conn.open(g_srv->port->num())) discard("cannot connect");
    size_t pos = 0;
    for (size_t i = 0; i < cuts.size(); ++i) {
        PBT_CHECK(conn.send(out.data() + pos, cuts[i]), "the server stopped reading or closed the connection after %zu of %zu well-formed bytes", pos, out.size());
        pos += cuts[i];
        if (pause && i < 60 && mix(pseed + i) % (pause == 1 ? 4 : 2) == 0) { if (mix(pseed + i) & 64) conn.pump(0); else nap((mix(pseed + i) >> 8) % 700 * 1e-6); }
    }
    int got = 0;
    while (got < n) {
        Frame f;
        string why;
        int r;
        conn.until([&] { r = take_frame(&conn.in, &f, &why); return r != 0; }, 30);
        PBT_CHECK(r >= 0, "not a response frame: %s", why.c_str());
        PBT_CHECK(r == 1, "%d of %d requests answered, then %s", got, n, conn.dead() ? "the connection was closed" : "nothing for 30 s");
        Fields m(f.meta);
        PBT_CHECK(m.ok && m.has(1) && m.has(2), "malformed meta data %s", show(f.meta).c_str());
        PBT_CHECK(m.n(1) == 1, "type %llu", (unsigned long long)m.n(1));
        auto it = by_seq.find(m.n(2));
        PBT_CHECK(it != by_seq.end(), "answer with sequence id %llu that was not asked", (unsigned long long)m.n(2));
        Call& k = calls[it->second];
        PBT_CHECK(!k.done, "second answer to sequence id %llu", (unsigned long long)k.seq);
        k.done = true;
        ++got;
        static const int codes[] = {0, 1000, 8, 8, 6, 1, 1};
        if (k.kind && k.kind != 7) {
            PBT_CHECK(m.n(200) == 1 && (int)m.n(201) == codes[k.kind], "request of kind %d (%s): failed=%llu code=%llu reason=%s", k.kind, k.method.c_str(), (unsigned long long)m.n(200), (unsigned long long)m.n(201), m.s(202).c_str());
            if (k.kind == 1) PBT_CHECK(m.s(202) == k.fail, "reason %s instead of %s", show(m.s(202)).c_str(), show(k.fail).c_str());
            PBT_CHECK(f.data.empty(), "failure with %zu bytes of data", f.data.size());
        } else {
            PBT_CHECK(m.n(200) == 0, "well-formed request %s failed: code=%llu reason=%s", k.method.c_str(), (unsigned long long)m.n(201), m.s(202).c_str());
            int ct = (int)m.n(300);
            PBT_CHECK(ct == std::max(k.expect, 0), "answer compressed as %d, %d asked for", ct, k.expect);
            string body = f.data;
            if (ct) { string o; PBT_CHECK(zref::decode(ct, f.data, &o), "answer does not decompress"); body = o; }
            if (k.kind == 7) { PBT_CHECK(body.empty(), "an answer of %zu bytes instead of an empty one", body.size()); continue; }
            vtest::EchoResponse resp;
            PBT_CHECK(resp.ParseFromString(body), "answer of %zu bytes does not parse", body.size());
            PBT_CHECK(same_msg(resp, k.want), "another answer than the method's: %s instead of %s", show(resp.ShortDebugString(), 200).c_str(), show(k.want.ShortDebugString(), 200).c_str());
        }
    }
    conn.half_close();
    PBT_CHECK(conn.until_eof(), "connection stays open after its end was seen");
    PBT_CHECK(conn.in.empty(), "%zu bytes after the last answer", conn.in.size());
    for (auto& k : calls) {
        auto ex = exec_log().get(k.id);
        if (k.kind == 7) continue;
        if (k.kind <= 1) {
            PBT_CHECK(ex.size() == 1, "a request was run %zu times", ex.size());
            PBT_CHECK(ex[0].request == k.req && "vtest.EchoService." + ex[0].method == k.method, "the method got another request than was sent");
        } else PBT_CHECK(ex.empty(), "a request of kind %d was run", k.kind);
    }
    PBT_CHECK(g_srv->echo->nothings == nothings, "an empty request was run %+lld times more than asked", (long long)(g_srv->echo->nothings - nothings));
    PBT_CHECK(exec_log().get(0).empty(), "a method ran without its required field");
    exec_log().clear();
    c.nontrivial(n >= 2 && cuts.size() >= 2);
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C01";
    p.rule = "pipelined binary requests (valid, failing, unknown, undecodable; any field order, unknown fields, compression) sent in generated pieces over a raw socket; answers, method runs and their requests are compared with what was sent. Non-trivial: at least two requests on the connection and at least two pieces.";
    p.subs = {{"pipeline", pipeline, 20000, 1000000}};
    p.init = init;
    p.recycle = 1500;
    p.case_timeout_s = 90;
    return run(argc, argv, p);
}
