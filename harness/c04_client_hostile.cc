// LINK: -Wl,--wrap=usleep
// C04: hostile bytes from a server. A scripted server answers with altered, cut, spliced, duplicated and
// random frames; every call must end once, with what its first frame says or a failure, and the client must live.
#include "fake.h"
#include "zref.h"
#include <sofa/pbrpc/rpc_meta.pb.h>
using namespace net;
using namespace sofa::pbrpc;
NET_FAST_START

static TestServer* g_srv;
static RpcClient* g_cli;
static ChanP g_good;
static void init() {
    quiet();
    g_srv = new TestServer();
    if (!g_srv->start()) { fprintf(stderr, "server does not start\n"); _exit(3); }
    RpcClientOptions o;
    o.work_thread_num = 2;
    o.callback_thread_num = 2;
    g_cli = new RpcClient(o);
    g_good.reset(new RpcChannel(g_cli, g_srv->addr()));
}
static uint32_t le32(const string& s, size_t p) { uint32_t v = 0; for (int i = 3; i >= 0; --i) v = v << 8 | (unsigned char)s[p + i]; return v; }
static int64_t le64(const string& s, size_t p) { return (int64_t)((uint64_t)le32(s, p + 4) << 32 | le32(s, p)); }

struct Out { bool ok, loose; int code; string reason; vtest::EchoResponse r; Out() : ok(false), loose(false), code(0) {} };
// Every frame for a call counts: the client works on what separate reads brought in any order.
struct Ref { bool broken, incomplete; size_t frames; std::map<uint64_t, std::vector<Out>> out; };
// What the bytes say about the calls with the given sequence ids.
static Ref reference(const string& b, const std::map<uint64_t, CallP>& calls) {
    Ref r = {false, false, 0, {}};
    size_t p = 0;
    while (p < b.size()) {
        if (b.size() - p < 24) { r.incomplete = true; break; }
        int64_t ms = (int32_t)le32(b, p + 4), ds = le64(b, p + 8), all = le64(b, p + 16);
        if (b.compare(p, 4, "SOFA") != 0 || ms < 0 || ds < 0 || all < 0 || (uint64_t)ms + (uint64_t)ds != (uint64_t)all) { r.broken = true; break; }
        if ((int64_t)(b.size() - p - 24) < all) { r.incomplete = true; break; }
        string meta = b.substr(p + 24, ms), data = b.substr(p + 24 + ms, ds);
        p += 24 + all;
        ++r.frames;
        RpcMeta m;
        if (!m.ParseFromString(meta) || m.type() != RpcMeta::RESPONSE) continue;
        auto c = calls.find(m.sequence_id());
        if (c == calls.end()) continue;
        r.out[m.sequence_id()].push_back(Out());
        Out& o = r.out[m.sequence_id()].back();
        if (!m.has_failed() || (m.failed() && (!m.has_error_code() || !m.has_reason()))) { o.code = RPC_ERROR_PARSE_RESPONSE_MESSAGE; continue; }
        if (m.failed()) {
            o.code = m.error_code();
            o.reason = m.reason();
            if (o.code == RPC_SUCCESS) { o.code = RPC_ERROR_PARSE_RESPONSE_MESSAGE; o.reason.clear(); }
            continue;
        }
        int ct = m.compress_type();
        string plain = data;
        if (ct && !zref::decode(ct, data, &plain)) { o.code = RPC_ERROR_PARSE_RESPONSE_MESSAGE; if (ct == 4) o.loose = true; continue; }
        if (ct == 4) o.loose = true;
        o.ok = o.r.ParseFromString(plain);
        if (!o.ok) o.code = RPC_ERROR_PARSE_RESPONSE_MESSAGE;
    }
    return r;
}
static string body_of(Src& s, uint64_t id, size_t maxd) {
    vtest::EchoResponse r;
    r.set_id(id);
    if (s.chance(70)) r.set_data(s.data(s.logsize(maxd)));
    if (s.chance(30)) r.set_text(s.str("abc<>\"", 20));
    for (int i = s.draw(3); i > 0; --i) r.add_nums(s.any_i64());
    return r.SerializeAsString();
}
static string good(Src& s, uint64_t seq, uint64_t id, size_t maxd) {
    if (s.chance(20)) return raw_frame(failure_meta(seq, s.chance(50) ? 1000 : (int)s.draw(30) + 1, s.data(s.logsize(100))), s.chance(80) ? "" : s.any_bytes(30));
    string body = body_of(s, id, maxd);
    int ct = s.weighted({6, 2, 1, 1, 1, 1}) - 1;
    if (ct > 0) body = zref::encode(ct, body, s, NULL);
    return raw_frame(response_meta(seq, ct), body);
}
static string odd_meta(Src& s, uint64_t seq) {
    string m;
    int n = 1 + s.draw(7);
    if (s.chance(85)) put_field(&m, 1, (uint64_t)s.pick<int>({1, 1, 1, 1, 0, 2, 7}));
    if (s.chance(85)) put_field(&m, 2, s.chance(80) ? seq : (uint64_t)s.any_i64());
    for (int i = 0; i < n; ++i) switch (s.draw(9)) {
        case 0: put_field(&m, 200, (uint64_t)s.draw(2)); break;
        case 1: put_field(&m, 201, (uint64_t)s.any_i64()); break;
        case 2: put_field(&m, 202, s.data(s.logsize(50))); break;
        case 3: put_field(&m, 300, (uint64_t)s.pick<int64_t>({0, 1, 2, 3, 4, 5, -1, 100, INT32_MAX})); break;
        case 4: put_field(&m, 2, s.chance(50) ? seq : (uint64_t)s.any_i64()); break;
        case 5: put_field(&m, 1, (uint64_t)s.draw(2)); break;
        case 6: put_field(&m, 200, string("x")); break;
        case 7: m += s.any_bytes(4); break;
        case 8: m += s.pick<string>({string(1, 0), "\x0c", "\x04", "\x0b", "\x80", string(12, '\xff')}); break;
        default: put_field(&m, 100 + s.draw(400), s.data(s.logsize(40))); break;
    }
    return m;
}
static string odd_header(Src& s, uint64_t seq, uint64_t id) {
    static const std::vector<int64_t> v = {0, 1, -1, -2, 23, 24, 25, -24, 100, -100, 4096, 65536, 1 << 20, 64 << 20, INT32_MAX, INT32_MIN, (int64_t)1 << 32, INT64_MAX, INT64_MIN};
    string meta = response_meta(seq), data = body_of(s, id, 40);
    int64_t ms = meta.size(), ds = data.size(), all = ms + ds;
    switch (s.draw(5)) {
    case 0: ms = s.pick(v); if (s.chance(70)) ds = all - ms; break;
    case 1: ds = s.pick(v); if (s.chance(70)) all = ms + (uint64_t)ds; break;
    case 2: all = s.pick(v); if (s.chance(70)) ds = (uint64_t)all - ms; break;
    case 3: ms += (int64_t)s.draw(20) - 10; ds = all - ms; break;
    case 4: ms = s.pick(v); ds = s.pick(v); all = (uint64_t)(int32_t)ms + (uint64_t)ds; break;
    default: all += (int64_t)s.draw(20) - 10; break;
    }
    return header((int32_t)ms, ds, all) + meta + data;
}
static string alter(Src& s, string b) {
    int n = 1 + s.draw(2);
    for (int i = 0; i < n && b.size(); ++i) {
        size_t p = s.chance(60) ? s.draw(std::min<size_t>(b.size() - 1, 60)) : s.draw(b.size() - 1);
        switch (s.weighted({4, 2, 2, 2, 2, 2})) {
        case 0: b[p] ^= 1 << s.draw(7); break;
        case 1: b[p] = s.pick<char>({0, (char)0xff, (char)0x80, 0x7f}); break;
        case 2: b.erase(p, 1 + s.logsize(30)); break;
        case 3: b.insert(p, s.any_bytes(20)); break;
        case 4: b.resize(p); break;
        default: { size_t q = s.draw(b.size() - 1); b.insert(p, b.substr(q, 1 + s.logsize(60))); }
        }
    }
    return b;
}
static CallP probe(const ChanP& ch) {
    CallP c = blank_call("Reverse");
    c->q.set_data("health");
    c->cntl.SetTimeout(30000);
    c->go(ch);
    return c;
}
static void attack(Src& s, Ctx& c) {
    Port port;
    Listener lis;
    if (!lis.start(port.num())) discard("cannot listen");
    ChanP ch(new RpcChannel(g_cli, port.addr()));
    int n = 1 + s.draw(3);
    std::vector<CallP> calls;
    std::map<uint64_t, CallP> by_seq, by_id;
    for (int i = 0; i < n; ++i) {
        CallP k = new_call(s, s.chance(50) ? "Echo" : "Reverse", 300);
        k->cntl.SetTimeout(60000);
        k->sync = s.chance(15);
        calls.push_back(k);
        by_id[k->id] = k;
        k->go(ch);
    }
    int fd = lis.accept_fd(20);
    PBT_CHECK(fd >= 0, "the client does not connect");
    Conn conn(fd);
    for (int i = 0; i < n; ++i) {
        Asked a;
        PBT_CHECK(take_request(conn, &a), "request %d of %d does not arrive", i, n);
        PBT_CHECK(by_id.count(a.id), "request with an unknown body");
        CallP k = by_id[a.id];
        k->seq = a.seq;
        PBT_CHECK(!by_seq.count(a.seq), "two requests with the same sequence id");
        by_seq[a.seq] = k;
    }
    // the bytes to send
    string bytes, how;
    int parts = 1 + s.draw(5);
    for (int i = 0; i < parts; ++i) {
        CallP k = calls[s.draw(n - 1)];
        uint64_t seq = s.chance(85) ? k->seq : k->seq + (uint64_t)s.any_i64();
        string g;
        switch (s.weighted({8, 4, 2, 4, 1})) {
        case 0: g = good(s, seq, k->id, s.chance(95) ? 300 : 100000); how += "good "; break;
        case 1: g = alter(s, good(s, seq, k->id, 300)); how += "altered "; break;
        case 2: g = odd_header(s, seq, k->id); how += "header "; break;
        case 3: g = raw_frame(odd_meta(s, seq), s.chance(60) ? body_of(s, k->id, 40) : s.any_bytes(30)); how += "meta "; break;
        default: g = s.any_bytes(100); how += "random "; break;
        }
        bytes += g;
    }
    std::vector<size_t> cuts = s.chunks(bytes.size());
    int end = s.weighted({5, 2, 2});      // half-close, close, reset
    Ref ref = reference(bytes, by_seq);
    c.note(fmt("%d calls, %zu bytes in %zu pieces (%s): %s %s", n, bytes.size(), cuts.size(), show(bytes, getenv("LONG") ? 3000 : 40).c_str(), how.c_str(), end == 0 ? "half-close" : end == 1 ? "close" : "reset"));
    c.label(ref.broken ? "broken stream" : ref.incomplete ? "incomplete" : "well-formed frames");
    size_t pos = 0;
    for (size_t k : cuts) {
        conn.send(bytes.data() + pos, k);
        pos += k;
        if (cuts.size() < 8) nap(s.draw(3) * 1e-4);
    }
    CallP healthy = probe(g_good);
    if (ref.broken && end == 0) {
        PBT_CHECK(conn.until_eof(), "the client keeps a connection with an undecodable stream (%s)", how.c_str());
        c.label("closed by the client");
    }
    if (end == 0 && !ref.broken)
        for (auto& k : calls)
            if (ref.out.count(k->seq)) PBT_CHECK(eventually([&] { return k->finished(); }, 25), "a call does not end although its answer was sent (%s)", how.c_str());
    if (end == 0) conn.half_close();
    if (end == 1) conn.close_now();
    if (end == 2) conn.reset_now();
    for (auto& k : calls) PBT_CHECK(eventually([&] { return k->finished(); }, 25), "a call did not end after the connection was closed (%s)", how.c_str());
    for (auto& k : calls) {
        k->join();
        auto it = ref.out.find(k->seq);
        bool closed = k->cntl.Failed() && (k->cntl.ErrorCode() == RPC_ERROR_CONNECTION_CLOSED || k->cntl.ErrorCode() == RPC_ERROR_CHANNEL_BROKEN);
        if (it == ref.out.end()) {
            PBT_CHECK(k->cntl.Failed(), "a call succeeded although no frame for it was sent (%s)", how.c_str());
            PBT_CHECK(closed, "a call without answer on a closed connection: %s", k->outcome().c_str());
            continue;
        }
        if (closed && (ref.broken || end != 0)) { c.label("answer lost with the connection"); continue; }
        bool match = false;
        for (Out& o : it->second) {
            if (o.loose) match = true;
            else if (o.ok) match |= !k->cntl.Failed() && same_msg(k->r, o.r);
            else match |= k->cntl.Failed() && k->cntl.ErrorCode() == o.code && (o.reason.empty() || k->cntl.ErrorText().find(o.reason) != string::npos);
        }
        Out& o = it->second[0];
        PBT_CHECK(match, "a call %s with response %s; its frame (first of %zu) says %d %s (%s)", k->outcome().c_str(), show(k->r.ShortDebugString(), 200).c_str(), it->second.size(), o.code,
                  o.ok ? show(o.r.ShortDebugString(), 200).c_str() : show(o.reason, 100).c_str(), how.c_str());
        c.label(k->cntl.Failed() ? "failed as told" : "answered");
    }
    PBT_CHECK(eventually([&] { return healthy->finished(); }, 31), "a call to another server does not end");
    vtest::EchoResponse want;
    answer("Reverse", g_srv->name, healthy->q, &want);
    PBT_CHECK(!healthy->cntl.Failed() && same_msg(want, healthy->r), "a call to another server: %s", healthy->outcome().c_str());
    // and the same address can be called again
    if (s.chance(30)) {
        CallP again;
        bool ok = false;
        double until = now_s() + 25;
        for (int tries = 0; !ok; ++tries) {
            PBT_CHECK(now_s() < until, "the same server cannot be called again");
            again = probe(ch);
            // the end of the old connection may not have been noticed yet
            int f2 = -1;
            PBT_CHECK(eventually([&] { f2 = lis.accept_fd(0.002); return f2 >= 0 || again->finished(); }, 25), "the client neither connects again nor ends the call");
            if (f2 < 0) { PBT_CHECK(again->cntl.Failed(), "a call without answer succeeded"); continue; }
            Conn k2(f2);
            Asked a;
            if (!take_request(k2, &a, 20)) { PBT_CHECK(k2.dead(), "no request on the new connection"); continue; }
            vtest::EchoResponse r;
            string body = body_of(s, again->id, 20);
            r.ParseFromString(body);
            k2.send(raw_frame(response_meta(a.seq), body));
            PBT_CHECK(eventually([&] { return again->finished(); }, 25), "the call over the new connection does not end");
            PBT_CHECK(!again->cntl.Failed() && same_msg(r, again->r), "a call over the new connection: %s", again->outcome().c_str());
            ok = true;
        }
        c.label("called again");
    }
    exec_log().clear();
    grave().check();
    c.nontrivial(how.find_first_not_of("god ") != string::npos || parts > 1);
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C04";
    p.rule = "a scripted server answers one to four outstanding calls with one to six good, altered (bit flips, cuts, splices), odd (header sizes, meta fields, compression) and random frames in generated pieces and then half-closes, closes or resets; "
             "a model of the frame format gives the outcome of each call. Non-trivial: something other than a single good frame is sent.";
    p.subs = {{"attack", attack, 40000, 2000000}};
    p.init = init;
    p.recycle = 1000;
    p.workers = 16;
    p.case_timeout_s = 120;
    return run(argc, argv, p);
}
