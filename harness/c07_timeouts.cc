// LINK: -Wl,--wrap=usleep
// C07: timeouts. Which one is in force and what the server is told; when calls end that are answered late, never, or
// around their timeout; and that a server gives up no request before its time.
#include <math.h>
#include "fake.h"
using namespace net;
using namespace sofa::pbrpc;
NET_FAST_START

static RpcClient* g_cli;
static TestServer* g_srv;
static std::atomic<double> g_late;     // how late this process was run lately
static void init() {
    quiet();
    RpcClientOptions o;
    o.work_thread_num = 3;
    o.callback_thread_num = 3;
    g_cli = new RpcClient(o);
    g_srv = new TestServer();
    g_srv->opt.work_thread_num = 1;
    if (!g_srv->start()) exit(3);
    std::thread([] { while (true) { double t = now_s(); nap(0.01); double l = now_s() - t - 0.01; if (l > g_late) g_late = l; } }).detach();
}
static const struct { const char* name; int64_t def; } kMethods[] = {{"Echo", 10000}, {"EchoT400", 400}, {"Short.Echo", 300}, {"Short.EchoT900", 900}};

// ---- which timeout
static void precedence(Src& s, Ctx& c) {
    Port port;
    Listener lis;
    if (!lis.start(port.num())) discard("cannot listen");
    ChanP ch(new RpcChannel(g_cli, port.addr()));
    std::unique_ptr<Conn> k;
    int n = 1 + s.logsize(12);
    string d;
    std::vector<CallP> calls;
    for (int i = 0; i < n; ++i) {
        auto& m = kMethods[s.draw(3)];
        int64_t user = 0;
        bool set = s.chance(75);
        if (set) switch (s.weighted({3, 3, 2, 2, 3})) {
            case 0: user = 250 + (int64_t)s.logsize(100000); break;
            case 1: user = s.pick(std::vector<int64_t>{1000, 10000, 1000000, (1LL << 31) - 1, 1LL << 31, 1LL << 32, 1LL << 40, 1LL << 53, (1LL << 62), INT64_MAX / 1000, INT64_MAX - 1, INT64_MAX}); break;
            case 2: user = 0; break;
            case 3: user = -(int64_t)s.pick(std::vector<uint64_t>{1, 2, 1000, 1ULL << 31, 1ULL << 32, 1ULL << 62}); break;
            default: user = s.any_i64(); if (user > 0 && user < 250) user += 250; break;
        }
        int64_t eff = user > 0 ? user : m.def;
        CallP q = new_call(s, m.name, 100);
        if (set) q->cntl.SetTimeout(user);
        if (s.chance(30)) { q->cntl.SetTimeout(77); q->cntl.Reset(); if (set) q->cntl.SetTimeout(user); }
        q->sync = s.chance(20);
        calls.push_back(q);
        d += fmt("%s:%s ", m.name, set ? fmt("%lld", (long long)user).c_str() : "-");
        double t0 = now_s();
        q->go(ch);
        if (!k) {
            int fd = -1;
            PBT_CHECK(eventually([&] { fd = lis.accept_fd(0.01); return fd >= 0 || q->finished(); }, 20), "the client does not connect");
            if (fd < 0) { PBT_CHECK(false, "the call ended at once: %s", q->outcome().c_str()); }
            k.reset(new Conn(fd));
        }
        Asked a;
        bool got = false;
        double end = now_s() + 20;
        while (!got && !q->finished() && now_s() < end) got = take_request(*k, &a, 0.01);
        double el = (now_s() - t0) * 1000;
        if (!got) {
            PBT_CHECK(q->finished(), "the request does not arrive");
            PBT_CHECK(q->cntl.ErrorCode() == RPC_ERROR_REQUEST_TIMEOUT && el >= eff - 2, "a call with a timeout of %lld ms ended after %.0f ms: %s", (long long)eff, el, q->outcome().c_str());
            c.label("ran out before it was read");
            continue;
        }
        PBT_CHECK(a.id == q->id && a.method.size(), "another request");
        PBT_CHECK(a.timeout <= eff && (double)a.timeout >= (double)eff - el - 2, "the server was told %lld ms of a timeout of %lld ms, %.0f ms after the call", (long long)a.timeout, (long long)eff, el);
        PBT_CHECK(q->cntl.Timeout() == eff, "Timeout() is %lld, must be %lld", (long long)q->cntl.Timeout(), (long long)eff);
        vtest::EchoResponse r;
        answer(m.name, "f", q->q, &r);
        k->send(raw_frame(response_meta(a.seq), r.SerializeAsString()));
        PBT_CHECK(eventually([&] { return q->finished(); }, 30), "the call does not end");
        q->join();
        if (q->cntl.Failed()) {
            PBT_CHECK(q->cntl.ErrorCode() == RPC_ERROR_REQUEST_TIMEOUT && (q->t_done - q->t_start) * 1000 >= eff - 2, "an answered call with a timeout of %lld ms %s after %.0f ms", (long long)eff, q->outcome().c_str(), (q->t_done - q->t_start) * 1000);
            PBT_CHECK(eff < 20000 , "an answered call with a timeout of %lld ms timed out", (long long)eff);
        } else PBT_CHECK(same_msg(r, q->r), "wrong response");
        c.label(set && user > 0 ? "from the controller" : m.def == 400 || m.def == 900 ? "from the method" : m.def == 300 ? "from the service" : "default");
    }
    c.note(d);
    c.nontrivial(n > 1);
    grave().check();
}

// ---- when calls end
static void timing(Src& s, Ctx& c) {
    Port port;
    Listener lis;
    if (!lis.start(port.num())) discard("cannot listen");
    ChanP ch(new RpcChannel(g_cli, port.addr()));
    int n = s.chance(70) ? 1 + s.logsize(30) : 30 + s.draw(300);
    struct It { CallP q; int64_t eff; double at; int kind; uint64_t seq; bool got; double sent; };     // kind: 0 never, 1 at a time, 2 at once
    std::vector<It> it(n);
    double longest = 0;
    g_late = 0;
    for (auto& e : it) {
        auto& m = kMethods[s.weighted({3, 2, 2, 1})];
        e.q = new_call(s, m.name, 60);
        int64_t user = strcmp(m.name, "Echo") == 0 || s.chance(50) ? (s.chance(80) ? 1 + s.logsize(900) : 30000) : 0;
        if (user) e.q->cntl.SetTimeout(user);
        e.eff = user ? user : m.def;
        e.q->sync = n < 40 && s.chance(15);
        e.kind = e.eff == 30000 ? 1 + s.draw(1) : s.weighted({3, 3, 2});
        e.at = 0;
        if (e.kind == 1) {
            int64_t b = std::min<int64_t>(e.eff, 900);
            switch (s.weighted({3, 2, 1})) {
                case 0: e.at = b * 1e-3 * s.draw(100) / 100; break;                       // before
                case 1: e.at = b * 1e-3 + (s.irange(-60, 130)) * 1e-3; break;             // around, also of the timer's tick
                default: e.at = b * 1e-3 + s.draw(300) * 1e-3; break;                     // after
            }
            if (e.at < 0) e.at = 0;
        }
        e.got = false;
        e.sent = 0;
        longest = std::max(longest, std::max(e.at, e.eff == 30000 ? 0.0 : e.eff * 1e-3));
    }
    int threads = s.weighted({3, 1, 1});
    std::atomic<int> next(0);
    auto issue = [&] { int i; while ((i = next++) < n) it[i].q->go(ch); };
    std::vector<std::thread> th;
    struct J { std::vector<std::thread>& v; ~J() { for (auto& t : v) t.join(); } } j = {th};
    double t0 = now_s();
    for (int i = 0; i < threads; ++i) th.emplace_back(issue);
    issue();
    std::map<uint64_t, It*> by_id;
    for (auto& e : it) by_id[e.q->id] = &e;
    std::unique_ptr<Conn> k;
    auto all_done = [&] { for (auto& e : it) if (!e.q->finished()) return false; return true; };
    while (now_s() < t0 + longest + 30) {
        if (!k) { int fd = lis.accept_fd(0.002); if (fd >= 0) k.reset(new Conn(fd)); }
        Asked a;
        bool any = false;
        while (k && take_request(*k, &a, any ? 0 : 0.001)) {
            any = true;
            PBT_CHECK(by_id.count(a.id), "unknown request");
            by_id[a.id]->got = true;
            by_id[a.id]->seq = a.seq;
        }
        for (auto& e : it) {
            if (!e.got || e.sent || e.kind == 0 || now_s() < e.q->t_start + e.at) continue;
            vtest::EchoResponse r;
            answer(e.q->method, "f", e.q->q, &r);
            e.sent = now_s();
            k->send(raw_frame(response_meta(e.seq), r.SerializeAsString()));
        }
        if (all_done()) break;
    }
    int timed = 0, ok = 0, close_calls = 0;
    double late = g_late;
    for (auto& e : it) {
        Call& q = *e.q;
        PBT_CHECK(q.finished(), "a call with a timeout of %lld ms has not ended after %.1f s", (long long)e.eff, now_s() - q.t_start);
        q.join();
        double took = q.t_done - q.t_start, eff = e.eff * 1e-3;
        close_calls += e.kind == 1 && fabs(e.at - eff) < 0.15;
        if (q.cntl.Failed()) {
            PBT_CHECK(q.cntl.ErrorCode() == RPC_ERROR_REQUEST_TIMEOUT, "a call to a server that answers late: %s", q.outcome().c_str());
            PBT_CHECK(took >= eff - 0.002, "a call with a timeout of %lld ms timed out after %.4f s", (long long)e.eff, took);
            PBT_CHECK(took < eff + 20, "a call with a timeout of %lld ms timed out after %.4f s", (long long)e.eff, took);
            if (late < 0.2) PBT_SOFT(took < eff + 1.5, "a call with a timeout of %lld ms timed out after %.4f s", (long long)e.eff, took);
            if (e.sent && late < 0.2) PBT_SOFT(e.sent - q.t_start > eff - 0.5, "a call with a timeout of %lld ms timed out although it was answered after %.4f s", (long long)e.eff, e.sent - q.t_start);
            ++timed;
        } else {
            PBT_CHECK(e.sent && q.t_done >= e.sent, "a call succeeded before it was answered");
            if (late < 0.2) PBT_SOFT(took < eff + 1.5, "a call with a timeout of %lld ms succeeded only after %.4f s", (long long)e.eff, took);
            ++ok;
        }
    }
    c.note(fmt("%d calls, %d timed out, %d answered, %d answered within 150 ms of their timeout", n, timed, ok, close_calls));
    if (timed) c.label("timed out");
    if (ok) c.label("answered in time");
    if (close_calls) c.label("answered around the timeout");
    c.nontrivial(timed > 0);
    // late answers arrive now; they must not end anything else
    if (k) for (auto& e : it) if (e.got && !e.sent && s.chance(50)) { vtest::EchoResponse r; answer(e.q->method, "f", e.q->q, &r); if (!k->send(raw_frame(response_meta(e.seq), r.SerializeAsString()))) break; }
    grave().check();
}

// ---- the server
static void server(Src& s, Ctx& c) {
    exec_log().clear();
    Conn k;
    if (!k.open(g_srv->port->num())) discard("cannot connect");
    int block = s.draw(60);
    g_srv->echo->hook = [block](google::protobuf::RpcController*, const vtest::EchoRequest* q) { if (q->text() == "block") nap(block * 1e-3); };
    int n = 1 + s.logsize(12);
    string out;
    struct R { uint64_t seq, id; int64_t to; bool must; };
    std::vector<R> rs;
    vtest::EchoRequest b;
    b.set_id(fresh_id());
    b.set_text("block");
    out += raw_frame(request_meta(1, "vtest.EchoService.Echo", 0, 0, 0), b.SerializeAsString());
    int delay = s.chance(30) ? s.draw(40) : 0;
    for (int i = 0; i < n; ++i) {
        R r;
        r.seq = 100 + i;
        r.id = fresh_id();
        switch (s.weighted({2, 1, 3, 3})) {
            case 0: r.to = 0; break;
            case 1: r.to = -(int64_t)s.seed() / 2; break;
            case 2: r.to = s.pick(std::vector<int64_t>{20000, 1000000, 1LL << 31, 1LL << 32, 1LL << 45, INT64_MAX / 1000, INT64_MAX / 1000 + 1, 1LL << 62, INT64_MAX}); break;
            default: r.to = 1 + s.draw(80); break;
        }
        if (r.to < 0) r.to |= 1;
        r.must = r.to <= 0 || r.to >= 20000;
        vtest::EchoRequest q;
        q.set_id(r.id);
        if (delay && s.chance(40)) q.set_delay_ms(delay);
        out += raw_frame(request_meta(r.seq, "vtest.EchoService.Echo", r.to, 0, 0), q.SerializeAsString());
        rs.push_back(r);
    }
    vtest::EchoRequest e;                     // a last one without timeout, to know that the others are through
    e.set_id(fresh_id());
    if (delay) e.set_delay_ms(delay + 20);
    out += raw_frame(request_meta(2, "vtest.EchoService.Echo", 0, 0, 0), e.SerializeAsString());
    double t0 = now_s();
    PBT_CHECK(k.send(out), "cannot send");
    std::map<uint64_t, double> got;
    size_t need = 2;
    for (auto& r : rs) need += r.must;
    auto have = [&] { size_t h = got.count(1) + got.count(2); for (auto& r : rs) h += r.must && got.count(r.seq); return h; };
    double end = now_s() + 20;
    while (have() < need && now_s() < end && !k.dead()) {
        Frame f;
        string why;
        k.until([&] { return take_frame(&k.in, &f, &why) == 1; }, 0.05);
        if (f.meta.empty()) continue;      // nothing yet
        Fields m(f.meta);
        PBT_CHECK(!m.n(200), "a request failed: %s", m.s(202).c_str());
        PBT_CHECK(!got.count(m.n(2)), "answered twice");
        got[m.n(2)] = now_s();
    }
    for (auto& r : rs) if (r.must) PBT_CHECK(got.count(r.seq), "a request with a time of %lld ms was not answered (the server was busy for %d ms)", (long long)r.to, block);
    PBT_CHECK(got.count(1) && got.count(2), "a request without timeout was not answered");
    int dropped = 0;
    for (auto& r : rs) if (!r.must && !got.count(r.seq)) {
        ++dropped;
        double el = now_s() - t0;
        PBT_CHECK(el >= r.to * 1e-3, "a request with a time of %lld ms was given up within %.4f s", (long long)r.to, el);
    }
    c.label(dropped ? "given up" : "all answered");
    c.note(fmt("busy for %d ms, %d requests, %d given up", block, n, dropped));
    c.nontrivial(block > 0);
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C07";
    p.rule = "precedence: calls of methods with all combinations of controller, method, service and default timeouts (any 64-bit value), checked on the wire. timing: up to 330 concurrent calls, answered never, before, around or after their timeout. server: requests with any told time behind a busy thread. "
             "Non-trivial: precedence with several calls; timing with a call that timed out; server with a busy thread.";
    p.subs = {{"precedence", precedence, 4000, 400000}, {"timing", timing, 300, 15000}, {"server", server, 1500, 100000}};
    p.init = init;
    p.workers = 24;
    p.case_timeout_s = 120;
    return run(argc, argv, p);
}
