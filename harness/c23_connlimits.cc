// LINK: -Wl,--wrap=usleep
// C23: the limits on the number of connections and on their idle time.
#include "fake.h"
using namespace net;
using namespace sofa::pbrpc;
NET_FAST_START

static TestServer* g_plain;                    // never closes idle connections
static std::atomic<double> g_late;             // how late a thread wakes up, in this case
static void init() {
    quiet();
    g_plain = new TestServer();
    if (!g_plain->start()) exit(3);
    Later::get().in(0, [] {});
    g_late = 0;
    std::thread([] {
        while (true) {
            double t = now_s();
            nap(0.02);
            double late = now_s() - t - 0.02, old = g_late;
            while (late > old && !g_late.compare_exchange_weak(old, late)) {}
        }
    }).detach();
    { RpcClient c; RpcChannel ch(&c, g_plain->addr()); CallP k = blank_call("Echo"); k->run(&ch); }
    nap(0.02);
}
static std::atomic<uint64_t> g_seq(1);
struct Sent { uint64_t seq; vtest::EchoResponse want; };
static Sent send_call(Conn& k, const vtest::EchoRequest& q, int expect = -1) {
    Sent e;
    e.seq = g_seq++;
    answer("Echo", "s", q, &e.want);
    k.send(raw_frame(request_meta(e.seq, "vtest.EchoService.Echo", 0, -1, expect), q.SerializeAsString()));
    return e;
}
static vtest::EchoRequest small(uint64_t rnd) {
    vtest::EchoRequest q;
    q.set_id(fresh_id());
    q.set_data(Src::expand(mix(rnd) % 300, 1, rnd));
    return q;
}
// 1 answered, 0 nothing yet
static int take_answer(Conn& k, const Sent& e, bool zipped = false) {
    Frame f;
    string why;
    int r = take_frame(&k.in, &f, &why);
    PBT_CHECK(r >= 0, "malformed answer: %s", why.c_str());
    if (r == 0) return 0;
    Fields m(f.meta);
    PBT_CHECK(m.ok && m.n(2) == e.seq && m.n(200) == 0, "a call is answered by %s", show(f.meta).c_str());
    vtest::EchoResponse got;
    if (!zipped) PBT_CHECK(got.ParseFromString(f.data) && same_msg(got, e.want), "the response is not the right one");
    return 1;
}
// Decides if a new connection is served.
static bool served(Conn& k, const Sent& e) {
    bool got = false;
    k.until([&] { return got = take_answer(k, e); });
    PBT_CHECK(got || k.dead(), "a new connection is neither served nor closed");
    return got;
}

// ---- number of connections
static void limit(Src& s, Ctx& x) {
    TestServer w;
    int L = s.chance(8) ? -1 : (int)s.range(0, s.chance(30) ? 20 : 5);
    w.opt.max_connection_count = L;
    w.opt.work_thread_num = 1 + s.draw(3);
    w.opt.io_service_pool_size = 1 + s.draw(2);
    PBT_CHECK(w.start(), "no start");
    typedef std::unique_ptr<Conn> K;
    std::vector<K> held;
    std::unique_ptr<RpcClient> cli;
    bool cli_on = false;
    string d = fmt("limit %d:", L);
    auto cap = [&] { return L < 0 ? 1000000 : L; };
    auto n_held = [&] { return (int)held.size() + cli_on; };
    auto settle = [&] { PBT_CHECK(eventually([&] { return w.srv->ConnectionCount() == n_held(); }, 20), "the server has %d connections, %d are in use", w.srv->ConnectionCount(), n_held()); };
    auto open_many = [&](int n, bool talk_later) {
        std::vector<K> k;
        std::vector<Sent> e;
        for (int i = 0; i < n; ++i) {
            k.emplace_back(new Conn());
            PBT_CHECK(k.back()->open(w.port->num()), "the server does not listen");
            if (!talk_later) e.push_back(send_call(*k.back(), small(s.seed())));
        }
        if (talk_later) { nap(0.002); for (auto& c : k) e.push_back(send_call(*c, small(s.seed()))); }
        std::vector<K> good;
        for (int i = 0; i < n; ++i) if (served(*k[i], e[i])) good.push_back(std::move(k[i]));
        return good;
    };
    auto check_held = [&] {
        std::vector<Sent> e;
        for (auto& k : held) e.push_back(send_call(*k, small(s.seed())));
        for (size_t i = 0; i < held.size(); ++i) PBT_CHECK(served(*held[i], e[i]), "a connection that was served was closed");
    };
    int ops = 3 + s.draw(9), rejected = 0, again = 0, closed = 0;
    for (int i = 0; i < ops; ++i) {
        switch (s.weighted({6, 4, 2, 2, 3, 2, 2})) {
        case 0: {
            settle();
            int n = 1 + (int)s.draw(6), before = n_held(), room = std::max(0, cap() - before);
            auto good = open_many(n, s.chance(30));
            PBT_CHECK((int)good.size() == std::min(n, room), "%d of %d new connections are served with %d in use and a limit of %d", (int)good.size(), n, before, L);
            rejected += n - good.size();
            if (closed) again += good.size();
            for (auto& k : good) held.push_back(std::move(k));
            d += fmt(" open(%d)", n);
            break;
        }
        case 1: {
            int n = held.empty() ? 0 : 1 + (int)s.draw(held.size() - 1);
            for (int k = 0; k < n; ++k) {
                size_t j = s.draw(held.size() - 1);
                switch (s.draw(3)) {
                case 0: held[j]->close_now(); break;
                case 1: held[j]->reset_now(); break;
                case 2: held[j]->half_close(); break;
                default: held[j]->send("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); PBT_CHECK(held[j]->until_eof(), "a connection with a broken frame is not closed");
                }
                held.erase(held.begin() + j);
                ++closed;
            }
            d += fmt(" close(%d)", n);
            break;
        }
        case 2: check_held(); break;
        case 3: {
            settle();
            L = s.chance(10) ? -1 : (int)s.range(0, 8);
            RpcServerOptions o = w.srv->GetOptions();
            o.max_connection_count = L;
            w.srv->ResetOptions(o);
            d += fmt(" limit=%d", L);
            break;
        }
        case 4: {                                  // without waiting until the closing is noticed
            int n = held.empty() ? 0 : (int)s.draw(held.size());
            for (int k = 0; k < n; ++k) { held.back()->close_now(); held.pop_back(); }
            int before = n_held(), want = 1 + (int)s.draw(5), room = std::max(0, cap() - before);
            auto good = open_many(want, false);
            PBT_CHECK((int)good.size() <= room, "%d new connections are served with %d in use and a limit of %d", (int)good.size(), before, L);
            for (auto& k : good) held.push_back(std::move(k));
            closed += n;
            d += fmt(" swap(%d,%d)", n, want);
            break;
        }
        case 5: {                                  // many at the same time
            if (L < 0) break;
            int nt = 2 + s.draw(4), room = std::max(0, cap() - n_held());
            uint64_t rnd = s.seed();
            std::atomic<int> in_use(0), most(0), total(0);
            double end = now_s() + 0.015;
            std::vector<std::thread> th;
            std::mutex mu;
            string why;
            for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
                try {
                    for (uint64_t r = mix(rnd + t); now_s() < end; r = mix(r + 1)) {
                        Conn k;
                        if (!k.open(w.port->num())) continue;
                        if (!served(k, send_call(k, small(r)))) continue;
                        int n = ++in_use, old = most;
                        while (n > old && !most.compare_exchange_weak(old, n)) {}
                        ++total;
                        if (mix(r) % 2) nap(1e-4 * (mix(r + 3) % 30));
                        bool ok = served(k, send_call(k, small(r + 5)));
                        --in_use;
                        PBT_CHECK(ok, "a connection that was served was closed");
                        if (mix(r + 7) % 2) k.reset_now();
                    }
                } catch (const pbt::Failure& f) { std::lock_guard<std::mutex> l(mu); why = f.msg; }
            });
            for (auto& t : th) t.join();
            PBT_CHECK(why.empty(), "%s", why.c_str());
            PBT_CHECK(most <= room, "%d connections more than the limit of %d are served at once", most - room, L);
            d += fmt(" storm(%d:%d)", nt, (int)total);
            closed += total;
            break;
        }
        default: {
            settle();
            if (cli_on) { cli.reset(); cli_on = false; ++closed; d += " client-gone"; break; }
            RpcClientOptions o;
            o.work_thread_num = o.callback_thread_num = 1;
            cli.reset(new RpcClient(o));
            RpcChannel ch(cli.get(), w.addr());
            CallP c = blank_call("Echo");
            c->run(&ch);
            bool room = cap() > n_held();
            if (room) PBT_CHECK(!c->cntl.Failed(), "a call fails with %d connections in use and a limit of %d: %s", n_held(), L, c->outcome().c_str());
            else PBT_CHECK(c->cntl.Failed() && (c->cntl.ErrorCode() == 10 || c->cntl.ErrorCode() == 9), "a call to a server at its limit %s", c->outcome().c_str());
            cli_on = room;
            if (!room) { cli.reset(); ++rejected; }
            d += room ? " client" : " client-rejected";
        }
        }
    }
    settle();
    check_held();
    if (cli_on) { RpcChannel ch(cli.get(), w.addr()); CallP c = blank_call("Echo"); c->run(&ch); PBT_CHECK(!c->cntl.Failed(), "the connection of a client was closed: %s", c->outcome().c_str()); }
    grave().check();
    if (rejected) x.label("rejected");
    if (again) x.label("accepted after others had gone");
    x.note(d);
    x.nontrivial(rejected && again);
}

// ---- idle time
struct Limits {                                // the limit over time
    std::vector<std::pair<double, double>> at; // from when, how much (1e9: none)
    double least(double t) const {             // the smallest in force shortly before t
        double l = 1e9;
        for (size_t i = 0; i < at.size(); ++i) if (at[i].first <= t && (i + 1 == at.size() || at[i + 1].first >= t - 0.3)) l = std::min(l, at[i].second);
        return l;
    }
    double last() const { return at.back().second; }
    double since() const { return at.back().first; }
};
static const double kEdge = 0.35;
struct Script {
    virtual ~Script() {}
    virtual bool is_open() = 0;
    virtual void connect_if_needed() = 0;
    virtual void act(Src& s) = 0;              // starts something
    virtual int poll_act() = 0;                // 1 over, 0 under way, -1 the connection ended
    Limits* lim;
    string name, d;
    bool open, busy, sure;                     // sure: the connection cannot be closed while this is under way
    double lo, hi, next, t0;                   // last activity: not before, not after
    double quiet_hard;
    int early, kept, done, long_calls;
    Script() : lim(NULL), open(false), busy(false), sure(false), lo(0), hi(0), next(0), t0(0), quiet_hard(0), early(0), kept(0), done(0), long_calls(0) {}
    void over() { hi = now_s(); }
    void closed_now() {
        double t = now_s(), l = lim->least(t);
        open = false;
        PBT_CHECK(!(busy && sure), "%s: the connection was closed while a call was under way (%s)", name.c_str(), d.c_str());
        if (busy) return;
        ++done;
        double late = g_late;
        PBT_CHECK(l < 1e8, "%s: the connection was closed without a limit (%s)", name.c_str(), d.c_str());
        if (late < 0.2) PBT_SOFT(t - lo >= l - 0.15 - 2 * late, "%s: the connection was closed %.2f s after it was active, the limit is %.0f s (%s)", name.c_str(), t - lo, l, d.c_str());
    }
    // The next step of this script at the present time; true when it has ended.
    bool step(Src& s, double end) {
        if (open && !is_open()) { closed_now(); if (busy) { busy = false; next = now_s(); d += " lost"; } }
        if (busy) {
            int r = poll_act();
            if (r == 0) { PBT_CHECK(now_s() - t0 < 30, "%s: no answer (%s)", name.c_str(), d.c_str()); return false; }
            if (r < 0) { closed_now(); d += " lost"; }
            else over();
            busy = false;
            next = pause(s);
        }
        double t = now_s();
        if (open) {
            double idle = t - std::max(hi, lim->since()), l = lim->last(), late = g_late;
            if (late < 0.2 && idle > l + 0.4 + 2 * late) PBT_SOFT(false, "%s: the connection is open %.2f s after it was active, the limit is %.0f s (%s)", name.c_str(), idle, l, d.c_str());
            PBT_CHECK(idle < l + 20, "%s: the connection is still open %.1f s after it was active, the limit is %.0f s", name.c_str(), idle, l);
        }
        if (t < next) return false;
        if (t > end) return true;
        bool was = open;
        connect_if_needed();
        open = true;
        if (was && t - lo > 0.3 * lim->least(t)) ++kept;
        sure = !was || t - lo < lim->least(t) - kEdge;
        t0 = t;
        busy = true;
        act(s);
        return false;
    }
    double pause(Src& s) {
        double l = lim->last() > 1e8 ? 1 : lim->last(), t = now_s(), p;
        switch (s.weighted({3, 5, 3, 1})) {
        case 0: p = 1e-3 * s.draw(200); break;
        case 1: p = 1e-3 * s.range(200, (uint64_t)((l - kEdge - 0.01) * 1000)); break;
        case 2: p = l + 0.5 + 1e-3 * s.draw(300); break;
        default: p = l - kEdge + 1e-3 * s.draw(800);
        }
        d += fmt(" %.2f", p);
        return t + p;
    }
};
struct RawScript : Script {
    Conn k;
    int port;
    Sent e;
    int kind;
    string rest;
    double delay;
    bool is_open() override { if (k.dead()) return false; k.pump(0); return !k.dead(); }
    void connect_if_needed() override {
        if (open && !k.dead()) return;
        rest.clear();
        PBT_CHECK(k.open(port), "the server does not listen");
        lo = hi = now_s();
    }
    void act(Src& s) override {
        kind = s.weighted({6, 3, 3, 2, 1});
        if (!rest.empty()) kind = 5;
        double t = now_s();
        vtest::EchoRequest q = small(s.seed());
        delay = 0;
        if (kind == 1) { delay = 0.1 * s.range(8, 22); q.set_delay_ms((int)(delay * 1000)); }
        if (kind == 4) { delay = 0.1 * s.range(11, 16); q.set_delay_ms((int)(delay * 1000)); q.set_response_size((int)s.range(1, 12) << 20); }
        static const char* n[] = {"call", "long", "part", "page", "big", "rest"};
        d += fmt(" %s", n[kind]);
        if (kind == 1 || kind == 4) ++long_calls;
        if (kind == 0 || kind == 1) e = send_call(k, q);
        else if (kind == 4) e = send_call(k, q, 1);
        else if (kind == 2) {                  // a frame that ends later
            e.seq = g_seq++;
            answer("Echo", "s", q, &e.want);
            string f = raw_frame(request_meta(e.seq, "vtest.EchoService.Echo"), q.SerializeAsString());
            size_t n = 1 + s.draw(f.size() - 2);
            rest = f.substr(n);
            k.send(f.substr(0, n));
        } else if (kind == 3) k.send(http_text("GET", "/status", "HTTP/1.1", {}, ""));
        else { k.send(rest); rest.clear(); }
        if (sure) lo = t;
        else if (kind == 2) lo = hi;           // not known to have arrived
    }
    int poll_act() override {
        double t = now_s();
        int r = 1;
        if (kind == 2) { if (t < t0 + 0.02) return 0; if (sure) lo = t0; return 1; }
        if (kind == 3) { Http h; r = take_http(&k.in, &h); PBT_CHECK(r >= 0, "malformed page"); }
        else r = take_answer(k, e, kind == 4);
        if (r == 0) return k.dead() ? -1 : 0;
        lo = std::max(lo, t0 + delay - 0.002);
        sure = true;
        return 1;
    }
};
struct ClientScript : Script {
    RpcClient* cli;
    ChanP ch[2];
    std::vector<CallP> calls;
    double delay;
    bool may_fail;
    bool is_open() override { return cli->ConnectionCount() > 0 || (busy && now_s() < t0 + 0.5); }
    void connect_if_needed() override {}
    void act(Src& s) override {
        calls.clear();
        delay = 0;
        may_fail = !sure;
        int n = 1 + s.draw(2);
        bool nv = s.chance(30);
        for (int i = 0; i < n; ++i) {
            CallP c = blank_call("Echo");
            c->cntl.SetTimeout(60000);
            c->q.set_data(Src::expand(s.draw(500), 1, s.seed()));
            if (nv) { c->q.set_never(true); c->cntl.SetTimeout(s.range(60, 500)); }
            else if (s.chance(30)) { int ms = (int)s.range(800, 2200); c->q.set_delay_ms(ms); delay = std::max(delay, ms * 1e-3); ++long_calls; }
            c->sync = s.chance(20);
            calls.push_back(c);
        }
        d += fmt(" %dcalls(%.2f)", n, delay);
        if (sure) lo = now_s();
        for (auto& c : calls) c->go(ch[s.draw(1)]);
    }
    int poll_act() override {
        for (auto& c : calls) if (!c->finished()) return 0;
        for (auto& c : calls) if (c->cntl.Failed() && c->cntl.ErrorCode() == 11 && c->q.never()) continue; else if (c->cntl.Failed()) {
            PBT_CHECK(may_fail && (c->cntl.ErrorCode() == 9 || c->cntl.ErrorCode() == 10), "%s: a call %s (%s)", name.c_str(), c->outcome().c_str(), d.c_str());
            busy = false;
            open = is_open();
            if (open) lo = 0;                   // of another call
            return 1;
        }
        lo = std::max(lo, t0 + delay - 0.002);      // delay: of calls that were answered
        open = is_open();
        return 1;
    }
};

static void idle(Src& s, Ctx& x) {
    g_late = 0;
    eventually([] { return g_plain->srv->ConnectionCount() == 0; }, 5);
    TestServer w;
    w.opt.work_thread_num = 2;
    static const int kPlan[][2] = {{1, 1}, {1, 1}, {0, 0}, {-1, 1}, {2, 1}, {1, -1}, {1, 2}};
    auto limit_of = [](int k) { return k < 0 ? 1e9 : std::max(1, k) * 1.0; };
    int a = s.draw(6), b = s.draw(6);
    w.opt.keep_alive_time = kPlan[a][0];
    PBT_CHECK(w.start(), "no start");
    RpcClientOptions co;
    co.work_thread_num = co.callback_thread_num = 1;
    co.keep_alive_time = kPlan[b][0];
    RpcClient cli(co);
    Limits ls, lc;
    double t0 = now_s(), sw_s = t0 + 0.4 + 1e-3 * s.draw(1800), sw_c = t0 + 0.4 + 1e-3 * s.draw(1800), end = t0 + 3;
    ls.at.push_back({0, limit_of(kPlan[a][0])});
    lc.at.push_back({0, limit_of(kPlan[b][0])});
    if (kPlan[a][0] == kPlan[a][1]) sw_s = 1e18;
    if (kPlan[b][0] == kPlan[b][1]) sw_c = 1e18;
    string d = fmt("server %d->%d client %d->%d:", kPlan[a][0], kPlan[a][1], kPlan[b][0], kPlan[b][1]);
    x.note(d);
    d.clear();
    std::vector<std::unique_ptr<Script>> all;
    int n = 3 + s.draw(7);
    for (int i = 0; i < n; ++i) {
        RawScript* r = new RawScript();
        r->port = w.port->num();
        r->lim = &ls;
        r->name = fmt("raw %d", i);
        r->next = t0 + 1e-3 * s.draw(300);
        all.emplace_back(r);
    }
    ClientScript* c = new ClientScript();
    c->cli = &cli;
    c->ch[0].reset(new RpcChannel(&cli, g_plain->addr()));
    c->ch[1].reset(new RpcChannel(&cli, g_plain->addr()));
    c->lim = &lc;
    c->name = "client";
    all.emplace_back(c);
    std::vector<bool> over(all.size());
    size_t left = all.size();
    while (left) {
        double t = now_s();
        if (t > sw_s) {
            RpcServerOptions o = w.srv->GetOptions();
            o.keep_alive_time = kPlan[a][1];
            ls.at.push_back({now_s(), limit_of(kPlan[a][1])});
            w.srv->ResetOptions(o);
            sw_s = 1e18;
        }
        if (t > sw_c) {
            RpcClientOptions o = cli.GetOptions();
            o.keep_alive_time = kPlan[b][1];
            lc.at.push_back({now_s(), limit_of(kPlan[b][1])});
            cli.ResetOptions(o);
            sw_c = 1e18;
        }
        for (size_t i = 0; i < all.size(); ++i) if (!over[i] && all[i]->step(s, end)) { over[i] = true; --left; }
        nap(0.004);
    }
    int kept = 0, done = 0, lng = 0;
    for (auto& r : all) { kept += r->kept; done += r->done; lng += r->long_calls; d += " | " + r->d; }
    g_plain->echo->release();
    if (done) x.label("idle connections closed");
    if (kept) x.label("used again in time");
    if (lng) x.label("calls longer than the limit");
    if (kPlan[a][0] != kPlan[a][1] || kPlan[b][0] != kPlan[b][1]) x.label("limit changed");
    x.note(d);
    x.nontrivial(done && kept);
    grave().check();
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C23";
    p.rule = "limit: connections were rejected at the limit and accepted again after others had gone; idle: an idle connection was closed and another was used again within the limit";
    p.subs = {{"limit", limit, 900, 100000}, {"idle", idle, 140, 8000}};
    p.workers = 40;
    p.case_timeout_s = 90;
    p.init = init;
    return pbt::run(argc, argv, p);
}
