// LINK: -Wl,--wrap=usleep -Wl,--wrap=getaddrinfo -Wl,--wrap=_ZN4sofa5pbrpc14TimeoutManager13add_repeatingElPNS0_10ExtClosureIFvmNS1_4TypeEEEE
// C27: a channel with several servers spreads its calls over them, and keeps the limit of calls per server.
#include "fake.h"
#include <netdb.h>
using namespace net;
using namespace sofa::pbrpc;
extern "C" int __real_usleep(useconds_t);
extern "C" int __wrap_usleep(useconds_t us) { return __real_usleep(us == 100000 ? 500 : us >= 800000 ? 4000 : us); }
extern "C" uint64_t __real__ZN4sofa5pbrpc14TimeoutManager13add_repeatingElPNS0_10ExtClosureIFvmNS1_4TypeEEEE(void*, long, void*);
extern "C" uint64_t __wrap__ZN4sofa5pbrpc14TimeoutManager13add_repeatingElPNS0_10ExtClosureIFvmNS1_4TypeEEEE(void* t, long ms, void* f) {
    return __real__ZN4sofa5pbrpc14TimeoutManager13add_repeatingElPNS0_10ExtClosureIFvmNS1_4TypeEEEE(t, ms == 5000 ? 100 : ms, f);
}
static std::atomic<bool> known(true);
extern "C" int __real_getaddrinfo(const char*, const char*, const addrinfo*, addrinfo**);
extern "C" int __wrap_getaddrinfo(const char* h, const char* p, const addrinfo* a, addrinfo** r) {
    if (!h || !strstr(h, ".test")) return __real_getaddrinfo(h, p, a, r);
    if (!known) return EAI_NONAME;
    return __real_getaddrinfo("127.0.0.1", p, a, r);
}
static void init() {
    quiet();
    Later::get().in(0, [] {});
    TestServer w;
    if (!w.start()) exit(3);
    { RpcClient c; RpcChannel ch(&c, w.addr()); CallP k = blank_call("Echo"); k->run(&ch); }
    nap(0.02);
}
// Counts the calls at this server which the client cannot have given up
struct Gauge : vtest::EchoService {
    string name;
    std::mutex mu;
    int plain, most;
    int64_t seen;
    std::atomic<int> late;
    std::vector<std::pair<uint64_t, google::protobuf::Closure*>> kept;
    Gauge(const string& n) : name(n), plain(0), most(0), seen(0), late(0) {}
    void end(bool p, google::protobuf::Closure* d) { if (p) { std::lock_guard<std::mutex> l(mu); --plain; } d->Run(); }
    void Echo(google::protobuf::RpcController* c, const vtest::EchoRequest* q, vtest::EchoResponse* r, google::protobuf::Closure* d) override {
        bool p = q->text() == "plain";
        answer("Echo", name, *q, r);
        if (q->has_fail()) c->SetFailed(q->fail());
        {
            std::lock_guard<std::mutex> l(mu);
            ++seen;
            if (p && ++plain > most) most = plain;
            if (q->never()) { kept.push_back({q->id(), d}); return; }
        }
        if (q->delay_ms() > 0) { ++late; Later::get().in(q->delay_ms() * 1e-3, [this, p, d] { end(p, d); --late; }); }
        else end(p, d);
    }
    bool release(uint64_t id, bool plain_call) {
        google::protobuf::Closure* d = NULL;
        { std::lock_guard<std::mutex> l(mu); for (auto& k : kept) if (k.first == id) { d = k.second; k = kept.back(); kept.pop_back(); break; } }
        if (d) end(plain_call, d);
        return d;
    }
    void release_all() { std::vector<std::pair<uint64_t, google::protobuf::Closure*>> v; { std::lock_guard<std::mutex> l(mu); v.swap(kept); plain = 0; } for (auto& k : v) k.second->Run(); }
    int holds() { std::lock_guard<std::mutex> l(mu); return (int)kept.size(); }
    bool holds(uint64_t id) { std::lock_guard<std::mutex> l(mu); for (auto& k : kept) if (k.first == id) return true; return false; }
};
struct Peer {
    Port port;
    std::unique_ptr<RpcServer> srv;
    Gauge* g;
    bool up;
    explicit Peer(const string& n) : up(false) {
        RpcServerOptions o;
        o.work_thread_num = 2;
        srv.reset(new RpcServer(o));
        srv->RegisterService(g = new Gauge(n));
    }
    void start() { PBT_CHECK(eventually([&] { return srv->Start(port.addr()); }, 10), "a server does not start"); up = true; }
    void stop() { srv->Stop(); up = false; }
    ~Peer() { g->release_all(); srv->Stop(); eventually([this] { return g->late == 0; }, 20); }
};

static void capacity(Src& s, Ctx& x) {
    int n = 1 + s.weighted({2, 4, 3, 2}), cap = s.chance(85) ? 1 + s.logsize(6) : 0;
    std::vector<std::unique_ptr<Peer>> peers;
    std::vector<string> addrs;
    known = true;
    bool named = s.chance(20);
    if (named) known = false;
    for (int i = 0; i < n; ++i) {
        peers.emplace_back(new Peer(fmt("s%d", i)));
        peers[i]->start();
        addrs.push_back(i == 0 && named ? fmt("late.test:%d", peers[i]->port.num()) : peers[i]->port.addr());
    }
    RpcClientOptions ro;
    ro.work_thread_num = 1 + s.draw(3);
    ro.callback_thread_num = 1 + s.draw(2);
    RpcClient cli(ro);
    RpcChannelOptions co;
    co.server_load_capacity = cap;
    ChanP chan(new RpcChannel(&cli, addrs, co));
    string d = fmt("%d servers, limit %d%s:", n, cap, named ? " (one not resolvable at first)" : "");
    bool clean = !named;                // every server is known to be in use by the channel
    struct Held { CallP c; int at; };
    std::vector<Held> held;
    int busy = 0, full = 0, ended[3] = {0, 0, 0};
    auto usable = [&] { int k = 0; for (int i = 0; i < n; ++i) k += peers[i]->up && (i || known); return k; };
    auto limits = [&] { if (cap) for (auto& p : peers) { std::lock_guard<std::mutex> l(p->g->mu); PBT_CHECK(p->g->most <= cap, "%d calls were outstanding at a server with a limit of %d", p->g->most, cap); } };
    // A call that stays at the server; -1: refused as busy, -2: failed otherwise
    auto hold = [&](int ms) {
        CallP c = blank_call("Echo");
        c->q.set_never(true);
        if (ms == 0) { c->q.set_text("plain"); ms = 60000; }
        c->cntl.SetTimeout(ms);
        c->go(chan);
        int at = -3;
        PBT_CHECK(eventually([&] { for (int i = 0; i < n; ++i) if (peers[i]->g->holds(c->id)) { at = i; return true; } return c->finished(); }, 20), "a call neither reaches a server nor ends");
        if (at >= 0) { held.push_back({c, at}); return at; }
        PBT_CHECK(c->cntl.Failed(), "a call that is not answered succeeded");
        int e = c->cntl.ErrorCode();
        if (e == 22) { PBT_CHECK(cap, "busy, without a limit"); ++busy; return -1; }
        PBT_CHECK(e == 9 || e == 10 || e == 11 || e == 13 || e == 14, "a call %s", c->outcome().c_str());
        return -2;
    };
    auto counts = [&] { std::vector<int> v(n, 0); for (auto& h : held) ++v[h.at]; return v; };
    auto text = [&](const std::vector<int>& v) { string t; for (int k : v) t += fmt("%d ", k); return t; };
    // Holds calls until all the usable servers are at the limit, then one more
    auto fill = [&] {
        double t0 = now_s();
        for (;;) {
            auto v = counts();
            int room = 0;
            for (int i = 0; i < n; ++i) if (peers[i]->up && (i || known)) room += cap - v[i];
            if (!room) break;
            int at = hold(0);
            if (at == -1 && clean) pbt::fail(fmt("a call fails as busy while there is room at the servers: %s(limit %d)", text(counts()).c_str(), cap));
            if (at < 0) {
                PBT_CHECK(now_s() - t0 < 25, "the servers never take %d calls each, only %s", cap, text(counts()).c_str());
                nap(0.01);
            } else PBT_CHECK(counts()[at] <= cap, "%d calls at a server with a limit of %d", counts()[at], cap);
        }
        if (usable() == n) clean = true;
        int more = 1 + s.draw(1);
        for (int i = 0; i < more; ++i) {
            int at = hold(0);
            PBT_CHECK(at < 0, "%d calls at a server with a limit of %d", counts()[at], cap);
            if (usable() == n) PBT_CHECK(at == -1, "the call past the limit was not refused as busy");
        }
        ++full;
        limits();
        d += " full";
    };
    // How: 0 answered, 1 failed by the server, 2 (all of them) by their timeout
    auto finish = [&](size_t i) {
        Held h = held[i];
        held.erase(held.begin() + i);
        peers[h.at]->g->release(h.c->id, h.c->q.text() == "plain");
        PBT_CHECK(eventually([&] { return h.c->finished(); }, 20), "a call does not end");
        ++ended[0];
        if (peers[h.at]->up) PBT_CHECK(!h.c->cntl.Failed() || h.c->cntl.ErrorCode() == 11, "a call %s", h.c->outcome().c_str());
        if (h.c->cntl.Failed()) clean = false;
    };
    auto drain = [&] { while (held.size()) finish(held.size() - 1); };
    int ops = 2 + s.draw(6);
    for (int o = 0; o < ops; ++o) {
        switch (s.weighted({4, 4, 4, 3, 2, named ? 3u : 0u, cap ? 5u : 0u})) {
        case 0: {    // some calls that stay
            int room = cap ? cap * usable() - (int)held.size() : 20, m = room > 0 ? 1 + s.draw(room - 1) : 0;
            bool fresh = held.empty();
            for (int i = 0; i < m; ++i) {
                int at = hold(0);
                if (clean) PBT_CHECK(at >= 0, "a call %s while there is room: %s", at == -1 ? "was refused as busy" : "failed", text(counts()).c_str());
            }
            auto v = counts();
            if (fresh && clean && usable() == n) {
                int lo = *std::min_element(v.begin(), v.end()), hi = *std::max_element(v.begin(), v.end());
                PBT_CHECK(hi <= 2 * ((m + n - 1) / n) + 1 && (lo > 0 || m < 2 * n), "%d calls are spread over %d servers like this: %s", m, n, text(v).c_str());
                x.label("spread");
            }
            d += fmt(" hold%d(%s)", m, text(v).c_str());
            break;
        }
        case 1: {    // some are answered, in any order
            int m = held.size() ? 1 + s.draw(held.size() - 1) : 0;
            for (int i = 0; i < m; ++i) finish(s.draw(held.size() - 1));
            d += fmt(" answer%d", m);
            break;
        }
        case 2: {    // many at a time
            int th = 1 + s.draw(9), per = 1 + s.draw(5), room = cap ? cap * usable() - (int)held.size() : 1 << 20;
            bool fails = s.chance(25);
            if (th > room && s.chance(50)) th = std::max(1, room);
            uint64_t rnd = s.seed();
            std::vector<std::vector<CallP>> cs(th);
            for (int t = 0; t < th; ++t) for (int i = 0; i < per; ++i) {
                CallP c = blank_call("Echo");
                uint64_t r = mix(rnd + t * 100 + i);
                c->q.set_text("plain");
                if (r % 3) c->q.set_delay_ms(1 + r / 7 % 5);
                if (fails && r / 100 % 5 == 0) { c->q.set_fail("no"); }
                c->cntl.SetTimeout(60000);
                cs[t].push_back(c);
            }
            std::vector<std::thread> v;
            bool async = s.chance(40);
            for (int t = 0; t < th; ++t) v.emplace_back([&, t] {
                for (auto& c : cs[t]) { if (async) { c->go(chan); eventually([&] { return c->finished(); }, 60); } else c->run(chan.get()); }
            });
            for (auto& t : v) t.join();
            bool failed = false;
            int refused = 0, good = 0;
            std::set<string> used;
            for (auto& t : cs) for (auto& c : t) {
                PBT_CHECK(eventually([&] { return c->finished(); }, 20), "a call does not end");
                if (!c->cntl.Failed()) { ++good; used.insert(c->r.server()); continue; }
                if (c->cntl.ErrorCode() == 22) { PBT_CHECK(cap, "busy, without a limit"); ++refused; continue; }
                failed = true;
                if (c->cntl.ErrorCode() == 1000) PBT_CHECK(c->q.has_fail(), "a call %s", c->outcome().c_str());
                else PBT_CHECK(!clean || usable() < n, "a call %s with all servers in use", c->outcome().c_str());
            }
            limits();
            // an asynchronous call is counted until its callback is about to run, so there is no room to spare then
            if (clean && !failed && th <= room && usable() == n) PBT_CHECK(refused == 0, "a call was refused as busy with at most %d calls at a time: %d held, limit %d of %d servers", th, (int)held.size(), cap, n);
            if (failed) { clean = false; ++ended[1]; }
            busy += refused;
            d += fmt(" burst%dx%d%s%s", th, per, failed ? " some fail" : "", refused ? " some busy" : "");
            x.label("burst");
            break;
        }
        case 3: {    // calls that end by their timeout; the server answers later
            int m = 1 + s.draw(3);
            std::vector<Held> mine;
            for (int i = 0; i < m; ++i) { size_t k = held.size(); hold(30 + s.draw(40)); if (held.size() > k) { mine.push_back(held.back()); held.pop_back(); } }
            for (auto& h : mine) PBT_CHECK(eventually([&] { return h.c->finished(); }, 20), "a call does not end");
            for (auto& h : mine) { peers[h.at]->g->release(h.c->id, false); ++ended[2]; }
            clean = false;
            d += fmt(" timeout%d", (int)mine.size());
            break;
        }
        case 4: {    // a server stops, or is back
            if (n == 1) break;
            int k = s.draw(n - 1);
            clean = false;
            if (peers[k]->up) {
                for (size_t i = held.size(); i--;) if (held[i].at == k) {
                    Held h = held[i];
                    held.erase(held.begin() + i);
                    if (s.chance(50)) peers[k]->g->release(h.c->id, true);
                    x.label("server stopped with calls");
                }
                peers[k]->stop();
                peers[k]->g->release_all();
            } else peers[k]->start();
            d += fmt(" %s%d", peers[k]->up ? "up" : "down", k);
            break;
        }
        case 5: {
            if (s.chance(60)) { if (!known) clean = false; known = true; d += " resolvable"; }
            break;
        }
        case 6:
            if (!usable()) break;
            fill();
            if (s.chance(50)) drain();
            break;
        }
    }
    drain();
    known = true;
    for (auto& p : peers) if (!p->up) { p->start(); clean = false; }
    if (cap) {
        fill();
        auto v = counts();
        for (int i = 0; i < n; ++i) PBT_CHECK(v[i] == cap, "the servers take different numbers of calls: %s(limit %d)", text(v).c_str(), cap);
        drain();
    }
    // all of them are used
    std::set<string> used;
    double t0 = now_s();
    while ((int)used.size() < n && now_s() - t0 < 20) {
        CallP c = blank_call("Echo");
        c->cntl.SetTimeout(10000);
        c->run(chan.get());
        if (!c->cntl.Failed()) used.insert(c->r.server());
        if (cap && clean) PBT_CHECK(!c->cntl.Failed(), "a call %s, with nothing else under way", c->outcome().c_str());
        if ((int)used.size() < n) nap(clean ? 0 : 0.005);
    }
    PBT_CHECK((int)used.size() == n, "only %d of %d servers get calls", (int)used.size(), n);
    if (cap) {
        std::map<string, int> by;
        for (int i = 0; i < 6 * n; ++i) { CallP c = blank_call("Echo"); c->cntl.SetTimeout(10000); c->run(chan.get()); ++by[c->r.server()]; }
        PBT_CHECK((int)by.size() == n, "%d calls one after another use %d of %d servers", 6 * n, (int)by.size(), n);
    }
    limits();
    chan.reset();
    x.note(d);
    if (busy) x.label("busy");
    if (ended[2]) x.label("timeouts");
    if (ended[1]) x.label("failures");
    if (named) x.label("not resolvable at first");
    if (!cap) x.label("no limit");
    x.nontrivial((full > 1 || !cap) && n > 1);
    grave().check();
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C27";
    p.rule = "non-trivial: several servers, and (with a limit) all of them were filled up to the limit at least twice, with calls ending in between";
    p.subs = {{"capacity", capacity, 1500, 60000}};
    p.workers = 24;
    p.case_timeout_s = 120;
    p.init = init;
    return pbt::run(argc, argv, p);
}
