// LINK: -Wl,--wrap=usleep -Wl,--wrap=getaddrinfo -Wl,--wrap=_ZN4sofa5pbrpc14TimeoutManager13add_repeatingElPNS0_10ExtClosureIFvmNS1_4TypeEEEE
// C26: a channel with several servers fails over, recovers, and follows changes of its address list.
#include "fake.h"
using namespace net;
using namespace sofa::pbrpc;
extern "C" int __real_usleep(useconds_t);
extern "C" int __wrap_usleep(useconds_t us) { return __real_usleep(us == 100000 ? 500 : us >= 800000 ? 15000 : us); }
// the interval of the checks if failed servers are back is 5 s
extern "C" uint64_t __real__ZN4sofa5pbrpc14TimeoutManager13add_repeatingElPNS0_10ExtClosureIFvmNS1_4TypeEEEE(void*, long, void*);
extern "C" uint64_t __wrap__ZN4sofa5pbrpc14TimeoutManager13add_repeatingElPNS0_10ExtClosureIFvmNS1_4TypeEEEE(void* t, long ms, void* f) {
    return __real__ZN4sofa5pbrpc14TimeoutManager13add_repeatingElPNS0_10ExtClosureIFvmNS1_4TypeEEEE(t, ms == 5000 ? 100 : ms, f);
}

// names like s1.test are known while it is told so
#include <netdb.h>
static std::mutex names_mu;
static std::set<string> names;
extern "C" int __real_getaddrinfo(const char*, const char*, const addrinfo*, addrinfo**);
extern "C" int __wrap_getaddrinfo(const char* h, const char* p, const addrinfo* a, addrinfo** r) {
    if (!h || !strstr(h, ".test")) return __real_getaddrinfo(h, p, a, r);
    { std::lock_guard<std::mutex> l(names_mu); if (!names.count(h)) return EAI_NONAME; }
    return __real_getaddrinfo("127.0.0.1", p, a, r);
}
static void known(const string& n, bool y) { std::lock_guard<std::mutex> l(names_mu); if (y) names.insert(n); else names.erase(n); }

static void init() {
    quiet();
    Later::get().in(0, [] {});
    TestServer w;
    if (!w.start()) exit(3);
    { RpcClient c; RpcChannel ch(&c, w.addr()); CallP k = blank_call("Echo"); k->run(&ch); }
    nap(0.02);
}
struct Provider : RpcChannel::AddressProvider {
    std::vector<string> first;
    std::unique_ptr<RpcChannel::EventHandler> h;
    void GetInitAddress(std::vector<string>* l) override { *l = first; }
    bool RegisterEventHandler(RpcChannel::EventHandler* e) override { h.reset(e); return true; }
};
enum State { DOWN, UP, SILENT };
struct Peer {
    Port port;
    std::unique_ptr<TestServer> srv;
    Listener lis;
    State st;
    string name;
    bool named, resolves;
    string addr() { return named ? name + ".test:" + std::to_string(port.num()) : port.addr(); }
    bool usable() const { return in() && st == UP && (!named || resolves); }
    std::vector<std::pair<double, double>> member;
    bool in() const { return !member.empty() && member.back().second > 1e17; }
    Peer() : st(DOWN), named(false), resolves(true) {}
    void to(State n) {
        if (n == st) return;
        if (st == UP) srv->srv->Stop();
        if (st == SILENT) lis.stop();
        if (n == UP) {
            if (!srv) {
                srv.reset(new TestServer());
                srv->name = name;
                srv->opt.work_thread_num = 2;
                srv->srv.reset(new RpcServer(srv->opt));
                srv->echo = new EchoImpl(name);
                srv->srv->RegisterService(srv->echo);
            }
            PBT_CHECK(eventually([&] { return srv->srv->Start(port.addr()); }, 10), "a server does not start");
        }
        if (n == SILENT) PBT_CHECK(eventually([&] { return lis.start(port.num()); }, 10), "cannot listen");
        st = n;
    }
};

static void history(Src& s, Ctx& x) {
    exec_log().clear();
    string d;
    std::vector<CallP> all;
    std::mutex all_mu;
    std::vector<std::unique_ptr<Peer>> peers;
    Provider prov;
    std::unique_ptr<RpcClient> cli;
    {
        RpcClientOptions o;
        o.work_thread_num = 1 + s.draw(2);
        o.callback_thread_num = 1 + s.draw(1);
        cli.reset(new RpcClient(o));
    }
    int n = 1 + s.weighted({1, 3, 3, 2});
    bool provided = s.chance(80);
    std::vector<string> bad;
    for (int i = 0; i < n; ++i) {
        peers.emplace_back(new Peer());
        peers[i]->name = fmt("s%d", i);
        peers[i]->to(s.chance(75) ? UP : s.chance(50) ? DOWN : SILENT);
        peers[i]->named = s.chance(25);
        if (peers[i]->named) { peers[i]->resolves = s.chance(60); known(peers[i]->name + ".test", peers[i]->resolves); d += peers[i]->resolves ? "n" : "N"; }
        if (!provided || s.chance(75)) { prov.first.push_back(peers[i]->addr()); peers[i]->member.push_back({0, 1e18}); }
        d += peers[i]->st == UP ? "u" : peers[i]->st == DOWN ? "d" : "s";
        if (peers[i]->member.empty()) d += "-";
    }
    if (s.chance(20)) bad.push_back("127.0.0.1:notaport");
    if (s.chance(5)) bad.push_back("127.0.0.1:-1x");
    for (auto& b : bad) prov.first.push_back(b);
    if (s.chance(15)) prov.first.push_back("");
    if (s.chance(15) && prov.first.size()) prov.first.push_back(prov.first[0]);
    d += fmt(" bad%d:", (int)bad.size());
    RpcChannelOptions co;
    co.create_with_init = s.chance(85);
    ChanP chan(provided ? new RpcChannel(cli.get(), &prov, co) : new RpcChannel(cli.get(), prov.first, co));
    if (!co.create_with_init) {
        if (s.chance(30)) { chan.reset(); x.note(d + " never initialised"); x.label("never initialised"); return; }
        PBT_CHECK(static_cast<RpcChannel*>(chan.get())->Init(), "Init of a channel with several servers failed");
    }
    auto usable = [&] { int k = 0; for (auto& p : peers) k += p->usable(); return k; };
    auto listed = [&] { int k = (int)bad.size(); for (auto& p : peers) k += p->in(); return k; };
    auto make = [&](uint64_t rnd) {
        CallP c = std::make_shared<Call>();
        c->id = fresh_id();
        c->method = mix(rnd) % 2 ? "Echo" : "Reverse";
        c->q.set_id(c->id);
        c->q.set_data(Src::expand(mix(rnd + 1) % 2000, 1, rnd));
        if (mix(rnd + 3) % 4 == 0) c->q.set_delay_ms(1 + mix(rnd + 4) % 20);
        c->cntl.SetTimeout(300 + mix(rnd + 2) % 300);
        { std::lock_guard<std::mutex> l(all_mu); all.push_back(c); grave().add(c); }
        return c;
    };
    // What holds for every call; the server that answered, -1 for none
    auto judge = [&](CallP c) {
        PBT_CHECK(eventually([&] { return c->finished(); }, 20), "a call does not end");
        PBT_CHECK(c->t_done - c->t_start < 15, "a call with a timeout of %d ms took %.1f s", (int)c->cntl.Timeout(), c->t_done - c->t_start);
        auto ex = exec_log().get(c->id);
        PBT_CHECK(ex.size() <= 1, "a call was executed %d times", (int)ex.size());
        int at = -1;
        if (ex.size()) {
            for (int i = 0; i < n; ++i) if (peers[i]->name == ex[0].server) at = i;
            PBT_CHECK(at >= 0, "a call was executed at an unknown server");
            bool ok = false;
            for (auto& m : peers[at]->member) ok = ok || (m.first <= c->t_done && m.second >= c->t_start);
            PBT_CHECK(ok, "a call was sent to a server that was not in the address list");
        }
        if (c->cntl.Failed()) {
            int e = c->cntl.ErrorCode();
            PBT_CHECK(e == 9 || e == 10 || e == 11 || e == 13 || e == 14, "a call %s", c->outcome().c_str());
            return -1;
        }
        PBT_CHECK(at >= 0, "a call succeeded without being executed");
        vtest::EchoResponse want;
        answer(c->method, peers[at]->name, c->q, &want);
        PBT_CHECK(same_msg(c->r, want), "the response is not the right one");
        return at;
    };
    auto one = [&](bool sync) {
        CallP c = make(s.seed());
        if (sync) c->run(chan.get()); else c->go(chan);
        return judge(c);
    };
    std::atomic<bool> end(false);
    std::vector<std::thread> th;
    string back_why;
    std::mutex back_mu;
    struct Joiner { std::atomic<bool>& e; std::vector<std::thread>& v; ~Joiner() { e = true; for (auto& t : v) if (t.joinable()) t.join(); } } joiner = {end, th};
    std::vector<CallP> background;
    int nback = s.chance(35) ? 1 + (int)s.draw(1) : 0;
    uint64_t brnd = s.seed();
    for (int t = 0; t < nback; ++t) th.emplace_back([&, t] {
        for (uint64_t r = mix(brnd + t); !end; r = mix(r)) {
            CallP c = make(r);
            { std::lock_guard<std::mutex> l(back_mu); background.push_back(c); }
            c->run(chan.get());
            nap(1e-4 * (mix(r + 9) % 50));
        }
    });
    if (nback) d += fmt(" (%d threads)", nback);
    std::vector<CallP> pending;
    int ops = 3 + s.draw(11), downs = 0, ups = 0, adds = 0, removes = 0, fails = 0, settled = 0;
    auto settle = [&](bool all_used) {
        if (!usable()) {
            CallP c = make(s.seed());
            c->run(chan.get());
            PBT_CHECK(judge(c) < 0, "a call succeeded without a usable server");
            if (!listed()) PBT_CHECK(c->cntl.ErrorCode() == 13, "a call on a channel without servers %s", c->outcome().c_str());
            x.label("no usable server");
            d += " none";
            return;
        }
        int max_calls = 4 * (n + (int)bad.size()) + 6 + 60 * nback, streak = 0, need = n + 2;
        for (int i = 0; i < max_calls && streak < need; ++i) { if (one(s.chance(50)) >= 0) ++streak; else { streak = 0; ++fails; } }
        PBT_CHECK(streak >= need, "%d of %d listed servers are reachable, but still calls fail after %d calls", usable(), listed(), max_calls);
        for (int i = 0; i < 4; ++i) PBT_CHECK(one(s.chance(50)) >= 0, "a call fails with %d reachable servers after the failures were noticed: %s", usable(), all.back()->outcome().c_str());
        ++settled;
        if (all_used) {
            std::set<int> used;
            double t0 = now_s();
            while ((int)used.size() < usable() && now_s() - t0 < 20) { int at = one(false); if (at >= 0) used.insert(at); if ((int)used.size() < usable()) nap(0.01); }
            string l;
            for (int i = 0; i < n; ++i) if (peers[i]->usable() && !used.count(i)) l += peers[i]->name + " ";
            PBT_CHECK((int)used.size() == usable(), "reachable servers get no calls: %s", l.c_str());
            d += " all-used";
        } else d += " settled";
    };
    for (int i = 0; i < ops; ++i) {
        switch (s.weighted({3, 2, 5, provided ? 5u : 0u, 3, 2})) {
        case 0: { int k = 1 + s.draw(4); for (int j = 0; j < k; ++j) if (one(s.chance(50)) < 0) ++fails; d += fmt(" call%d", k); break; }
        case 1: {
            int k = 1 + s.draw(9);
            for (int j = 0; j < k; ++j) { CallP c = make(s.seed()); c->go(chan); pending.push_back(c); }
            if (s.chance(60)) { for (auto& c : pending) judge(c); pending.clear(); }
            d += fmt(" burst%d", k);
            break;
        }
        case 2: {
            int k = s.draw(n - 1);
            Peer& p = *peers[k];
            if (p.named && !p.resolves && s.chance(70)) {
                p.resolves = true;
                known(p.name + ".test", true);
                ++ups;
                d += fmt(" %sknown", p.name.c_str());
                break;
            }
            State to = p.st == UP ? (s.chance(60) ? DOWN : SILENT) : p.st == DOWN ? (s.chance(75) ? UP : SILENT) : (s.chance(75) ? UP : DOWN);
            bool bounce = p.st == UP && s.chance(20);
            if (to == UP) ++ups; else ++downs;
            p.to(to);
            if (bounce) { p.to(UP); d += " bounce" + p.name; }
            else d += fmt(" %s%s", p.name.c_str(), to == UP ? "up" : to == DOWN ? "down" : "silent");
            break;
        }
        case 3: {
            std::vector<string> l;
            bool add = s.chance(50);
            std::vector<int> which;
            for (int k = 0; k < n; ++k) if (s.chance(40)) {
                l.push_back(peers[k]->addr());
                if (peers[k]->in() != add) which.push_back(k);
                if (s.chance(10)) l.push_back(l.back());
            }
            if (s.chance(10)) l.push_back("");
            if (!add && s.chance(10)) l.push_back("127.0.0.1:9");
            if (!add && bad.size() && s.chance(30)) { l.push_back(bad.back()); bad.pop_back(); }
            double t = now_s();
            if (add) {
                for (int k : which) { std::lock_guard<std::mutex> g(all_mu); peers[k]->member.push_back({t, 1e18}); }
                prov.h->OnAddressAdded(l);
                adds += which.size();
            } else {
                prov.h->OnAddressRemoved(l);
                t = now_s();
                for (int k : which) { std::lock_guard<std::mutex> g(all_mu); peers[k]->member.back().second = t; }
                removes += which.size();
            }
            d += add ? " +" : " -";
            for (int k : which) d += fmt("%d", k);
            break;
        }
        case 4: for (auto& c : pending) judge(c); pending.clear(); settle(s.chance(50)); break;
        default: nap(1e-3 * s.draw(150)); d += " pause";
        }
    }
    for (auto& c : pending) judge(c);
    pending.clear();
    settle(true);
    end = true;
    for (auto& t : th) t.join();
    th.clear();
    for (auto& c : background) judge(c);
    // the channel goes while calls are under way; the provider lives on
    int last = s.draw(6);
    for (int i = 0; i < last; ++i) { CallP c = make(s.seed()); c->go(chan); c->ch.reset(); pending.push_back(c); }
    if (s.chance(30)) nap(1e-3 * s.draw(30));
    chan.reset();
    if (provided) {
        std::vector<string> l;
        for (auto& p : peers) if (s.chance(60)) l.push_back(p->addr());
        if (s.chance(50)) prov.h->OnAddressRemoved(l); else prov.h->OnAddressAdded(l);
    }
    for (auto& c : pending) judge(c);
    cli.reset();
    x.note(d);
    if (fails) x.label("calls failed until it was noticed");
    if (ups) x.label("servers came back");
    if (adds + removes) x.label("address list changed");
    if (last) x.label("channel destroyed with calls under way");
    x.nontrivial(settled && (downs || ups) && (fails || adds + removes));
    grave().check();
}

// A server that was taken from the list while a call to it was under way, and added again, is used,
// whatever becomes of the call.
static void again(Src& s, Ctx& x) {
    exec_log().clear();
    int n = 2 + s.draw(2);
    std::vector<std::unique_ptr<TestServer>> srv;
    Provider prov;
    for (int i = 0; i < n; ++i) {
        srv.emplace_back(new TestServer());
        srv[i]->name = fmt("s%d", i);
        srv[i]->opt.work_thread_num = 2;
        srv[i]->opt.disable_builtin_services = true;
        PBT_CHECK(srv[i]->start(), "a server does not start");
        prov.first.push_back(srv[i]->addr());
    }
    RpcClient cli;
    ChanP chan(new RpcChannel(&cli, &prov));
    int again = 0;
    string d;
    {
        int k = n + s.draw(n);
        std::vector<CallP> mine;
        for (int i = 0; i < k; ++i) {
            CallP c = blank_call("Echo");
            c->q.set_never(true);
            c->cntl.SetTimeout(250);
            c->go(chan);
            mine.push_back(c);
        }
        if (!eventually([&] { int64_t m = 0; for (auto& v : srv) m += v->echo->never; return m >= k; }, 0.2)) pbt::discard("too slow");
        std::vector<string> l;
        for (int i = 0; i < n; ++i) if (s.chance(60)) { l.push_back(srv[i]->addr()); ++again; d += fmt(" %d", i); }
        if ((int)l.size() == n) { l.pop_back(); --again; }
        prov.h->OnAddressRemoved(l);
        if (s.chance(30)) nap(1e-3 * s.draw(20));
        prov.h->OnAddressAdded(l);
        d += fmt(" removed and added with %d calls under way;", k);
        for (int i = 0; i < n; ++i) if (std::find(l.begin(), l.end(), srv[i]->addr()) == l.end()) srv[i]->echo->release();
        for (auto& c : mine) PBT_CHECK(eventually([&] { return c->finished(); }, 20), "a call does not end");
        std::set<string> used;
        for (int i = 0; i < 3 * n; ++i) {
            CallP c = blank_call("Echo");
            c->cntl.SetTimeout(15000);
            c->run(chan.get());
            PBT_CHECK(!c->cntl.Failed(), "a call %s", c->outcome().c_str());
            used.insert(c->r.server());
        }
        for (int i = 0; i < n; ++i)
            if (std::find(l.begin(), l.end(), srv[i]->addr()) != l.end())
                PBT_CHECK(used.count(srv[i]->name), "a server that was added again gets no calls after a call from before failed (%d servers)", n);
    }
    x.note(fmt("%d servers:", n) + d);
    x.nontrivial(again > 0);
    chan.reset();
    for (auto& v : srv) v->echo->release();
    grave().check();
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C26";
    p.rule = "non-trivial: servers went down or up, calls failed or the address list changed, and calls succeeded again after that";
    p.subs = {{"history", history, 400, 30000}, {"again", again, 500, 20000}};
    p.workers = 24;
    p.case_timeout_s = 120;
    p.init = init;
    return pbt::run(argc, argv, p);
}
