// LINK: -Wl,--wrap=usleep
// C19: throughput limits.
#include "fake.h"
#include <sofa/pbrpc/flow_controller.h>
using namespace net;
using namespace sofa::pbrpc;
NET_FAST_START

static std::atomic<double> g_late;
static void init() {
    quiet();
    Later::get().in(0, [] {});
    g_late = 0;
    std::thread([] {
        while (true) {
            double t = now_s();
            nap(0.02);
            double late = now_s() - t - 0.02, old = g_late;
            while (late > old && !g_late.compare_exchange_weak(old, late)) {}
        }
    }).detach();
    TestServer w;
    if (!w.start()) exit(3);
    { RpcClient c; RpcChannel ch(&c, w.addr()); CallP k = blank_call("Echo"); k->run(&ch); }
    nap(0.02);
}

// ---- the quota account
struct Account {                               // one direction of a flow controller
    FlowController& f;
    bool in;
    Account(FlowController& c, bool i) : f(c), in(i) {}
    int acquire(int n) { return in ? f.acquire_read_quota(n) : f.acquire_write_quota(n); }
    void recharge(int n) { if (in) f.recharge_read_quota(n); else f.recharge_write_quota(n); }
    void reset(bool none, int n) { if (in) f.reset_read_quota(none, n); else f.reset_write_quota(none, n); }
    bool has() const { return in ? f.has_read_quota() : f.has_write_quota(); }
};
static int amount(Src& s) { return s.chance(50) ? (int)s.range(1, 4096) : (int)s.range(1, 600000); }
static void quota(Src& s, Ctx& x) {
    int q0[2] = {(int)s.irange(-50000, 500000), (int)s.irange(-50000, 500000)};
    bool none[2] = {s.chance(15), s.chance(15)};
    FlowController f(none[1], q0[1], none[0], q0[0]);
    Account acc[2] = {Account(f, false), Account(f, true)};
    int64_t q[2] = {q0[0], q0[1]};
    string d = fmt("out %d in %d:", q0[0], q0[1]);
    int ops = 1 + s.draw(40), grants = 0, fails = 0;
    for (int i = 0; i < ops; ++i) {            // one thread: exactly as the model
        int k = s.draw(1);
        Account& a = acc[k];
        PBT_CHECK(a.has() == (none[k] || q[k] > 0), "has quota is %d with %lld left", a.has(), (long long)q[k]);
        switch (s.weighted({6, 3, 1})) {
        case 0: {
            int n = amount(s), r = a.acquire(n);
            if (none[k]) { PBT_CHECK(r > 0, "quota is refused without a limit"); break; }
            PBT_CHECK((r > 0) == (q[k] > 0), "quota is %s with %lld left", r > 0 ? "granted" : "refused", (long long)q[k]);
            if (r <= 0) { static thread_local int64_t last; last = r; PBT_CHECK(r == q[k], "the waiting token is %d instead of %lld", r, (long long)q[k]); (void)last; }
            if (q[k] > 0) { q[k] -= n; ++grants; } else { --q[k]; ++fails; }
            d += fmt(" %c-%d", "oi"[k], n);
            break;
        }
        case 1: {
            int n = amount(s);
            a.recharge(n);
            if (!none[k]) q[k] = q[k] > 0 ? n : q[k] + n;
            d += fmt(" %c+%d", "oi"[k], n);
            break;
        }
        default: {
            none[k] = s.chance(30);
            q[k] = amount(s);
            a.reset(none[k], (int)q[k]);
            d += fmt(" %c=%d", "oi"[k], none[k] ? -1 : (int)q[k]);
        }
        }
    }
    // several threads
    int k = s.draw(1), nt = 2 + s.draw(3), per = 50 + s.draw(400), plan = s.draw(2);
    Account& a = acc[k];
    int64_t start = plan == 0 ? s.irange(1, 1 << 28) : plan == 1 ? -(int64_t)s.irange(1000000, 1 << 28) : s.irange(1, 200000);
    int most = 1 + s.draw(300000);
    if (plan == 1) most = 1 + s.draw(200);
    a.reset(false, (int)start);
    std::atomic<int64_t> granted(0), failed(0), added(0);
    uint64_t rnd = s.seed();
    std::vector<std::thread> th;
    std::atomic<int> ready(0);
    for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
        ++ready;
        while (ready < nt) {}
        int64_t g = 0, b = 0, c = 0;
        for (int i = 0; i < per; ++i) {
            uint64_t r = mix(rnd + t * 1000 + i);
            int n = 1 + mix(r) % most;
            if (plan && r % 4 == 0) { a.recharge(n); c += n; continue; }
            if (a.acquire(n) > 0) g += n; else ++b;
        }
        granted += g; failed += b; added += c;
    });
    for (auto& t : th) t.join();
    int64_t left = a.acquire(0);
    d += fmt(" | %d threads plan %d from %lld: granted %lld refused %lld added %lld left %lld", nt, plan, (long long)start, (long long)granted, (long long)failed, (long long)added, (long long)left);
    if (plan == 0) PBT_CHECK(left == start - granted - failed, "of a quota of %lld, %lld are left after granting %lld and refusing %lld times", (long long)start, (long long)left, (long long)granted, (long long)failed);
    else if (plan == 1) { if (granted == 0) PBT_CHECK(left == start + added - failed, "a debt of %lld is %lld after adding %lld and refusing %lld times", (long long)-start, (long long)-left, (long long)added, (long long)failed); }
    else PBT_CHECK(granted <= start + added + most, "%lld were granted of %lld", (long long)granted, (long long)(start + added));
    if (plan == 2) PBT_CHECK(left > -(int64_t)most - failed - 1, "the debt is %lld, single requests were up to %d and %lld refused", (long long)-left, most, (long long)failed);
    x.label(fmt("threads plan %d", plan));
    x.note(d);
    x.nontrivial(grants && fails && granted + failed > 0);
}

// ---- traffic
struct Side {                                  // a limit over time in bytes per slice; -1: none
    std::vector<std::pair<double, int>> at;    // MB/s
    string name;
    int least() const { int l = 1 << 30; for (auto& a : at) if (a.second > 0) l = std::min(l, a.second); return l; }
    bool always() const { for (auto& a : at) if (a.second < 0) return false; return true; }
    // The most that may have been moved until t.
    double most(double t, double late, double biggest, int n_streams) const {
        double b = 0;
        for (size_t i = 0; i < at.size() && at[i].first < t; ++i) {
            double e = i + 1 < at.size() ? std::min(t, at[i + 1].first + late) : t;
            double slice = at[i].second * 1024.0 * 1024.0 / 10;
            b += slice * (std::floor((e - at[i].first + late) / 0.1) + 2) + (name[name.size() - 1] == 'n' ? 524288 : biggest);
            if (i) b += biggest * n_streams;
        }
        return b;
    }
};
static int mbs(Src& s) { return s.chance(60) ? -1 : (int)s.range(1, 8); }
static void traffic(Src& s, Ctx& x) {
    g_late = 0;
    static int turn = 0;
    ++turn;
    TestServer w;
    Side sin, sout;
    sin.name = "server in"; sout.name = "server out";
    bool at_server = s.chance(60);
    int si = at_server ? mbs(s) : -1, so = at_server ? mbs(s) : -1;
    if (at_server && si < 0 && so < 0) (s.chance(50) ? si : so) = (int)s.range(1, 8);
    w.opt.max_throughput_in = si;
    w.opt.max_throughput_out = so;
    w.opt.work_thread_num = 1 + s.draw(2);
    w.opt.io_service_pool_size = 1 + s.draw(1);
    w.opt.max_pending_buffer_size = 200;
    struct Cli { std::unique_ptr<RpcClient> c; ChanP ch; Side in, out; RpcClientOptions o; };
    int n = 1 + s.draw(2);
    std::vector<Cli> cl(n);
    int least = 1 << 30;
    if (si > 0) least = std::min(least, si);
    if (so > 0) least = std::min(least, so);
    string d = fmt("server %d/%d", si, so);
    for (auto& c : cl) {
        c.o.work_thread_num = c.o.callback_thread_num = 1;
        c.o.max_pending_buffer_size = 200;
        if (!at_server || s.chance(30)) { c.o.max_throughput_in = mbs(s); c.o.max_throughput_out = mbs(s); }
        if (c.o.max_throughput_in > 0) least = std::min(least, c.o.max_throughput_in);
        if (c.o.max_throughput_out > 0) least = std::min(least, c.o.max_throughput_out);
        d += fmt(" client %d/%d", c.o.max_throughput_in, c.o.max_throughput_out);
        c.in.name = "client in"; c.out.name = "client out";
    }
    if (least > 8) { cl[0].o.max_throughput_out = least = (int)s.range(1, 8); d += fmt(" (client 0 out %d)", least); }
    bool lift = s.chance(25), change = !lift && s.chance(30);
    if (lift) least = least * 3 / 2;
    double budget = least * 1048576.0 * (0.4 + 0.01 * s.draw(180)) / n;
    bool lim_q = si > 0, lim_r = so > 0;
    for (auto& c : cl) { lim_q = lim_q || c.o.max_throughput_out > 0; lim_r = lim_r || c.o.max_throughput_in > 0; }
    PBT_CHECK(w.start(), "no start");
    double t0 = now_s();
    sin.at.push_back({t0, si});
    sout.at.push_back({t0, so});
    // an idle server and client have nothing saved beyond a slice
    std::vector<std::vector<CallP>> calls(n);
    double biggest = 0, total = 0;
    std::mutex mu;
    struct Done { double t; int c; double q, r; };
    std::vector<Done> log;
    for (int i = 0; i < n; ++i) {
        Cli& c = cl[i];
        c.c.reset(new RpcClient(c.o));
        c.ch.reset(new RpcChannel(c.c.get(), w.addr()));
        double bytes = 0, all_bytes = 0;
        bool big = s.chance(60);
        while (bytes < budget && calls[i].size() < 200) {
            CallP k = blank_call("Echo");
            size_t a = (size_t)s.range(1, big ? 400000 : 60000), b = (size_t)s.range(1, big ? 400000 : 60000);
            if (s.chance(20)) a = 100;
            if (s.chance(20)) b = 100;
            k->q.set_data(Src::expand(a, 1, s.seed()));
            k->q.set_response_size((int)b);
            k->cntl.SetTimeout(200000);
            double qb = k->q.ByteSizeLong(), rb = b;
            k->on_done = [&mu, &log, i, qb, rb](Call* c) { if (c->cntl.Failed()) return; std::lock_guard<std::mutex> l(mu); Done e = {now_s(), i, qb, rb}; log.push_back(e); };
            biggest = std::max(biggest, std::max(qb, rb) + 200);
            bytes += lim_q && lim_r ? std::max(qb, rb) : lim_q ? qb : rb;
            all_bytes += qb + rb;
            calls[i].push_back(k);
        }
        total += all_bytes;
        c.in.at.push_back({now_s(), c.o.max_throughput_in});
        c.out.at.push_back({now_s(), c.o.max_throughput_out});
    }
    if (s.chance(50)) nap(1e-3 * s.draw(300));
    struct Joiner { std::vector<std::vector<CallP>>& v; ~Joiner() { for (auto& w : v) for (auto& k : w) if (k->started) { k->on_done = nullptr; } } };
    for (size_t j = 0, any = 1; any; ++j) {
        any = 0;
        for (int i = 0; i < n; ++i) if (j < calls[i].size()) { calls[i][j]->go(cl[i].ch); any = 1; }
    }
    auto all_done = [&] { for (auto& v : calls) for (auto& k : v) if (!k->finished()) return false; return true; };
    double begin = now_s(), changed = 0;
    if (lift || change) {
        nap(1e-3 * s.range(50, 700));
        bool midway = !all_done();
        if (at_server) {
            RpcServerOptions o = w.srv->GetOptions();
            auto to = [&](int old) { return old < 0 ? -1 : lift ? -1 : (int)s.range(1, 8); };
            o.max_throughput_in = to(si);
            o.max_throughput_out = to(so);
            w.srv->ResetOptions(o);
            sin.at.push_back({now_s(), o.max_throughput_in});
            sout.at.push_back({now_s(), o.max_throughput_out});
            d += fmt(" then server %d/%d", o.max_throughput_in, o.max_throughput_out);
        }
        for (auto& c : cl) if (c.o.max_throughput_in > 0 || c.o.max_throughput_out > 0) {
            RpcClientOptions o = c.c->GetOptions();
            auto to = [&](int old) { return old < 0 ? -1 : lift ? -1 : (int)s.range(1, 8); };
            o.max_throughput_in = to(c.o.max_throughput_in);
            o.max_throughput_out = to(c.o.max_throughput_out);
            c.c->ResetOptions(o);
            c.in.at.push_back({now_s(), o.max_throughput_in});
            c.out.at.push_back({now_s(), o.max_throughput_out});
            d += fmt(" then client %d/%d", o.max_throughput_in, o.max_throughput_out);
        }
        changed = now_s();
        if (midway) x.label(lift ? "lifted midway" : "changed midway");
    }
    bool over = eventually(all_done, 25 + total / 1e6);
    double end = now_s();
    d += fmt("; %d calls with %.0f KB (biggest %.0f KB) in %.2f s", (int)(calls[0].size() + (n > 1 ? calls[1].size() : 0)), total / 1024, biggest / 1024, end - begin);
    x.note(d);
    if (!over) {
        int open = 0;
        for (auto& v : calls) for (auto& k : v) open += !k->finished();
        for (auto& v : calls) for (auto& k : v) k->cntl.StartCancel();
        eventually(all_done, 10);
        PBT_CHECK(false, "%d calls are not over after %.0f s (%s)", open, end - begin, d.c_str());
    }
    nap(0.002);
    eventually([&] { std::lock_guard<std::mutex> l(mu); size_t c = 0; for (auto& v : calls) c += v.size(); return log.size() == c; }, 0.3);
    for (auto& v : calls) for (auto& k : v) {
        PBT_CHECK(!k->cntl.Failed(), "a call under a throughput limit %s", k->outcome().c_str());
        vtest::EchoResponse want;
        answer("Echo", "s", k->q, &want);
        PBT_CHECK(same_msg(k->r, want), "a response under a throughput limit is not the right one");
    }
    double late = g_late;
    if (lift && changed && late < 0.3) PBT_SOFT(end - changed < 5 + total / 4e6, "the calls end only %.1f s after the limit was lifted", end - changed);
    // bytes moved until each completion
    std::sort(log.begin(), log.end(), [](const Done& a, const Done& b) { return a.t < b.t; });
    std::vector<double> cq(n), cr(n);
    double q = 0, r = 0;
    int at_limit = 0;
    auto check = [&](const Side& sd, double t, double moved, int streams) {
        // a phase without limit: nothing to check from there on
        for (auto& a : sd.at) if (a.second < 0 && a.first < t) return;
        double most = sd.most(t, late, biggest, streams);
        if (moved > 0.3 * most) ++at_limit;
        PBT_SOFT(moved <= most, "%s: %.0f KB moved in %.2f s, the limit allows %.0f KB (%s)", sd.name.c_str(), moved / 1024, t - sd.at[0].first, most / 1024, d.c_str());
    };
    for (auto& e : log) {
        q += e.q; r += e.r; cq[e.c] += e.q; cr[e.c] += e.r;
        check(sin, e.t, q, n);
        check(sout, e.t, r, n);
        check(cl[e.c].out, e.t, cq[e.c], 1);
        check(cl[e.c].in, e.t, cr[e.c], 1);
    }
    if (at_server) x.label("limited at the server"); else x.label("limited at the client");
    x.nontrivial(at_limit > 0 || (lift && changed > 0));
    grave().check();
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C19";
    p.rule = "quota: amounts were granted and refused; traffic: more than 30% of what a limit allows was moved, or the limit was lifted";
    p.subs = {{"quota", quota, 20000, 1000000}, {"traffic", traffic, 220, 12000}};
    p.workers = 24;
    p.case_timeout_s = 200;
    p.init = init;
    return pbt::run(argc, argv, p);
}
