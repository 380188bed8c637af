// LINK: -Wl,--wrap=usleep
// C25: a client that is shut down or destroyed ends all its calls and frees its resources, whatever they are doing.
#include "fake.h"
using namespace net;
using namespace sofa::pbrpc;
extern "C" int __real_usleep(useconds_t);
extern "C" int __wrap_usleep(useconds_t us) { return __real_usleep(us == 100000 ? 500 : us >= 800000 ? 20000 : us); }

static TestServer* g_srv;
static void init() {
    quiet();
    g_srv = new TestServer();
    g_srv->name = "live";
    if (!g_srv->start()) exit(3);
    Later::get().in(0, [] {});
    nap(0.02);
}
enum Kind { LIVE, SILENT, REFUSED, JAM, DYNAMIC };
static const char* kKind[] = {"live", "silent", "refusing", "unconnectable", "multi-server"};
struct Target { int kind; ChanP ch; };
struct Made { CallP c; int kind; bool short_to; bool before; };
static std::mutex g_mu;
static std::vector<Made>* g_made;

static CallP make_call(uint64_t rnd, const Target& t, bool before, bool sync, std::function<void(Call*)> on_done) {
    CallP c = std::make_shared<Call>();
    c->id = fresh_id();
    c->method = mix(rnd) & 1 ? "Echo" : "Reverse";
    c->q.set_id(c->id);
    c->q.set_data(Src::expand(mix(rnd + 1) % 3000, 1, rnd));
    if (mix(rnd + 2) % 2) c->q.set_delay_ms(mix(rnd + 3) % 40);
    bool st = mix(rnd + 4) % 5 == 0;
    c->cntl.SetTimeout(st ? 20 + mix(rnd + 5) % 200 : 90000);
    c->sync = sync;
    c->on_done = on_done;
    Made m = {c, t.kind, st, before};
    { std::lock_guard<std::mutex> l(g_mu); g_made->push_back(m); }
    return c;
}
// A finished call may make another one.
static void chain(int depth, uint64_t rnd, const std::vector<Target>& ts, Call*) {
    const Target& t = ts[mix(rnd) % ts.size()];
    if (t.kind == DYNAMIC) return;
    bool more = depth > 1 && mix(rnd + 9) % 2;
    CallP c = make_call(rnd + 1, t, false, false, more ? std::function<void(Call*)>([=, &ts](Call* k) { chain(depth - 1, rnd + 77, ts, k); }) : std::function<void(Call*)>());
    if (mix(rnd + 6) % 4 == 0) { c->q.clear_delay_ms(); if (t.kind == LIVE) { c->ch = t.ch; c->run(t.ch.get()); return; } }
    c->go(t.ch);
}

static void shutdown(Src& s, Ctx& c) {
    static std::vector<std::vector<Made>> graves;     // kept for a while, to see second completions
    std::vector<Made> made;
    g_made = &made;
    exec_log().clear();
    eventually([] { return g_srv->srv->ConnectionCount() == 0; }, 5);
    int fds = open_fds(), threads = threads_now();
    string d;
    {
        RpcClientOptions o;
        o.work_thread_num = 1 + s.draw(3);
        o.callback_thread_num = 1 + s.draw(2);
        o.connect_timeout = s.chance(50) ? -1 : 100 + (int)s.draw(900);
        if (s.chance(20)) { o.max_throughput_in = 1 + s.draw(3); o.max_throughput_out = 1 + s.draw(3); }
        if (s.chance(20)) o.keep_alive_time = 1;
        std::unique_ptr<RpcClient> cli(new RpcClient(o));
        std::vector<std::unique_ptr<Port>> ports;
        std::vector<std::unique_ptr<Listener>> lis;
        std::vector<std::unique_ptr<Conn>> jam;
        std::vector<Target> ts;
        int nt = 1 + s.draw(3);
        for (int i = 0; i < nt; ++i) {
            Target t;
            t.kind = s.weighted({4, 3, 2, 1, 2});
            if (t.kind == LIVE) t.ch.reset(new RpcChannel(cli.get(), g_srv->addr()));
            else {
                ports.emplace_back(new Port());
                Port& p = *ports.back();
                if (t.kind == SILENT || t.kind == JAM) {
                    lis.emplace_back(new Listener());
                    if (!lis.back()->start(p.num(), t.kind == JAM ? 0 : 128)) discard("cannot listen");
                }
                if (t.kind == JAM)
                    for (int k = 0; k < 3; ++k) {
                        int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
                        sockaddr_in a = addr_of(p.num());
                        if (::connect(fd, (sockaddr*)&a, sizeof(a)) != 0) {}
                        jam.emplace_back(new Conn(fd));
                    }
                if (t.kind == DYNAMIC) {
                    std::vector<string> list = {p.addr()};
                    if (s.chance(70)) list.push_back(g_srv->addr());
                    t.ch.reset(new RpcChannel(cli.get(), list));
                } else t.ch.reset(new RpcChannel(cli.get(), p.addr()));
            }
            d += string(kKind[t.kind]) + " ";
            c.label(kKind[t.kind]);
            ts.push_back(t);
        }
        int nbefore = s.logsize(16), nthreads = s.weighted({2, 2, 1, 1}), per = 1 + s.draw(20);
        int chains = s.chance(30) ? 1 + s.draw(2) : 0;
        uint64_t rnd = s.seed();
        auto body = [&](int i, int salt) {
            const Target& t = ts[mix(rnd + salt * 1000 + i) % ts.size()];
            uint64_t r = mix(rnd * 31 + salt * 997 + i);
            std::function<void(Call*)> f;
            if (chains && r % 3 == 0) f = [&ts, chains, r](Call* k) { chain(chains, r, ts, k); };
            make_call(r, t, salt == 0, mix(r + 8) % 6 == 0 && (salt == 0 || t.kind != DYNAMIC), f)->go(t.ch);
        };
        for (int i = 0; i < nbefore; ++i) body(i, 0);
        std::vector<std::thread> th;
        struct Joiner { std::vector<std::thread>& v; ~Joiner() { for (auto& t : v) if (t.joinable()) t.join(); } } joiner = {th};
        for (int k = 1; k <= nthreads; ++k) th.emplace_back([&, k] { for (int i = 0; i < per; ++i) { body(i, k); if (mix(rnd + k + i) % 3 == 0) nap(1e-5 * (mix(rnd + 5 * k + i) % 100)); } });
        unsigned w = s.weighted({2, 2, 2});
        double wait = w == 0 ? 0 : w == 1 ? s.draw(30) * 1e-4 : s.draw(60) * 1e-3;
        if (wait > 0) nap(wait);
        int how = s.weighted({3, 2, 2});
        d += fmt("| %d calls before, %d threads with %d calls, %s after %.4f s", nbefore, nthreads, per, how == 0 ? "shutdown" : how == 1 ? "two shutdowns" : "destroyed", wait);
        c.note(d);
        double t0 = now_s();
        if (how == 1) {
            std::thread other([&] { cli->Shutdown(); });
            cli->Shutdown();
            other.join();
        } else if (how == 0) cli->Shutdown();
        else cli.reset();
        double took = now_s() - t0;
        PBT_CHECK(took < 30, "the shutdown takes %.1f s", took);
        size_t open = 0;
        {
            std::lock_guard<std::mutex> l(g_mu);
            for (auto& m : made) {
                if (!m.before) continue;
                open += !m.c->finished() || m.c->t_done >= t0;
                if (!m.c->sync) PBT_CHECK(m.c->finished(), "an asynchronous call to a %s server is still outstanding after the shutdown", kKind[m.kind]);
            }
        }
        for (auto& t : th) t.join();
        PBT_CHECK(eventually([&] { std::lock_guard<std::mutex> l(g_mu); for (auto& m : made) if (!m.c->finished()) return false; return true; }, 30), "a call never ends after the shutdown");
        // afterwards
        size_t concurrent = made.size();
        if (cli) {
            if (s.chance(50)) cli->Shutdown();
            PBT_CHECK(cli->ConnectionCount() == 0, "%d connections after the shutdown", cli->ConnectionCount());
            if (s.chance(50)) { Target t = {LIVE, ChanP(new RpcChannel(cli.get(), g_srv->addr()))}; ts.push_back(t); c.label("channel made after the shutdown"); }
        }
        uint64_t served = exec_log().total();
        int late = s.draw(6);
        for (int i = 0; i < late; ++i) {
            const Target& t = ts[mix(rnd + 9999 + i) % ts.size()];
            if (t.kind == DYNAMIC && i) continue;
            CallP k = make_call(rnd + 4242 + i, t, false, i & 1, nullptr);
            double b = now_s();
            k->go(t.ch);
            PBT_CHECK(eventually([&] { return k->finished(); }, 30), "a call made after the shutdown never ends");
            PBT_CHECK(k->t_done - b < 10, "a call made after the shutdown ends after %.1f s", k->t_done - b);
            PBT_CHECK(k->cntl.Failed(), "a call made after the shutdown succeeds");
            if (t.kind != DYNAMIC) PBT_CHECK(k->cntl.ErrorCode() == RPC_ERROR_NOT_IN_RUNNING, "a call made after the shutdown %s", k->outcome().c_str());
        }
        (void)served;
        // what the others came to
        for (size_t i = 0; i < concurrent; ++i) {
            Made& m = made[i];
            m.c->join();
            int code = m.c->cntl.ErrorCode();
            if (!m.c->cntl.Failed()) {
                vtest::EchoResponse want;
                answer(m.c->method, "live", m.c->q, &want);
                PBT_CHECK(m.kind == LIVE || m.kind == DYNAMIC, "a call to a %s server succeeded", kKind[m.kind]);
                PBT_CHECK(same_msg(want, m.c->r), "a call succeeded with another response");
                c.label("call succeeded");
                continue;
            }
            c.label(m.c->t_done < t0 ? "call failed before" : fmt("ended by the shutdown: %d", code).c_str());
            if (m.c->t_done < t0 && m.kind == LIVE && o.keep_alive_time != 1) PBT_CHECK(m.short_to && code == RPC_ERROR_REQUEST_TIMEOUT, "a call to a live server failed before the shutdown: %s", m.c->outcome().c_str());
            bool ok = code == RPC_ERROR_CONNECTION_CLOSED || code == RPC_ERROR_CHANNEL_BROKEN || code == RPC_ERROR_NOT_IN_RUNNING || (code == RPC_ERROR_REQUEST_TIMEOUT && m.short_to) || (m.kind == DYNAMIC && code == RPC_ERROR_SERVER_UNAVAILABLE);
            PBT_CHECK(ok, "a call to a %s server around the shutdown: %s", kKind[m.kind], m.c->outcome().c_str());
        }
        for (auto& m : made) { m.c->join(); PBT_CHECK(m.c->done == 1, "a call completed %d times", m.c->done.load()); m.c->ch.reset(); m.c->on_done = nullptr; }
        c.nontrivial(open > 0 || nthreads > 0);
        if (open) c.label("calls open at the shutdown");
        ts.clear();
        cli.reset();
    }
    g_made = NULL;
    PBT_CHECK(eventually([&] { return open_fds() <= fds; }, 20), "%d descriptors stay open after the client is gone (was %d)", open_fds(), fds);
    PBT_CHECK(eventually([&] { return threads_now() <= threads; }, 20), "%d threads stay after the client is gone (was %d)", threads_now(), threads);
    graves.push_back(made);
    if (graves.size() > 20) graves.erase(graves.begin());
    for (auto& g : graves) for (auto& m : g) PBT_CHECK(m.c->done <= 1, "a call completed %d times", m.c->done.load());
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C25";
    p.rule = "one to four channels to live, silent, refusing or unconnectable servers or with several servers; up to 16 calls made before and up to 60 made by other threads or callbacks while the client is shut down (once, twice at the same time) or destroyed at a generated moment; then further calls, shutdowns and channels. "
             "Non-trivial: calls were outstanding at, or made during, the shutdown.";
    p.subs = {{"shutdown", shutdown, 1000, 45000}};
    p.init = init;
    p.recycle = 300;
    p.workers = 16;
    p.case_timeout_s = 150;
    return run(argc, argv, p);
}
