// LINK: -Wl,--wrap=usleep -Wl,--wrap=pthread_create -Wl,--wrap=accept
// C24: servers start, stop, restart and reconfigure cleanly, whatever the clients do meanwhile.
#include "fake.h"
#include <sofa/pbrpc/ext_closure.h>
#include <sofa/pbrpc/builtin_service.pb.h>
using namespace net;
using namespace sofa::pbrpc;
NET_FAST_START

// ---- injected failures
static thread_local int t_create_left = -1;            // thread creations left before one fails
extern "C" int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
extern "C" int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* p) {
    if (t_create_left == 0) { t_create_left = -1; return EAGAIN; }
    if (t_create_left > 0) --t_create_left;
    return __real_pthread_create(t, a, f, p);
}
static std::atomic<int> g_accept_errors(0);
extern "C" int __real_accept(int, sockaddr*, socklen_t*);
extern "C" int __wrap_accept(int fd, sockaddr* a, socklen_t* n) {
    int k = g_accept_errors;
    while (k > 0) if (g_accept_errors.compare_exchange_weak(k, k - 1)) {
        int real = __real_accept(fd, a, n);
        if (real < 0) { ++g_accept_errors; return real; }
        close(real);
        errno = EMFILE;
        return -1;
    }
    return __real_accept(fd, a, n);
}

static RpcClient* g_client;
static void init() { quiet(); RpcClientOptions o; o.work_thread_num = 1; o.callback_thread_num = 1; g_client = new RpcClient(o); Later::get().in(0, [] {}); Port none; RpcChannel ch(g_client, none.addr()); Call c; c.q.set_id(1); c.run(&ch); nap(0.02); }

static std::atomic<int> g_inits, g_dests, g_init_fail_at;      // the call of the init function that fails; 0: none
static bool on_init() { int n = ++g_inits; return n != g_init_fail_at; }
static void on_dest() { ++g_dests; }

struct World;
struct Events : RpcServer::EventHandler {
    World* w;
    explicit Events(World* x) : w(x) {}
    void NotifyAcceptFailed(RpcErrorCode code, const std::string&) override;
};
// The phase: 4 * n + 0 stopped, 1 starting, 2 serving, 3 stopping or otherwise changing.
struct World {
    RpcServerOptions opt;
    std::unique_ptr<RpcServer> srv;
    EchoImpl* echo;
    Port port, port2;
    std::atomic<int> cur;              // the port of the present or last start
    std::atomic<uint64_t> phase;
    std::atomic<int> in_body;
    std::atomic<int> accept_failed;
    std::atomic<bool> no_delay;        // no new calls that end after their method
    std::atomic<int> delayed;          // such calls being made
    Events* ev;
    World() : echo(NULL), cur(0), phase(0), in_body(0), accept_failed(0), no_delay(false), delayed(0), ev(NULL) {}
    void to(int p) { uint64_t v = phase; do ++v; while ((int)(v % 4) != p); phase = v; }
};
void Events::NotifyAcceptFailed(RpcErrorCode, const std::string&) {
    ++w->accept_failed;
}

static string http_get(Conn& k, const string& path) {
    if (!k.send(http_text("GET", path, "HTTP/1.1", {}, ""))) return "";
    Http a;
    int r = 0;
    k.until([&] { r = take_http(&k.in, &a); return r != 0; });
    if (r < 0) return "(malformed)";
    return r == 0 ? "" : a.status + "|" + a.body;
}
// One answered call on a raw connection: 1 correct, 0 the connection ended first, -1 wrong (why)
static int raw_call(Conn& k, World& w, uint64_t rnd, string* why) {
    static std::atomic<uint64_t> seq(1);
    uint64_t n = seq++;
    int kind = mix(rnd) % 6;
    if (kind == 5 && !w.opt.disable_builtin_services) {
        string a = http_get(k, "/status");
        if (a.empty()) { if (!k.dead()) { *why = "no answer to a request of the page /status"; return -1; } return 0; }
        if (a.find("HTTP/1.1 200 OK|") != 0 || a.find("connection_count") == string::npos) { *why = "the page /status is " + show(a, 200); return -1; }
        return 1;
    }
    bool health = kind == 4 && !w.opt.disable_builtin_services;
    vtest::EchoRequest q;
    vtest::EchoResponse want, got;
    string body, method;
    struct Hold { std::atomic<int>* n; ~Hold() { if (n) --*n; } } hold = {NULL};
    if (health) method = mix(rnd + 1) % 2 ? "sofa.pbrpc.builtin.BuiltinService.Health" : "sofa.pbrpc.builtin.BuiltinService.ServerStatus";
    else {
        q.set_id(fresh_id());
        q.set_data(Src::expand(mix(rnd + 2) % (mix(rnd + 3) % 8 ? 2000 : 200000), 1 + mix(rnd) % 3, rnd));
        if (kind == 1) { ++w.delayed; hold.n = &w.delayed; }
        if (kind == 1 && !w.no_delay) q.set_delay_ms(1 + mix(rnd + 4) % 15);
        string m = kind == 2 ? "Reverse" : "Echo";
        method = "vtest.EchoService." + m;
        answer(m, "s", q, &want);
        body = q.SerializeAsString();
    }
    if (!k.send(raw_frame(request_meta(n, method), body))) { if (k.dead()) return 0; *why = "the server takes no data"; return -1; }
    Frame f;
    string e;
    int r = 0;
    k.until([&] { r = take_frame(&k.in, &f, &e); return r != 0; });
    if (r < 0) { *why = "malformed answer: " + e; return -1; }
    if (r == 0) { if (k.dead()) return 0; *why = "no answer to a call of " + method; return -1; }
    Fields m(f.meta);
    if (!m.ok || m.n(2) != n) { *why = "the answer is to another call"; return -1; }
    if (m.n(200)) { *why = fmt("the call of %s failed: %d %s", method.c_str(), (int)m.n(201), m.s(202).c_str()); return -1; }
    if (health) return 1;
    if (!got.ParseFromString(f.data) || !same_msg(got, want)) { *why = "the response of " + method + " differs from the right one"; return -1; }
    return 1;
}
// A client thread.
struct Actor {
    World& w;
    uint64_t rnd;
    int style;
    std::atomic<bool>& end;
    string why;
    int good, lost;
    Actor(World& x, uint64_t r, int st, std::atomic<bool>& e) : w(x), rnd(r), style(st), end(e), good(0), lost(0) {}
    void run() {
        Conn k;
        uint64_t opened = ~0ull, good_at = ~0ull;
        ChanP chan;
        int chan_port = 0;
        while (!end && why.empty()) {
            rnd = mix(rnd + 1);
            uint64_t p0 = w.phase;
            int port = w.cur;
            if (style == 0) {                       // a connection per call
                Conn c;
                bool up = c.open(port);
                string y;
                int r = up ? raw_call(c, w, rnd, &y) : 0;
                uint64_t p1 = w.phase;
                judge(p0, p1, up, r, y, "a new connection");
                if (rnd % 3 == 0) c.reset_now();
            } else if (style == 1) {                // a connection kept
                if (k.dead() || port == 0) { opened = w.phase; port = w.cur; if (!k.open(port)) { uint64_t p1 = w.phase; if (p1 == opened && p1 % 4 == 2) why = "a serving server does not accept a connection"; nap(0.001); continue; } }
                p0 = opened;
                string y;
                int r = raw_call(k, w, rnd, &y);
                uint64_t p1 = w.phase;
                judge(p0, p1, true, r, y, "a kept connection");
                if (r != 1) k.close_now();
            } else if (style == 2) {                // connections without calls
                Conn c[3];
                for (auto& x : c) x.open(port);
                if (rnd % 2) for (auto& x : c) x.reset_now();
            } else {                                // a channel
                if (!chan || chan_port != port) { chan.reset(new RpcChannel(g_client, fmt("127.0.0.1:%d", port), RpcChannelOptions())); chan_port = port; good_at = ~0ull; }
                Call c;
                c.q.set_id(c.id = fresh_id());
                c.q.set_data(Src::expand(rnd % 3000, 1, rnd));
                c.cntl.SetTimeout(30000);
                c.run(chan.get());
                uint64_t p1 = w.phase;
                if (!c.cntl.Failed()) {
                    vtest::EchoResponse want;
                    answer("Echo", "s", c.q, &want);
                    if (!same_msg(c.r, want)) why = "a channel got a wrong response";
                    ++good;
                    if (p0 == p1) { good_at = p1; if (p1 % 4 == 0) why = "a channel got a response from a stopped server"; }
                } else {
                    if (p0 == p1 && p1 % 4 == 2 && good_at == p1) why = "a call of a channel failed though the server is serving: " + c.outcome();
                    if (c.cntl.ErrorCode() == RPC_ERROR_REQUEST_TIMEOUT) why = "a call of a channel got no answer for 30 s";
                    ++lost;
                }
            }
            if (rnd % 4 == 0) nap(1e-5 * (mix(rnd) % 300));
        }
    }
    void judge(uint64_t p0, uint64_t p1, bool up, int r, const string& y, const char* what) {
        if (r < 0) { why = string("on ") + what + ": " + y; return; }
        if (r == 1) ++good; else ++lost;
        if (p0 != p1) return;
        if (p1 % 4 == 2 && r == 0) why = fmt("%s %s though the server is serving all the time", what, up ? "was closed before the answer" : "is refused");
        if (p1 % 4 == 0 && up) why = fmt("%s is accepted by a stopped server", what);
    }
};

static void life(Src& s, Ctx& x) {
    PBT_CHECK(eventually([] { return g_client->ConnectionCount() == 0; }, 20), "connections of the client stay");
    exec_log().clear();
    int fds0 = open_fds(), threads0 = threads_now();
    g_inits = g_dests = g_init_fail_at = 0;
    g_accept_errors = 0;
    string d;
    int starts = 0, fails = 0, good = 0, lost = 0, stops = 0;
    std::unique_ptr<ExtClosure<bool()>> fi(NewPermanentExtClosure(&on_init));
    std::unique_ptr<ExtClosure<void()>> fd(NewPermanentExtClosure(&on_dest));
    {
        World w;
        w.opt.work_thread_num = 1 + (int)s.draw(3);
        w.opt.io_service_pool_size = 1 + s.draw(2);
        w.opt.disable_builtin_services = s.chance(15);
        if (s.chance(50)) w.opt.work_thread_init_func = fi.get();
        if (s.chance(50)) w.opt.work_thread_dest_func = fd.get();
        if (s.chance(20)) w.opt.max_throughput_in = (int)s.range(20000, 2000000);      // each read is charged with its whole buffer, so small limits stall storms of connections
        if (s.chance(20)) w.opt.max_throughput_out = 1 + (int)s.draw(100);
        if (s.chance(20)) w.opt.keep_alive_time = 1000;
        RpcServerOptions m = w.opt;
        int nthreads = w.opt.work_thread_num * (int)w.opt.io_service_pool_size;
        w.ev = new Events(&w);
        w.srv.reset(new RpcServer(w.opt, w.ev));
        w.echo = new EchoImpl("s");
        uint64_t body_seed = s.seed();
        int slow = s.chance(50) ? 1 + (int)s.draw(20) : 0;
        w.echo->hook = [&w, body_seed, slow](google::protobuf::RpcController*, const vtest::EchoRequest* q) {
            ++w.in_body;
            if (slow && mix(body_seed + q->id()) % 4 == 0) nap(1e-3 * (mix(q->id()) % slow));
            --w.in_body;
        };
        w.srv->RegisterService(w.echo);
        w.cur = w.port.num();
        std::atomic<bool> end(false);
        std::vector<std::unique_ptr<Actor>> actors;
        std::vector<std::thread> th;
        struct Joiner { std::atomic<bool>& e; std::vector<std::thread>& v; ~Joiner() { e = true; for (auto& t : v) if (t.joinable()) t.join(); } } joiner = {end, th};
        int na = (int)s.weighted({3, 3, 3, 2});
        uint64_t seed = s.seed();
        for (int i = 0; i < na; ++i) {
            actors.emplace_back(new Actor(w, mix(seed + i), (int)s.weighted({4, 3, 2, 2}), end));
            Actor* a = actors.back().get();
            th.emplace_back([a] { a->run(); });
        }
        threads0 = threads_now();
        Listener block;
        bool up = false;
        std::vector<std::unique_ptr<Conn>> held;
        int ops = (int)s.range(2, 16);
        d = fmt("%d io services with %d threads, %d clients:", (int)w.opt.io_service_pool_size, w.opt.work_thread_num, na);
        auto check_up = [&] {
            PBT_CHECK(w.srv->IsListening(), "a started server does not listen");
            Conn k;
            PBT_CHECK(k.open(w.cur), "a started server does not accept connections");
            string y;
            int r = raw_call(k, w, s.seed(), &y);
            PBT_CHECK(r == 1, "a started server does not answer: %s", r ? y.c_str() : "the connection was closed");
        };
        auto check_down = [&] {
            PBT_CHECK(!w.srv->IsListening(), "a stopped server says it listens");
            PBT_CHECK(w.srv->ConnectionCount() == 0, "a stopped server has %d connections", w.srv->ConnectionCount());
            Conn k;
            PBT_CHECK(!k.open(w.cur), "a stopped server accepts connections");
        };
        auto stop = [&] {
            w.to(3);
            double t0 = now_s();
            w.srv->Stop();
            double took = now_s() - t0;
            int bodies = w.in_body;
            uint64_t done = exec_log().total();
            { Listener l; PBT_CHECK(l.start(w.cur), "the port of a stopped server is not free"); }
            w.to(0);
            PBT_CHECK(bodies == 0, "a method is still running after Stop returned");
            PBT_CHECK(took < 20, "Stop took %.1f s", took);
            check_down();
            for (auto& k : held) PBT_CHECK(k->until_eof(), "a connection stays open after the server stopped");
            held.clear();
            PBT_CHECK(eventually([&] { return threads_now() == threads0; }, 20), "%d threads more after the stop than before the start", threads_now() - threads0);
            if (w.opt.work_thread_dest_func) PBT_CHECK(!w.opt.work_thread_init_func || g_dests == g_inits, "the work threads were initialised %d times and finished %d times", (int)g_inits, (int)g_dests);
            nap(s.chance(30) ? 0.003 : 0);
            PBT_CHECK(exec_log().total() == done, "a method was started after Stop returned");
            up = false;
            ++stops;
        };
        for (int i = 0; i < ops; ++i) {
            switch (s.weighted({8, 7, 3, 2, 4, 3, 1})) {
            case 0: {                                  // start
                int how = s.chance(65) ? 0 : (int)s.range(1, 4);
                string addr;
                int before_inits = g_inits, create = -1;
                if (!up) {
                    w.to(1);
                    w.cur = s.chance(70) ? w.port.num() : w.port2.num();
                    if (how == 1) { PBT_CHECK(block.start(w.cur), "cannot block the port"); }
                    if (how == 3) { if (w.opt.work_thread_init_func) g_init_fail_at = before_inits + 1 + (int)s.draw(nthreads - 1); else how = 0; }
                    if (how == 4) create = (int)s.draw(nthreads);
                }
                addr = fmt("%s:%d", s.pick({"127.0.0.1", "127.0.0.1", "0.0.0.0", "localhost"}), (int)w.cur);
                if (how == 2 && !up) addr = s.pick<string>({"", "127.0.0.1", fmt("127.0.0.1:x%d", (int)w.cur), "no such host:80"});
                t_create_left = create;
                bool ok = w.srv->Start(addr);
                t_create_left = -1;
                if (up) { PBT_CHECK(ok, "starting a started server failed"); d += " start-again"; break; }
                g_init_fail_at = 0;
                block.stop();
                if (how == 0) {
                    for (int k = 0; !ok && k < 20; ++k) { nap(0.05); ok = w.srv->Start(addr); }
                    PBT_CHECK(ok, "the start at %s failed", addr.c_str());
                    w.to(2);
                    up = true;
                    ++starts;
                    check_up();
                    PBT_CHECK(threads_now() == threads0 + nthreads + 1, "a started server has %d threads instead of %d", threads_now() - threads0, nthreads + 1);
                    if (w.opt.work_thread_init_func) PBT_CHECK(g_inits - before_inits == nthreads, "%d of %d work threads were initialised", g_inits - before_inits, nthreads);
                    d += " start";
                } else {
                    static const char* kWhy[] = {"", "with the port in use", "at a bad address", "with a failing start function", "without enough threads"};
                    PBT_CHECK(!ok, "a start %s succeeded", how == 2 ? ("at '" + addr + "'").c_str() : kWhy[how]);
                    w.to(0);
                    check_down();
                    PBT_CHECK(eventually([&] { return threads_now() == threads0; }, 20), "%d threads stay after a failed start %s", threads_now() - threads0, kWhy[how]);
                    ++fails;
                    x.label(fmt("start %s", kWhy[how]));
                    d += fmt(" (start %s)", kWhy[how]);
                }
                break;
            }
            case 1: {
                if (s.chance(30)) nap(1e-4 * s.draw(100));
                if (up) { stop(); d += " stop"; }
                else { w.srv->Stop(); check_down(); d += " stop-again"; }
                break;
            }
            case 2: {                                  // change options
                RpcServerOptions o = m;
                if (s.chance(60)) o.max_pending_buffer_size = (int)s.range(10, 1000);
                if (s.chance(60)) o.max_throughput_in = s.chance(40) ? -1 : (int)s.range(20000, 2000000);
                if (s.chance(60)) o.max_throughput_out = s.chance(40) ? -1 : (int)s.range(1, 100);
                if (s.chance(60)) o.keep_alive_time = s.chance(40) ? -1 : (int)s.range(100, 1000);
                if (s.chance(60)) o.max_connection_count = s.chance(40) ? -1 : (int)s.range(1000, 2000);
                w.srv->ResetOptions(o);
                m = o;
                RpcServerOptions g = w.srv->GetOptions();
                PBT_CHECK(g.max_pending_buffer_size == m.max_pending_buffer_size && g.max_throughput_in == m.max_throughput_in && g.max_throughput_out == m.max_throughput_out && g.keep_alive_time == m.keep_alive_time && g.max_connection_count == m.max_connection_count
                    && g.work_thread_num == m.work_thread_num && g.disable_builtin_services == m.disable_builtin_services, "the options are not the ones set");
                d += up ? " options" : " options-while-down";
                break;
            }
            case 3: {                                  // held connections
                if (!up) break;
                int n = 1 + (int)s.draw(3);
                for (int k = 0; k < n; ++k) {
                    held.emplace_back(new Conn());
                    PBT_CHECK(held.back()->open(w.cur), "a started server does not accept connections");
                    string y;
                    if (s.chance(50)) PBT_CHECK(raw_call(*held.back(), w, s.seed(), &y) == 1, "a started server does not answer: %s", y.c_str());
                    else { held.back()->send(s.pick<string>({"", "S", "SOFA", "GET / HTT"})); held.back()->total_in = 0; }
                }
                d += fmt(" hold(%d)", n);
                break;
            }
            case 4: if (up) check_up(); else check_down(); break;
            case 5: nap(1e-3 * s.draw(30)); d += " pause"; break;
            default: {                                 // accepting fails once
                if (!up || !s.chance(40)) break;
                w.to(3);
                int a0 = w.accept_failed;
                g_accept_errors = 1;
                Conn k;
                k.open(w.cur);
                PBT_CHECK(eventually([&] { if (w.accept_failed == a0 && g_accept_errors) { Conn z; z.open(w.cur); } return w.accept_failed > a0; }, 20), "the failure to accept is not notified");
                g_accept_errors = 0;
                if (s.chance(30)) { d += " accept-fails"; stop(); d += " stop"; x.label("stop after a failed accept"); break; }
                PBT_CHECK(eventually([&] { return w.srv->IsListening(); }, 20), "the server does not listen again after a failed accept");
                w.to(2);
                check_up();
                for (auto& h : held) { h->pump(0); PBT_CHECK(!h->dead() || !h->total_in, "a failed accept closed a connection that was in use"); }
                d += " accept-fails";
                x.label("accept failed");
                break;
            }
            }
            for (auto& a : actors) PBT_CHECK(a->why.empty(), "%s", a->why.c_str());
        }
        x.note(d);
        if (up && s.chance(60)) stop();
        bool destroy = up;
        // a server must live until the calls it has begun are done
        w.no_delay = true;
        if (up && s.chance(50)) { end = true; for (auto& t : th) t.join(); th.clear(); }
        PBT_CHECK(eventually([&] { return w.delayed == 0 && w.echo->running == 0 && w.echo->late == 0; }, 20), "a call never ends");
        if (up) w.to(3);
        w.srv.reset();
        end = true;
        for (auto& t : th) t.join();
        th.clear();
        if (destroy) x.label("destroyed while serving");
        for (auto& a : actors) { PBT_CHECK(a->why.empty(), "%s", a->why.c_str()); good += a->good; lost += a->lost; }
        threads0 -= na;
    }
    PBT_CHECK(eventually([] { return g_client->ConnectionCount() == 0; }, 20), "connections of the client stay after the server is gone");
    PBT_CHECK(eventually([&] { return threads_now() == threads0; }, 20), "%d threads stay after the server is gone", threads_now() - threads0);
    PBT_CHECK(eventually([&] { return open_fds() <= fds0; }, 20), "%d file descriptors stay after the server is gone", open_fds() - fds0);
    if (lost) x.label("calls lost in a stop");
    if (stops && starts > 1) x.label("restarted");
    x.nontrivial(starts + fails >= 2 && (good > 0 || lost > 0));
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C24";
    p.rule = "non-trivial: at least two starts (good or failing), with clients calling meanwhile";
    p.subs = {{"life", life, 1200, 40000}};
    p.workers = 16;
    p.init = init;
    p.case_timeout_s = 60;
    return run(argc, argv, p);
}
