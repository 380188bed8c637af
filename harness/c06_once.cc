// LINK: -Wl,--wrap=usleep
// C06: every call ends exactly once. Scripted servers fail at generated points of both byte streams (refuse, close,
// reset, half-close, stall, at any byte of the answers), racing with timeouts and shutdown of the client.
#include "fake.h"
using namespace net;
using namespace sofa::pbrpc;
NET_FAST_START

static RpcClient* g_cli;
static void init() {
    quiet();
    RpcClientOptions o;
    o.work_thread_num = 3;
    o.callback_thread_num = 2;
    g_cli = new RpcClient(o);
}
enum { CLOSE, RESET, HALF, STALL, SHUTDOWN, NONE };
static const char* kFault[] = {"close", "reset", "half-close", "stall", "client shutdown", "none"};
struct Item { CallP c; vtest::EchoResponse want; bool complete; double t_complete; int64_t timeout; bool seen; bool long_to; };
static void fault_points(Src& s, Ctx& c) {
    Port port;
    Listener lis;
    bool own = s.chance(25);
    std::unique_ptr<RpcClient> mine;
    if (own) {
        RpcClientOptions o;
        o.work_thread_num = 1 + s.draw(2);
        o.callback_thread_num = 1 + s.draw(1);
        mine.reset(new RpcClient(o));
    }
    RpcClient* cli = own ? mine.get() : g_cli;
    ChanP ch(new RpcChannel(cli, port.addr()));
    int phases = 1 + s.weighted({3, 2, 1});
    bool down = false;
    string d;
    bool interesting = false;
    double t_fault = 1e300;       // time of the first fault
    for (int ph = 0; ph < phases && !down; ++ph) {
        bool refuse = s.chance(10);
        // A fresh listener per phase: connections left in the old one's backlog die with it.
        lis.stop();
        if (refuse) t_fault = std::min(t_fault, now_s());
        else if (!lis.start(port.num())) discard("cannot listen");
        int n = 1 + s.logsize(9);
        int fault = s.weighted({3, 3, 3, 2, (unsigned)(own ? 4 : 0), 2});
        bool timeouts = fault == STALL || s.chance(10);
        std::vector<Item> it(n);
        size_t maxd = s.chance(85) ? 400 : 300000;
        for (int i = 0; i < n; ++i) {
            Item& e = it[i];
            e.c = new_call(s, s.chance(50) ? "Echo" : "Reverse", maxd);
            e.c->sync = s.chance(20);
            e.long_to = !timeouts || s.chance(20);
            e.timeout = e.long_to ? 90000 : 5 + s.draw(200);
            e.c->cntl.SetTimeout(e.timeout);
            e.complete = e.seen = false;
            e.t_complete = 0;
            answer(e.c->method, "f", e.c->q, &e.want);
        }
        int read_upto = s.chance(50) ? n : (int)s.draw(n);        // requests read before the fault
        int answers = s.chance(50) ? n : (int)s.draw(n);          // answers intended
        unsigned cutmode = s.weighted({3, 3, 2});                 // nothing cut, any byte, near an end
        uint64_t rnd = s.seed();
        double jitter = s.weighted({3, 1, 1}) == 0 ? 0 : 1e-4 * s.draw(2000) * (timeouts ? 1 : 0.05);
        d += fmt("[%s%d calls%s, %d read, %d answered, %s] ", refuse ? "refused, " : "", n, timeouts ? " with short timeouts" : "", read_upto, answers, kFault[fault]);
        c.label(refuse ? "refused" : kFault[fault]);
        if (timeouts) c.label("short timeouts");
        std::thread issuer;
        struct J { std::thread& t; ~J() { if (t.joinable()) t.join(); } } j = {issuer};
        bool threaded = s.chance(30);
        auto go = [&] { for (auto& e : it) e.c->go(ch); };
        if (threaded) issuer = std::thread(go); else go();
        auto all_done = [&] { for (auto& e : it) if (!e.c->finished()) return false; return true; };
        std::unique_ptr<Conn> k;
        if (!refuse) {
            int fd = -1;
            PBT_CHECK(eventually([&] { fd = lis.accept_fd(0.001); return fd >= 0 || all_done(); }, 30), "the client neither connects nor ends its calls");
            if (fd >= 0) k.reset(new Conn(fd));
        }
        string out;
        std::vector<std::pair<size_t, int>> ends;
        size_t written = 0;
        std::map<uint64_t, int> by_id;
        for (int i = 0; i < n; ++i) by_id[it[i].c->id] = i;
        if (k) {
            std::vector<std::pair<Asked, int>> got;
            double until = now_s() + 30;
            while ((int)got.size() < read_upto) {
                Asked a;
                if (!take_request(*k, &a, 0.005)) {
                    bool left = false;      // requests that may still come
                    for (auto& e : it) left |= !e.seen && !e.c->finished();
                    if (k->dead() || !left || (timeouts && now_s() > until - 29.5)) break;
                    PBT_CHECK(now_s() < until, "%zu of %d requests arrive", got.size(), n);
                    continue;
                }
                PBT_CHECK(by_id.count(a.id), "unknown request");
                Item& e = it[by_id[a.id]];
                PBT_CHECK(!e.seen, "a request was sent twice");
                e.seen = true;
                got.push_back({a, by_id[a.id]});
            }
            for (size_t i = 0; i < got.size() && (int)i < answers; ++i) {
                size_t x = i + mix(rnd + i) % (got.size() - i);
                std::swap(got[i], got[x]);
                out += raw_frame(response_meta(got[i].first.seq), it[got[i].second].want.SerializeAsString());
                ends.push_back({out.size(), got[i].second});
            }
            size_t limit = out.size();
            if (cutmode == 1 && limit) limit = mix(rnd ^ 5) % limit;
            if (cutmode == 2 && !ends.empty()) { size_t e = ends[mix(rnd ^ 6) % ends.size()].first, off = mix(rnd ^ 7) % 5; limit = std::min(out.size(), e + off > 2 ? e + off - 2 : 0); }
            if (jitter > 0) nap(jitter);
            size_t pos = 0;
            unsigned step = 0;
            while (pos < limit) {
                size_t m = std::min<size_t>(limit - pos, mix(rnd + ++step) % 3 ? 1 + mix(rnd * 3 + step) % 5000 : limit - pos);
                double t = now_s();
                for (auto& e : ends) if (e.first <= pos + m && !it[e.second].complete) { it[e.second].complete = true; it[e.second].t_complete = t; }
                if (!k->send(out.data() + pos, m)) { PBT_CHECK(k->dead() && (timeouts || all_done() || t_fault < 1e300), "the client closed a healthy connection"); break; }
                pos += m;
            }
            written = pos;
            interesting |= limit < out.size() || answers < n || read_upto < n;
            if (limit < out.size()) c.label("answer cut");
        }
        (void)written;
        if (fault == STALL)
            for (auto& e : it) if (!e.long_to) PBT_CHECK(eventually([&] { return e.c->finished(); }, 30), "a call with a timeout of %lld ms does not end while the server stalls", (long long)e.timeout);
        if (fault == NONE)
            for (auto& e : it) if (e.complete && k) PBT_CHECK(eventually([&] { return e.c->finished(); }, 30), "a call does not end although its answer was sent");
        t_fault = std::min(t_fault, now_s());
        if (fault == SHUTDOWN) { cli->Shutdown(); down = true; }
        if (k) {
            if (fault == RESET) k->reset_now();
            else if (fault == HALF) k->half_close();
            else if (fault != SHUTDOWN || mix(rnd) & 1) k->close_now();
        }
        // Calls issued after the fault may have made new connections: they all end the same way.
        auto finished = [&](Call* q) {
            int fd;
            while (lis.fd >= 0 && (fd = lis.accept_fd(0)) >= 0) Conn(fd).close_now();
            return q->finished();
        };
        for (auto& e : it) {
            PBT_CHECK(eventually([&] { return finished(e.c.get()); }, 30), "a call does not end after: %s%s", refuse ? "refused connection, " : "", kFault[fault]);
            e.c->join();
        }
        for (auto& e : it) {
            Call& q = *e.c;
            if (!q.cntl.Failed()) {
                PBT_CHECK(e.complete && q.t_done >= e.t_complete, "a call succeeded %s", e.complete ? "before its whole answer was sent" : "without a whole answer");
                PBT_CHECK(same_msg(q.r, e.want), "a call succeeded with another response");
                c.label("succeeded");
                continue;
            }
            int code = q.cntl.ErrorCode();
            if (code == RPC_ERROR_REQUEST_TIMEOUT) {
                PBT_CHECK(!e.long_to || down, "a call with a timeout of %lld ms timed out after %.3f s", (long long)e.timeout, q.t_done - q.t_start);
                PBT_CHECK(down || q.t_done - q.t_start >= e.timeout * 1e-3 - 0.002, "a call with a timeout of %lld ms timed out after %.3f s", (long long)e.timeout, q.t_done - q.t_start);
                c.label("timed out");
            } else {
                PBT_CHECK(code == RPC_ERROR_CONNECTION_CLOSED || code == RPC_ERROR_CHANNEL_BROKEN || (down && (code == RPC_ERROR_NOT_IN_RUNNING || code == RPC_ERROR_REQUEST_CANCELED)), "a call after %s: %s", kFault[fault], q.outcome().c_str());
                PBT_CHECK(q.t_done >= t_fault, "a call failed before there was any fault: %s", q.outcome().c_str());
                if (fault == NONE && ph == 0 && !refuse) PBT_CHECK(!e.complete, "a call failed although its whole answer was sent and the connection stayed: %s", q.outcome().c_str());
                c.label("failed with the connection");
            }
            PBT_CHECK(q.done == 1, "a call completed %d times", q.done.load());
        }
    }
    c.note(d);
    ch.reset();
    mine.reset();
    grave().check();
    c.nontrivial(interesting || down || d.find("refused") != string::npos || d.find("short") != string::npos);
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C06";
    p.rule = "one to three phases of one to ten calls (synchronous or not) against a scripted server that refuses, or reads some requests, sends the answers up to a generated byte and then closes, resets, half-closes, stalls, or has the client shut down; some calls have short timeouts. "
             "Non-trivial: a request or answer is missing or cut, the connection refused, the client shut down, or timeouts race with answers.";
    p.subs = {{"fault_points", fault_points, 7000, 500000}};
    p.init = init;
    p.recycle = 400;
    p.workers = 24;
    p.case_timeout_s = 150;
    return run(argc, argv, p);
}
