// LINK: -Wl,--wrap=usleep
// C05: many calls outstanding, answered by scripted servers in generated order, grouping and cuts, with late,
// duplicated and misdirected answers that carry other contents; every call must get its own answer.
#include "fake.h"
#include "zref.h"
using namespace net;
using namespace sofa::pbrpc;
NET_FAST_START

static std::vector<RpcClient*> g_cli;
static void init() {
    quiet();
    for (int i = 0; i < 2; ++i) {
        RpcClientOptions o;
        o.work_thread_num = i ? 4 : 1;
        o.callback_thread_num = i ? 3 : 1;
        g_cli.push_back(new RpcClient(o));
    }
}
struct Plan { CallP c; int srv; bool late; vtest::EchoResponse want; string mname; size_t extra; int misdirect; bool poisoned, asked; Asked a; int conn; };
struct Link { std::unique_ptr<Conn> k; int srv; };
static string poison(uint64_t seq, uint64_t id, uint64_t r) {
    vtest::EchoResponse m;
    m.set_id(id);
    m.set_text("poison");
    m.set_data(string(r % 200, 'P'));
    return r & 1024 ? raw_frame(failure_meta(seq, 1000, "poison"), "") : raw_frame(response_meta(seq), m.SerializeAsString());
}
static void matching(Src& s, Ctx& c) {
    int nsrv = 1 + s.weighted({3, 1, 1});
    std::vector<std::unique_ptr<Port>> ports;
    std::vector<std::unique_ptr<Listener>> lis;
    for (int i = 0; i < nsrv; ++i) {
        ports.emplace_back(new Port());
        lis.emplace_back(new Listener());
        if (!lis[i]->start(ports[i]->num())) discard("cannot listen");
    }
    int ncli = 1 + s.weighted({3, 1});
    std::vector<std::vector<ChanP>> ch(ncli);
    for (int i = 0; i < ncli; ++i) {
        RpcClient* cl = g_cli[ncli == 2 ? i : s.draw(1)];
        for (int j = 0; j < nsrv; ++j) ch[i].emplace_back(new RpcChannel(cl, ports[j]->addr()));
    }
    int n = 1 + s.logsize(40), nthreads = 1 + s.weighted({2, 2, 1, 1});
    bool lates = s.chance(12);
    size_t maxd = s.chance(80) ? 300 : 60000;
    std::vector<Plan> plan(n);
    std::map<uint64_t, int> by_id;
    int nlate = 0;
    static const char* ms[] = {"Echo", "Reverse", "Short.Echo"};
    for (int i = 0; i < n; ++i) {
        Plan& p = plan[i];
        p.late = lates && s.chance(40);
        p.mname = ms[p.late ? s.draw(1) : s.weighted({3, 2, 1})];
        p.c = new_call(s, p.mname, i % 8 ? std::min<size_t>(maxd, 2000) : maxd);
        p.srv = s.draw(nsrv - 1);
        p.extra = s.weighted({6, 2, 1});
        p.misdirect = s.chance(10) ? (int)s.draw(7) : -1;
        p.poisoned = p.asked = false;
        answer(p.mname, fmt("s%d", p.srv), p.c->q, &p.want);
        p.c->cntl.SetTimeout(p.late ? 20 + s.draw(60) : 60000);
        p.c->sync = s.chance(10) && n < 20;
        by_id[p.c->id] = i;
        nlate += p.late;
    }
    int order = s.weighted({2, 2, 2, 2});     // 0 as they come 1 last first 2 any order once all are there 3 any order at any time
    int group = s.weighted({2, 2, 1});        // whole frames, several in one piece, cut pieces
    uint64_t seed = s.seed();
    c.note(fmt("%d calls by %d threads, %d clients, %d servers, %d late, order %d, grouping %d", n, nthreads, ncli, nsrv, nlate, order, group));
    static const char* on[] = {"in order", "last first", "any order after all", "any order at once"};
    c.label(on[order]);
    if (nlate) c.label("late answers");
    std::vector<std::thread> th;
    for (int t = 0; t < nthreads; ++t)
        th.emplace_back([&, t] {
            for (int i = t; i < n; i += nthreads) {
                plan[i].c->go(ch[mix(seed + i) % ncli][plan[i].srv]);
                if (mix(seed ^ i) % 8 == 0) sched_yield();
            }
        });
    struct Joiner { std::vector<std::thread>& t; ~Joiner() { for (auto& x : t) if (x.joinable()) x.join(); } } joiner = {th};
    std::vector<Link> links;
    std::vector<int> pending;        // asked, to be answered
    std::vector<string> outbox;      // per link
    int asked = 0, answered = 0, normal = n - nlate;
    uint64_t step = 0;
    double until = now_s() + 40;
    auto rnd = [&] { return mix(seed * 31 + ++step); };
    auto flush = [&](size_t i) {
        string& o = outbox[i];
        size_t pos = 0;
        while (pos < o.size()) {
            size_t k = group == 2 ? 1 + rnd() % std::min<size_t>(o.size() - pos, rnd() % 4 ? 60 : 5000) : o.size() - pos;
            PBT_CHECK(links[i].k->send(o.data() + pos, k), "the client closed the connection or stopped reading");
            pos += k;
            if (group == 2 && rnd() % 3 == 0) nap(1e-5 * (rnd() % 20));
        }
        o.clear();
    };
    auto reply = [&](int i) {
        Plan& p = plan[i];
        string f = raw_frame(response_meta(p.a.seq), p.want.SerializeAsString());
        if (p.misdirect >= 0 && links.size() > 1 && ncli == 1) {
            size_t other = p.misdirect % links.size();
            if (other != (size_t)p.conn && links[other].srv != p.srv) {
                // another server, which may well have the same client: nobody there asked with this number ...
                bool used = false;
                for (auto& e : plan) used |= e.asked && e.conn == (int)other && e.a.seq == p.a.seq;
                bool all = asked == n;
                if (!used && all) { outbox[other] += poison(p.a.seq, p.c->id, rnd()); flush(other); c.label("misdirected answer"); }
            }
        }
        outbox[p.conn] += f;
        if (group == 0 || rnd() % 3 == 0) flush(p.conn);
        ++answered;
    };
    while (answered < normal || asked < n) {
        PBT_CHECK(now_s() < until, "%d of %d requests arrived, %d answered in 40 s", asked, n, answered);
        bool some = false;
        for (int j = 0; j < nsrv; ++j) {
            int fd = lis[j]->accept_fd(0);
            if (fd >= 0) { links.push_back(Link()); links.back().k.reset(new Conn(fd)); links.back().srv = j; outbox.push_back(""); some = true; }
        }
        for (size_t i = 0; i < links.size(); ++i) {
            links[i].k->pump(0);
            PBT_CHECK(!links[i].k->dead(), "the client closed a connection");
            Asked a;
            while (links[i].k->in.size() >= 24) {
                string keep = links[i].k->in;
                Frame f;
                if (take_frame(&keep, &f) != 1) break;
                if (!take_request(*links[i].k, &a, 0)) break;
                PBT_CHECK(by_id.count(a.id), "a request with unknown contents arrived");
                Plan& p = plan[by_id[a.id]];
                PBT_CHECK(!p.asked, "a request was sent twice");
                PBT_CHECK(p.srv == links[i].srv, "a request was sent to the wrong server");
                vtest::EchoRequest q;
                q.ParseFromString(a.data);
                PBT_CHECK(same_msg(q, p.c->q), "the request sent differs from the one given");
                for (auto& e : plan) PBT_CHECK(!(e.asked && e.conn == (int)i && e.a.seq == a.seq), "two requests on one connection with the sequence id %llu", (unsigned long long)a.seq);
                p.asked = true;
                p.a = a;
                p.conn = i;
                ++asked;
                some = true;
                if (!p.late) pending.push_back(by_id[a.id]);
            }
        }
        bool all = asked == n;
        while (!pending.empty()) {
            size_t k = 0;
            if (order == 0) k = 0;
            else if (order == 1) { if (!all) break; k = pending.size() - 1; }
            else if (order == 2) { if (!all) break; k = rnd() % pending.size(); }
            else { if (!all && rnd() % 3 == 0) break; k = rnd() % pending.size(); }
            int i = pending[k];
            pending.erase(pending.begin() + k);
            reply(i);
            some = true;
        }
        if (group != 0) for (size_t i = 0; i < outbox.size(); ++i) if (all || rnd() % 4 == 0) flush(i);
        if (!some) nap(0.0002);
    }
    for (size_t i = 0; i < outbox.size(); ++i) flush(i);
    for (auto& t : th) t.join();
    // answers to finished calls: must change nothing
    for (auto& p : plan) {
        PBT_CHECK(eventually([&] { return p.c->finished(); }, 30), "a call does not end although it was answered");
        p.c->join();
        if (p.late || p.extra)
            for (size_t k = 0; k < p.extra + p.late; ++k) { links[p.conn].k->send(poison(p.a.seq, p.c->id, rnd())); p.poisoned = true; }
    }
    // a last call over each link, behind those answers
    for (int i = 0; i < ncli; ++i)
        for (int j = 0; j < nsrv; ++j) {
            CallP f = blank_call("Echo");
            f->cntl.SetTimeout(60000);
            if (s.chance(50) && n > 0 && plan[0].c->finished()) {
                // the controller of a finished call, used again
                f = plan[0].c;
                if (f->cntl.Failed() == plan[0].late && (plan[0].late || same_msg(f->r, plan[0].want))) {
                    PBT_CHECK(f->done == 1, "a call completed %d times", f->done.load());
                    f->done = 0;
                    f->cntl.Reset();
                    f->cntl.SetTimeout(60000);
                    f->r.Clear();
                    f->method = "Echo";
                    plan[0].c = blank_call("Echo");      // takes no further part
                    plan[0].c->done = 1;
                    plan[0].mname = "";
                    c.label("controller used again");
                } else { f = blank_call("Echo"); f->cntl.SetTimeout(60000); }
            }
            f->sync = false;
            f->go(ch[i][j]);
            Asked a;
            int at = -1;
            PBT_CHECK(eventually([&] {
                int fd = lis[j]->accept_fd(0);
                if (fd >= 0) { links.push_back(Link()); links.back().k.reset(new Conn(fd)); links.back().srv = j; }
                for (size_t l = 0; l < links.size() && at < 0; ++l) {
                    links[l].k->pump(0);
                    string keep = links[l].k->in;
                    Frame fr;
                    if (links[l].srv == j && take_frame(&keep, &fr) == 1) { take_request(*links[l].k, &a, 0); at = l; }
                }
                return at >= 0;
            }, 20), "the last request does not arrive");
            PBT_CHECK(a.id == f->id, "the last request is another one");
            vtest::EchoResponse w;
            answer("Echo", "last", f->q, &w);
            links[at].k->send(raw_frame(response_meta(a.seq), w.SerializeAsString()));
            PBT_CHECK(eventually([&] { return f->finished(); }, 30), "the last call does not end");
            PBT_CHECK(!f->cntl.Failed() && same_msg(w, f->r), "the last call: %s %s", f->outcome().c_str(), show(f->r.ShortDebugString(), 200).c_str());
        }
    for (auto& p : plan) {
        if (p.mname.empty()) continue;
        PBT_CHECK(p.c->done == 1, "a call completed %d times", p.c->done.load());
        if (p.late) {
            PBT_CHECK(p.c->cntl.Failed() && p.c->cntl.ErrorCode() == RPC_ERROR_REQUEST_TIMEOUT, "a call not answered in time: %s", p.c->outcome().c_str());
        } else {
            PBT_CHECK(!p.c->cntl.Failed(), "an answered call: %s", p.c->outcome().c_str());
            PBT_CHECK(same_msg(p.c->r, p.want), "call %llu got %s instead of %s", (unsigned long long)p.c->id, show(p.c->r.ShortDebugString(), 200).c_str(), show(p.want.ShortDebugString(), 200).c_str());
        }
    }
    grave().check();
    c.nontrivial(n > 1 && (order || nlate));
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C05";
    p.rule = "one to 41 calls by up to four threads over one or two clients and one to three scripted servers that answer in order, in reverse or in any order, whole, grouped or cut, and add late, duplicate and misdirected answers with other contents. "
             "Non-trivial: at least two calls, answered out of order or late.";
    p.subs = {{"matching", matching, 14000, 800000}};
    p.init = init;
    p.recycle = 600;
    p.workers = 24;
    p.case_timeout_s = 150;
    return run(argc, argv, p);
}
