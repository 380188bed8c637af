// C31: mock channels answer with the registered mock method, and only while mocking is on.
#include "fake.h"
#include <sofa/pbrpc/mock_test_helper.h>
using namespace net;
using namespace sofa::pbrpc;

static TestServer* g_srv;
static RpcClient* g_client;
static void init() {
    quiet();
    g_srv = new TestServer();
    g_srv->name = "live";
    if (!g_srv->start()) exit(3);
    g_client = new RpcClient();
    Later::get().in(0, [] {});
}
// What a mock does, apart from what is in the request.
struct Mock {
    int tag;               // shown in the answer
    string full;           // name it was made for
    int act;               // 0 answer, 1 fail, 2 answer later from another thread, 3 fail later, 4 change the registry meanwhile
    string reason;
    std::atomic<int> runs;
    std::mutex mu;
    string seen_bad;       // what it saw that it should not have seen
    std::map<uint64_t, int> ids;
    MockMethodHookFunction* fn;
    std::function<void()> meanwhile;
    bool clears;           // what meanwhile does: clear, or register this mock as other
    string other;
    Mock() : tag(0), act(0), runs(0), fn(NULL), clears(false) {}
};
typedef google::protobuf::RpcController GC;
typedef google::protobuf::Message GM;
typedef google::protobuf::Closure Cl;
static string text_of(int tag, const vtest::EchoRequest& q) { return fmt("mock %d for %llu", tag, (unsigned long long)q.id()); }
static std::mutex g_expect_mu;
static std::map<const GM*, std::pair<Call*, string>> g_expect;       // request -> call, serialized request
static void run_mock(Mock* m, GC* c, const GM* q, GM* r, Cl* done) {
    ++m->runs;
    string bad;
    {
        std::lock_guard<std::mutex> l(g_expect_mu);
        auto i = g_expect.find(q);
        if (i == g_expect.end()) bad = "a request that is not the one given";
        else {
            Call* call = i->second.first;
            if (call->desc()->full_name() != m->full && (m->other.empty() || call->desc()->full_name() != m->other)) bad = "a call of " + call->desc()->full_name();
            else if (q->SerializeAsString() != i->second.second) bad = "another content of the request";
            else if (c != &call->cntl) bad = "another controller";
            else if (r != &call->r) bad = "another response";
        }
    }
    const vtest::EchoRequest* e = dynamic_cast<const vtest::EchoRequest*>(q);
    vtest::EchoResponse* a = dynamic_cast<vtest::EchoResponse*>(r);
    {
        std::lock_guard<std::mutex> l(m->mu);
        if (!bad.empty()) m->seen_bad = bad;
        if (e) ++m->ids[e->id()];
    }
    if (!e || !a) { done->Run(); return; }
    if (m->act == 4 && m->meanwhile) m->meanwhile();
    auto fin = [=] {
        a->set_id(e->id());
        a->set_data(e->data());
        a->set_text(text_of(m->tag, *e));
        if (m->act == 1 || m->act == 3) c->SetFailed(m->reason);
        done->Run();
    };
    if (m->act == 2 || m->act == 3) Later::get().in(0.001 * (e->id() % 7), fin);
    else fin();
}
static const std::vector<string> kMethods = {"Echo", "Reverse", "EchoT400", "EchoZip", "Short.Echo", "Short.EchoT900"};
static string full_name(const string& m) { return m.compare(0, 6, "Short.") == 0 ? "vtest.ShortService." + m.substr(6) : "vtest.EchoService." + m; }
static std::vector<std::shared_ptr<Mock>>* g_keep = new std::vector<std::shared_ptr<Mock>>();
static std::shared_ptr<Mock> make_mock(Src& s, const string& full) {
    static int tags = 0;
    auto m = std::make_shared<Mock>();
    m->tag = ++tags;
    m->full = full;
    m->act = (int)s.weighted({6, 3, 2, 1, 1});
    m->reason = s.chance(20) ? "" : s.str("ab <>\"\\:,%", 30);
    m->fn = NewPermanentExtClosure(&run_mock, m.get());
    g_keep->push_back(m);
    return m;
}
struct Chan { string addr; bool mock, real, inited; ChanP ch; };
static void expect(const CallP& c) {
    std::lock_guard<std::mutex> l(g_expect_mu);
    g_expect[&c->q] = {c.get(), c->q.SerializeAsString()};
}
static void reset_world() {
    SOFA_PBRPC_DISABLE_MOCK();
    SOFA_PBRPC_CLEAR_MOCK_METHOD();
    { std::lock_guard<std::mutex> l(g_expect_mu); g_expect.clear(); }
    exec_log().clear();
}
// every call finished; then the mocks of the case may go
static void retire() {
    for (auto& m : *g_keep) {
        { std::lock_guard<std::mutex> l(m->mu); PBT_CHECK(m->seen_bad.empty(), "the mock method of %s was given %s", m->full.c_str(), m->seen_bad.c_str()); }
        delete m->fn;
    }
    g_keep->clear();
}
static string failure_text(const string& reason) { return reason.empty() ? "RPC_ERROR_FROM_USER" : "RPC_ERROR_FROM_USER: " + reason; }
static void check_mocked(const CallP& c, const Mock& m) {
    if (m.act == 1 || m.act == 3) {
        PBT_CHECK(c->cntl.Failed() && c->cntl.ErrorCode() == RPC_ERROR_FROM_USER && c->cntl.ErrorText() == failure_text(m.reason),
                  "the mock method failed the call with %s, but the call %s", show(m.reason).c_str(), c->outcome().c_str());
    } else {
        PBT_CHECK(!c->cntl.Failed(), "the mock method of %s answered, but the call %s", m.full.c_str(), c->outcome().c_str());
        PBT_CHECK(c->r.id() == c->q.id() && c->r.data() == c->q.data() && c->r.text() == text_of(m.tag, c->q) && !c->r.has_server(),
                  "a call of %s has the response {%s} instead of that of mock method %d", m.full.c_str(), show(c->r.ShortDebugString(), 200).c_str(), m.tag);
    }
    PBT_CHECK(exec_log().get(c->id).empty(), "a call answered by a mock method also reached the server");
}
static void check_real(const CallP& c) {
    PBT_CHECK(!c->cntl.Failed(), "a call to the real server %s", c->outcome().c_str());
    vtest::EchoResponse want;
    answer(c->method, "live", c->q, &want);
    PBT_CHECK(same_msg(want, c->r), "a call of %s to the real server has the response {%s} instead of {%s}", c->method.c_str(), show(c->r.ShortDebugString(), 200).c_str(), show(want.ShortDebugString(), 200).c_str());
    PBT_CHECK(exec_log().get(c->id).size() == 1, "a call to the real server was run %zu times", exec_log().get(c->id).size());
}
static void wait_all(const std::vector<CallP>& v) {
    for (auto& c : v) PBT_CHECK(eventually([&] { return c->finished(); }), "a call of %s never ended", c->method.c_str());
    for (auto& c : v) c->join();
}

static void history(Src& s, Ctx& x) {
    reset_world();
    bool on = false, alters = false;
    std::map<string, std::shared_ptr<Mock>> reg;
    std::vector<Chan> chans;
    std::vector<CallP> all;
    int n = (int)s.range(3, 40), mocked = 0, real = 0, unreg = 0, off = 0, replaced = 0;
    string d;
    for (int i = 0; i < n; ++i) {
        switch (s.weighted({3, 5, 1, 4, 12})) {
        case 0:
            on = s.chance(70);
            if (on) SOFA_PBRPC_ENABLE_MOCK(); else SOFA_PBRPC_DISABLE_MOCK();
            d += on ? "on; " : "off; ";
            break;
        case 1: {
            // names that are no methods, or nearly those of methods, too
            string m = s.pick(kMethods), f = full_name(m);
            if (s.chance(15)) { f = s.pick<string>({f + "x", "." + f, f.substr(0, f.size() - 1), m, "", "vtest.EchoService"}); x.label("odd name registered"); }
            auto k = make_mock(s, f);
            if (k->act == 4) {
                bool clr = s.chance(50);
                string other = full_name(s.pick(kMethods));
                Mock* self = k.get();
                k->meanwhile = [=] { if (clr) SOFA_PBRPC_CLEAR_MOCK_METHOD(); else SOFA_PBRPC_REGISTER_MOCK_METHOD(other, self->fn); };
                k->clears = clr;
                if (!clr) k->other = other;
                alters = true;
            }
            if (reg.count(f)) { ++replaced; x.label("replaced"); }
            SOFA_PBRPC_REGISTER_MOCK_METHOD(f, k->fn);
            reg[f] = k;
            PBT_CHECK(MockTestHelper::GlobalInstance()->GetMockMethod(f) == k->fn, "the registered mock method of %s is not the last one given", show(f).c_str());
            d += fmt("register %s as %d; ", f.c_str(), k->tag);
            break;
        }
        case 2:
            SOFA_PBRPC_CLEAR_MOCK_METHOD();
            for (auto& e : reg) PBT_CHECK(MockTestHelper::GlobalInstance()->GetMockMethod(e.first) == NULL, "%s is still registered after clearing", e.first.c_str());
            reg.clear();
            d += "clear; ";
            break;
        case 3: {
            Chan c;
            int k = (int)s.weighted({6, 4, 1});
            c.real = k == 1;
            if (k == 0) c.addr = "/mock/" + s.str("ab:/. 1", 10);
            else if (k == 1) c.addr = g_srv->addr();
            else c.addr = s.pick<string>({"/mock", "mock/x:1", "x/mock/y"});
            RpcChannelOptions o;
            bool late = s.chance(20);
            o.create_with_init = !late;
            c.ch.reset(new RpcChannel(g_client, c.addr, o));
            if (late) {
                if (s.chance(30)) { on = !on; if (on) SOFA_PBRPC_ENABLE_MOCK(); else SOFA_PBRPC_DISABLE_MOCK(); }
                bool ok = ((RpcChannel*)c.ch.get())->Init();
                PBT_CHECK(ok == (c.real || (on && k == 0)), "Init() of a channel to %s with mocking %s returned %d", show(c.addr).c_str(), on ? "on" : "off", ok);
            }
            c.mock = on && k == 0;
            chans.push_back(c);
            d += fmt("channel %s; ", show(c.addr).c_str());
            break;
        }
        default: {
            if (chans.empty()) break;
            const Chan& ch = chans[s.draw(chans.size() - 1)];
            // a channel of a mock address made while mocking was off: no claim for when it is on
            bool fuzzy = !ch.mock && !ch.real && on;
            int burst = !alters && s.chance(20) ? (int)s.range(2, 8) : 1;
            std::vector<CallP> v;
            for (int b = 0; b < burst; ++b) {
                CallP c = new_call(s, s.pick(kMethods), 3000);
                c->sync = s.chance(50);
                c->cntl.SetTimeout(60000);
                expect(c);
                v.push_back(c);
                all.push_back(c);
                d += "call; ";
                c->go(ch.ch);
            }
            wait_all(v);
            for (auto& c : v) {
                auto r = reg.find(full_name(c->method));
                if (ch.real) { check_real(c); ++real; continue; }
                PBT_CHECK(exec_log().get(c->id).empty(), "a call on a channel to %s reached the server", show(ch.addr).c_str());
                if (fuzzy) continue;
                if (!on) {
                    ++off;
                    PBT_CHECK(c->cntl.Failed() && c->cntl.ErrorCode() == RPC_ERROR_RESOLVE_ADDRESS, "with mocking off, a call on a channel to %s %s", show(ch.addr).c_str(), c->outcome().c_str());
                } else if (r == reg.end()) {
                    ++unreg;
                    PBT_CHECK(c->cntl.Failed() && c->cntl.ErrorCode() == RPC_ERROR_FOUND_METHOD, "a call of %s, not registered as mock method, %s", c->method.c_str(), c->outcome().c_str());
                } else {
                    ++mocked;
                    check_mocked(c, *r->second);
                    std::lock_guard<std::mutex> l(r->second->mu);
                    PBT_CHECK(r->second->ids[c->id] == 1, "the mock method of %s ran %d times for one call", c->method.c_str(), r->second->ids[c->id]);
                    if (r->second->act == 4) {
                        x.label("registry changed by a mock method");
                        auto m = r->second;
                        if (m->clears) reg.clear(); else reg[m->other] = m;
                    }
                }
            }
            break;
        }
        }
    }
    // no mock ran without a call that was due to it
    int runs = 0;
    for (auto& m : *g_keep) runs += m->runs;
    PBT_CHECK(runs == mocked, "%d calls were due to mock methods, but they ran %d times", mocked, runs);
    grave().check();
    x.note(d);
    if (mocked) x.label("mocked");
    if (real) x.label("real server");
    if (unreg) x.label("not registered");
    if (off) x.label("mocking off");
    if (mocked && (unreg || off || replaced)) x.nontrivial();
    reset_world();
    retire();
}

// Threads that call while the registry changes: each call is answered by a mock that was registered for
// its name at some moment of the call, or fails as not registered if there was such a moment.
static void threads(Src& s, Ctx& x) {
    reset_world();
    SOFA_PBRPC_ENABLE_MOCK();
    int nm = (int)s.range(1, 3), callers = (int)s.range(1, 3), changes = (int)s.range(5, 60), per = (int)s.range(5, 60);
    std::vector<std::vector<std::shared_ptr<Mock>>> mocks(nm);
    std::map<string, std::shared_ptr<Mock>> by_text;
    for (int i = 0; i < nm; ++i) for (int k = 0; k < 3; ++k) {
        auto m = make_mock(s, full_name(kMethods[i]));
        if (m->act == 4) m->act = 0;
        m->reason = fmt("reason of %d", m->tag);
        mocks[i].push_back(m);
        by_text[fmt("%d", m->tag)] = m;
    }
    // a log of the registry: state per name, with the version when it began
    std::mutex mu;
    struct State { double from; Mock* m; };
    std::vector<std::vector<State>> hist(nm);
    for (int i = 0; i < nm; ++i) hist[i].push_back({now_s(), NULL});
    uint64_t rnd = s.seed();
    bool with_clear = s.chance(60);
    std::thread changer([&] {
        for (int j = 0; j < changes; ++j) {
            uint64_t r = mix(rnd + j);
            // the change takes place between the two times noted
            if (with_clear && r % 5 == 0) {
                double t = now_s();
                std::lock_guard<std::mutex> l(mu);
                SOFA_PBRPC_CLEAR_MOCK_METHOD();
                for (int i = 0; i < nm; ++i) hist[i].push_back({t, NULL});
            } else {
                int i = (int)(r / 8 % nm);
                Mock* m = mocks[i][r / 64 % 3].get();
                double t = now_s();
                std::lock_guard<std::mutex> l(mu);
                SOFA_PBRPC_REGISTER_MOCK_METHOD(m->full, m->fn);
                hist[i].push_back({t, m});
            }
            if (r % 3) nap(1e-5 * (r / 4096 % 40));
        }
    });
    ChanP ch(new RpcChannel(g_client, "/mock/t", RpcChannelOptions()));
    std::vector<std::vector<CallP>> calls(callers);
    std::vector<std::vector<double>> begun(callers);
    for (int t = 0; t < callers; ++t) for (int k = 0; k < per; ++k) {
        CallP c = blank_call(kMethods[mix(rnd ^ (t * 1000 + k)) % nm]);
        c->q.set_data(fmt("%d.%d", t, k));
        c->sync = false;
        expect(c);
        calls[t].push_back(c);
    }
    std::vector<std::thread> th;
    for (int t = 0; t < callers; ++t) th.push_back(std::thread([&, t] {
        for (auto& c : calls[t]) {
            if (mix(c->id ^ rnd) % 2) c->run(ch.get()); else { c->go(ch); if (mix(c->id) % 2) eventually([&] { return c->finished(); }); }
        }
    }));
    for (auto& t : th) t.join();
    changer.join();
    int due[2] = {0, 0};
    for (auto& v : calls) {
        wait_all(v);
        for (auto& c : v) {
            int i = (int)(std::find(kMethods.begin(), kMethods.end(), c->method) - kMethods.begin());
            // which mock decided it
            Mock* by = NULL;
            for (auto& m : mocks[i]) { std::lock_guard<std::mutex> l(m->mu); int k = m->ids.count(c->id) ? m->ids[c->id] : 0; PBT_CHECK(k <= 1 && (!k || !by), "two mock methods ran for one call"); if (k) by = m.get(); }
            if (by) { check_mocked(c, *by); ++due[0]; }
            else { PBT_CHECK(c->cntl.Failed() && c->cntl.ErrorCode() == RPC_ERROR_FOUND_METHOD, "a call for which no mock method ran %s", c->outcome().c_str()); ++due[1]; }
            bool ok = false;
            for (size_t k = 0; k < hist[i].size() && !ok; ++k) {
                // in force from its beginning until the next change was surely made (its end is not noted, so until the one after)
                double until = k + 2 < hist[i].size() ? hist[i][k + 2].from : 1e300;
                if (hist[i][k].m == by && hist[i][k].from <= c->t_done && until >= c->t_start) ok = true;
            }
            PBT_CHECK(ok, "a call of %s was %s, which was not so at any moment of the call", c->method.c_str(), by ? fmt("answered by mock method %d", by->tag).c_str() : "not answered by any mock method");
        }
    }
    grave().check();
    if (due[0]) x.label("mocked");
    if (due[1]) x.label("not registered");
    if (due[0] && callers * per >= 10) x.nontrivial();
    x.note(fmt("%d callers, %d calls each, %d changes: %d mocked, %d not registered", callers, per, changes, due[0], due[1]));
    reset_world();
    retire();
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C31";
    p.rule = "history: switching mocking on and off, registering, replacing and clearing mock methods (also under odd names), channels to mock addresses, to a real server and to addresses that only look like mock ones, calls alone and in bursts; every mock method notes what it is given. "
             "Non-trivial: at least one call answered by a mock method, and one not registered, one with mocking off or a replaced mock. threads: callers on several threads while the registry changes; non-trivial: 10 calls and more, some answered by mock methods.";
    p.subs = {{"history", history, 4000, 300000}, {"threads", threads, 1500, 100000}};
    p.workers = 16;
    p.init = init;
    p.case_timeout_s = 60;
    return pbt::run(argc, argv, p);
}
