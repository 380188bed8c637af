// LINK: -Wl,--wrap=usleep
// C17: calls reach exactly the registered service and method; services made at run time, called by name.
#include "net.h"
#include "mini_json.h"
#include <google/protobuf/descriptor.h>
#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/dynamic_message.h>
using namespace net;
using namespace sofa::pbrpc;
NET_FAST_START
namespace pb = google::protobuf;

// A service description of its own pool, so that any set of names can be made.
struct Desc {
    std::unique_ptr<pb::DescriptorPool> pool;
    const pb::ServiceDescriptor* d;
    string name;
    std::vector<string> methods;
};
typedef std::shared_ptr<Desc> DescP;
static DescP make_desc(const string& full, const std::vector<string>& methods) {
    auto r = std::make_shared<Desc>();
    r->name = full;
    r->methods = methods;
    r->pool.reset(new pb::DescriptorPool());
    pb::FileDescriptorProto f;
    f.set_name("f.proto");
    size_t k = full.rfind('.');
    if (k != string::npos) f.set_package(full.substr(0, k));
    f.add_message_type()->set_name("Zq");
    auto* s = f.add_service();
    s->set_name(k == string::npos ? full : full.substr(k + 1));
    string q = k == string::npos ? ".Zq" : "." + full.substr(0, k) + ".Zq";
    for (auto& m : methods) { auto* e = s->add_method(); e->set_name(m); e->set_input_type(q); e->set_output_type(q); }
    const pb::FileDescriptor* fd = r->pool->BuildFile(f);
    if (!fd) discard("bad name " + full);
    r->d = fd->service(0);
    return r;
}
struct Ran { int tag; string method; uint64_t id; };
static std::mutex g_mu;
static std::map<uint64_t, std::vector<Ran>> g_ran;
struct Dyn : pb::Service {
    int tag;
    DescP desc;
    std::atomic<int>* dead;
    Dyn(int t, const DescP& d, std::atomic<int>* k) : tag(t), desc(d), dead(k) {}
    ~Dyn() { ++*dead; }
    const pb::ServiceDescriptor* GetDescriptor() override { return desc->d; }
    void CallMethod(const pb::MethodDescriptor* m, pb::RpcController*, const pb::Message* q, pb::Message* r, pb::Closure* done) override {
        const auto* e = static_cast<const vtest::EchoRequest*>(q);
        auto* a = static_cast<vtest::EchoResponse*>(r);
        bool mine = m->service() == desc->d;
        { std::lock_guard<std::mutex> l(g_mu); g_ran[e->id()].push_back({mine ? tag : -1, m->name(), e->id()}); }
        a->set_id(e->id());
        a->set_method(m->full_name());
        a->set_server(fmt("%d", tag));
        done->Run();
    }
    const pb::Message& GetRequestPrototype(const pb::MethodDescriptor*) const override { return vtest::EchoRequest::default_instance(); }
    const pb::Message& GetResponsePrototype(const pb::MethodDescriptor*) const override { return vtest::EchoResponse::default_instance(); }
};
struct Entry { int tag; DescP desc; bool owned; };
typedef std::map<string, Entry> Model;

static string part(Src& s) { return s.chance(80) ? s.pick<string>({"a", "b", "ab", "A", "S", "T", "M", "a1", "Echo"}) : "n" + s.str("abAB01_", 6); }
static string gen_service(Src& s) {
    string n = part(s);
    int k = (int)s.weighted({3, 5, 3, 1});
    for (int i = 0; i < k; ++i) n += "." + part(s);
    return n;
}
static std::vector<string> gen_methods(Src& s) {
    std::vector<string> v;
    int n = (int)s.weighted({1, 4, 4, 3, 2, 1});
    for (int i = 0; i < n; ++i) { string m = part(s); if (m != "Zq" && std::find(v.begin(), v.end(), m) == v.end()) v.push_back(m); }
    return v;
}
// A name to call: a registered one, or one that is near.
static string gen_name(Src& s, const std::vector<DescP>& ds) {
    string svc = ds.size() && s.chance(85) ? ds[s.draw(ds.size() - 1)]->name : gen_service(s), m;
    for (auto& d : ds) if (d->name == svc && d->methods.size() && s.chance(85)) m = s.pick(d->methods);
    if (m.empty()) m = part(s);
    string full = svc + "." + m;
    switch (s.weighted({12, 1, 1, 1, 1, 1, 1, 1, 1})) {
    case 1: full = "." + full; break;
    case 2: full += "."; break;
    case 3: full = svc + ".." + m; break;
    case 4: full = svc; break;
    case 5: full = m; break;
    case 6: { size_t i = s.draw(full.size() - 1); full[i] ^= 0x20; break; }
    case 7: { size_t i = s.draw(full.size() - 1); if (s.chance(50)) full.erase(i, 1); else full.insert(i, 1, s.pick<char>({'x', '.', '_', 'a'})); break; }
    case 8: full = s.chance(50) ? s.str("ab.SM/ ", 8) : s.any_bytes(8); break;
    default: break;
    }
    return full;
}
static const Entry* lookup(const Model& m, const string& full, string* method) {
    size_t k = full.rfind('.');
    if (k == string::npos) return NULL;
    auto i = m.find(full.substr(0, k));
    if (i == m.end()) return NULL;
    *method = full.substr(k + 1);
    auto& v = i->second.desc->methods;
    return std::find(v.begin(), v.end(), *method) == v.end() ? NULL : &i->second;
}
struct World {
    Model m;
    std::vector<DescP> descs;
    std::vector<std::shared_ptr<std::atomic<int>>> dead;
    std::vector<Dyn*> objs;
    std::vector<int> rest;             // not owned by the server
    int add(const DescP& d) { dead.push_back(std::make_shared<std::atomic<int>>(0)); objs.push_back(new Dyn((int)objs.size(), d, dead.back().get())); return (int)objs.size() - 1; }
};

static void history(Src& s, Ctx& x) {
    { std::lock_guard<std::mutex> l(g_mu); g_ran.clear(); }
    World w;
    Port port;
    RpcServerOptions o;
    o.work_thread_num = 1;
    o.disable_builtin_services = s.chance(30);
    std::unique_ptr<RpcServer> srv(new RpcServer(o));
    bool started = false;
    Conn bin, http;
    int n = (int)s.range(3, 40), good = 0, unknown = 0, malformed = 0, dup = 0, many = 0, over_http = 0;
    string d;
    for (int i = 0; i < n; ++i) {
        if (!started && (i >= 3 || s.chance(50))) { if (!srv->Start(port.addr())) discard("no start"); started = true; d += "start; "; }
        int op = (int)s.weighted({5, 10, 1, 1});
        if (!started && op != 0) op = 0;
        if (op == 0) {
            string name = w.descs.size() && s.chance(20) ? w.descs[s.draw(w.descs.size() - 1)]->name : gen_service(s);
            DescP dp;
            if (w.descs.size() && s.chance(5)) { dp = w.descs[s.draw(w.descs.size() - 1)]; name = dp->name; }
            else { dp = make_desc(name, gen_methods(s)); w.descs.push_back(dp); }
            int t = w.add(dp);
            bool own = s.chance(60), want = !w.m.count(name);
            bool got = srv->RegisterService(w.objs[t], own);
            PBT_CHECK(got == want, "registering service %s %s, but the name was %s", name.c_str(), got ? "succeeded" : "failed", want ? "free" : "taken");
            if (want) w.m[name] = {t, dp, own}; else ++dup;
            if (!want || !own) w.rest.push_back(t);
            if (d.size() < 1500) d += fmt("register %s{%zu}%s; ", name.c_str(), dp->methods.size(), want ? "" : " again");
        } else if (op == 2 && s.chance(20)) {
            many += (int)s.range(20, 300);                  // so many that they share places in any table
            uint64_t r = s.seed();
            for (int k = 0; k < many; ++k) {
                string name = fmt("%c%d.S%llu", 'a' + k % 26, k, (unsigned long long)(mix(r + k) % 1000));
                if (w.m.count(name)) continue;
                DescP dp = make_desc(name, {"M", fmt("M%d", k)});
                w.descs.push_back(dp);
                int t = w.add(dp);
                PBT_CHECK(srv->RegisterService(w.objs[t], true), "registering service %s under a free name failed", name.c_str());
                w.m[name] = {t, dp, true};
            }
            d += fmt("register %d more; ", many);
        } else if (op == 3 && s.chance(40)) {
            srv->Stop();
            bin.close_now();
            http.close_now();
            bool ok = false;
            for (int j = 0; j < 20 && !ok; ++j) { ok = srv->Start(port.addr()); if (!ok) nap(0.05); }
            if (!ok) discard("no restart");
            x.label("restart");
            d += "restart; ";
        } else {
            int cnt = many && s.chance(30) ? 40 : s.chance(20) ? (int)s.range(2, 8) : 1;
            bool use_http = s.chance(35);
            std::vector<string> names;
            std::vector<uint64_t> ids;
            string wire;
            Conn& k = use_http ? http : bin;
            for (int c = 0; c < cnt; ++c) {
                string name = gen_name(s, w.descs);
                if (use_http) { bool ok = !name.empty(); for (unsigned char ch : name) ok = ok && (isalnum(ch) || strchr("._-", ch)); if (!ok) continue; }
                // only one request at a time is certain to be answered in order over HTTP
                if (use_http && names.size()) break;
                uint64_t id = fresh_id();
                vtest::EchoRequest q;
                q.set_id(id);
                if (use_http) { ++over_http; string b = fmt("{\"id\":%llu}", (unsigned long long)id); wire += http_text("POST", "/" + name, "HTTP/1.1", {{"Content-Length", fmt("%zu", b.size())}}, b); }
                else wire += raw_frame(request_meta(names.size() + 1, name), q.SerializeAsString());
                names.push_back(name);
                ids.push_back(id);
            }
            if (names.empty()) continue;
            if (k.fd < 0) if (!k.open(port.num())) discard("cannot connect");
            PBT_CHECK(k.send(wire), "the server stopped reading");
            std::vector<bool> done(names.size());
            for (size_t c = 0; c < names.size(); ++c) {
                int code = 0;
                vtest::EchoResponse a;
                size_t which = c;
                if (use_http) {
                    Http h;
                    string why;
                    int r = 0;
                    k.until([&] { r = take_http(&k.in, &h, &why); return r != 0; });
                    PBT_CHECK(r > 0, "a request to /%s: %s", show(names[c]).c_str(), r < 0 ? why.c_str() : k.dead() ? "the connection was closed" : "no answer");
                    mj::Val v;
                    PBT_CHECK(mj::parse(h.body, &v), "the answer is not JSON: %s", show(h.body, 100).c_str());
                    if (v.t == mj::Val::STR) { PBT_CHECK(sscanf(v.s.c_str(), "ERROR: %d:", &code) == 1, "the answer is %s", show(v.s, 100).c_str()); }
                    else for (auto& e : v.o) { uint64_t u; if (e.first == "id" && mj::as_u64(e.second.s, &u)) a.set_id(u); if (e.first == "method") a.set_method(e.second.s); if (e.first == "server") a.set_server(e.second.s); }
                } else {
                    Frame f;
                    string why;
                    int r = 0;
                    k.until([&] { r = take_frame(&k.in, &f, &why); return r != 0; });
                    PBT_CHECK(r > 0, "a call of %s: %s", show(names[c]).c_str(), r < 0 ? why.c_str() : k.dead() ? "the connection was closed" : "no answer");
                    Fields m(f.meta);
                    which = m.n(2) - 1;
                    PBT_CHECK(which < names.size() && !done[which], "an answer to sequence id %llu", (unsigned long long)m.n(2));
                    if (m.n(200)) { code = (int)m.n(201); PBT_CHECK(code != 0, "a failure without a code"); }
                    else PBT_CHECK(a.ParseFromString(f.data), "the response does not parse");
                }
                done[which] = true;
                const string& name = names[which];
                string method;
                const Entry* e = lookup(w.m, name, &method);
                std::vector<Ran> ran;
                { std::lock_guard<std::mutex> l(g_mu); ran = g_ran[ids[which]]; }
                if (e) {
                    ++good;
                    PBT_CHECK(code == 0, "a call of %s, which is registered, failed with code %d", show(name).c_str(), code);
                    PBT_CHECK(ran.size() == 1, "a call of %s ran %zu methods", show(name).c_str(), ran.size());
                    PBT_CHECK(ran[0].tag == e->tag && ran[0].method == method, "a call of %s ran method %s of service object %d instead of %d", show(name).c_str(), ran[0].method.c_str(), ran[0].tag, e->tag);
                    PBT_CHECK(a.id() == ids[which] && a.method() == name && a.server() == fmt("%d", e->tag), "a call of %s was answered with {%s}", show(name).c_str(), a.ShortDebugString().c_str());
                } else {
                    bool bad = name.find('.') == string::npos;
                    if (bad) ++malformed; else ++unknown;
                    PBT_CHECK(ran.empty(), "a call of %s, which is not registered, ran method %s of service object %d", show(name).c_str(), ran[0].method.c_str(), ran[0].tag);
                    int want = bad && !use_http ? RPC_ERROR_PARSE_METHOD_NAME : RPC_ERROR_FOUND_METHOD;
                    PBT_CHECK(code == want || (!bad && code == RPC_ERROR_FOUND_SERVICE), "a call of %s, which is not registered, ended with code %d", show(name).c_str(), code);
                }
                if (d.size() < 1500) d += fmt("%s%s%s; ", use_http ? "/" : "", show(name, 40).c_str(), e ? "" : " (no)");
            }
        }
        int want = (int)w.m.size() + (started && !o.disable_builtin_services);
        PBT_CHECK(srv->ServiceCount() == want, "the server counts %d services, %d are registered", srv->ServiceCount(), want);
        for (auto& k : w.dead) PBT_CHECK(k->load() == 0, "a service was deleted while the server lives");
    }
    bin.close_now();
    http.close_now();
    srv.reset();
    for (auto& e : w.m) if (e.second.owned) PBT_CHECK(w.dead[e.second.tag]->load() == 1, "an owned service was deleted %d times with the server", w.dead[e.second.tag]->load());
    for (int t : w.rest) { PBT_CHECK(w.dead[t]->load() == 0, "a service that the server does not own was deleted"); delete w.objs[t]; }
    x.note(d);
    if (good) x.label("found");
    if (unknown) x.label("unknown name");
    if (malformed) x.label("malformed name");
    if (dup) x.label("name taken");
    if (many) x.label("hundreds of services");
    if (over_http) x.label("over HTTP");
    x.nontrivial(good >= 2 && (unknown || malformed) && w.m.size() >= 2);
}

// Services are registered while calls come in: a call made after the registration returned finds the service,
// one answered before it began does not.
static void threads(Src& s, Ctx& x) {
    { std::lock_guard<std::mutex> l(g_mu); g_ran.clear(); }
    World w;
    Port port;
    RpcServerOptions o;
    o.work_thread_num = (int)s.range(1, 3);
    std::unique_ptr<RpcServer> srv(new RpcServer(o));
    if (!srv->Start(port.addr())) discard("no start");
    int n = (int)s.range(2, 60), callers = (int)s.range(1, 3), per = (int)s.range(10, 80), regs = (int)s.range(1, 2);
    uint64_t rnd = s.seed();
    std::vector<std::atomic<double>> begun(n), ended(n);
    for (int i = 0; i < n; ++i) {
        begun[i] = ended[i] = 1e300;
        w.descs.push_back(make_desc(fmt("p%llu.S%d", (unsigned long long)(mix(rnd + i) % 50), i), {"M", "N"}));
    }
    std::vector<std::vector<int>> tags(regs);
    for (int r = 0; r < regs; ++r) for (int i = 0; i < n; ++i) tags[r].push_back(w.add(w.descs[i]));
    std::vector<std::atomic<int>> winners(n);
    for (auto& v : winners) v = 0;
    std::vector<std::atomic<int>> who(n);
    std::vector<std::thread> th;
    for (int r = 0; r < regs; ++r) th.push_back(std::thread([&, r] {
        for (int i = 0; i < n; ++i) {
            double t = now_s(), e = begun[i];
            while (t < e && !begun[i].compare_exchange_weak(e, t)) {}
            if (srv->RegisterService(w.objs[tags[r][i]], true)) { ++winners[i]; who[i] = tags[r][i]; }
            t = now_s(); e = ended[i];
            while (t < e && !ended[i].compare_exchange_weak(e, t)) {}
            if (mix(rnd ^ (i + 1000 * r)) % 3) nap(1e-6 * (mix(rnd ^ (i + 7)) % 300));
        }
    }));
    std::vector<string> errs(callers);
    std::vector<int> hits(callers), misses(callers);
    for (int c = 0; c < callers; ++c) th.push_back(std::thread([&, c] {
        Conn k;
        if (!k.open(port.num())) { errs[c] = "cannot connect"; return; }
        for (int j = 0; j < per; ++j) {
            int i = (int)(mix(rnd + 31 * c + 977 * j) % n);
            uint64_t id = fresh_id();
            vtest::EchoRequest q;
            q.set_id(id);
            double t0 = now_s();
            bool after = ended[i].load() <= t0;
            string name = w.descs[i]->name + (mix(id) & 1 ? ".M" : ".N");
            Frame f;
            int r = 0;
            if (!k.send(raw_frame(request_meta(j + 1, name), q.SerializeAsString()))) { errs[c] = "the connection was closed"; return; }
            k.until([&] { r = take_frame(&k.in, &f); return r != 0; });
            if (r <= 0) { errs[c] = "no answer to a call of " + name; return; }
            double t1 = now_s();
            Fields m(f.meta);
            bool failed = m.n(200), before = begun[i].load() >= t1;
            if (failed && after) { errs[c] = fmt("a call of %s after its registration failed with code %d", name.c_str(), (int)m.n(201)); return; }
            if (!failed && before) { errs[c] = fmt("a call of %s succeeded before its registration", name.c_str()); return; }
            vtest::EchoResponse a;
            if (!failed && (!a.ParseFromString(f.data) || a.method() != name || a.id() != id)) { errs[c] = fmt("a call of %s was answered with {%s}", name.c_str(), a.ShortDebugString().c_str()); return; }
            ++(failed ? misses : hits)[c];
        }
    }));
    for (auto& t : th) t.join();
    int hit = 0, miss = 0;
    for (int c = 0; c < callers; ++c) { PBT_CHECK(errs[c].empty(), "%s", errs[c].c_str()); hit += hits[c]; miss += misses[c]; }
    for (int i = 0; i < n; ++i) PBT_CHECK(winners[i] == 1, "%d registrations of one name succeeded", winners[i].load());
    PBT_CHECK(srv->ServiceCount() == n + 1, "the server counts %d services, %d are registered", srv->ServiceCount(), n + 1);
    srv.reset();
    for (int i = 0; i < n; ++i) for (int r = 0; r < regs; ++r) {
        int t = tags[r][i], want = t == who[i];
        PBT_CHECK(w.dead[t]->load() == want, "a service that was %s was deleted %d times", want ? "registered" : "refused", w.dead[t]->load());
        if (!want) delete w.objs[t];
    }
    x.note(fmt("%d services, %d registering threads, %d callers: %d found, %d not yet", n, regs, callers, hit, miss));
    x.nontrivial(hit > 0 && miss > 0);
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C17";
    p.rule = "history: services with generated (similar) names and methods registered before and after the start, twice, owned or not, sometimes hundreds; calls of registered, similar and malformed names in binary and HTTP form, alone and pipelined, over restarts. "
             "Non-trivial: two registered services, two calls found and one not. threads: calls while one or two threads register; non-trivial: some found and some not yet.";
    p.subs = {{"history", history, 8000, 300000}, {"threads", threads, 1500, 60000}};
    p.workers = 12;
    p.init = quiet;
    p.case_timeout_s = 90;
    return pbt::run(argc, argv, p);
}
