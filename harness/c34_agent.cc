// LINK: -Wl,--wrap=usleep
// EXTRA: sofa/pbrpc/http-agent/http_agent.cc
// C34: calls by name through the agent, with JSON or text requests and without compiled stubs.
#include "fake.h"
#include "gen_msg.h"
#include <google/protobuf/dynamic_message.h>
#include <google/protobuf/text_format.h>
#include <sofa/pbrpc/http-agent/http_agent.h>
using namespace net;
using namespace sofa::pbrpc;
NET_FAST_START
namespace pb = google::protobuf;
typedef http_agent::HttpAgent Agent;

static void init() {
    quiet();
    Later::get().in(0, [] {});
    TestServer w;
    if (!w.start()) exit(3);
    { RpcClient c; RpcChannel ch(&c, w.addr()); CallP k = blank_call("Echo"); k->run(&ch); }
    nap(0.02);
}
// A service of a schema made at run time: its only method gives back what it got
struct Made : pb::Service {
    const pb::ServiceDescriptor* d;
    pb::DynamicMessageFactory* f;
    std::atomic<int>* runs;
    Made(const pb::ServiceDescriptor* d, pb::DynamicMessageFactory* f, std::atomic<int>* r) : d(d), f(f), runs(r) {}
    const pb::ServiceDescriptor* GetDescriptor() override { return d; }
    void CallMethod(const pb::MethodDescriptor*, pb::RpcController*, const pb::Message* q, pb::Message* r, pb::Closure* done) override {
        ++*runs;
        r->CopyFrom(*q);
        if (q->ByteSizeLong() % 3 == 0) Later::get().in(1e-3 * (q->ByteSizeLong() % 5), [done] { done->Run(); });
        else done->Run();
    }
    const pb::Message& GetRequestPrototype(const pb::MethodDescriptor* m) const override { return *f->GetPrototype(m->input_type()); }
    const pb::Message& GetResponsePrototype(const pb::MethodDescriptor* m) const override { return *f->GetPrototype(m->output_type()); }
};
struct Schema {
    pb::DescriptorPool pool;
    pb::DynamicMessageFactory factory;
    std::vector<const pb::ServiceDescriptor*> services;
    std::vector<string> messages, enums;
    // Files that use one another's types
    explicit Schema(Src& s) {
        int nf = 1 + s.draw(2);
        for (int f = 0; f < nf; ++f) {
            pb::FileDescriptorProto p;
            p.set_name(fmt("made%d.proto", f));
            string pkg = fmt("made%d%s", f, s.chance(30) ? ".deep" : "");
            p.set_package(pkg);
            size_t old = messages.size(), old_enums = enums.size();
            for (int i = 0; i < f; ++i) p.add_dependency(fmt("made%d.proto", i));
            auto* e = p.add_enum_type();
            e->set_name("E");
            int ne = 1 + s.draw(3);
            for (int i = 0; i < ne; ++i) { auto* v = e->add_value(); v->set_name(fmt("V%d_%d", f, i)); v->set_number(i ? (int)s.range(1, 1000) * 5 + i : s.chance(50) ? 0 : -1); }
            enums.push_back(pkg + ".E");
            int nm = 1 + s.draw(2);
            for (int i = 0; i < nm; ++i) {
                auto* m = p.add_message_type();
                m->set_name(fmt("M%d", i));
                int n = s.draw(8);
                for (int k = 0; k < n; ++k) {
                    auto* d = m->add_field();
                    d->set_name(fmt("f%d", k));
                    d->set_number(1 + k * (1 + (int)s.draw(30)) + (k ? k * 40 : 0));
                    d->set_label(s.chance(30) ? d->LABEL_REPEATED : s.chance(15) ? d->LABEL_REQUIRED : d->LABEL_OPTIONAL);
                    int t = s.draw(16);
                    if (t == 15 || (t == 16 && messages.empty())) { d->set_type(d->TYPE_ENUM); d->set_type_name("." + s.pick(enums)); }
                    else if (t == 16) { d->set_type(d->TYPE_MESSAGE); d->set_type_name("." + s.pick(messages)); }
                    else d->set_type(std::vector<pb::FieldDescriptorProto::Type>{d->TYPE_DOUBLE, d->TYPE_FLOAT, d->TYPE_INT64, d->TYPE_UINT64, d->TYPE_INT32, d->TYPE_FIXED64, d->TYPE_FIXED32, d->TYPE_BOOL, d->TYPE_STRING, d->TYPE_BYTES, d->TYPE_UINT32, d->TYPE_SFIXED32, d->TYPE_SFIXED64, d->TYPE_SINT32, d->TYPE_SINT64}[t]);
                }
                messages.push_back(pkg + "." + m->name());
            }
            if (f == nf - 1 || s.chance(40)) {
                int ns = 1 + s.draw(1);
                for (int i = 0; i < ns; ++i) {
                    auto* v = p.add_service();
                    v->set_name(fmt("S%d", i));
                    int k = 1 + s.draw(2);
                    for (int j = 0; j < k; ++j) { auto* m = v->add_method(); m->set_name(fmt("m%d", j)); m->set_input_type("." + s.pick(messages)); m->set_output_type(m->input_type()); }
                }
            }
            const pb::FileDescriptor* fd = pool.BuildFile(p);
            if (!fd) { messages.resize(old); enums.resize(old_enums); discard("schema"); }
            for (int i = 0; i < fd->service_count(); ++i) services.push_back(fd->service(i));
        }
    }
};
struct ACall {
    RpcController cntl;
    string req, resp, method;
    std::unique_ptr<pb::Message> want;         // NULL: must fail
    std::vector<int> codes;
    string reason;
    uint64_t id;
    std::atomic<int> done;
    ACall() : id(0), done(0) {}
    static void fin(ACall* c) { ++c->done; }
    void go(Agent& a, bool sync) {
        cntl.SetTimeout(30000);
        if (sync) { a.CallMethod(method, &cntl, &req, &resp, NULL); ++done; }
        else a.CallMethod(method, &cntl, &req, &resp, sofa::pbrpc::NewClosure(&ACall::fin, this));
    }
    void check() {
        PBT_CHECK(eventually([this] { return done > 0; }, 25), "a call through the agent does not end");
        PBT_CHECK(done == 1, "a call completed %d times", done.load());
        if (!want) {
            PBT_CHECK(cntl.Failed(), "a call to %s with %s succeeded", show(method, 60).c_str(), show(req, 200).c_str());
            PBT_CHECK(std::find(codes.begin(), codes.end(), cntl.ErrorCode()) != codes.end(), "a call to %s with %s failed with %d (%s), not %d", show(method, 60).c_str(), show(req, 200).c_str(), cntl.ErrorCode(), show(cntl.ErrorText(), 200).c_str(), codes[0]);
            if (reason.size()) PBT_CHECK(cntl.ErrorText() == reason, "the reason is %s instead of %s", show(cntl.ErrorText()).c_str(), show(reason).c_str());
            if (id && codes[0] != 1000) for (auto& e : exec_log().get(id)) PBT_CHECK(e.method == "Types", "the method ran");
            return;
        }
        PBT_CHECK(!cntl.Failed(), "a call to %s with %s failed: %s", method.c_str(), show(req, 300).c_str(), cntl.ErrorText().c_str());
        std::unique_ptr<pb::Message> r(want->New());
        PBT_CHECK(pb::TextFormat::ParseFromString(resp, r.get()), "the response of %s does not parse: %s", method.c_str(), show(resp, 300).c_str());
        string e = gm::same(*want, *r, 2e-7);
        PBT_CHECK(e.empty(), "the response of %s differs from that of a direct call: %s", method.c_str(), e.c_str());
    }
};
typedef std::shared_ptr<ACall> ACallP;

static string words(Src& s, const pb::Message& m, string* how) {
    string t;
    if (s.chance(60)) {
        gm::put_ws(s, &t);
        t += gm::write_json(s, m);
        gm::put_ws(s, &t);
        *how = "json";
        return t;
    }
    pb::TextFormat::Printer p;
    p.SetSingleLineMode(s.chance(50));
    p.PrintToString(m, &t);
    if (s.chance(20)) t = " \n" + t + "\n ";
    *how = "text";
    return t;
}
static void agent(Src& s, Ctx& x) {
    exec_log().clear();
    Schema schema(s);
    std::atomic<int> runs(0);
    TestServer t;
    t.port.reset(new Port());
    t.opt.work_thread_num = 2;
    t.opt.disable_list_service = s.chance(4);
    t.srv.reset(new RpcServer(t.opt));
    std::set<string> known;
    std::vector<const pb::ServiceDescriptor*> left = schema.services, there;
    std::set<string> fresh;             // registered since the agent looked
    auto add = [&](const pb::ServiceDescriptor* d) { PBT_CHECK(t.srv->RegisterService(new Made(d, &schema.factory, &runs)), "?"); there.push_back(d); fresh.insert(d->full_name()); };
    if (s.chance(90)) { t.echo = new EchoImpl("s"); t.srv->RegisterService(t.echo); fresh.insert("vtest.EchoService"); }
    if (s.chance(50)) { t.srv->RegisterService(new ShortImpl("s")); fresh.insert("vtest.ShortService"); }
    while (left.size() && s.chance(70)) { add(left.back()); left.pop_back(); }
    bool up = s.chance(95);
    if (up) PBT_CHECK(eventually([&] { return t.srv->Start(t.addr()); }, 10), "the server does not start");
    RpcClient cli;
    std::unique_ptr<Agent> a(new Agent(&cli));
    string d = fmt("%d made services:", (int)there.size());
    ACallP early = std::make_shared<ACall>();
    if (s.chance(10)) { early->method = "vtest.EchoService.Echo"; early->req = "{\"id\":1}"; early->codes = {20}; early->go(*a, s.chance(50)); early->check(); d += " early"; }
    bool ok = a->Init(t.addr());
    PBT_CHECK(ok == (up && !t.opt.disable_list_service), "Init of the agent %s, server %s, list %s", ok ? "succeeded" : "failed", up ? "up" : "down", t.opt.disable_list_service ? "disabled" : "enabled");
    if (!ok) {
        ACallP c = std::make_shared<ACall>();
        c->method = "vtest.EchoService.Echo";
        c->req = "{\"id\":1}";
        c->codes = {20};
        c->go(*a, s.chance(50));
        c->check();
        std::map<string, string> l;
        PBT_CHECK(!a->ListService(&l), "the agent lists services without having them");
        if (!up && s.chance(60) && !t.opt.disable_list_service) {      // it is tried again when a call is made
            PBT_CHECK(eventually([&] { return t.srv->Start(t.addr()); }, 10), "the server does not start");
            up = true;
            if (s.chance(50)) PBT_CHECK(eventually([&] { return a->UpdateServiceInfo(); }, 20), "the agent does not connect to a server that is up now");
            ok = true;
            d += " later";
        }
        if (!ok) { x.label("no services to be had"); x.note(d + " none"); return; }
        PBT_CHECK(eventually([&] { return a->UpdateServiceInfo(); }, 20), "the agent does not connect to a server that is up now");
    }
    known.swap(fresh);
    fresh.clear();
    auto update = [&] {
        PBT_CHECK(a->UpdateServiceInfo(), "the services cannot be read again");
        known.insert(fresh.begin(), fresh.end());
        fresh.clear();
    };
    auto make = [&]() {
        ACallP c = std::make_shared<ACall>();
        string how;
        switch (s.weighted({4, 2, 4, 2, 1})) {
        case 0: {
            bool sh = s.chance(25);
            string svc = sh ? "vtest.ShortService" : "vtest.EchoService", m = sh ? "Echo" : s.pick<string>({"Echo", "Reverse", "EchoT400", "EchoZip"});
            vtest::EchoRequest q;
            c->id = fresh_id();
            gen_request(s, &q, c->id, 5000);
            if (s.chance(30)) q.set_text(gm::gen_text(s, 40));
            if (s.chance(25)) q.set_delay_ms(1 + s.draw(8));
            if (s.chance(15) && !sh) q.set_fail(gm::gen_text(s, 30));
            c->method = svc + "." + m;
            if (m == "EchoT400") q.clear_delay_ms();
            c->req = words(s, q, &how);
            if (!known.count(svc)) { c->codes = {7}; how += "-unknown"; }
            else if (q.has_fail()) { c->codes = {1000}; c->reason = "RPC_ERROR_FROM_USER" + (q.fail().size() ? ": " + q.fail() : ""); how += "-fails"; }
            else { auto* w = new vtest::EchoResponse(); c->want.reset(w); answer(sh ? "Short.Echo" : m, "s", q, w); }
            break;
        }
        case 1: {
            vtest::AllTypes q;
            gm::fill(s, &q, gm::Opt());
            if (s.chance(50)) q.clear_self();
            c->method = "vtest.EchoService.Types";
            c->req = words(s, q, &how);
            if (!known.count("vtest.EchoService")) c->codes = {7};
            else c->want.reset(new vtest::AllTypes(q));
            break;
        }
        case 2: {
            const pb::ServiceDescriptor* v = s.pick(schema.services);
            const pb::MethodDescriptor* m = v->method(s.draw(v->method_count() - 1));
            c->want.reset(schema.factory.GetPrototype(m->input_type())->New());
            gm::fill(s, c->want.get(), gm::Opt());
            c->method = m->full_name();
            c->req = words(s, *c->want, &how);
            how = "made-" + how;
            if (!known.count(v->full_name())) { c->want.reset(); c->codes = {7}; how += "-unknown"; }
            break;
        }
        case 3: {
            c->method = "vtest.EchoService.Echo";
            c->codes = {known.count("vtest.EchoService") ? 1 : 7};
            c->id = 0;
            switch (s.draw(3)) {
            case 0: c->req = s.pick<string>({"{", "{\"id\":1,}", "{\"id\":\"1\"}", "{\"id\":1,\"text\":5}", "{\"id\":1}}", "{'id':1}", "{\"id\":[1]}"}); break;
            case 1: c->req = s.pick<string>({"id", "id: x", "id: 1 nope: 2", "[1]", "\"x\"", "id: 1 id: 2", "}", "id: 1 text: 5", ""}); break;
            case 2: { vtest::EchoRequest q; gen_request(s, &q, fresh_id(), 100); c->id = q.id(); q.clear_id(); c->req = words(s, q, &how); if (c->codes[0] == 1) c->codes.push_back(17); if (c->req.empty()) c->req = " "; break; }
            default: { vtest::EchoRequest q; gen_request(s, &q, c->id = fresh_id(), 100); string j = gm::write_json(s, q); c->req = j.substr(0, 1 + s.draw(j.size() - 2)); break; }
            }
            how = "invalid";
            break;
        }
        default:
            switch (s.draw(2)) {
            case 0: c->method = s.pick<string>({"Echo", "", "vtest/EchoService/Echo", "x"}); c->codes = {6}; break;
            case 1: c->method = s.pick<string>({"vtest.EchoServic.Echo", ".Echo", "EchoService.Echo", ".", "vtest.echoService.Echo", "sofa.Nope.X"}); c->codes = {7}; break;
            default: c->method = s.pick<string>({"vtest.EchoService.Ech", "vtest.EchoService.", "vtest.EchoService.echo"}); c->codes = {known.count("vtest.EchoService") ? 8 : 7};
            }
            c->req = "{\"id\":5}";
            how = "no such method";
        }
        d += " " + how;
        x.label(how);
        return c;
    };
    std::vector<ACallP> pending;
    int ops = 3 + s.draw(12), calls = 0, updates = 0, made = 0;
    for (int i = 0; i < ops; ++i) {
        switch (s.weighted({8, 3, 3, 2, 2})) {
        case 0: {
            ACallP c = make();
            bool sync = s.chance(40);
            c->go(*a, sync);
            ++calls;
            made += c->want && c->method.compare(0, 4, "made") == 0;
            if (sync || s.chance(40)) c->check(); else pending.push_back(c);
            break;
        }
        case 1: update(); ++updates; d += fmt(" update(%d)", (int)pending.size()); break;
        case 2:
            if (left.size()) { add(left.back()); left.pop_back(); d += " register"; if (s.chance(70)) { update(); ++updates; } }
            break;
        case 3: {
            std::map<string, string> l;
            std::map<string, pb::ServiceDescriptorProto> lp;
            PBT_CHECK(a->ListService(&l) && a->ListService(&lp), "the services are not listed");
            // the server's own services may be among them
            for (auto& e : l) PBT_CHECK(known.count(e.first) || e.first.find("sofa.") == 0, "the agent lists %s", e.first.c_str());
            for (auto& n : known) {
                const pb::ServiceDescriptor* sd = schema.pool.FindServiceByName(n);
                if (!sd) sd = pb::DescriptorPool::generated_pool()->FindServiceByName(n);
                PBT_CHECK(l.count(n) && lp.count(n), "the agent does not list %s", n.c_str());
                PBT_CHECK(l[n] == sd->DebugString(), "the agent shows %s as %s", n.c_str(), show(l[n], 300).c_str());
                pb::ServiceDescriptorProto w;
                sd->CopyTo(&w);
                PBT_CHECK(w.SerializeAsString() == lp[n].SerializeAsString(), "the agent gives another descriptor of %s", n.c_str());
            }
            d += " list";
            break;
        }
        default: {
            Agent::ProtobufType ty;
            string desc;
            for (auto* v : there) if (known.count(v->full_name())) {
                PBT_CHECK(a->GetDescriptor(v->full_name(), &ty, &desc) && ty == Agent::PT_SERVICE && desc == v->DebugString(), "descriptor of service %s", v->full_name().c_str());
                const pb::Descriptor* m = v->method(0)->input_type();
                PBT_CHECK(a->GetDescriptor(m->full_name(), &ty, &desc) && ty == Agent::PT_MESSAGE && desc == m->DebugString(), "descriptor of message %s", m->full_name().c_str());
                for (int k = 0; k < m->field_count(); ++k) if (m->field(k)->enum_type()) PBT_CHECK(a->GetDescriptor(m->field(k)->enum_type()->full_name(), &ty, &desc) && ty == Agent::PT_ENUM && desc == m->field(k)->enum_type()->DebugString(), "descriptor of an enum");
            }
            PBT_CHECK(!a->GetDescriptor("made0.Nope", &ty, &desc) && !a->GetDescriptor("", &ty, &desc), "a descriptor of a type there is not");
            d += " describe";
        }
        }
    }
    if (s.chance(40)) {      // several threads, while the services are read again
        int n = 2 + s.draw(3);
        std::vector<std::vector<ACallP>> cs(n);
        for (auto& v : cs) for (int k = 0; k < 4; ++k) v.push_back(make());
        std::vector<std::thread> th;
        uint64_t r = s.seed();
        std::atomic<bool> up_ok(true);
        for (int k = 0; k < n; ++k) th.emplace_back([&, k] { for (auto& c : cs[k]) c->go(*a, mix(r + k) % 3 == 0); });
        if (s.chance(70)) { int m = 1 + s.draw(2); for (int k = 0; k < m; ++k) { if (!a->UpdateServiceInfo()) up_ok = false; ++updates; } known.insert(fresh.begin(), fresh.end()); }
        bool changed = fresh.size() > 0;
        for (auto& t : th) t.join();
        PBT_CHECK(up_ok, "the services cannot be read again");
        for (auto& v : cs) for (auto& c : v) { if (!changed) c->check(); else PBT_CHECK(eventually([&] { return c->done > 0; }, 25), "a call does not end"); ++calls; }
        d += fmt(" (%d threads)", n);
        x.label("threads");
    }
    for (auto& c : pending) c->check();
    a.reset();
    x.note(d);
    if (updates) x.label("services read again");
    x.nontrivial(calls >= 3 && (made || updates));
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C34";
    p.rule = "non-trivial: at least three calls through the agent, one of them to a service made at run time or with the services read again in between";
    p.subs = {{"agent", agent, 3000, 150000}};
    p.workers = 24;
    p.init = init;
    return pbt::run(argc, argv, p);
}
