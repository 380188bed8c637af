// LINK: -Wl,--wrap=usleep
// C32: the built-in services and pages report the server's real state.
#include "fake.h"
#include "gen_msg.h"
#include <google/protobuf/descriptor.h>
#include <google/protobuf/descriptor.pb.h>
#include <sofa/pbrpc/builtin_service.pb.h>
#include <sofa/pbrpc/gzip_stream.h>
#include <sofa/pbrpc/pbjson.h>
#include <set>
#include <time.h>
using namespace net;
using namespace sofa::pbrpc;
NET_FAST_START
namespace pb = google::protobuf;
namespace bi = sofa::pbrpc::builtin;

static RpcClient* g_client;
static void init() { quiet(); g_client = new RpcClient(); Later::get().in(0, [] {}); }

// One server under test, asked in several ways.
struct Asker {
    TestServer& t;
    ChanP ch;
    Conn bin, http;
    uint64_t seq;
    bool json;                         // the last answer came as JSON, which carries no extensions
    explicit Asker(TestServer& s) : t(s), seq(0), json(false) { ch.reset(new RpcChannel(g_client, s.addr(), RpcChannelOptions())); }
    int conns() const { return 1 + (bin.fd >= 0) + (http.fd >= 0); }       // at most; the channel connects on its first call
    // 0, or the error code
    int ask(Src& s, const char* method, const pb::Message& q, pb::Message* r, string* reason) {
        string full = string("sofa.pbrpc.builtin.BuiltinService.") + method;
        json = false;
        switch (s.weighted({3, 3, 2, 2})) {
        case 0: {
            RpcController c;
            c.SetTimeout(60000);
            ch->CallMethod(bi::BuiltinService::descriptor()->FindMethodByName(method), &c, &q, r, NULL);
            if (!c.Failed()) return 0;
            *reason = c.ErrorText();
            return c.ErrorCode();
        }
        case 1: {
            if (bin.fd < 0) if (!bin.open(t.port->num())) discard("cannot connect");
            PBT_CHECK(bin.send(raw_frame(request_meta(++seq, full), q.SerializeAsString())), "the connection was closed");
            Frame f;
            int k = 0;
            bin.until([&] { k = take_frame(&bin.in, &f); return k != 0; });
            PBT_CHECK(k > 0, "no answer from the built-in method %s", method);
            Fields m(f.meta);
            PBT_CHECK(m.n(2) == seq, "answer to another request");
            if (m.n(200)) { *reason = "RPC_ERROR_FROM_USER: " + m.s(202); return (int)m.n(201); }
            if (m.n(300) == 1) {
                string out;
                pb::io::ArrayInputStream a(f.data.data(), (int)f.data.size());
                GzipInputStream z(&a);
                PBT_CHECK(r->ParseFromZeroCopyStream(&z), "the compressed response of %s does not parse", method);
            } else {
                PBT_CHECK(m.n(300) == 0 && r->ParseFromString(f.data), "the response of %s does not parse", method);
            }
            return 0;
        }
        default: {
            bool as_pb = s.chance(60);
            if (http.fd < 0) if (!http.open(t.port->num())) discard("cannot connect");
            string body;
            Headers h;
            if (as_pb) { body = q.SerializeAsString(); h.push_back({"Accept", "application/protobuf"}); }
            else pb2json(&q, body);
            h.push_back({"Content-Length", fmt("%zu", body.size())});
            PBT_CHECK(http.send(http_text("POST", "/" + full, "HTTP/1.1", h, body)), "the connection was closed");
            Http a;
            int k = 0;
            http.until([&] { k = take_http(&http.in, &a); return k != 0; });
            PBT_CHECK(k > 0, "no answer over HTTP from the built-in method %s", method);
            mj::Val v;
            int code;
            if (a.body.size() && a.body[0] == '"') {
                PBT_CHECK(mj::parse(a.body, &v) && v.t == mj::Val::STR && sscanf(v.s.c_str(), "ERROR: %d:", &code) == 1, "the answer is %s", show(a.body, 100).c_str());
                *reason = "RPC_ERROR_FROM_USER: " + v.s.substr(std::min(v.s.size(), fmt("ERROR: %d: ", code).size()));
                return code;
            }
            if (as_pb) { PBT_CHECK(r->ParseFromString(a.body), "the response of %s over HTTP does not parse", method); return 0; }
            json = true;
            string err;
            PBT_CHECK(mj::parse(a.body, &v), "the answer of %s is not JSON: %s", method, show(a.body, 200).c_str());
            PBT_CHECK(json2pb(a.body, r, err) >= 0, "the JSON answer of %s does not parse: %s", method, err.c_str());
            string e = gm::matches(*r, v, 1e-5);
            PBT_CHECK(e.empty(), "the JSON answer of %s: %s", method, e.c_str());
            return 0;
        }
        }
    }
    string page(const string& path) {
        if (http.fd < 0) if (!http.open(t.port->num())) discard("cannot connect");
        PBT_CHECK(http.send(http_text("GET", path, "HTTP/1.1", {}, "")), "the connection was closed");
        Http a;
        int k = 0;
        http.until([&] { k = take_http(&http.in, &a); return k != 0; });
        PBT_CHECK(k > 0 && a.status == "HTTP/1.1 200 OK", "the page %s is not shown", path.c_str());
        return a.body;
    }
};
static string clock_text() {
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    tm l;
    localtime_r(&t.tv_sec, &l);
    return fmt("%04d-%02d-%02d %02d:%02d:%02d.%06ld", l.tm_year + 1900, l.tm_mon + 1, l.tm_mday, l.tm_hour, l.tm_min, l.tm_sec, t.tv_nsec / 1000);
}
static string cell(const string& page, const string& name) {
    size_t p = page.find("<td>" + name);
    if (p == string::npos) return "(absent)";
    p = page.find("<td align=\"right\">", p);
    if (p == string::npos) return "(none)";
    p += 18;
    string v;
    for (; p < page.size() && page[p] != '<'; ++p) if (page[p] != ',') v += page[p];
    return v;
}

// ---- options, health
static const int kNo = 3;         // options that cannot be updated come last
static void options(Src& s, Ctx& x) {
    TestServer t;
    t.opt.work_thread_num = 1 + (int)s.draw(3);
    auto gen_conn = [&] { return s.chance(30) ? -1 : (int)s.range(20, 100000); };
    auto gen_keep = [&] { return s.chance(30) ? -1 : (int)s.range(100, 1 << 30); };
    auto gen_pend = [&] { return (int)s.range(1, 100000); };
    auto gen_thr = [&] { return s.chance(30) ? -1 : s.chance(20) ? (int)s.range(10000, INT32_MAX) : (int)s.range(1, 2000); };
    t.opt.max_connection_count = gen_conn();
    t.opt.keep_alive_time = gen_keep();
    t.opt.max_pending_buffer_size = gen_pend();
    t.opt.max_throughput_in = gen_thr();
    t.opt.max_throughput_out = gen_thr();
    t.opt.disable_builtin_services = s.chance(10);
    t.opt.disable_list_service = s.chance(30);
    RpcServerOptions m = t.opt;
    string before = clock_text();
    if (!t.start()) discard("no start");
    string after = clock_text();
    Asker a(t);
    int n = (int)s.range(1, 12), updates = 0, refused = 0;
    string d;
    auto fill = [](const RpcServerOptions& o, bi::ServerOptions* p) {
        p->set_work_thread_num(o.work_thread_num);
        p->set_keep_alive_time(o.keep_alive_time);
        p->set_max_pending_buffer_size(o.max_pending_buffer_size);
        p->set_max_throughput_in(o.max_throughput_in);
        p->set_max_throughput_out(o.max_throughput_out);
        p->set_disable_builtin_services(o.disable_builtin_services);
        p->set_disable_list_service(o.disable_list_service);
        p->set_max_connection_count(o.max_connection_count);
    };
    auto same = [&](const bi::ServerOptions& got, const char* what) {
        bi::ServerOptions want;
        fill(m, &want);
        PBT_CHECK(same_msg(got, want), "%s {%s}, but they are {%s}", what, got.ShortDebugString().c_str(), want.ShortDebugString().c_str());
    };
    string reason;
    if (t.opt.disable_builtin_services) {
        bi::HealthRequest q;
        bi::HealthResponse r;
        int c = a.ask(s, s.pick({"Health", "ServerOptions", "UpdateOptions", "ListService"}), q, &r, &reason);
        PBT_CHECK(c == RPC_ERROR_FOUND_METHOD || c == RPC_ERROR_FOUND_SERVICE, "a built-in service answers (%d) though they are disabled", c);
        x.label("disabled");
        return;
    }
    for (int i = 0; i < n; ++i) {
        switch (s.weighted({2, 4, 6, 2, 2})) {
        case 0: {
            bi::HealthRequest q;
            bi::HealthResponse r;
            int c = a.ask(s, "Health", q, &r, &reason);
            PBT_CHECK(c == 0 && r.health() == "OK" && r.version() == SOFA_PBRPC_VERSION, "health: code %d, {%s}", c, r.ShortDebugString().c_str());
            PBT_CHECK(r.start_time() >= before && r.start_time() <= after, "the start time is %s, but the server was made between %s and %s", r.start_time().c_str(), before.c_str(), after.c_str());
            d += "health; ";
            break;
        }
        case 1: {
            bi::ServerOptionsRequest q;
            bi::ServerOptionsResponse r;
            int c = a.ask(s, "ServerOptions", q, &r, &reason);
            PBT_CHECK(c == 0, "reading the options failed: %d %s", c, reason.c_str());
            same(r.options(), "the options are reported as");
            d += "options; ";
            break;
        }
        case 2: {
            bi::UpdateOptionsRequest q;
            bi::UpdateOptionsResponse r;
            RpcServerOptions w = m;
            bool any = false;
            if (s.chance(92)) {
                auto* o = q.mutable_options();
                int sparse = s.chance(70) ? 30 : s.chance(50) ? 0 : 100;
                if (s.chance(sparse)) { o->set_max_connection_count(w.max_connection_count = gen_conn()); any = true; }
                if (s.chance(sparse)) { o->set_keep_alive_time(w.keep_alive_time = gen_keep()); any = true; }
                if (s.chance(sparse)) { o->set_max_pending_buffer_size(w.max_pending_buffer_size = gen_pend()); any = true; }
                if (s.chance(sparse)) { o->set_max_throughput_in(w.max_throughput_in = gen_thr()); any = true; }
                if (s.chance(sparse)) { o->set_max_throughput_out(w.max_throughput_out = gen_thr()); any = true; }
                if (s.chance(20)) o->set_work_thread_num(s.range(1, 50));        // cannot be updated
                if (s.chance(20)) o->set_disable_builtin_services(s.chance(50));
                if (s.chance(20)) o->set_disable_list_service(s.chance(50));
            }
            int c = a.ask(s, "UpdateOptions", q, &r, &reason);
            PBT_CHECK((c == 0) == any, "an update of {%s} %s (%d %s)", q.ShortDebugString().c_str(), any ? "failed" : "succeeded", c, reason.c_str());
            if (any) { m = w; same(r.options(), "after an update the options are reported as"); ++updates; }
            else { ++refused; PBT_CHECK(c == RPC_ERROR_FROM_USER, "an update of nothing fails with %d", c); }
            d += "update {" + q.options().ShortDebugString() + "}; ";
            break;
        }
        case 3: {
            RpcServerOptions o = t.srv->GetOptions();
            bi::ServerOptions got;
            fill(o, &got);
            same(got, "GetOptions returns");
            if (s.chance(60)) {
                if (s.chance(40)) o.max_connection_count = gen_conn();
                if (s.chance(40)) o.keep_alive_time = gen_keep();
                if (s.chance(40)) o.max_pending_buffer_size = gen_pend();
                if (s.chance(40)) o.max_throughput_in = gen_thr();
                if (s.chance(40)) o.max_throughput_out = gen_thr();
                t.srv->ResetOptions(o);
                m = o;
                ++updates;
                d += "reset; ";
            }
            break;
        }
        default: {
            string p = a.page(s.pick<string>({"/options", "/home", "/"}));
            std::vector<std::pair<string, string>> want = {{"work_thread_num", fmt("%d", m.work_thread_num)}, {"max_connection_count", fmt("%d", m.max_connection_count)}, {"keep_alive_time (seconds)", fmt("%d", m.keep_alive_time)},
                {"max_pending_buffer_size (MB)", fmt("%d", m.max_pending_buffer_size)}, {"max_throughput_in (MB)", fmt("%d", m.max_throughput_in)}, {"max_throughput_out (MB)", fmt("%d", m.max_throughput_out)},
                {"disable_builtin_services", m.disable_builtin_services ? "true" : "false"}, {"disable_list_service", m.disable_list_service ? "true" : "false"}};
            for (auto& e : want) PBT_CHECK(cell(p, e.first) == e.second, "the options page shows %s as %s instead of %s", e.first.c_str(), cell(p, e.first).c_str(), e.second.c_str());
            d += "page; ";
        }
        }
    }
    x.note(d);
    if (updates) x.label("updated");
    if (refused) x.label("refused");
    x.nontrivial(updates >= 1 && n >= 4);
}

// ---- the list of services and their descriptors
struct Dyn : pb::Service {
    const pb::ServiceDescriptor* d;
    explicit Dyn(const pb::ServiceDescriptor* x) : d(x) {}
    const pb::ServiceDescriptor* GetDescriptor() override { return d; }
    void CallMethod(const pb::MethodDescriptor*, pb::RpcController*, const pb::Message*, pb::Message*, pb::Closure* done) override { done->Run(); }
    const pb::Message& GetRequestPrototype(const pb::MethodDescriptor*) const override { return vtest::Empty::default_instance(); }
    const pb::Message& GetResponsePrototype(const pb::MethodDescriptor*) const override { return vtest::Empty::default_instance(); }
};
struct NoErrors : pb::DescriptorPool::ErrorCollector {
    string all;
    void AddError(const string& file, const string& el, const pb::Message*, ErrorLocation, const string& m) override { all += file + ": " + el + ": " + m + "; "; }
};
static void no_options(pb::Message* m) {
    auto* r = m->GetReflection();
    std::vector<const pb::FieldDescriptor*> fs;
    r->ListFields(*m, &fs);
    for (auto* f : fs) {
        if (f->name() == "options") r->ClearField(m, f);
        else if (f->cpp_type() == f->CPPTYPE_MESSAGE && f->is_repeated()) for (int i = 0; i < r->FieldSize(*m, f); ++i) no_options(r->MutableRepeatedMessage(m, f, i));
        else if (f->cpp_type() == f->CPPTYPE_MESSAGE) no_options(r->MutableMessage(m, f));
    }
}
static void list(Src& s, Ctx& x) {
    pb::DescriptorPool pool;
    int nf = (int)s.range(1, 7), services = 0;
    std::vector<const pb::ServiceDescriptor*> all;
    for (int f = 0; f < nf; ++f) {
        pb::FileDescriptorProto p;
        p.set_name(fmt("%sf%d.proto", s.chance(30) ? "dir/" : "", f));
        bool p3 = s.chance(20);
        if (p3) p.set_syntax("proto3");
        p.set_package(fmt("p%d%s", f, s.chance(30) ? ".q" : ""));
        std::vector<const pb::FileDescriptor*> deps;
        for (int g = 0; g < f; ++g) if (s.chance(40)) {
            const pb::FileDescriptor* fd = pool.FindFileByName(fmt("f%d.proto", g));
            if (!fd) fd = pool.FindFileByName(fmt("dir/f%d.proto", g));
            if (p3 && fd->syntax() != pb::FileDescriptor::SYNTAX_PROTO3) continue;
            p.add_dependency(fd->name());
            if (s.chance(20)) p.add_public_dependency(p.dependency_size() - 1);
            deps.push_back(fd);
        }
        int nm = (int)s.range(1, 4);
        for (int k = 0; k < nm; ++k) {
            auto* m = p.add_message_type();
            m->set_name(fmt("M%d", k));
            int fields = (int)s.logsize(6);
            for (int j = 0; j < fields; ++j) {
                auto* e = m->add_field();
                e->set_name(fmt("x%d", j));
                e->set_number(j + 1);
                e->set_label(s.chance(30) ? pb::FieldDescriptorProto::LABEL_REPEATED : pb::FieldDescriptorProto::LABEL_OPTIONAL);
                int ty = (int)s.weighted({3, 3, 3, 2});
                if (ty == 0) e->set_type(pb::FieldDescriptorProto::TYPE_INT64);
                else if (ty == 1) e->set_type(pb::FieldDescriptorProto::TYPE_STRING);
                else {
                    e->set_type(pb::FieldDescriptorProto::TYPE_MESSAGE);
                    if (ty == 3 && deps.size()) e->set_type_name("." + deps[s.draw(deps.size() - 1)]->message_type(0)->full_name());
                    else e->set_type_name("." + p.package() + ".M" + fmt("%d", (int)s.draw(k)));
                }
            }
            if (s.chance(20)) { auto* in = m->add_nested_type(); in->set_name("In"); }
            if (s.chance(20) && !p3) { auto* en = m->add_enum_type(); en->set_name("E"); auto* v = en->add_value(); v->set_name(fmt("V%d", k)); v->set_number(-1); }
        }
        int ns = (int)s.weighted({3, 4, 2, 1});
        for (int k = 0; k < ns; ++k) {
            auto* sv = p.add_service();
            sv->set_name(fmt("S%d", k));
            int me = (int)s.logsize(4);
            for (int j = 0; j < me; ++j) {
                auto* m = sv->add_method();
                m->set_name(fmt("m%d", j));
                auto type = [&] { return deps.size() && s.chance(40) ? "." + deps[s.draw(deps.size() - 1)]->message_type(0)->full_name() : "." + p.package() + ".M0"; };
                m->set_input_type(type());
                m->set_output_type(type());
                if (s.chance(20)) m->mutable_options()->SetExtension(method_timeout, (int)s.range(1, 9000));
            }
        }
        NoErrors er;
        const pb::FileDescriptor* fd = pool.BuildFileCollectingErrors(p, &er);
        if (!fd) discard("file: " + er.all);
        for (int k = 0; k < ns; ++k) all.push_back(fd->service(k));
    }
    TestServer t;
    t.opt.work_thread_num = 1;
    t.opt.disable_list_service = s.chance(8);
    if (!t.start()) discard("no start");
    std::map<string, const pb::ServiceDescriptor*> reg;
    reg["sofa.pbrpc.builtin.BuiltinService"] = bi::BuiltinService::descriptor();
    reg["vtest.EchoService"] = vtest::EchoService::descriptor();
    reg["vtest.ShortService"] = vtest::ShortService::descriptor();
    Asker a(t);
    int asks = (int)s.range(1, 4), grown = 0;
    size_t next = 0;
    string reason;
    for (int i = 0; i < asks; ++i) {
        bool more = false;
        while (next < all.size() && s.chance(60)) { PBT_CHECK(t.srv->RegisterService(new Dyn(all[next])), "registering failed"); reg[all[next]->full_name()] = all[next]; ++next; more = true; ++services; }
        if (i && more) ++grown;
        bi::ListServiceRequest q;
        bi::ListServiceResponse r;
        int c = a.ask(s, "ListService", q, &r, &reason);
        if (t.opt.disable_list_service) { PBT_CHECK(c == RPC_ERROR_FROM_USER, "the list of services is given (%d) though it is disabled", c); x.label("disabled"); continue; }
        bool by_json = a.json;
        PBT_CHECK(c == 0, "listing failed: %d %s", c, reason.c_str());
        std::vector<string> got(r.services().begin(), r.services().end()), want;
        for (auto& e : reg) want.push_back(e.first);
        std::sort(got.begin(), got.end());
        PBT_CHECK(got == want, "%zu services are listed, %zu are registered", got.size(), want.size());
        pb::DescriptorPool back;
        std::set<string> names;
        for (auto& f : r.files()) {
            PBT_CHECK(names.insert(f.name()).second, "the file %s is given twice", f.name().c_str());
            NoErrors er;
            PBT_CHECK(back.BuildFileCollectingErrors(f, &er) != NULL, "the files given cannot be used in their order: %s", er.all.c_str());
        }
        for (auto& e : reg) {
            const pb::ServiceDescriptor* d = back.FindServiceByName(e.first);
            PBT_CHECK(d, "the service %s is not in the files given", e.first.c_str());
            pb::FileDescriptorProto p1, p2;
            d->file()->CopyTo(&p1);
            e.second->file()->CopyTo(&p2);
            if (by_json) { no_options(&p1); no_options(&p2); }
            PBT_CHECK(same_msg(p1, p2), "the file of service %s differs from its real one", e.first.c_str());
        }
        // and the pages
        string page = a.page("/services");
        for (auto& e : reg) PBT_CHECK(page.find("/service?name=" + e.first + "\">") != string::npos, "the page of services lacks %s", e.first.c_str());
        if (next) {
            const pb::ServiceDescriptor* d = all[s.draw(next - 1)];
            page = a.page("/service?name=" + d->full_name());
            for (int k = 0; k < d->method_count(); ++k) PBT_CHECK(page.find("<td>" + d->method(k)->name() + "</td>") != string::npos, "the page of service %s lacks method %s", d->full_name().c_str(), d->method(k)->name().c_str());
        }
    }
    x.note(fmt("%d files, %d services registered, listed %d times", nf, services, asks));
    if (grown) x.label("grown between lists");
    x.nontrivial(services >= 2 && !t.opt.disable_list_service);
    a.bin.close_now();
    a.http.close_now();
    t.srv->Stop();
    t.echo->release();
    t.echo = NULL;
    t.srv.reset();                    // before the pool of its services
}

// ---- connections and pending data
static void status(Src& s, Ctx& x) {
    TestServer t;
    t.opt.work_thread_num = 1 + (int)s.draw(2);
    if (!t.start()) discard("no start");
    Asker a(t);
    string reason, d;
    std::vector<std::unique_ptr<Conn>> cs;
    int n = (int)s.range(2, 14), pend = 0, gone = 0;
    for (int i = 0; i < n; ++i) {
        switch (s.weighted({6, 3, 5, 1})) {
        case 0: {
            int k = (int)s.range(1, 6);
            for (int j = 0; j < k; ++j) { cs.emplace_back(new Conn()); if (!cs.back()->open(t.port->num())) discard("cannot connect"); if (s.chance(30)) cs.back()->send(s.pick<string>({"S", "SOFA", "GET / HT", "POST /x HTTP/1.1\r\n"})); }
            d += fmt("+%d ", k);
            break;
        }
        case 1: {
            int k = (int)s.range(1, 4);
            for (int j = 0; j < k && cs.size(); ++j) { size_t z = s.draw(cs.size() - 1); int how = (int)s.draw(2); if (how == 0) cs[z]->close_now(); else if (how == 1) cs[z]->reset_now(); else cs[z]->half_close(); cs.erase(cs.begin() + z); ++gone; }
            d += fmt("-%d ", k);
            break;
        }
        case 2: {
            bi::ServerStatusRequest q;
            bi::ServerStatusResponse r;
            double end = now_s() + 20;
            int want = -1;
            while (true) {
                int c = a.ask(s, "ServerStatus", q, &r, &reason);
                PBT_CHECK(c == 0, "asking for the status failed: %d %s", c, reason.c_str());
                // the asker's channel may not have been used yet
                want = (int)cs.size() + (a.bin.fd >= 0) + (a.http.fd >= 0);
                if ((r.connection_count() == want || r.connection_count() == want + 1) && r.pending_message_count() == 0 && r.pending_data_size() == 0) break;
                PBT_CHECK(now_s() < end, "the status reports %d connections and %d pending messages, %d or %d connections are open and nothing is pending", (int)r.connection_count(), (int)r.pending_message_count(), want, want + 1);
                nap(0.002);
            }
            PBT_CHECK(r.is_listening(), "the server says it does not listen");
            PBT_CHECK(r.service_count() == 3 && t.srv->ServiceCount() == 3, "%d services reported", (int)r.service_count());
            PBT_CHECK(r.pending_buffer_size() >= 0, "negative buffer size");
            string page;
            while (true) {
                page = a.page("/status");
                want = (int)cs.size() + (a.bin.fd >= 0) + (a.http.fd >= 0);
                int shown = atoi(cell(page, "connection_count").c_str());
                if (shown == want || shown == want + 1) break;
                PBT_CHECK(now_s() < end + 20, "the status page shows %d connections, %d or %d are open", shown, want, want + 1);
                nap(0.002);
            }
            PBT_CHECK(cell(page, "service_count") == "3", "the status page shows %s services", cell(page, "service_count").c_str());
            d += "status ";
            break;
        }
        default: {
            if (pend) break;
            ++pend;
            // a peer that asks for much and reads nothing
            Conn k;
            int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), rcv = 4096;
            setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcv, sizeof(rcv));
            sockaddr_in ad = addr_of(t.port->num());
            if (connect(fd, (sockaddr*)&ad, sizeof(ad)) != 0) { close(fd); discard("cannot connect"); }
            k.fd = fd;
            int m = (int)s.range(5, 12), one = 2 << 20;
            string w;
            for (int j = 0; j < m; ++j) { vtest::EchoRequest q; q.set_id(fresh_id()); q.set_response_size(one); w += raw_frame(request_meta(j + 1, "vtest.EchoService.Echo"), q.SerializeAsString()); }
            PBT_CHECK(::send(fd, w.data(), w.size(), MSG_NOSIGNAL) == (ssize_t)w.size(), "cannot send");
            bi::ServerStatusRequest q;
            bi::ServerStatusResponse r;
            int64_t lo = (int64_t)(m - 4) * one, hi = (int64_t)m * (one + 200);      // up to 8 MB may be in the sockets
            double end = now_s() + 20;
            while (true) {
                int c = a.ask(s, "ServerStatus", q, &r, &reason);
                PBT_CHECK(c == 0, "asking for the status failed: %d %s", c, reason.c_str());
                PBT_CHECK(r.pending_message_count() <= m && r.pending_data_size() <= hi && r.pending_message_count() >= 0 && r.pending_data_size() >= 0, "%lld messages of %lld bytes are reported as pending, %d of %d bytes were made", (long long)r.pending_message_count(), (long long)r.pending_data_size(), m, one);
                if (r.pending_data_size() >= lo && r.pending_message_count() >= m - 4) break;
                PBT_CHECK(now_s() < end, "%lld messages of %lld bytes are reported as pending, %d of %d bytes were asked for and none was read", (long long)r.pending_message_count(), (long long)r.pending_data_size(), m, one);
                nap(0.002);
            }
            for (int j = 0; j < m; ++j) { Frame f; int z = 0; k.until([&] { z = take_frame(&k.in, &f); return z != 0; }); PBT_CHECK(z > 0 && f.data.size() >= (size_t)one, "response %d of %d does not arrive", j, m); }
            d += "stall ";
            x.label("pending data");
            break;
        }
        }
    }
    x.note(d);
    if (gone) x.label("connections gone");
    x.nontrivial(cs.size() + gone >= 2);
}

// ---- counts of calls; the second they fall in is over before they are shown
static void stat(Src& s, Ctx& x) {
    TestServer t;
    t.opt.work_thread_num = 1 + (int)s.draw(2);
    if (!t.start()) discard("no start");
    Asker a(t);
    string reason;
    std::map<string, std::pair<int, int>> want;        // method -> succeeded, failed
    double begin = now_s();
    Conn k;
    if (!k.open(t.port->num())) discard("cannot connect");
    int n = (int)s.range(1, 40), delays = 0;
    string w;
    int64_t max_us = 0;
    for (int i = 0; i < n; ++i) {
        string m = s.pick<string>({"Echo", "Reverse", "EchoT400"});
        vtest::EchoRequest q;
        q.set_id(fresh_id());
        bool fail = s.chance(35);
        if (fail) q.set_fail("no");
        if (s.chance(30)) { q.set_delay_ms(1 + (int)s.draw(20)); ++delays; max_us = std::max<int64_t>(max_us, q.delay_ms() * 1000); }
        auto& e = want["vtest.EchoService." + m];
        ++(fail ? e.second : e.first);
        w += raw_frame(request_meta(i + 1, "vtest.EchoService." + m), q.SerializeAsString());
    }
    // what does not reach a method is not counted
    w += raw_frame(request_meta(n + 1, "vtest.EchoService.Nope"), "");
    w += raw_frame(request_meta(n + 2, "vtest.EchoService.Echo"), "\xff\xff");
    PBT_CHECK(k.send(w), "cannot send");
    for (int i = 0; i < n + 2; ++i) { Frame f; int z = 0; k.until([&] { z = take_frame(&k.in, &f); return z != 0; }); PBT_CHECK(z > 0, "no answer"); }
    double served = now_s();
    int asks = 0;
    bool one = s.chance(50);
    bi::StatResponse r;
    auto totals = [&](bool final) {
        const bi::ServiceStat* e = NULL;
        for (auto& v : r.service_stats()) if (v.service_name() == "vtest.EchoService") e = &v;
        PBT_CHECK(e && e->method_stats_size() == vtest::EchoService::descriptor()->method_count(), "the statistics lack the service or methods of it");
        PBT_CHECK(one ? r.service_stats_size() == 1 : r.service_stats_size() == 3, "statistics of %d services", r.service_stats_size());
        int ok = 0, bad = 0, wok = 0, wbad = 0;
        for (auto& m : e->method_stats()) {
            auto v = want.count(m.method_name()) ? want[m.method_name()] : std::make_pair(0, 0);
            PBT_CHECK(m.succeed_count() <= v.first && m.failed_count() <= v.second, "%lld and %lld calls of %s are counted, only %d succeeded and %d failed", (long long)m.succeed_count(), (long long)m.failed_count(), m.method_name().c_str(), v.first, v.second);
            if (final) PBT_CHECK(m.succeed_count() == v.first && m.failed_count() == v.second, "%lld and %lld calls of %s are counted, %d succeeded and %d failed", (long long)m.succeed_count(), (long long)m.failed_count(), m.method_name().c_str(), v.first, v.second);
            ok += (int)m.succeed_count(); bad += (int)m.failed_count();
            PBT_CHECK(m.succeed_max_time_us() <= (int64_t)((served - begin) * 1e6) + 1000 && m.failed_max_time_us() <= (int64_t)((served - begin) * 1e6) + 1000, "a call took longer than all together");
            PBT_CHECK(m.succeed_avg_time_us() <= m.succeed_max_time_us() * 1.001 + 1 && m.failed_avg_time_us() <= m.failed_max_time_us() * 1.001 + 1, "the average time is above the longest");
            if (final) max_us = std::max<int64_t>(0, max_us - 0), wok += v.first, wbad += v.second;
        }
        PBT_CHECK(e->succeed_count() == ok && e->failed_count() == bad, "the totals of the service are %lld and %lld, its methods have %d and %d", (long long)e->succeed_count(), (long long)e->failed_count(), ok, bad);
        if (final) {
            int64_t longest = 0;
            for (auto& m : e->method_stats()) longest = std::max(longest, std::max<int64_t>(m.succeed_max_time_us(), m.failed_max_time_us()));
            PBT_CHECK(longest >= max_us, "the longest time is %lld us, but a call took %lld us at least", (long long)longest, (long long)max_us);
        }
        return ok + bad;
    };
    while (true) {
        bi::StatRequest q;
        q.set_period_seconds(s.pick<int>({60, 30, 600}));
        if (one) q.set_service_name("vtest.EchoService");
        r.Clear();
        int c = a.ask(s, "Stat", q, &r, &reason);
        ++asks;
        PBT_CHECK(c == 0, "asking for the statistics failed: %d %s", c, reason.c_str());
        PBT_CHECK(r.has_server_start_time(), "no start time");
        if (totals(false) == n) break;
        PBT_CHECK(now_s() < served + 20, "%d calls are counted, %d were made", totals(false), n);
        nap(0.05);
    }
    totals(true);
    {
        bi::StatRequest q;
        q.set_service_name("no.Such");
        bi::StatResponse e;
        int c = a.ask(s, "Stat", q, &e, &reason);
        PBT_CHECK(c == RPC_ERROR_FROM_USER, "statistics of an unknown service are answered with %d", c);
    }
    string page = a.page("/service?name=vtest.EchoService");
    for (auto& e : want) {
        string row = "<td>" + e.first.substr(18) + "</td>";
        size_t p = page.find(row);
        PBT_CHECK(p != string::npos, "the page lacks %s", e.first.c_str());
        std::vector<string> cells;
        for (size_t q = p; cells.size() < 12 && (q = page.find("<td align=\"right\">", q)) != string::npos; q += 10) cells.push_back(page.substr(q + 18, page.find('<', q + 18) - q - 18));
        PBT_CHECK(cells.size() == 12 && cells[6] == fmt("%d", e.second.first) && cells[9] == fmt("%d", e.second.second), "the page shows %s and %s calls of %s in the last minute, there were %d and %d", cells.size() == 12 ? cells[6].c_str() : "?", cells.size() == 12 ? cells[9].c_str() : "?", e.first.c_str(), e.second.first, e.second.second);
    }
    x.note(fmt("%d calls, %d with a delay; asked %d times", n, delays, asks));
    x.nontrivial(n >= 2);
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C32";
    p.rule = "options: health, options, updates (also of nothing) by the built-in service, the server object and the pages, over the library, raw frames and HTTP; non-trivial: an update and four steps. list: generated files with imports and services, listed while they are registered; the files given are loaded into an empty pool and compared; non-trivial: two services. "
             "status: connections opened, closed and stalled; non-trivial: two connections. stat: succeeded and failed calls counted per method; non-trivial: two calls.";
    p.subs = {{"options", options, 2500, 100000}, {"list", list, 2500, 60000}, {"status", status, 900, 30000}, {"stat", stat, 200, 6000}};
    p.workers = 16;
    p.init = init;
    p.case_timeout_s = 120;
    return pbt::run(argc, argv, p);
}
