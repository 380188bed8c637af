// LINK: -Wl,--wrap=usleep
// C08: what a failed call says. Histories of calls on fresh and reused controllers, each with a generated cause of
// failure (or none) and the code and text that belong to it.
#include "fake.h"
#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/descriptor_database.h>
using namespace net;
using namespace sofa::pbrpc;
NET_FAST_START
namespace gpb = google::protobuf;

static RpcClient *g_cli, *g_dead;
static TestServer* g_srv;
static RpcServer* g_bare;      // without the services
static Port* g_bare_port;
static ShortImpl* g_short;
static const gpb::MethodDescriptor *g_unknown_method, *g_unknown_service;
static std::mutex g_seen_mu;
static std::map<uint64_t, std::pair<string, string>> g_seen;       // id -> addresses as seen by the server
static void init() {
    quiet();
    RpcClientOptions o;
    o.work_thread_num = 2;
    o.callback_thread_num = 2;
    g_cli = new RpcClient(o);
    g_dead = new RpcClient(o);
    g_dead->Shutdown();
    g_srv = new TestServer();
    if (!g_srv->start()) exit(3);
    g_srv->echo->hook = [](gpb::RpcController* c, const vtest::EchoRequest* q) {
        RpcController* k = static_cast<RpcController*>(c);
        std::lock_guard<std::mutex> l(g_seen_mu);
        g_seen[q->id()] = {k->LocalAddress(), k->RemoteAddress()};
        if (q->text() == "twice") c->SetFailed("first reason");
    };
    g_bare_port = new Port();
    g_bare = new RpcServer(RpcServerOptions());
    g_bare->RegisterService(g_short = new ShortImpl("bare"));
    if (!g_bare->Start(g_bare_port->addr())) exit(3);
    // methods the servers do not have
    static gpb::DescriptorPool pool(gpb::DescriptorPool::generated_pool());
    gpb::FileDescriptorProto f;
    f.set_name("other.proto");
    f.set_package("vtest2");
    f.add_dependency("vtest.proto");
    auto s = f.add_service();
    s->set_name("Nowhere");
    auto m = s->add_method();
    m->set_name("Echo");
    m->set_input_type(".vtest.EchoRequest");
    m->set_output_type(".vtest.EchoResponse");
    const gpb::FileDescriptor* fd = pool.BuildFile(f);
    if (!fd) exit(3);
    g_unknown_service = fd->service(0)->method(0);
    static gpb::DescriptorPool pool2;                 // a copy of the service with one method more
    gpb::FileDescriptorProto d, v;
    gpb::FileDescriptorProto::descriptor()->file()->CopyTo(&d);
    if (!pool2.BuildFile(d)) exit(3);
    const gpb::FileDescriptor* vf = vtest::EchoService::descriptor()->file();
    for (int i = 0; i < vf->dependency_count(); ++i) { gpb::FileDescriptorProto x; vf->dependency(i)->CopyTo(&x); pool2.BuildFile(x); }
    vf->CopyTo(&v);
    for (int i = 0; i < v.service_size(); ++i) if (v.service(i).name() == "EchoService") { auto* x = v.mutable_service(i)->add_method(); *x = v.service(i).method(0); x->set_name("Ech"); x->clear_options(); }
    const gpb::FileDescriptor* v2 = pool2.BuildFile(v);
    if (!v2) exit(3);
    g_unknown_method = v2->FindServiceByName("EchoService")->FindMethodByName("Ech");
}
struct Fin { std::atomic<int> n; Fin() : n(0) {} static void run(Fin* f) { ++f->n; } };
static string reason(Src& s) {
    switch (s.weighted({3, 3, 1, 1})) {
        case 0: return s.str("abc :%", 20);
        case 1: return s.str("ab\"\\\n\t<>&%{}[]\xe4\xb8\xad", 200);
        case 2: return string();
        default: return string(1 + s.logsize(100000), 'x');
    }
}
enum Cause { OK, USER, UNKNOWN_METHOD, UNKNOWN_SERVICE, NOT_REGISTERED, BAD_REQUEST, MISSING_FIELD, INCOMPLETE_RESPONSE, BAD_RESPONSE, REFUSED, CLOSED, RESET, TIMEOUT, NOT_SENT, ADDRESS, STOPPED_CLIENT, FROM_PEER, NCAUSES };
static const char* kCause[] = {"success", "failed by the method", "unknown method", "unknown service", "service not registered", "undecodable request", "incomplete request", "incomplete response", "undecodable response", "refused", "closed", "reset", "timeout", "timeout, not connected", "bad address", "stopped client", "failure of a scripted server"};

static void errors(Src& s, Ctx& c) {
    int n = 1 + s.logsize(8);
    std::shared_ptr<RpcController> reused = std::make_shared<RpcController>();
    static std::vector<std::shared_ptr<void>> keep;
    string d;
    { std::lock_guard<std::mutex> l(g_seen_mu); g_seen.clear(); }
    std::set<int> causes;
    for (int i = 0; i < n; ++i) {
        int cause = s.weighted({4, 4, 1, 1, 1, 2, 2, 2, 2, 1, 2, 1, 2, 1, 1, 1, 4});
        bool fresh = s.chance(40), sync = s.chance(50);
        auto cntl = fresh ? std::make_shared<RpcController>() : reused;
        if (!fresh && i) cntl->Reset();
        PBT_CHECK(!cntl->Failed() && cntl->ErrorCode() == 0, "a %s controller has code %d (%s)", fresh ? "fresh" : "reset", cntl->ErrorCode(), cntl->ErrorText().c_str());
        PBT_CHECK(!cntl->IsRequestSent() && cntl->SentBytes() == 0 && cntl->Timeout() <= 0, "a reset controller remembers an earlier call");
        auto q = std::make_shared<vtest::EchoRequest>();
        auto r = std::make_shared<vtest::EchoResponse>();
        auto other = std::make_shared<vtest::AllTypes>();
        uint64_t id = fresh_id();
        gen_request(s, q.get(), id, 300);
        q->clear_text();
        const gpb::Message* req = q.get();
        gpb::Message* resp = r.get();
        const gpb::MethodDescriptor* md = vtest::EchoService::descriptor()->FindMethodByName(s.chance(50) ? "Echo" : "Reverse");
        if (s.chance(20)) { cntl->SetRequestCompressType((CompressType)s.draw(4)); cntl->SetResponseCompressType((CompressType)s.draw(4)); }
        int64_t timeout = 30000;
        string addr = g_srv->addr();
        RpcClient* cli = g_cli;
        Port port;
        Listener lis;
        std::vector<std::unique_ptr<Conn>> jam;
        int want = 0;
        std::vector<string> texts;            // any of
        string part;                          // must be in the text
        string why;
        int peer_code = 0;
        bool scripted = false;
        switch (cause) {
            case OK: break;
            case USER:
                why = reason(s);
                q->set_fail(why);
                want = RPC_ERROR_FROM_USER;
                if (s.chance(20)) q->set_text("twice");
                if (s.chance(20)) q->set_leave_incomplete(true);
                texts = {why.empty() ? "RPC_ERROR_FROM_USER" : "RPC_ERROR_FROM_USER: " + why};
                break;
            case UNKNOWN_METHOD: md = g_unknown_method; want = RPC_ERROR_FOUND_METHOD; part = "vtest.EchoService.Ech"; break;
            case UNKNOWN_SERVICE: md = g_unknown_service; want = RPC_ERROR_FOUND_METHOD; part = "vtest2.Nowhere.Echo"; break;
            case NOT_REGISTERED: addr = g_bare_port->addr(); want = RPC_ERROR_FOUND_METHOD; part = md->full_name(); break;
            case BAD_REQUEST: other->set_i32(5); other->set_s("abc"); req = other.get(); want = RPC_ERROR_PARSE_REQUEST_MESSAGE; break;
            case MISSING_FIELD: q->clear_id(); want = RPC_ERROR_SERIALIZE_REQUEST; part = "id"; break;
            case INCOMPLETE_RESPONSE: q->set_leave_incomplete(true); want = RPC_ERROR_SERIALIZE_RESPONSE; part = "id"; break;
            case BAD_RESPONSE: want = RPC_ERROR_PARSE_RESPONSE_MESSAGE; scripted = true; break;
            case REFUSED: addr = port.addr(); want = RPC_ERROR_CONNECTION_CLOSED; part = "refused"; break;
            case CLOSED: want = RPC_ERROR_CONNECTION_CLOSED; scripted = true; break;
            case RESET: want = RPC_ERROR_CONNECTION_CLOSED; scripted = true; break;
            case TIMEOUT: want = RPC_ERROR_REQUEST_TIMEOUT; timeout = 40 + s.draw(60); part = ": request already sent to remote"; scripted = true; break;
            case NOT_SENT: {
                want = RPC_ERROR_REQUEST_TIMEOUT; timeout = 1 + s.draw(60); part = ": request not sent to remote";
                if (!lis.start(port.num(), 0)) discard("cannot listen");
                for (int k = 0; k < 3; ++k) {
                    int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
                    sockaddr_in a = addr_of(port.num());
                    if (::connect(fd, (sockaddr*)&a, sizeof(a)) != 0) {}
                    jam.emplace_back(new Conn(fd));
                }
                nap(0.002);
                addr = port.addr();
                break;
            }
            case ADDRESS: addr = s.pick(std::vector<string>{"127.0.0.1:notaport", "127.0.0.1", "", ":", "1.2.3.4.5:80:90", "127.0.0.1:80:80"}); want = RPC_ERROR_RESOLVE_ADDRESS; break;
            case STOPPED_CLIENT: cli = g_dead; want = RPC_ERROR_NOT_IN_RUNNING; break;
            case FROM_PEER: {
                scripted = true;
                why = reason(s);
                peer_code = s.chance(60) ? 1 + (int)s.draw(22) : s.chance(50) ? (int)s.pick(std::vector<int64_t>{-1, 99, 1000, 2000, INT32_MAX, INT32_MIN}) : (int)(int32_t)s.seed();
                if (peer_code == 0) peer_code = 1;
                want = peer_code;
                string base = RpcErrorCodeToString(peer_code);
                string t = why;
                if (peer_code == RPC_ERROR_REQUEST_TIMEOUT) texts = {base + ": " + why + ": request already sent to remote", base + ": " + why + ": request not sent to remote"};
                else texts = {why.empty() ? base : base + ": " + why};
                break;
            }
        }
        std::unique_ptr<Conn> k;
        if (scripted) {
            if (!lis.start(port.num())) discard("cannot listen");
            addr = port.addr();
        }
        causes.insert(cause);
        c.label(kCause[cause]);
        d += fmt("%s%s%s, ", fresh ? "" : "[reused] ", kCause[cause], sync ? " (sync)" : "");
        auto ch = std::make_shared<RpcChannel>(cli, addr);
        cntl->SetTimeout(timeout);
        auto fin = std::make_shared<Fin>();
        keep.push_back(cntl); keep.push_back(q); keep.push_back(r); keep.push_back(other); keep.push_back(ch); keep.push_back(fin);
        std::thread th;
        struct J { std::thread& t; ~J() { if (t.joinable()) t.join(); } } j = {th};
        double t0 = now_s();
        if (sync) th = std::thread([=] { ch->CallMethod(md, cntl.get(), req, resp, NULL); ++fin->n; });
        else ch->CallMethod(md, cntl.get(), req, resp, NewClosure(&Fin::run, fin.get()));
        Asked a;
        bool asked = false;
        if (scripted) {
            int fd = -1;
            PBT_CHECK(eventually([&] { fd = lis.accept_fd(0.01); return fd >= 0 || fin->n; }, 20), "the client does not connect");
            PBT_CHECK(fd >= 0, "the call ended before the server answered: %s", cntl->ErrorText().c_str());
            k.reset(new Conn(fd));
            while (!(asked = take_request(*k, &a, 0.02)) && !fin->n && now_s() < t0 + 20) {}
            PBT_CHECK(asked || (timeout < 1000 && fin->n), "the request does not arrive");
            if (!asked) { c.label("ran out before it was read"); continue; }
            if (cause == CLOSED) k->close_now();
            else if (cause == RESET) k->reset_now();
            else if (cause == BAD_RESPONSE) {
                string body = s.chance(50) ? string("\x12\x03" "abc") : s.data(1 + s.draw(40));      // without the id, or anything
                vtest::EchoResponse probe;
                if (probe.ParseFromString(body)) body = "\x12\x03" "abc";
                k->send(raw_frame(response_meta(a.seq), body));
            } else if (cause == FROM_PEER) k->send(raw_frame(failure_meta(a.seq, peer_code, why), s.chance(20) ? "junk" : ""));
        }
        PBT_CHECK(eventually([&] { return fin->n.load() > 0; }, 30), "a call does not end: %s", kCause[cause]);
        if (th.joinable()) th.join();
        int code = cntl->ErrorCode();
        string text = cntl->ErrorText();
        PBT_CHECK(cntl->Failed() == (code != 0), "Failed() is %d with code %d", cntl->Failed(), code);
        if (cause == OK) {
            PBT_CHECK(!cntl->Failed(), "a good call fails: %s", text.c_str());
            vtest::EchoResponse x;
            answer(md->name(), "s", *q, &x);
            PBT_CHECK(same_msg(x, *r), "wrong response");
        } else {
            PBT_CHECK(cntl->Failed(), "a call succeeds in spite of: %s", kCause[cause]);
            bool good = code == want || (cause == RESET && code == RPC_ERROR_CHANNEL_BROKEN);
            PBT_CHECK(good, "%s: code %d (%s), must be %d", kCause[cause], code, show(text, 100).c_str(), want);
            string base = RpcErrorCodeToString(code);
            PBT_CHECK(text.compare(0, base.size(), base) == 0, "the text of code %d is %s", code, show(text, 100).c_str());
            if (!texts.empty()) { bool any = false; for (auto& t : texts) any |= t == text; PBT_CHECK(any, "%s: text %s, must be %s", kCause[cause], show(text, 200).c_str(), show(texts[0], 200).c_str()); }
            if (!part.empty() && (cause != TIMEOUT || asked)) PBT_CHECK(text.find(part) != string::npos, "%s: text %s does not say \"%s\"", kCause[cause], show(text, 200).c_str(), part.c_str());
        }
        // whether the request was sent
        if (cause == REFUSED || cause == NOT_SENT || cause == MISSING_FIELD || cause == ADDRESS || cause == STOPPED_CLIENT)
            PBT_CHECK(!cntl->IsRequestSent() && cntl->SentBytes() == 0, "%s: IsRequestSent()", kCause[cause]);
        if (cause == TIMEOUT) PBT_CHECK(cntl->IsRequestSent(), "a request that arrived was not sent");
        if (cntl->IsRequestSent()) {
            if (asked) PBT_CHECK((uint64_t)cntl->SentBytes() == 24 + a.meta.size() + a.data.size(), "SentBytes() is %lld, sent were %zu", (long long)cntl->SentBytes(), 24 + a.meta.size() + a.data.size());
            PBT_CHECK(cntl->RemoteAddress() == addr, "RemoteAddress() is %s, not %s", cntl->RemoteAddress().c_str(), addr.c_str());
            std::lock_guard<std::mutex> l(g_seen_mu);
            auto it = g_seen.find(id);
            if (it != g_seen.end()) PBT_CHECK(it->second.first == addr && it->second.second == cntl->LocalAddress(), "the server saw %s <- %s, the client %s -> %s", it->second.first.c_str(), it->second.second.c_str(), cntl->LocalAddress().c_str(), addr.c_str());
            c.label("request sent");
        }
        PBT_CHECK(fin->n == 1, "the call completed %d times", fin->n.load());
    }
    if (keep.size() > 600) keep.erase(keep.begin(), keep.begin() + 300);
    c.note(d);
    c.nontrivial(causes.size() > 1 || (causes.size() == 1 && !causes.count(OK)));
}

static void names(Src& s, Ctx& c) {
    const gpb::EnumDescriptor* e = NULL;
    (void)e;
    static const std::map<int, string> known = {{0, "RPC_SUCCESS"}, {1, "RPC_ERROR_PARSE_REQUEST_MESSAGE"}, {2, "RPC_ERROR_PARSE_RESPONSE_MESSAGE"}, {3, "RPC_ERROR_UNCOMPRESS_MESSAGE"}, {4, "RPC_ERROR_COMPRESS_TYPE"}, {5, "RPC_ERROR_NOT_SPECIFY_METHOD_NAME"}, {6, "RPC_ERROR_PARSE_METHOD_NAME"}, {7, "RPC_ERROR_FOUND_SERVICE"}, {8, "RPC_ERROR_FOUND_METHOD"}, {9, "RPC_ERROR_CHANNEL_BROKEN"}, {10, "RPC_ERROR_CONNECTION_CLOSED"}, {11, "RPC_ERROR_REQUEST_TIMEOUT"}, {12, "RPC_ERROR_REQUEST_CANCELED"}, {13, "RPC_ERROR_SERVER_UNAVAILABLE"}, {14, "RPC_ERROR_SERVER_UNREACHABLE"}, {15, "RPC_ERROR_SERVER_SHUTDOWN"}, {16, "RPC_ERROR_SEND_BUFFER_FULL"}, {17, "RPC_ERROR_SERIALIZE_REQUEST"}, {18, "RPC_ERROR_SERIALIZE_RESPONSE"}, {19, "RPC_ERROR_RESOLVE_ADDRESS"}, {20, "RPC_ERROR_CREATE_STREAM"}, {21, "RPC_ERROR_NOT_IN_RUNNING"}, {22, "RPC_ERROR_SERVER_BUSY"}, {1000, "RPC_ERROR_FROM_USER"}};
    int n = 1 + s.draw(30);
    for (int i = 0; i < n; ++i) {
        int code = s.chance(60) ? (int)s.draw(24) : s.chance(40) ? 1000 : (int)(int32_t)s.seed();
        auto it = known.find(code);
        const char* t = RpcErrorCodeToString(code);
        PBT_CHECK(t && *t, "no name for code %d", code);
        if (it != known.end()) PBT_CHECK(it->second == t, "code %d is called %s", code, t);
        else for (auto& k : known) PBT_CHECK(k.second != t, "code %d is called %s", code, t);
        // a controller used by hand
        RpcController k;
        string why = reason(s);
        k.SetFailed(why);
        PBT_CHECK(k.Failed() && k.ErrorCode() == 1000 && k.ErrorText() == (why.empty() ? "RPC_ERROR_FROM_USER" : "RPC_ERROR_FROM_USER: " + why), "SetFailed(%s) gives %s", show(why).c_str(), k.ErrorText().c_str());
        k.Reset();
        PBT_CHECK(!k.Failed() && k.ErrorCode() == 0, "Reset() keeps the failure");
    }
    c.note(fmt("%d codes and reasons", n));
    c.nontrivial(n > 3);
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C08";
    p.rule = "errors: one to nine calls on fresh and reset controllers, synchronous or not, each with one of 17 causes (generated reasons, codes, sizes, compression). names: error codes and reasons on controllers by hand. "
             "Non-trivial: a failure cause, or several different causes; several codes.";
    p.subs = {{"errors", errors, 4500, 300000}, {"names", names, 4000, 200000}};
    p.init = init;
    p.workers = 16;
    p.recycle = 400;
    p.case_timeout_s = 120;
    return run(argc, argv, p);
}
