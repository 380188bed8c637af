// LINK: -Wl,--wrap=usleep
// C11: the same call over the binary protocol, as JSON in a POST body or a GET query, and as protobuf over
// HTTP: the method sees the same request, the caller gets the same response or failure.
#include "fake.h"
#include "gen_msg.h"
using namespace net;
using namespace sofa::pbrpc;
NET_FAST_START

// Values with a fraction go through text: %.16e in requests, six digits in responses
static const double kIn = 2e-7, kOut = 6e-6;
struct Twin : vtest::EchoService {
    std::mutex mu;
    std::vector<std::pair<string, string>> seen;    // method, request
    std::vector<std::pair<string, string>> take() { std::lock_guard<std::mutex> l(mu); std::vector<std::pair<string, string>> v; v.swap(seen); return v; }
    typedef google::protobuf::RpcController RC;
    typedef google::protobuf::Closure Cl;
    void note(const char* m, const google::protobuf::Message* q) { std::lock_guard<std::mutex> l(mu); seen.push_back({m, q->SerializeAsString()}); }
    // The response depends on the whole request; it fails when the text says so
    void Types(RC* c, const vtest::AllTypes* q, vtest::AllTypes* r, Cl* d) override {
        note("Types", q);
        r->CopyFrom(*q);
        std::reverse(r->mutable_ri64()->begin(), r->mutable_ri64()->end());
        r->add_ru32(q->ByteSizeLong() ? q->rs_size() : 0);
        if (q->has_m()) r->mutable_m()->add_kids()->set_id(q->m().kids_size());
        fail(c, q->s());
        end(d, q->i32());
    }
    void go(const char* m, RC* c, const vtest::EchoRequest* q, vtest::EchoResponse* r, Cl* d) {
        note(m, q);
        answer(m, "twin", *q, r);
        if (q->leave_incomplete()) r->clear_id();
        if (q->has_fail()) c->SetFailed(q->fail());
        end(d, (int)q->id());
    }
    void Echo(RC* c, const vtest::EchoRequest* q, vtest::EchoResponse* r, Cl* d) override { go("Echo", c, q, r, d); }
    void Reverse(RC* c, const vtest::EchoRequest* q, vtest::EchoResponse* r, Cl* d) override { go("Reverse", c, q, r, d); }
    void EchoZip(RC* c, const vtest::EchoRequest* q, vtest::EchoResponse* r, Cl* d) override { go("EchoZip", c, q, r, d); }
    void Nothing(RC*, const vtest::Empty* q, vtest::Empty*, Cl* d) override { note("Nothing", q); d->Run(); }
    static void fail(RC* c, const string& t) { if (t.compare(0, 5, "fail:") == 0) c->SetFailed(t.substr(5)); }
    static void end(Cl* d, int v) { if (v % 3 == 0) Later::get().in(1e-4 * (v & 7), [d] { d->Run(); }); else d->Run(); }
};
static Twin* g_twin;
static RpcServer* g_srv;
static Port* g_port;
static RpcClient* g_cli;
static RpcChannel* g_chan;
static void init() {
    quiet();
    Later::get().in(0, [] {});
    g_port = new Port();
    RpcServerOptions o;
    o.work_thread_num = 2;
    g_srv = new RpcServer(o);
    g_srv->RegisterService(g_twin = new Twin());
    for (int i = 0; i < 40 && !g_srv->Start(g_port->addr()); ++i) nap(0.05);
    g_cli = new RpcClient();
    g_chan = new RpcChannel(g_cli, g_port->addr());
}
struct Answer { bool failed; int code; string reason, pb; mj::Val json; bool is_json; Answer() : failed(false), code(0), is_json(false) {} };
// One HTTP request on the connection (opened as needed)
static Answer http(Src& s, Conn& c, const string& text, bool pb) {
    if (c.fd < 0 || c.dead()) PBT_CHECK(c.open(g_port->num()), "cannot connect");
    auto cuts = s.chance(30) ? s.chunks(text.size()) : std::vector<size_t>{text.size()};
    size_t pos = 0;
    for (size_t n : cuts) { PBT_CHECK(c.send(text.data() + pos, n), "the server closed the connection in the middle of a request"); pos += n; }
    Http h;
    string why;
    int r = 0;
    c.until([&] { r = c.in.empty() ? 0 : take_http(&c.in, &h, &why); return r != 0; }, 30);
    PBT_CHECK(r >= 0, "not an answer: %s", why.c_str());
    PBT_CHECK(r == 1, "no answer: %s", c.dead() ? "the connection was closed" : "nothing for 30 s");
    PBT_CHECK(c.in.empty(), "more than one answer");
    PBT_CHECK(h.status == "HTTP/1.1 200 OK" && h.count("Content-Type") == 1 && h.count("Content-Length") == 1, "answer %s with %d content types", h.status.c_str(), h.count("Content-Type"));
    Answer a;
    string type = h.h("Content-Type");
    PBT_CHECK(type == "application/json" || (pb && type == "application/protobuf"), "content type %s", type.c_str());
    if (type == "application/protobuf") { a.pb = h.body; return a; }
    a.is_json = true;
    PBT_CHECK(mj::parse(h.body, &a.json), "the answer is not JSON: %s", show(h.body, 300).c_str());
    if (a.json.t == mj::Val::STR) {
        a.failed = true;
        PBT_CHECK(a.json.s.compare(0, 7, "ERROR: ") == 0, "failure %s", show(a.json.s).c_str());
        size_t p = a.json.s.find(": ", 7);
        PBT_CHECK(p != string::npos, "failure %s", show(a.json.s).c_str());
        a.code = atoi(a.json.s.c_str() + 7);
        a.reason = a.json.s.substr(p + 2);
    } else PBT_CHECK(!pb, "JSON answer to a protobuf request: %s", show(h.body, 200).c_str());
    return a;
}
static string http_pb(Src& s, const string& method, const string& body) {
    Headers h;
    h.push_back({s.chance(80) ? "Accept" : "ACCEPT", "application/protobuf"});
    if (s.chance(50)) h.push_back({"Content-Type", "application/protobuf"});
    h.push_back({"Content-Length", fmt("%zu", body.size())});
    if (s.chance(30)) std::swap(h.front(), h.back());
    return http_text("POST", "/vtest.EchoService." + method, "HTTP/1.1", h, body);
}
static string http_json(Src& s, const string& method, const string& json, bool get) {
    Headers h;
    if (s.chance(40)) h.push_back({"Accept", s.pick<string>({"*/*", "application/json", "text/html, */*;q=0.1"})});
    if (s.chance(30)) h.push_back({"User-Agent", "x/1.0 (y; z)"});
    string target = "/vtest.EchoService." + method;
    if (get) {
        string q = "request=" + url_quote(json, s.seed(), s.chance(30) ? 30 : 0);
        if (s.chance(25)) q = "a=1&" + q;
        if (s.chance(25)) q += "&b=%22&c";
        return http_text("GET", target + "?" + q, s.chance(75) ? "HTTP/1.1" : "HTTP/1.0", h, "");
    }
    h.push_back({"Content-Length", fmt("%zu", json.size())});
    if (s.chance(50)) h.push_back({"Content-Type", "application/json"});
    return http_text("POST", target + (s.chance(10) ? "?x=y" : ""), s.chance(75) ? "HTTP/1.1" : "HTTP/1.0", h, json);
}
static std::shared_ptr<google::protobuf::Message> gen_message(Src& s, const string& m, bool required) {
    gm::Opt o;
    o.required = required;
    if (m == "Nothing") return std::make_shared<vtest::Empty>();
    if (m == "Types") {
        auto t = std::make_shared<vtest::AllTypes>();
        gm::fill(s, t.get(), o);
        if (s.chance(20)) t->set_s("fail:" + gm::gen_text(s, 60));
        return t;
    }
    auto q = std::make_shared<vtest::EchoRequest>();
    gen_request(s, q.get(), s.any_i64(), 3000);
    if (s.chance(50)) q->set_text(gm::gen_text(s, 60));
    if (s.chance(15)) q->set_fail(gm::gen_text(s, 60));
    if (s.chance(8)) q->set_response_size(1 + s.logsize(200000));
    if (s.chance(8)) q->set_leave_incomplete(true);
    if (!required) q->clear_id();
    return q;
}
static std::shared_ptr<google::protobuf::Message> blank(const string& m) {
    if (m == "Nothing") return std::make_shared<vtest::Empty>();
    if (m == "Types") return std::make_shared<vtest::AllTypes>();
    return std::make_shared<vtest::EchoRequest>();
}
static string pick_method(Src& s) { return s.pick<string>({"Types", "Types", "Types", "Echo", "Reverse", "EchoZip", "Nothing"}); }

static void twin(Src& s, Ctx& c) {
    string m = pick_method(s), d = m;
    auto q = gen_message(s, m, true);
    const google::protobuf::MethodDescriptor* desc = vtest::EchoService::descriptor()->FindMethodByName(m);
    g_twin->take();
    // the binary call
    RpcController cntl;
    std::unique_ptr<google::protobuf::Message> want(g_twin->GetResponsePrototype(desc).New());
    cntl.SetTimeout(30000);
    g_chan->CallMethod(desc, &cntl, q.get(), want.get(), NULL);
    auto ran = g_twin->take();
    PBT_CHECK(ran.size() == 1 && ran[0].first == m && ran[0].second == q->SerializeAsString(), "the binary call ran %zu times", ran.size());
    string reason = cntl.Failed() ? cntl.ErrorText() : "";
    if (cntl.Failed()) {
        string name = cntl.ErrorCode() == 1000 ? "RPC_ERROR_FROM_USER" : "RPC_ERROR_SERIALIZE_RESPONSE";
        PBT_CHECK(cntl.ErrorCode() == 1000 || cntl.ErrorCode() == 18, "the binary call failed: %s", reason.c_str());
        PBT_CHECK(reason.compare(0, name.size(), name) == 0, "the binary call failed: %s", reason.c_str());
        reason = reason.size() > name.size() + 2 ? reason.substr(name.size() + 2) : "";
    }
    Conn conn;
    int n = 1 + s.draw(3);
    bool one_conn = s.chance(60), fraction = false;
    for (int i = 0; i < n; ++i) {
        int form = s.draw(2);
        d += form == 0 ? " post" : form == 1 ? " get" : " pb";
        if (!one_conn) { conn.close_now(); conn.in.clear(); }
        string text;
        if (form == 2) text = http_pb(s, m, q->SerializeAsString());
        else {
            string json;
            bool empty = q->ByteSizeLong() == 0 && s.chance(40);
            if (!empty) { gm::put_ws(s, &json); json += gm::write_json(s, *q); gm::put_ws(s, &json); }
            if (form == 1 && json.size() > 20000) { d.resize(d.size() - 4); d += " post"; form = 0; }
            text = http_json(s, m, json, form == 1);
        }
        Answer a = http(s, conn, text, form == 2);
        ran = g_twin->take();
        PBT_CHECK(ran.size() == 1 && ran[0].first == m, "the call over HTTP ran %zu times (%s)", ran.size(), a.failed ? show(a.reason, 200).c_str() : "it succeeded");
        auto got = blank(m);
        PBT_CHECK(got->ParsePartialFromString(ran[0].second), "?");
        string e = gm::same(*q, *got, form == 2 ? 0 : kIn);
        PBT_CHECK(e.empty(), "the method got another request over HTTP: %s", e.c_str());
        PBT_CHECK(a.failed == cntl.Failed(), "the binary call %s, but the one over HTTP %s %s", cntl.Failed() ? "failed" : "succeeded", a.failed ? "failed:" : "succeeded", show(a.reason).c_str());
        if (a.failed) {
            PBT_CHECK(a.code == cntl.ErrorCode(), "code %d over HTTP instead of %d", a.code, cntl.ErrorCode());
            PBT_CHECK(a.reason == reason, "reason %s over HTTP instead of %s", show(a.reason).c_str(), show(reason).c_str());
            c.label("failure");
        } else if (form == 2) {
            std::unique_ptr<google::protobuf::Message> r(want->New());
            PBT_CHECK(!a.is_json && r->ParseFromString(a.pb), "the answer is not a protobuf message");
            e = gm::same(*want, *r, 0);
            PBT_CHECK(e.empty(), "another response over HTTP: %s", e.c_str());
        } else {
            e = gm::matches(*want, a.json, kOut);
            PBT_CHECK(e.empty(), "another response over HTTP: %s", e.c_str());
        }
        c.label(form == 0 ? "JSON in the body" : form == 1 ? "JSON in the query" : "protobuf");
    }
    (void)fraction;
    c.note(d + " " + show(q->ShortDebugString(), 160));
    c.nontrivial(m != "Nothing" && (cntl.Failed() || gm::count_set(*q) >= 3));
}

// Requests that cannot be understood, or lack required fields: an error, and the method does not run.
static void invalid(Src& s, Ctx& c) {
    string m = s.pick<string>({"Types", "Echo", "Reverse", "EchoZip"}), json, pb, why;
    bool as_pb = false;
    int kind = s.draw(4);
    switch (kind) {
    case 0: {    // lacks the required field
        auto q = gen_message(s, "Echo", false);
        if (m == "Types") { auto t = std::make_shared<vtest::AllTypes>(); gm::fill(s, t.get(), gm::Opt()); vtest::Nested* x = s.chance(50) ? t->mutable_m() : t->add_rm(); for (int k = s.draw(2); k; --k) { x->set_id(1); x = x->add_kids(); } x->clear_id(); x->set_label("x"); q = t; }
        json = gm::write_json(s, *q);
        pb = q->SerializePartialAsString();
        as_pb = s.chance(30);
        if (m != "Types" && q->ByteSizeLong() == 0 && s.chance(50)) json = "";
        why = "required field missing";
        break;
    }
    case 1: {    // the text ends too early
        auto q = gen_message(s, m, true);
        json = gm::write_json(s, *q);
        json.resize(1 + s.draw(json.size() - 2));
        why = "cut short";
        break;
    }
    case 2: {    // a value of the wrong kind
        static const char* bad[] = {"\"i32\":\"x\"", "\"i32\":{}", "\"s\":5", "\"s\":[]", "\"b\":\"true\"", "\"b\":1", "\"m\":[]", "\"m\":3", "\"rd\":{}", "\"ri32\":[1,\"2\"]", "\"rs\":[1]", "\"rm\":[{\"id\":1},4]", "\"e\":\"PURPLE\"", "\"d\":\"1.5\"", "\"u32\":-1", "\"i32\":2147483648", "\"i64\":1.5", "\"y\":7", "\"self\":{\"self\":{\"i32\":\"x\"}}"};
        static const char* bad2[] = {"\"id\":\"7\"", "\"id\":{}", "\"id\":-1", "\"id\":[1]", "\"id\":1,\"text\":9", "\"id\":1,\"nums\":[{}]", "\"id\":1,\"nums\":\"12\"", "\"id\":null"};
        json = string("{") + (m == "Types" ? bad[s.draw(sizeof(bad) / sizeof(*bad) - 1)] : bad2[s.draw(sizeof(bad2) / sizeof(*bad2) - 1)]) + "}";
        why = json;
        break;
    }
    case 3:      // not an object
        json = s.pick<string>({"[]", "1", "\"x\"", "true", "x", "{}}", "{\"id\" 1}", "{'id':1}", "{\"id\":1,}", "[{\"id\":1}]", "}", "{\"id\":01x}", "\x01", "<xml/>"});
        why = json;
        break;
    default: {   // not a message
        as_pb = true;
        auto q = gen_message(s, m, true);
        pb = q->SerializeAsString();
        if (s.chance(50)) pb += string("\x0a\x7fxx", 4);      // a field that ends behind the end
        else pb += s.pick<string>({string("\xff"), string("\x00\x01", 2), string("\x0c"), string("\x08\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", 12)});
        why = "broken protobuf";
        break;
    }
    }
    g_twin->take();
    Conn conn;
    bool get = !as_pb && s.chance(40) && json.size() < 20000;
    string text = as_pb ? http_pb(s, m, pb) : http_json(s, m, json, get);
    Answer a = http(s, conn, text, as_pb);
    auto ran = g_twin->take();
    PBT_CHECK(ran.empty(), "the method ran (%s)", show(why).c_str());
    PBT_CHECK(a.failed && a.code == 1, "%s: %s", show(why).c_str(), a.failed ? fmt("failed with code %d", a.code).c_str() : "no failure");
    // the connection is good for another call
    if (s.chance(50)) {
        auto q = gen_message(s, "Reverse", true);
        static_cast<vtest::EchoRequest*>(q.get())->clear_fail();
        static_cast<vtest::EchoRequest*>(q.get())->clear_leave_incomplete();
        Answer b = http(s, conn, http_json(s, "Reverse", gm::write_json(s, *q), false), false);
        vtest::EchoResponse w;
        answer("Reverse", "twin", static_cast<vtest::EchoRequest&>(*q), &w);
        string e = b.failed ? "it failed" : gm::matches(w, b.json, kOut);
        PBT_CHECK(e.empty(), "the next call on the connection: %s", e.c_str());
        g_twin->take();
    }
    static const char* kinds[] = {"lacks a required field", "cut short", "wrong kind of value", "not an object", "broken protobuf"};
    c.label(kinds[kind]);
    c.note(m + " " + (as_pb ? "pb " : get ? "get " : "post ") + show(as_pb ? pb : json, 160));
    c.nontrivial();
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C11";
    p.rule = "non-trivial: a call with at least three fields set or a failure, compared over the binary protocol and HTTP; or a request that is not valid";
    p.subs = {{"twin", twin, 20000, 600000}, {"invalid", invalid, 8000, 300000}};
    p.workers = 16;
    p.init = init;
    return pbt::run(argc, argv, p);
}
