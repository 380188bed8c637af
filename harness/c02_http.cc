// LINK: -Wl,--wrap=usleep
// C02: HTTP requests (servlets, JSON and protobuf calls, unknown paths) mixed with binary ones on one
// connection, cut into pieces; each answered once, handlers see what was sent.
#include "net.h"
#include "gen_msg.h"
#include <sofa/pbrpc/ext_closure.h>
#include <sofa/pbrpc/http.h>
using namespace net;
using namespace sofa::pbrpc;
NET_FAST_START

static TestServer* g_srv;
struct Seen { int type; string path, body, ip; std::map<string, string> params, headers; int port, client_port; };
static std::mutex g_mu;
static std::map<string, std::vector<Seen>> g_seen;       // by X-Id
static bool servlet(const HTTPRequest& q, HTTPResponse& r) {
    Seen s;
    s.type = q.type;
    s.path = q.path;
    s.params = *q.query_params;
    s.headers = *q.headers;
    s.body = q.body->ToString();
    s.ip = q.client_ip;
    s.port = q.server_port;
    s.client_port = q.client_port;
    string id = s.headers["X-Id"];
    size_t want = strtoul(s.headers["X-Want"].c_str(), NULL, 10);
    { std::lock_guard<std::mutex> l(g_mu); g_seen[id].push_back(s); }
    r.content->Append("<" + id + ">");
    r.content->Append(Src::expand(want, 2, want));
    return true;
}
static void init() {
    quiet();
    g_srv = new TestServer();
    if (!g_srv->start()) { fprintf(stderr, "server does not start\n"); _exit(3); }
    g_srv->srv->RegisterWebServlet("/w", NewPermanentExtClosure(&servlet));
    g_srv->srv->RegisterWebServlet("/deep/er", NewPermanentExtClosure(&servlet));
}
static string echo_json(const vtest::EchoRequest& q, uint64_t ws) {
    std::vector<string> f;
    if (q.has_id()) f.push_back(fmt("\"id\":%llu", (unsigned long long)q.id()));
    if (q.has_data()) f.push_back("\"data\":" + mj::quote(mj::b64(q.data())));
    if (q.has_text()) f.push_back("\"text\":" + mj::quote(q.text()));
    if (q.nums_size()) { string a = "\"nums\":["; for (int i = 0; i < q.nums_size(); ++i) a += (i ? "," : "") + fmt("%lld", (long long)q.nums(i)); f.push_back(a + "]"); }
    if (q.has_fail()) f.push_back("\"fail\":" + mj::quote(q.fail()));
    if (q.has_delay_ms()) f.push_back(fmt("\"delay_ms\":%d", q.delay_ms()));
    if (q.has_response_size()) f.push_back(fmt("\"response_size\":%d", q.response_size()));
    for (size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[mix(ws + i) % i]);
    string o = "{";
    for (size_t i = 0; i < f.size(); ++i) o += (i ? (mix(ws ^ i) % 4 ? "," : " ,\n ") : "") + f[i];
    return o + "}";
}
enum Kind { SERVLET, JSON_POST, JSON_GET, PB_POST, BINARY, UNKNOWN };
static const char* kKind[] = {"servlet", "json post", "json get", "pb post", "binary", "unknown path"};
struct Req {
    Kind kind;
    uint64_t id, seq;
    string method, target, path, body, wire, fail, mname;
    std::map<string, string> params;
    Headers head;
    vtest::EchoRequest q;
    vtest::EchoResponse want;
    size_t want_size;
    bool done;
};
static string token(Src& s, size_t max) { string t = s.str("abcXYZ019-_.", max); return t.empty() ? "a" : t; }
static void add_headers(Src& s, Req* r) {
    static const string vis = " abcAZ09:;,=/\"'()<>@\\[]{}?!#$%&*+^|~\t";
    int n = s.logsize(8);
    for (int i = 0; i < n; ++i) {
        string name = "H" + token(s, 12) + fmt("-%d", i), v = s.str(vis, 60);
        while (v.size() && (v[0] == ' ' || v[0] == '\t')) v.erase(0, 1);
        while (v.size() && (v.back() == ' ' || v.back() == '\t')) v.pop_back();
        if (s.chance(2)) v = string(s.size_near({1000, 4096, 8192}, 20000), 'v');
        r->head.push_back({name, v});
    }
}
static Req gen(Src& s, size_t maxd, uint64_t seq) {
    Req r;
    r.done = false;
    r.id = fresh_id();
    r.seq = seq;
    r.kind = (Kind)s.weighted({6, 4, 2, 2, 2, 1});
    r.want_size = 0;
    gen_request(s, &r.q, r.id, maxd);
    if (r.q.has_text()) r.q.set_text(gm::gen_text(s, 20));
    if (s.chance(10)) r.q.set_response_size(1 + s.logsize(maxd));
    if (s.chance(8)) r.q.set_delay_ms(1 + s.draw(4));
    if (s.chance(15)) r.q.set_fail(gm::gen_text(s, 20));
    r.mname = s.pick<string>({"Echo", "Reverse", "EchoT400"});
    answer(r.mname, g_srv->name, r.q, &r.want);
    if (r.q.has_fail()) r.fail = r.q.fail();
    string full = "vtest.EchoService." + r.mname;
    if (r.kind == BINARY) {
        r.body = r.q.SerializeAsString();
        r.wire = raw_frame(request_meta(seq, full), r.body);
        return r;
    }
    add_headers(s, &r);
    r.method = s.chance(50) ? "GET" : "POST";
    if (r.kind == SERVLET || r.kind == UNKNOWN) {
        r.path = r.kind == SERVLET ? s.pick<string>({"/w", "/w/", "/deep/er", "//w", "/w//x"}) : s.pick<string>({"/nope", "/deep", "/ww", "/W", "/vtest.EchoService.Nope", "/vtest.Nope.Echo", "/a.b", "/x/y.z", "/."}) ;
        if (r.kind == UNKNOWN) r.path += fmt("/u%llu", (unsigned long long)r.id);
        if (r.kind == SERVLET && s.chance(60)) r.path += "/" + s.str("abz09.-_~!$'()*,;:@/%25=&+", 30);
        string sep = "?";
        r.target = r.path;
        int n = s.logsize(8);
        for (int i = 0; i < n; ++i) {
            string k = "k" + token(s, 6) + fmt("%d", i), v = s.any_bytes(30);
            int how = s.draw(2);
            string enc;
            if (how == 0) enc = url_quote(v, s.seed(), 20);
            else if (how == 1) { v = s.str("abc09-_.~!$'()*,;:@/?=", 30); enc = v; }
            else { v = s.str("ab%=+z", 12); enc = url_quote(v, s.seed()); }
            r.params[k] = v;
            r.target += sep + k + "=" + enc;
            sep = "&";
        }
        if (s.chance(10)) { r.target += sep; if (s.chance(50)) r.target += "flag&"; }
        if (r.method == "POST" || s.chance(15)) r.body = s.data(s.size_near({0, 1, 100, 1024, 4096, 65536}, maxd));
        r.want_size = s.chance(30) ? s.size_near({0, 1, 1000, 4096, 65536}, maxd) : s.draw(30);
        r.head.push_back({"X-Id", fmt("%llu", (unsigned long long)r.id)});
        r.head.push_back({"X-Want", fmt("%zu", r.want_size)});
    } else {
        r.path = "/" + full;
        r.target = r.path;
        string js = echo_json(r.q, s.seed());
        if (r.kind == JSON_POST) { r.method = "POST"; r.body = js; }
        if (r.kind == JSON_GET) { r.method = "GET"; r.target += "?" + (s.chance(30) ? string("a=b&") : string("")) + "request=" + url_quote(js, s.seed(), s.chance(30) ? 30 : 0) + (s.chance(30) ? "&z=" : ""); }
        if (r.kind == PB_POST) { r.method = "POST"; r.q.SerializeToString(&r.body); r.head.push_back({s.chance(80) ? "Accept" : "accept", "application/protobuf"}); }
        else if (s.chance(30)) r.head.push_back({"Accept", s.pick<string>({"*/*", "application/json", "text/html"})});
    }
    if (r.body.size() || r.method == "POST") if (r.body.size() || s.chance(70)) r.head.push_back({s.pick<string>({"Content-Length", "Content-Length", "Content-Length", "content-length", "CONTENT-LENGTH"}), fmt("%zu", r.body.size())});
    for (size_t i = r.head.size(); i > 1; --i) std::swap(r.head[i - 1], r.head[s.draw(1) ? i - 1 : s.draw(i - 1)]);
    string t = r.method + " " + r.target + " " + (s.chance(75) ? "HTTP/1.1" : "HTTP/1.0") + "\r\n";
    for (auto& h : r.head) t += h.first + (s.chance(92) ? ": " : ":") + h.second + "\r\n";
    r.wire = t + "\r\n" + r.body;
    return r;
}
static void check_http(Req& r, const Http& h, int client_port) {
    PBT_CHECK(h.status == "HTTP/1.1 200 OK", "status line %s", show(h.status).c_str());
    if (r.kind == SERVLET) {
        string want = fmt("<%llu>", (unsigned long long)r.id) + Src::expand(r.want_size, 2, r.want_size);
        PBT_CHECK(h.body == want, "servlet body of %zu bytes instead of %zu", h.body.size(), want.size());
        Seen s;
        { std::lock_guard<std::mutex> l(g_mu); auto& v = g_seen[fmt("%llu", (unsigned long long)r.id)]; PBT_CHECK(v.size() == 1, "servlet ran %zu times", v.size()); s = v[0]; }
        PBT_CHECK(s.type == (r.method == "GET" ? HTTPRequest::GET : HTTPRequest::POST), "%s seen as type %d", r.method.c_str(), s.type);
        PBT_CHECK(s.path == r.path, "path %s seen as %s", show(r.path).c_str(), show(s.path).c_str());
        PBT_CHECK(s.body == r.body, "body of %zu bytes seen as %zu bytes%s", r.body.size(), s.body.size(), s.body.size() == r.body.size() ? ", changed" : "");
        PBT_CHECK(s.params == r.params, "parameters seen: %zu instead of %zu (%s)", s.params.size(), r.params.size(), show(r.target, 200).c_str());
        std::map<string, string> hs(r.head.begin(), r.head.end());
        PBT_CHECK(s.headers == hs, "headers seen: %zu instead of %zu", s.headers.size(), hs.size());
        PBT_CHECK(s.ip == "127.0.0.1" && s.port == g_srv->port->num() && s.client_port == client_port, "addresses %s:%d to port %d", s.ip.c_str(), s.client_port, s.port);
        return;
    }
    if (r.kind == UNKNOWN) {
        mj::Val v;
        PBT_CHECK(mj::parse(h.body, &v) && v.t == mj::Val::STR, "answer is not a JSON text: %s", show(h.body, 200).c_str());
        PBT_CHECK(v.s.compare(0, 9, "ERROR: 8:") == 0, "unknown path %s answered with %s", r.path.c_str(), show(v.s).c_str());
        return;
    }
    if (r.q.has_fail()) {
        mj::Val v;
        PBT_CHECK(mj::parse(h.body, &v) && v.t == mj::Val::STR, "failure is not a JSON text: %s", show(h.body, 200).c_str());
        PBT_CHECK(v.s == "ERROR: 1000: " + r.fail, "failure %s instead of %s", show(v.s).c_str(), show(r.fail).c_str());
    } else if (r.kind == PB_POST) {
        vtest::EchoResponse resp;
        PBT_CHECK(resp.ParseFromString(h.body) && same_msg(resp, r.want), "protobuf answer %s", show(h.body, 200).c_str());
        PBT_CHECK(h.h("Content-Type") == "application/protobuf", "content type %s", h.h("Content-Type").c_str());
    } else {
        mj::Val v;
        PBT_CHECK(mj::parse(h.body, &v), "answer is not JSON: %s", show(h.body, 200).c_str());
        string e = gm::matches(r.want, v, 1e-9);
        PBT_CHECK(e.empty(), "answer differs: %s in %s", e.c_str(), show(h.body, 300).c_str());
        PBT_CHECK(h.h("Content-Type") == "application/json", "content type %s", h.h("Content-Type").c_str());
    }
}
// Which request an HTTP answer belongs to.
static uint64_t id_of(const Http& h, const std::vector<Req>& rs, size_t from, size_t to) {
    if (h.body.size() > 2 && h.body[0] == '<') return strtoull(h.body.c_str() + 1, NULL, 10);
    if (h.h("Content-Type") == "application/protobuf") { vtest::EchoResponse r; r.ParsePartialFromString(h.body); return r.id(); }
    mj::Val v;
    if (!mj::parse(h.body, &v)) return 0;
    if (v.t == mj::Val::OBJ) { for (auto& e : v.o) if (e.first == "id") { uint64_t n; if (mj::as_u64(e.second.s, &n)) return n; } return 0; }
    if (v.t == mj::Val::STR) {
        size_t p = v.s.rfind("/u");
        if (v.s.compare(0, 9, "ERROR: 8:") == 0 && p != string::npos) return strtoull(v.s.c_str() + p + 2, NULL, 10);
        for (size_t i = from; i < to; ++i) if (!rs[i].done && rs[i].kind != BINARY && rs[i].q.has_fail() && rs[i].kind != SERVLET && rs[i].kind != UNKNOWN && v.s == "ERROR: 1000: " + rs[i].fail) return rs[i].id;
    }
    return 0;
}
static void mixed(Src& s, Ctx& c) {
    static const size_t lim[] = {200, 5000, 100000, 1500000};
    size_t maxd = lim[s.weighted({6, 4, 2, 1})];
    int groups = 1 + s.logsize(5);
    std::vector<Req> rs;
    std::vector<size_t> ends;
    for (int g = 0; g < groups; ++g) {
        int n = 1 + (s.chance(40) ? (int)s.logsize(5) : 0);
        for (int i = 0; i < n; ++i) {
            rs.push_back(gen(s, rs.empty() ? maxd : std::min<size_t>(maxd, 30000), rs.size() + 1));
            c.label(kKind[rs.back().kind]);
        }
        ends.push_back(rs.size());
    }
    std::vector<std::vector<size_t>> cuts;
    size_t pieces = 0, a = 0;
    string d;
    for (size_t g = 0; g < ends.size(); ++g) {
        size_t n = 0;
        for (size_t i = a; i < ends[g]; ++i) { n += rs[i].wire.size(); if (d.size() < 1000) d += fmt("%s%s(%zu)", i ? (i == a ? " | " : " ") : "", kKind[rs[i].kind], rs[i].wire.size()); }
        cuts.push_back(s.chunks(n));
        pieces += cuts.back().size();
        a = ends[g];
    }
    uint64_t pseed = s.seed();
    int pause = s.weighted({5, 3, 1});
    c.note(fmt("%zu requests in %d groups, %zu pieces: %s", rs.size(), groups, pieces, d.c_str()));
    Conn conn;
    if (!conn.open(g_srv->port->num())) discard("cannot connect");
    sockaddr_in me;
    socklen_t len = sizeof(me);
    getsockname(conn.fd, (sockaddr*)&me, &len);
    int my_port = ntohs(me.sin_port);
    a = 0;
    for (size_t g = 0; g < ends.size(); ++g) {
        string out;
        for (size_t i = a; i < ends[g]; ++i) out += rs[i].wire;
        size_t pos = 0;
        for (size_t i = 0; i < cuts[g].size(); ++i) {
            PBT_CHECK(conn.send(out.data() + pos, cuts[g][i]), "the server stopped reading or closed the connection after %zu of %zu well-formed bytes of group %zu", pos, out.size(), g);
            pos += cuts[g][i];
            if (pause && i < 60 && mix(pseed + i + g * 100) % (pause == 1 ? 4 : 2) == 0) nap((mix(pseed + i) >> 8) % 700 * 1e-6);
        }
        for (size_t got = a; got < ends[g]; ++got) {
            Frame f;
            Http h;
            string why;
            int r;
            bool bin = false;
            conn.until([&] { bin = conn.in[0] == 'S'; r = conn.in.empty() ? 0 : bin ? take_frame(&conn.in, &f, &why) : take_http(&conn.in, &h, &why); return r != 0; }, 30);
            PBT_CHECK(r >= 0, "not a response: %s", why.c_str());
            PBT_CHECK(r == 1, "%zu of %zu requests answered, then %s", got, ends[g], conn.dead() ? "the connection was closed" : "nothing for 30 s");
            if (bin) {
                Fields m(f.meta);
                PBT_CHECK(m.ok && m.n(2) > a && m.n(2) <= ends[g], "answer to sequence id %llu", (unsigned long long)m.n(2));
                Req& q = rs[m.n(2) - 1];
                PBT_CHECK(q.kind == BINARY && !q.done, "binary answer to a request that was not binary or is done");
                q.done = true;
                vtest::EchoResponse resp;
                if (q.q.has_fail()) PBT_CHECK(m.n(200) == 1 && m.n(201) == 1000 && m.s(202) == q.fail, "binary failure %s", show(m.s(202)).c_str());
                else PBT_CHECK(m.n(200) == 0 && resp.ParseFromString(f.data) && same_msg(resp, q.want), "binary answer differs");
                continue;
            }
            uint64_t id = id_of(h, rs, a, ends[g]);
            Req* q = NULL;
            for (size_t i = a; i < ends[g]; ++i) if (rs[i].id == id && rs[i].kind != BINARY && !rs[i].done) q = &rs[i];
            PBT_CHECK(q, "answer that belongs to no outstanding request: %s %s", show(h.status).c_str(), show(h.body, 200).c_str());
            q->done = true;
            check_http(*q, h, my_port);
        }
        a = ends[g];
    }
    conn.half_close();
    PBT_CHECK(conn.until_eof(), "connection stays open after its end was seen");
    PBT_CHECK(conn.in.empty(), "%zu bytes after the last answer", conn.in.size());
    for (auto& q : rs) {
        auto ex = exec_log().get(q.id);
        bool call = q.kind != SERVLET && q.kind != UNKNOWN;
        PBT_CHECK(ex.size() == (call ? 1u : 0u), "the method of a %s request ran %zu times", kKind[q.kind], ex.size());
        if (!call) continue;
        vtest::EchoRequest e;
        PBT_CHECK(e.ParsePartialFromString(ex[0].request) && same_msg(e, q.q) && ex[0].method == q.mname, "the method got another %s request than was sent", kKind[q.kind]);
    }
    exec_log().clear();
    { std::lock_guard<std::mutex> l(g_mu); g_seen.clear(); }
    c.nontrivial(rs.size() >= 2 && pieces > ends.size());
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C02";
    p.rule = "servlet, JSON, protobuf, unknown-path and binary requests with generated paths, parameters, headers and bodies, sent in generated pieces over one connection; "
             "answers, what the handlers saw and how often they ran are compared with what was sent. Non-trivial: at least two requests and a request cut into pieces.";
    p.subs = {{"mixed", mixed, 12000, 1000000}};
    p.init = init;
    p.recycle = 1500;
    p.case_timeout_s = 90;
    return run(argc, argv, p);
}
