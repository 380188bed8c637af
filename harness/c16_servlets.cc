// LINK: -Wl,--wrap=usleep
// C16: servlets are routed by the longest registered path and their answers arrive exactly.
#include "net.h"
#include "mini_json.h"
#include <sofa/pbrpc/ext_closure.h>
#include <sofa/pbrpc/http.h>
#include <set>
using namespace net;
using namespace sofa::pbrpc;
NET_FAST_START

typedef ExtClosure<bool(const HTTPRequest&, HTTPResponse&)> ServletBase;
struct Answer { bool ok, own_status, own_type; string status, type; std::vector<string> parts; };
static std::mutex g_mu;
static std::map<string, Answer> g_answers;                  // by X-Id
static std::map<string, std::vector<std::pair<int, string>>> g_runs;   // by X-Id: servlet, path
static std::atomic<int> g_deaths;
struct Sv : ServletBase {
    int n;
    std::atomic<int>* dead;
    Sv(int k, std::atomic<int>* d) : n(k), dead(d) {}
    ~Sv() { ++*dead; ++g_deaths; }
    virtual bool IsSelfDelete() const { return false; }
    virtual bool Run(const HTTPRequest& q, HTTPResponse& r) {
        auto i = q.headers->find("X-Id");
        string id = i == q.headers->end() ? "" : i->second;
        Answer a;
        {
            std::lock_guard<std::mutex> l(g_mu);
            g_runs[id].push_back({n, q.path});
            auto j = g_answers.find(id);
            if (j == g_answers.end()) { r.content->Append(fmt("servlet %d", n)); return true; }
            a = j->second;
        }
        if (a.own_status) r.status_line = a.status;
        if (a.own_type) r.content_type = a.type;
        for (size_t k = 0; k < a.parts.size(); ++k) {
            const string& p = a.parts[k];
            if (mix(p.size() + k) % 3 == 0) r.content->Append(p.data(), (int)p.size());
            else if (mix(p.size() + k) % 3 == 1) r.content->Append(p);
            else {                                            // through the stream interface
                size_t done = 0;
                void* b;
                int z;
                while (done < p.size() && r.content->Next(&b, &z)) {
                    int m = (int)std::min<size_t>(z, p.size() - done);
                    memcpy(b, p.data() + done, m);
                    done += m;
                    if (m < z) r.content->BackUp(z - m);
                }
            }
        }
        return a.ok;
    }
};
static string norm(const string& p) {
    string o, part;
    for (char ch : p + "/") {
        if (ch == '/') { if (!part.empty()) o += "/" + part; part.clear(); }
        else part += ch;
    }
    return o.empty() ? "/" : o;
}
struct Reg { int sv; bool owned; };       // sv < 0: one of the pages the server comes with
typedef std::map<string, Reg> Model;
static const Reg* route(const Model& m, const string& path) {
    string p = norm(path);
    while (true) {
        auto i = m.find(p);
        if (i != m.end()) return &i->second;
        size_t k = p.rfind('/');
        if (k == 0 || p == "/") return NULL;
        p.resize(k);
    }
}
static string gen_path(Src& s, bool reg) {
    static const std::vector<string> parts = {"a", "b", "ab", "aa", "A", "a.b", ".", "..", "%61", "home", "status", "servic", "service", "services", "a=b", "x;y", "vtest.EchoService.Nope", "~", "-", "$x$", "options", "c:"};
    string p;
    int n = (int)s.weighted({1, 5, 5, 4, 2, 1});
    if (!reg || s.chance(80)) p = string(s.chance(80) ? 1 : s.range(2, 4), '/');
    for (int i = 0; i < n; ++i) {
        if (i) p += string(s.chance(85) ? 1 : s.range(2, 3), '/');
        p += s.chance(85) ? s.pick(parts) : "p" + s.str("abAB01-_.~!$'()*,;:@", 10);
    }
    if (s.chance(20)) p += string(s.range(1, 3), '/');
    if (!reg && p.empty()) p = "/";
    if (!reg && p[0] != '/') p = "/" + p;
    return p;
}
static string vis(Src& s, size_t max) { return s.str("abc XYZ019$%#\"'<>;:,/=-_.()", max); }
static Model fresh_model() {
    Model m;
    for (const char* p : {"/", "/home", "/options", "/status", "/services", "/service", "/profiling"}) m[p] = {-1, true};
    return m;
}
static Http ask(Conn& k, const string& wire, const string& what) {
    PBT_CHECK(k.send(wire), "the server closed the connection or stopped reading in %s", what.c_str());
    Http h;
    string why;
    int r = 0;
    k.until([&] { r = take_http(&k.in, &h, &why); return r != 0; }, 20);
    PBT_CHECK(r > 0, "%s: %s", what.c_str(), r < 0 ? why.c_str() : k.dead() ? "the connection was closed" : "no answer");
    return h;
}
static bool page_of_server(const Http& h) { return h.status == "HTTP/1.1 200 OK" && h.body.find("SOFA-PBRPC") != string::npos; }

static void history(Src& s, Ctx& x) {
    { std::lock_guard<std::mutex> l(g_mu); g_answers.clear(); g_runs.clear(); }
    g_deaths = 0;
    std::vector<std::shared_ptr<std::atomic<int>>> deaths;
    std::vector<Sv*> svs;
    std::set<int> mine;               // servlets this side has to delete
    Model m = fresh_model();
    std::set<ServletBase*> builtin_mine;
    int routed = 0, nested = 0, missed = 0, refused = 0, removed = 0;
    string d;
    std::unique_ptr<TestServer> t(new TestServer());
    t->opt.work_thread_num = 1 + s.draw(1);
    bool early = s.chance(30);
    if (early) {
        t->port.reset(new Port());
        t->srv.reset(new RpcServer(t->opt));
    } else if (!t->start()) discard("no start");
    Conn k;
    int n = (int)s.range(3, 45), start_at = early ? (int)s.draw(5) : -1;
    auto make = [&]() { deaths.push_back(std::make_shared<std::atomic<int>>(0)); svs.push_back(new Sv((int)svs.size(), deaths.back().get())); return (int)svs.size() - 1; };
    auto check_alive = [&](int i, const char* when) { PBT_CHECK(deaths[i]->load() == 0, "servlet %d was deleted %s", i, when); };
    std::vector<string> known;        // paths that were registered
    for (int i = 0; i < n; ++i) {
        if (i == start_at) { if (!t->srv->Start(t->addr())) discard("no start"); early = false; x.label("registered before the start"); }
        int op = (int)s.weighted({6, 3, early ? 0u : 10u, 1, early ? 0u : 1u});
        if (op == 0) {
            string p = s.chance(15) && known.size() ? s.pick(known) : gen_path(s, true);
            if (p.find_first_of("?# ") != string::npos) continue;
            int sv = svs.empty() || s.chance(75) ? make() : (int)s.draw(svs.size() - 1);
            if (deaths[sv]->load()) sv = make();
            bool own = s.chance(60);
            bool want = !m.count(norm(p)), got = t->srv->RegisterWebServlet(p, svs[sv], own);
            PBT_CHECK(got == want, "registering %s %s, but the path was %s", show(p).c_str(), got ? "succeeded" : "failed", want ? "free" : "taken");
            if (want) m[norm(p)] = {sv, own}; else ++refused;
            if (!own || !want) mine.insert(sv);
            known.push_back(p);
            d += fmt("register %s: %d%s; ", p.c_str(), sv, want ? "" : " (taken)");
        } else if (op == 1) {
            string p = s.chance(75) && known.size() ? s.pick(known) : s.chance(50) ? s.pick<string>({"/home", "status/", "/", "", "//services"}) : gen_path(s, true);
            auto it = m.find(norm(p));
            Servlet got = t->srv->UnregisterWebServlet(p);
            PBT_CHECK((got != NULL) == (it != m.end()), "removing %s %s, but it was %sregistered", show(p).c_str(), got ? "succeeded" : "failed", it != m.end() ? "" : "not ");
            if (got) {
                if (it->second.sv >= 0) { PBT_CHECK(got == svs[it->second.sv], "removing %s returned another servlet", show(p).c_str()); mine.insert(it->second.sv); check_alive(it->second.sv, "when it was removed"); }
                else builtin_mine.insert(got);
                m.erase(it);
                ++removed;
            }
            d += fmt("remove %s%s; ", p.c_str(), got ? "" : " (absent)");
        } else if (op == 2) {
            int cnt = s.chance(25) ? (int)s.range(2, 5) : 1;       // one after another, or in one piece
            bool pipelined = cnt > 1;
            struct One { string id, path, wire; Answer a; const Reg* r; };
            std::vector<One> os;
            for (int c = 0; c < cnt; ++c) {
                One o;
                o.id = fmt("%llu", (unsigned long long)fresh_id());
                o.path = known.size() && s.chance(60) ? s.pick(known) + (s.chance(50) ? "" : "/" + gen_path(s, false).substr(1)) : gen_path(s, false);
                if (o.path.empty() || o.path[0] != '/') o.path = "/" + o.path;
                o.r = route(m, o.path);
                o.a.ok = !s.chance(10);
                o.a.own_status = s.chance(40);
                o.a.own_type = s.chance(40);
                o.a.status = "HTTP/1.1 " + fmt("%d ", (int)s.range(200, 599)) + "R" + vis(s, 20);
                o.a.type = "t" + vis(s, 30) + ";";
                while (o.a.status.back() == ' ') o.a.status.pop_back();
                while (o.a.type.back() == ' ') o.a.type.pop_back();
                int parts = (int)s.weighted({2, 5, 3, 1, 1});
                for (int q = 0; q < parts; ++q) o.a.parts.push_back(s.data(s.size_near({0, 1, 1000, 1024, 4096, 65536}, s.chance(10) ? 200000 : 3000)));
                if (pipelined) { o.a.parts.insert(o.a.parts.begin(), "<" + o.id + ">"); o.a.ok = true; if (!o.r || o.r->sv < 0) continue; }
                string target = o.path;
                if (s.chance(30)) target += "?" + s.str("ab=&%/?.", 12);
                else if (s.chance(10)) target += "#" + s.str("ab/.", 5);
                Headers h = {{"X-Id", o.id}};
                string method = s.chance(60) ? "GET" : "POST", body = method == "POST" ? s.data(s.logsize(3000)) : "";
                if (!body.empty() || method == "POST") h.push_back({"Content-Length", fmt("%zu", body.size())});
                o.wire = http_text(method, target, s.chance(70) ? "HTTP/1.1" : "HTTP/1.0", h, body);
                os.push_back(o);
            }
            { std::lock_guard<std::mutex> l(g_mu); for (auto& o : os) g_answers[o.id] = o.a; }
            if (k.fd < 0 || s.chance(10)) if (!k.open(t->port->num())) discard("cannot connect");
            string wire;
            for (auto& o : os) wire += o.wire;
            std::vector<bool> done(os.size());
            for (size_t c = 0; c < os.size(); ++c) {
                Http h = ask(k, c ? "" : wire, "a request to " + os[0].path);
                size_t which = 0;
                if (os.size() > 1) {
                    while (which < os.size() && (done[which] || h.body.compare(0, os[which].id.size() + 2, "<" + os[which].id + ">") != 0)) ++which;
                    PBT_CHECK(which < os.size(), "an answer belongs to no request: %s", show(h.body, 100).c_str());
                }
                const One& o = os[which];
                done[which] = true;
                std::vector<std::pair<int, string>> runs;
                { std::lock_guard<std::mutex> l(g_mu); runs = g_runs[o.id]; }
                d += fmt("%s -> %d; ", o.path.c_str(), o.r ? o.r->sv : -9);
                if (!o.r || o.r->sv < 0) PBT_CHECK(runs.empty(), "servlet %d ran for %s, which is not its path", runs[0].first, show(o.path).c_str());
                else {
                    PBT_CHECK(runs.size() == 1, "%zu servlets ran for one request to %s", runs.size(), show(o.path).c_str());
                    PBT_CHECK(runs[0].first == o.r->sv, "servlet %d ran for %s instead of servlet %d", runs[0].first, show(o.path).c_str(), o.r->sv);
                    PBT_CHECK(runs[0].second == o.path, "the servlet saw the path %s instead of %s", show(runs[0].second).c_str(), show(o.path).c_str());
                }
                if (o.r && o.r->sv < 0) { PBT_CHECK(page_of_server(h), "the page %s of the server is answered with %s %s", o.path.c_str(), h.status.c_str(), show(h.body, 100).c_str()); x.label("page of the server"); continue; }
                if (!o.r || !o.a.ok) {
                    if (o.r) x.label("servlet that refuses"); else ++missed;
                    mj::Val v;
                    PBT_CHECK(h.status == "HTTP/1.1 200 OK" && mj::parse(h.body, &v) && v.t == mj::Val::STR && v.s.compare(0, 9, "ERROR: 8:") == 0,
                              "a request to %s, which %s, is answered with %s %s", show(o.path).c_str(), o.r ? "its servlet refuses" : "belongs to no servlet", h.status.c_str(), show(h.body, 150).c_str());
                    continue;
                }
                ++routed;
                for (auto& e : m) if (e.second.sv >= 0 && e.second.sv != o.r->sv && norm(o.path).compare(0, e.first.size(), e.first) == 0) { ++nested; break; }
                string want;
                for (auto& p : o.a.parts) want += p;
                PBT_CHECK(h.status == (o.a.own_status ? o.a.status : "HTTP/1.1 200 OK"), "the status line is %s instead of %s", show(h.status).c_str(), show(o.a.status).c_str());
                PBT_CHECK(h.h("Content-Type") == (o.a.own_type ? o.a.type : "text/html; charset=UTF-8"), "the content type is %s instead of %s", show(h.h("Content-Type")).c_str(), show(o.a.type).c_str());
                PBT_CHECK(h.body == want, "the body has %zu bytes instead of %zu%s", h.body.size(), want.size(), h.body.size() == want.size() ? ", but differs" : "");
            }
            PBT_CHECK(k.in.empty() || os.empty(), "bytes after the last answer: %s", show(k.in, 100).c_str());
        } else if (op == 3) {
            if (early || !s.chance(40)) continue;
            t->srv->Stop();
            k.close_now();
            bool ok = false;
            for (int j = 0; j < 20 && !ok; ++j) { ok = t->srv->Start(t->addr()); if (!ok) nap(0.05); }
            if (!ok) discard("no restart");
            d += "restart; ";
            x.label("restart");
        } else if (m.count("/home") && m["/home"].sv < 0) {
            // the home page lists each registered path once
            if (k.fd < 0) if (!k.open(t->port->num())) discard("cannot connect");
            Http h = ask(k, http_text("GET", "/home", "HTTP/1.1", {}, ""), "the home page");
            std::vector<string> shown;
            size_t p = h.body.find("Servlets</h3>"), e = h.body.find("</table>", p);
            PBT_CHECK(p != string::npos && e != string::npos, "the home page lists no servlets");
            while ((p = h.body.find("<a href=\"", p)) < e) { size_t q = h.body.find("\">", p); shown.push_back(h.body.substr(p + 9, q - p - 9)); p = q; }
            std::vector<string> want;
            for (auto& v : m) want.push_back(v.first);
            PBT_CHECK(shown == want, "the home page lists %zu servlets, but %zu are registered", shown.size(), want.size());
            x.label("home page");
        }
        for (size_t j = 0; j < svs.size(); ++j) check_alive((int)j, "while the server lives");
    }
    // owned ones go with the server, once; the others stay
    std::set<int> owned;
    for (auto& e : m) if (e.second.sv >= 0 && e.second.owned) owned.insert(e.second.sv);
    k.close_now();
    t.reset();
    for (size_t j = 0; j < svs.size(); ++j) {
        int want = owned.count((int)j);
        PBT_CHECK(deaths[j]->load() == want, "servlet %zu was deleted %d times with the server, but the server owned it %s", j, deaths[j]->load(), want ? "" : "not");
        if (!want) delete svs[j];
    }
    std::set<ServletBase*> rest;      // the server's own pages that were removed: owned by us unless still registered elsewhere
    for (auto p : builtin_mine) {
        bool home_left = false;
        if (m.count("/home") && m["/home"].sv < 0) home_left = true;
        if (m.count("/") && m["/"].sv < 0) home_left = true;
        (void)home_left;
        rest.insert(p);
    }
    (void)rest;                       // a few bytes each; which of them is the home page is not known here, so they stay
    x.note(d);
    if (routed) x.label("routed");
    if (nested) x.label("several candidates");
    if (missed) x.label("not found");
    if (refused) x.label("path taken");
    if (removed) x.label("removed");
    x.nontrivial(routed >= 2 && (nested || missed) && (removed || refused));
}

// Registrations change while requests come: each request is handled by a servlet that was its best match at
// some moment of the request.
static void threads(Src& s, Ctx& x) {
    { std::lock_guard<std::mutex> l(g_mu); g_answers.clear(); g_runs.clear(); }
    g_deaths = 0;
    std::atomic<int> dead(0);
    TestServer t;
    t.opt.work_thread_num = 2;
    if (!t.start()) discard("no start");
    // /a fixed; /a/b and /a/b/c come and go
    Sv* fixed = new Sv(0, &dead);
    std::vector<Sv*> moving = {new Sv(1, &dead), new Sv(2, &dead), new Sv(3, &dead)};
    PBT_CHECK(t.srv->RegisterWebServlet("/a", fixed, false), "registering failed");
    const char* path[2] = {"/a/b", "//a/b/c/"};
    int changes = (int)s.range(10, 150), callers = (int)s.range(1, 3), per = (int)s.range(10, 60);
    uint64_t rnd = s.seed();
    struct Ev { double from; int sv; };                      // after `from` at the earliest
    std::vector<Ev> hist[2];
    hist[0].push_back({0, -1});
    hist[1].push_back({0, -1});
    std::atomic<bool> stop(false);
    string bad;
    std::thread changer([&] {
        int cur[2] = {-1, -1};
        for (int i = 0; i < changes && !stop; ++i) {
            uint64_t r = mix(rnd + i);
            int w = r & 1;
            double now = now_s();
            if (cur[w] < 0) {
                int sv = 1 + (int)(r / 8 % 3);
                if (!t.srv->RegisterWebServlet(path[w], moving[sv - 1], false)) bad = "registering a free path failed";
                hist[w].push_back({now, sv});
                cur[w] = sv;
            } else {
                if (t.srv->UnregisterWebServlet(path[w]) != moving[cur[w] - 1]) bad = "removing returned another servlet";
                hist[w].push_back({now, -1});
                cur[w] = -1;
            }
            if (r / 64 % 3) nap(1e-5 * (r / 4096 % 60));
        }
    });
    struct Seen { double t0, t1; string req, body; };
    std::vector<std::vector<Seen>> seen(callers);
    std::vector<string> errs(callers);
    std::vector<std::thread> th;
    for (int c = 0; c < callers; ++c) th.push_back(std::thread([&, c] {
        Conn k;
        if (!k.open(t.port->num())) { errs[c] = "cannot connect"; return; }
        for (int i = 0; i < per; ++i) {
            Seen e;
            e.req = mix(rnd ^ (c * 1000 + i)) & 1 ? "/a/b/c/d" : "/a/b/x";
            e.t0 = now_s();
            Http h;
            int r = 0;
            if (!k.send(http_text("GET", e.req, "HTTP/1.1", {}, ""))) { errs[c] = "the connection was closed"; return; }
            k.until([&] { r = take_http(&k.in, &h); return r != 0; });
            e.t1 = now_s();
            if (r <= 0) { errs[c] = "no answer"; return; }
            e.body = h.body;
            seen[c].push_back(e);
        }
    }));
    for (auto& e : th) e.join();
    stop = true;
    changer.join();
    PBT_CHECK(bad.empty(), "%s", bad.c_str());
    std::set<string> kinds;
    for (int c = 0; c < callers; ++c) {
        PBT_CHECK(errs[c].empty(), "%s", errs[c].c_str());
        for (auto& e : seen[c]) {
            kinds.insert(e.body);
            // what each path may have held at a moment of the request
            auto may = [&](int w, int sv) {
                for (size_t i = 0; i < hist[w].size(); ++i) {
                    double until = i + 2 < hist[w].size() ? hist[w][i + 2].from : 1e300;   // its end is not noted exactly
                    if (hist[w][i].sv == sv && hist[w][i].from <= e.t1 && until >= e.t0) return true;
                }
                return false;
            };
            bool ok = false, deep = e.req == "/a/b/c/d";
            for (int sv = 1; sv <= 3; ++sv) if (e.body == fmt("servlet %d", sv)) ok = (deep && may(1, sv)) || (may(0, sv) && (!deep || may(1, -1)));
            if (e.body == "servlet 0") ok = may(0, -1) && (!deep || may(1, -1));
            PBT_CHECK(ok, "a request to %s was answered with %s, which was not its best match at any moment", e.req.c_str(), show(e.body, 100).c_str());
        }
    }
    t.srv->Stop();
    t.srv.reset();
    PBT_CHECK(dead == 0, "a servlet that the server does not own was deleted");
    delete fixed;
    for (auto v : moving) delete v;
    t.echo = NULL;
    x.note(fmt("%d changes, %d callers, %d requests each, %zu different answers", changes, callers, per, kinds.size()));
    x.nontrivial(kinds.size() >= 2);
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C16";
    p.rule = "history: registering, removing and requesting generated paths (shared prefixes, repeated slashes, near misses, the server's own pages), servlets with generated status, type and content, owned or not, before and after the start, over restarts; "
             "non-trivial: two requests handled by servlets, one with several candidates or not found, and a removal or a taken path. threads: requests while nested paths come and go; non-trivial: two different answers.";
    p.subs = {{"history", history, 10000, 300000}, {"threads", threads, 1500, 40000}};
    p.workers = 12;
    p.init = quiet;
    p.case_timeout_s = 90;
    return pbt::run(argc, argv, p);
}
