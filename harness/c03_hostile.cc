// LINK: -Wl,--wrap=usleep -Wl,--wrap=popen -Wl,--wrap=remove
// C03: hostile bytes to a server. Sent: altered, cut, spliced and random byte streams over several
// connections. Judged: the process lives (address sanitizer), other connections keep getting correct
// answers, undecodable streams are closed or refused, and no method runs with contents the bytes do not encode.
#include "net.h"
#include "zref.h"
#include "gen_msg.h"
#include <sofa/pbrpc/pbjson.h>
#include <sofa/pbrpc/rpc_meta.pb.h>
#include <sofa/pbrpc/ext_closure.h>
#include <sofa/pbrpc/http.h>
using namespace net;
using namespace sofa::pbrpc;
NET_FAST_START

static std::mutex g_shell_mu;
static std::vector<string> g_shell;          // commands given to a shell: recorded, never run
extern "C" FILE* __real_popen(const char* cmd, const char* mode);
extern "C" FILE* __wrap_popen(const char* cmd, const char* mode) {
    { std::lock_guard<std::mutex> l(g_shell_mu); g_shell.push_back(cmd); }
    return __real_popen("true", mode);
}
extern "C" int __wrap_remove(const char* path) { std::lock_guard<std::mutex> l(g_shell_mu); g_shell.push_back(string("rm ") + path); return 0; }

static TestServer* g_srv;
static Conn* g_health;
static std::map<string, int> g_allowed;      // method + request bytes -> how many runs the bytes sent so far can account for
static std::mutex g_mu;
static std::vector<string> g_ran;            // what ran, as method + request bytes

static bool servlet(const HTTPRequest& q, HTTPResponse& r) {
    string b = q.body->ToString();
    for (auto& e : *q.query_params) r.content->Append(e.first + "=" + e.second + "\n");
    r.content->Append(b);
    return true;
}
static void init() {
    quiet();
    g_srv = new TestServer();
    if (!g_srv->start()) { fprintf(stderr, "server does not start\n"); _exit(3); }
    g_srv->srv->RegisterWebServlet("/w", NewPermanentExtClosure(&servlet));
    g_health = new Conn();
    g_health->open(g_srv->port->num());
}
static void healthy(Conn& k, const char* what) {
    vtest::EchoRequest q;
    q.set_id(fresh_id() | 1ull << 60);
    q.set_data("health");
    PBT_CHECK(k.send(raw_frame(request_meta(q.id(), "vtest.EchoService.Reverse"), q.SerializeAsString())), "%s does not take a request", what);
    Frame f;
    string why;
    int r = 0;
    k.until([&] { r = take_frame(&k.in, &f, &why); return r != 0; }, 30);
    PBT_CHECK(r == 1, "%s: no answer to a good request (%s)", what, r < 0 ? why.c_str() : k.dead() ? "closed" : "30 s");
    vtest::EchoResponse want, got;
    answer("Reverse", g_srv->name, q, &want);
    Fields m(f.meta);
    PBT_CHECK(m.n(2) == q.id() && m.n(200) == 0 && got.ParseFromString(f.data) && same_msg(got, want), "%s: wrong answer to a good request", what);
}

// ---- what a byte stream encodes
struct Ref { size_t complete; size_t answered; bool error, http, incomplete; std::vector<uint64_t> seqs; };
static void allow(const string& full, const google::protobuf::Message& m) {
    string ser;
    m.SerializePartialToString(&ser);
    ++g_allowed[full + "\n" + ser];
}
static std::unique_ptr<google::protobuf::Message> proto_of(const string& full) {
    const google::protobuf::MethodDescriptor* d = NULL;
    if (full.compare(0, 18, "vtest.EchoService.") == 0) d = vtest::EchoService::descriptor()->FindMethodByName(full.substr(18));
    if (full.compare(0, 19, "vtest.ShortService.") == 0) d = vtest::ShortService::descriptor()->FindMethodByName(full.substr(19));
    if (!d) return NULL;
    if (d->input_type() == vtest::AllTypes::descriptor()) return std::unique_ptr<google::protobuf::Message>(new vtest::AllTypes);
    return std::unique_ptr<google::protobuf::Message>(new vtest::EchoRequest);
}
// every message that a truncated compressed body may also be taken for
static void allow_body(const string& full, int ctype, const string& body, bool* sure, bool* silent) {
    auto m = proto_of(full);
    *sure = true;
    if (!m) return;
    string plain;
    if (ctype > 0 && ctype <= 4) {
        bool ok = zref::decode(ctype, body, &plain);
        if (!ok) {
            // damaged data must not be taken for a message
            *sure = false;
            if (ctype < 4) return;
            if (m->ParseFromString(plain)) allow(full, *m);
            *silent = true;
            return;
        }
    } else plain = body;
    if (m->ParseFromString(plain)) {
        allow(full, *m);
        auto q = dynamic_cast<vtest::EchoRequest*>(m.get());
        if (q && (q->never() || q->delay_ms() > 0)) *silent = true;
    }
}
static uint32_t le32(const string& s, size_t p) { uint32_t v = 0; for (int i = 3; i >= 0; --i) v = v << 8 | (unsigned char)s[p + i]; return v; }
static int64_t le64(const string& s, size_t p) { return (int64_t)((uint64_t)le32(s, p + 4) << 32 | le32(s, p)); }
// One HTTP request at p, by the letter where well formed; false when it is not (then *loose).
static void http_candidate(const string& b, size_t p, size_t e);
static void http_candidates(const string& b, size_t p) {
    // every head that starts here, ends at any empty line; every announced length in it
    for (size_t e = b.find("\r\n\r\n", p); e != string::npos; e = b.find("\r\n\r\n", e + 1)) http_candidate(b, p, e);
}
static void http_candidate(const string& b, size_t p, size_t e) {
    string head = b.substr(p, e - p);
    size_t sp = head.find(' ');
    if (sp == string::npos) return;
    size_t sp2 = head.find(' ', sp + 1);
    if (sp2 == string::npos) return;
    string target = head.substr(sp + 1, sp2 - sp - 1);
    std::vector<string> bodies(1);
    string low;
    for (char ch : head) low += tolower(ch);
    for (size_t i = low.find("content-length:"); i != string::npos; i = low.find("content-length:", i + 1)) {
        size_t j = i + 15, eol = low.find('\r', i);
        string v = low.substr(j, eol == string::npos ? string::npos : eol - j);
        errno = 0;
        char* end;
        long long n = strtoll(v.c_str(), &end, 10);
        if (n >= 0 && (size_t)n <= b.size() - e - 4 && !errno) bodies.push_back(b.substr(e + 4, n));
    }
    if (target.empty() || target[0] != '/') return;
    size_t cut = target.find_first_of("?#");
    string full = target.substr(1, cut == string::npos ? string::npos : cut - 1);
    auto m = proto_of(full);
    if (!m) return;
    bool pb = low.find("application/protobuf") != string::npos;
    // no JSON at all counts as an empty object
    size_t q = target.find('?');
    std::vector<string> js = bodies;
    if (q != string::npos) {
        string qs = target.substr(q + 1);
        size_t h = qs.find('#');
        if (h != string::npos) qs.resize(h);
        size_t a = 0;
        while (a <= qs.size()) {
            size_t z = qs.find('&', a);
            if (z == string::npos) z = qs.size();
            string kv = qs.substr(a, z - a);
            if (kv.compare(0, 8, "request=") == 0) {
                string v, raw = kv.substr(8);
                for (size_t i = 0; i < raw.size(); ++i) {
                    if (raw[i] == '%' && i + 2 < raw.size() && isxdigit((unsigned char)raw[i + 1]) && isxdigit((unsigned char)raw[i + 2])) { v += (char)strtol(raw.substr(i + 1, 2).c_str(), NULL, 16); i += 2; }
                    else v += raw[i];
                }
                js.push_back(v);
            }
            a = z + 1;
        }
    }
    for (auto& t : js) {
        string err;
        m->Clear();
        if (json2pb(t.empty() ? "{}" : t, m.get(), err) == 0 && m->IsInitialized()) allow(full, *m);
    }
    if (pb) for (auto& t : bodies) { m->Clear(); if (m->ParseFromString(t)) allow(full, *m); }
}
static Ref reference(const string& b) {
    Ref r = {0, 0, false, false, false, {}};
    size_t p = 0;
    while (p < b.size()) {
        if (b.size() - p < 4) { r.incomplete = true; break; }
        if (b.compare(p, 4, "SOFA") != 0) {
            if (b.compare(p, 4, "GET ") == 0 || b.compare(p, 4, "POST") == 0) r.http = true;
            else r.error = true;
            break;
        }
        if (b.size() - p < 24) { r.incomplete = true; break; }
        int32_t ms = (int32_t)le32(b, p + 4);
        int64_t all = le64(b, p + 16);
        if (all == 0) { ++r.complete; r.seqs.push_back(0); p += 24; continue; }
        if (all < 0 || all > (64 << 20) || ms <= 0 || ms > all) {
            if (all > (64 << 20) && (all <= (64 << 20) + 4096 || b.size() == p + 24)) r.incomplete = true;    // the exact limit is the server's business
            r.error = true;
            break;
        }
        if ((int64_t)(b.size() - p - 24) < all) { r.incomplete = true; break; }
        string meta = b.substr(p + 24, ms), data = b.substr(p + 24 + ms, all - ms);
        p += 24 + all;
        RpcMeta f;
        if (!f.ParseFromString(meta)) { r.error = true; break; }
        bool sure = true, silent = false;
        string full = f.method();
        int ct = f.compress_type();
        allow_body(full, ct, data, &sure, &silent);
        ++r.complete;
        int64_t to = f.server_timeout();
        if (!silent && (to <= 0 || to > 60000)) ++r.answered;
        r.seqs.push_back(f.sequence_id());
    }
    // binary requests after some HTTP ones, and HTTP ones anywhere: all that could be taken for a request
    for (size_t q = b.find("GET "); q != string::npos; q = b.find("GET ", q + 1)) http_candidates(b, q);
    for (size_t q = b.find("POST"); q != string::npos; q = b.find("POST", q + 1)) http_candidates(b, q);
    if (r.http) for (size_t q = b.find("SOFA", p); q != string::npos; q = b.find("SOFA", q + 1)) {
        if (b.size() - q < 24) break;
        int32_t ms = (int32_t)le32(b, q + 4);
        int64_t all = le64(b, q + 16);
        if (all <= 0 || ms <= 0 || ms > all || (int64_t)(b.size() - q - 24) < all) continue;
        RpcMeta f;
        bool sure, silent;
        if (f.ParseFromString(b.substr(q + 24, ms))) allow_body(f.method(), f.compress_type(), b.substr(q + 24 + ms, all - ms), &sure, &silent);
    }
    return r;
}

// ---- streams
static string good_part(Src& s) {
    vtest::EchoRequest q;
    gen_request(s, &q, fresh_id(), s.chance(90) ? 300 : 20000);
    if (s.chance(10)) q.set_fail("no");
    string full = "vtest.EchoService." + s.pick<string>({"Echo", "Reverse", "EchoZip"});
    switch (s.weighted({6, 2, 2, 1, 1, 1})) {
    case 0: {
        int ct = s.weighted({6, 1, 1, 1, 1, 1}) - 1;
        string body = q.SerializeAsString();
        if (ct > 0) body = zref::encode(ct, body, s, NULL);
        return raw_frame(request_meta(s.chance(90) ? q.id() : 0, full, s.chance(20) ? s.any_i64() : 0, ct, s.weighted({6, 1, 1, 1, 1, 1}) - 1), body);
    }
    case 1: { string j; if (q.has_text()) q.set_text("t<>&\"x\\"); q.clear_fail(); pb2json(&q, j); return http_text("POST", "/" + full, "HTTP/1.1", {{"Content-Length", fmt("%zu", j.size())}}, j); }
    case 2: { string j; q.clear_text(); q.clear_data(); pb2json(&q, j); return http_text("GET", "/" + full + "?request=" + url_quote(j, 1), "HTTP/1.1", {{"Host", "x"}}, ""); }
    case 3: { string b = q.SerializeAsString(); return http_text("POST", "/" + full, "HTTP/1.0", {{"Accept", "application/protobuf"}, {"Content-Length", fmt("%zu", b.size())}}, b); }
    case 4: return http_text("GET", s.pick<string>({"/", "/options", "/status", "/services", "/service?name=vtest.EchoService", "/service", "/profiling?cpu=%41&prof=x", "/w?a=%4&b=%zz&=&c", "/home/../..", "/w/%00"}), "HTTP/1.1", {{"A", "b"}}, "");
    default: return http_text("POST", "/w", "HTTP/1.1", {{"Content-Length", "5"}}, "12345");
    }
}
static string odd_header(Src& s) {
    static const std::vector<int64_t> v = {0, 1, -1, 23, 24, 25, 100, 4096, 65536, 1 << 20, (64 << 20) - 1, 64 << 20, (64 << 20) + 1, INT32_MAX, INT32_MIN, (int64_t)1 << 32, ((int64_t)1 << 32) + 30, INT64_MAX, INT64_MIN, -24, -100};
    string meta = request_meta(fresh_id(), "vtest.EchoService.Echo");
    vtest::EchoRequest q;
    q.set_id(fresh_id());
    string data = q.SerializeAsString();
    int64_t ms = meta.size(), ds = data.size(), all = ms + ds;
    switch (s.weighted({2, 2, 2, 3, 2})) {
    case 0: ms = s.pick(v); break;
    case 1: ds = s.pick(v); break;
    case 2: all = s.pick(v); break;
    case 3: all += (int64_t)s.draw(20) - 10; break;
    default: ms += (int64_t)s.draw(20) - 10; if (s.chance(50)) ds = all - ms; break;
    }
    return header((int32_t)ms, ds, all) + meta + data + (s.chance(50) ? s.any_bytes(200) : "");
}
static string odd_http(Src& s) {
    string t = s.pick<string>({"GET", "POST", "GETX", "PUT", "get", "POST ", "GET\t"});
    t += s.pick<string>({" ", " ", " ", "", "  "});
    t += s.pick<string>({"/", "/w", "", "*", "http://x/w", "/vtest.EchoService.Echo", "/vtest.EchoService.Echo?request={\"id\":1}", "/w?" + string(s.logsize(5000), '&'), "/" + string(s.logsize(20000), '/'), "/w#?#?", "/.", "/..", "/a.", "/%"});
    t += s.pick<string>({" HTTP/1.1\r\n", " HTTP/1.1\r\n", " HTTP/1.1\n", "\r\n", " \r\n", " HTTP/9.9\r\n", " HTTP/1.1\r\r\n"});
    int n = s.draw(4);
    for (int i = 0; i < n; ++i)
        t += s.pick<string>({"Content-Length: ", "Content-Length:", "Content-Length", "content-length: ", "X: ", ": ", "Accept: application/protobuf\r\nContent-Length: ", "X" + string(s.logsize(20000), 'y') + ": "}) +
             s.pick<string>({"0", "1", "5", "-1", "2147483647", "2147483648", "4294967296", "4294967301", "4294967297", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "0x10", "1e3", "", " 5", "5 ", "+5", "5,5", "-9223372036854775808"}) + s.pick<string>({"\r\n", "\r\n", "\r\n", "\n", "\r", ""});
    t += s.pick<string>({"\r\n", "\r\n", "\r\n", "\n\n", "", "\r\r"});
    t += s.pick<string>({"", "{}", "12345", "{\"id\":3}", "{\"id\":4}{\"id\":5}"});
    if (s.chance(20)) t += s.any_bytes(300);
    return t;
}
static string alter(Src& s, string b, string* how) {
    if (b.empty()) return b;
    int n = 1 + s.draw(3);
    for (int i = 0; i < n && b.size(); ++i) {
        size_t p = s.chance(50) ? s.draw(std::min<size_t>(b.size() - 1, 80)) : s.draw(b.size() - 1);
        switch (s.weighted({4, 2, 2, 2, 2, 2, 1})) {
        case 0: b[p] ^= 1 << s.draw(7); *how += "flip "; break;
        case 1: b[p] = s.pick<char>({0, (char)0xff, (char)0x80, 0x7f, '\r', '\n', ' ', 'S'}); *how += "set "; break;
        case 2: b.erase(p, 1 + s.logsize(30)); *how += "erase "; break;
        case 3: b.insert(p, s.any_bytes(20)); *how += "insert "; break;
        case 4: b.resize(p); *how += "cut "; break;
        case 5: { size_t q = s.draw(b.size() - 1); b.insert(p, b.substr(q, 1 + s.logsize(60))); *how += "copy "; break; }
        default: { uint64_t v = (uint64_t)s.any_i64(); for (int k = 0; k < 8 && p + k < b.size(); ++k) b[p + k] = (char)(v >> (8 * k)); *how += "number "; }
        }
    }
    return b;
}
static void attack(Src& s, Ctx& c) {
    int nconn = 1 + s.draw(2);
    struct Atk { string bytes, how; std::vector<size_t> cuts; int end; Ref ref; std::unique_ptr<Conn> k; };
    std::vector<Atk> at(nconn);
    for (auto& a : at) {
        int parts = 1 + s.logsize(5);
        for (int i = 0; i < parts; ++i) {
            string g;
            switch (s.weighted({5, 3, 3, 2})) {
            case 0: g = good_part(s); if (s.chance(60)) g = alter(s, g, &a.how); else a.how += "good "; break;
            case 1: g = odd_header(s); a.how += "header "; break;
            case 2: g = odd_http(s); a.how += "http "; break;
            default: g = s.chance(50) ? s.any_bytes(200) : "SOFA" + s.any_bytes(60); a.how += "random "; break;
            }
            a.bytes += g;
        }
        a.cuts = s.chunks(a.bytes.size());
        a.end = s.weighted({4, 3, 2, 2});    // wait for answers, half close, close, reset
        a.ref = reference(a.bytes);
        c.note(fmt("%zu bytes (%s): %s%s; ", a.bytes.size(), show(a.bytes, getenv("LONG") ? 3000 : 32).c_str(), a.how.c_str(), a.end == 0 ? "wait" : a.end == 1 ? "half-close" : a.end == 2 ? "close" : "reset"));
        c.label(a.ref.error ? "stream error" : a.ref.http ? "http inside" : a.ref.incomplete ? "incomplete" : "decodable");
    }
    PBT_CHECK(g_health->fd >= 0 && !g_health->dead(), "the other connection is gone");
    for (auto& a : at) { a.k.reset(new Conn()); PBT_CHECK(a.k->open(g_srv->port->num()), "cannot connect to the server"); }
    size_t most = 0;
    for (auto& a : at) most = std::max(most, a.cuts.size());
    std::vector<size_t> pos(nconn, 0);
    for (size_t i = 0; i < most; ++i)
        for (int j = 0; j < nconn; ++j)
            if (i < at[j].cuts.size()) { at[j].k->send(at[j].bytes.data() + pos[j], at[j].cuts[i], 5); pos[j] += at[j].cuts[i]; }
    healthy(*g_health, "another connection");
    for (auto& a : at) {
        Conn& k = *a.k;
        if (a.end == 3) { k.reset_now(); continue; }
        if (a.end == 2) { k.close_now(); continue; }
        if (a.end == 1) {
            k.half_close();
            PBT_CHECK(k.until_eof(), "half-closed connection is not closed by the server (%s)", a.how.c_str());
            continue;
        }
        if (a.ref.http) continue;
        if (a.ref.error && !a.ref.incomplete) {
            PBT_CHECK(k.until_eof(), "undecodable stream is neither refused nor closed (%s, %zu good requests before)", a.how.c_str(), a.ref.complete);
        } else if (!a.ref.error) {
            size_t n = 0;
            std::multiset<uint64_t> seqs(a.ref.seqs.begin(), a.ref.seqs.end());
            k.until([&] {
                Frame f;
                string why;
                int r;
                while ((r = take_frame(&k.in, &f, &why)) == 1) {
                    Fields m(f.meta);
                    PBT_CHECK(m.ok && m.n(1) == 1, "malformed answer");
                    auto it = seqs.find(m.n(2));
                    PBT_CHECK(it != seqs.end(), "answer with sequence id %llu that was not asked (%s)", (unsigned long long)m.n(2), a.how.c_str());
                    seqs.erase(it);
                    ++n;
                }
                PBT_CHECK(r == 0, "malformed answer frame: %s", why.c_str());
                return n >= a.ref.answered;
            }, 20);
            PBT_CHECK(n >= a.ref.answered || k.dead(), "%zu requests answered of at least %zu (%s)", n, a.ref.answered, a.how.c_str());
            PBT_CHECK(n >= a.ref.answered, "connection closed although all its bytes can be decoded (%zu of %zu answered; %s)", n, a.ref.answered, a.how.c_str());
        }
    }
    at.clear();
    Conn fresh;
    PBT_CHECK(fresh.open(g_srv->port->num()), "cannot connect any more");
    healthy(fresh, "a new connection");
    g_srv->echo->release();
    // everything that ran must be accounted for by bytes that were sent
    for (auto& e : exec_log().take()) {
        if (e.first >> 60 == 1) continue;
        string full = (e.second.method.compare(0, 6, "Short.") == 0 ? "vtest.ShortService." + e.second.method.substr(6) : "vtest.EchoService." + e.second.method);
        auto it = g_allowed.find(full + "\n" + e.second.request);
        PBT_CHECK(it != g_allowed.end() && it->second > 0, "%s ran with a request that no bytes encode: %s", full.c_str(), show(e.second.request, 200).c_str());
        --it->second;
        c.label("method ran");
    }
    c.nontrivial(at.empty());
}

// Characters with a meaning to a shell, outside of quotes and escapes.
static bool shell_active(const string& cmd) {
    char quote = 0;
    for (size_t i = 0; i < cmd.size(); ++i) {
        char ch = cmd[i];
        if (quote == '\'') { if (ch == '\'') quote = 0; continue; }
        if (ch == '\\') { ++i; continue; }
        if (quote == '"') { if (ch == '"') quote = 0; else if (ch == '$' || ch == '`') return true; continue; }
        if (ch == '\'' || ch == '"') { quote = ch; continue; }
        if (strchr(";|&$`<>()\n*?[]{}~!#", ch)) return true;
    }
    return quote != 0;
}
static void pages(Src& s, Ctx& c) {
    static const string odd = "ab;|&$`<>()\n*?[]{}~!#'\"\\ /.-%\x01\xff";
    Conn k;
    PBT_CHECK(k.open(g_srv->port->num()), "cannot connect");
    int n = 1 + s.draw(4);
    string d;
    for (int i = 0; i < n; ++i) {
        string t = s.pick<string>({"/profiling", "/profiling", "/profiling", "/service", "/options", "/status", "/services", "/", "/home", "/w"}) + "?";
        int np = 1 + s.draw(4);
        for (int j = 0; j < np; ++j) t += (j ? "&" : "") + s.pick<string>({"cpu", "memory", "prof", "base", "prof", "base", "name", "x"}) + "=" + (s.chance(50) ? s.pick<string>({"graph", "graph", "diff", "page", "newgraph", "cleanup", "vtest.EchoService", "default"}) : url_quote(s.str(odd, 20)));
        d += t + " ";
        PBT_CHECK(k.send(http_text("GET", t, "HTTP/1.1", {}, "")), "cannot send");
        Http h;
        string why;
        int r = 0;
        k.until([&] { r = take_http(&k.in, &h, &why); return r != 0; }, 30);
        PBT_CHECK(r == 1, "page %s: %s", t.c_str(), r < 0 ? why.c_str() : k.dead() ? "closed" : "no answer");
        PBT_CHECK(h.status == "HTTP/1.1 200 OK", "page %s: %s", t.c_str(), h.status.c_str());
    }
    c.note(show(d, 300));
    std::vector<string> sh;
    { std::lock_guard<std::mutex> l(g_shell_mu); sh.swap(g_shell); }
    for (auto& e : sh) {
        PBT_CHECK(!shell_active(e), "text of the request gets into a shell command: %s", show(e, 400).c_str());
        c.label("command recorded");
    }
    c.nontrivial(d.find('%') != string::npos);
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C03";
    p.rule = "one to three connections send altered good requests (bit flips, splices, cuts, numbers), wrong headers, odd HTTP and random bytes in generated pieces and then wait, half-close, close or reset, "
             "while other connections are checked. Also the built-in pages with odd parameters; commands meant for a shell are recorded instead of run. Non-trivial: every attack (altered or wrong bytes), and pages with parameters that need quoting.";
    p.subs = {{"attack", attack, 60000, 3000000}, {"pages", pages, 4000, 100000}};
    p.init = init;
    p.recycle = 1500;
    p.case_timeout_s = 120;
    return run(argc, argv, p);
}
