// Sockets, an independent codec of the binary wire format and of HTTP, and a test service whose
// answers follow from the request alone.
#ifndef VERIF_NET_H
#define VERIF_NET_H
#include <arpa/inet.h>
#include <dirent.h>
#include <errno.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <strings.h>
#include <sys/socket.h>
#include <atomic>
#include <condition_variable>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <queue>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
#include "pbt.h"
#include "vtest.pb.h"
#include <google/protobuf/stubs/logging.h>
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <sofa/pbrpc/pbrpc.h>

namespace net {
using namespace pbt;
using std::string;

inline void quiet() {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    google::protobuf::SetLogHandler(NULL);
    signal(SIGPIPE, SIG_IGN);
}
inline void nap(double s) { timespec t; t.tv_sec = (time_t)s; t.tv_nsec = (long)((s - (time_t)s) * 1e9); nanosleep(&t, NULL); }

// Waits for a condition; false after the limit.
template <class F> bool eventually(F f, double limit = 20, double step = 0.0005) {
    double end = now_s() + limit;
    while (!f()) {
        if (now_s() > end) return f();
        nap(step);
        if (step < 0.005) step *= 1.2;
    }
    return true;
}

// ---- ports: reserved between processes by holding the UDP port of the same number
inline sockaddr_in addr_of(int port) {
    sockaddr_in a;
    memset(&a, 0, sizeof(a));
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    return a;
}
class Port {
public:
    Port() : port_(0), udp_(-1) {
        static std::atomic<unsigned> next(0);
        for (int tries = 0; tries < 5000; ++tries) {
            int p = 10000 + (int)((mix(getpid()) + next++) % 22000);
            int u = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
            sockaddr_in a = addr_of(p);
            if (bind(u, (sockaddr*)&a, sizeof(a)) == 0) {
                int t = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1;
                setsockopt(t, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
                bool ok = bind(t, (sockaddr*)&a, sizeof(a)) == 0 && listen(t, 1) == 0;
                close(t);
                if (ok) { port_ = p; udp_ = u; return; }
            }
            close(u);
        }
        discard("no free port");
    }
    ~Port() { if (udp_ >= 0) close(udp_); }
    int num() const { return port_; }
    string addr() const { return fmt("127.0.0.1:%d", port_); }
private:
    Port(const Port&);
    int port_, udp_;
};

// ---- raw connection
class Conn {
public:
    string in;             // received, not yet taken
    bool eof, broken;      // orderly end, or error
    int fd;
    uint64_t total_in;
    explicit Conn(int f = -1) : eof(false), broken(false), fd(f), total_in(0) { if (fd >= 0) setup(); }
    ~Conn() { close_now(); }
    bool open(int port) {
        close_now();
        fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        sockaddr_in a = addr_of(port);
        if (::connect(fd, (sockaddr*)&a, sizeof(a)) != 0) { ::close(fd); fd = -1; return false; }
        setup();
        eof = broken = false;
        in.clear();
        return true;
    }
    void close_now() { if (fd >= 0) ::close(fd); fd = -1; }
    void reset_now() { if (fd < 0) return; linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof(l)); close_now(); }
    void half_close() { if (fd >= 0) ::shutdown(fd, SHUT_WR); }
    bool dead() const { return fd < 0 || eof || broken; }
    // Reads what is there, waiting at most the given time for the first byte.
    bool pump(double wait) {
        if (fd < 0 || eof || broken) return false;
        pollfd p = {fd, POLLIN, 0};
        int r = ::poll(&p, 1, (int)(wait * 1000 + 0.999));
        if (r <= 0) return false;
        return read_some();
    }
    // Writes everything (reading meanwhile, so that neither side blocks the other).
    bool send(const string& d, double limit = 20) { return send(d.data(), d.size(), limit); }
    bool send(const char* d, size_t n, double limit = 20) {
        double end = now_s() + limit;
        size_t done = 0;
        while (done < n) {
            if (fd < 0 || broken) return false;
            ssize_t k = ::send(fd, d + done, n - done, MSG_NOSIGNAL | MSG_DONTWAIT);
            if (k > 0) { done += k; continue; }
            if (k < 0 && errno != EAGAIN && errno != EINTR) { broken = true; read_rest(); return false; }
            if (now_s() > end) return false;
            pollfd p = {fd, (short)(POLLOUT | (eof ? 0 : POLLIN)), 0};
            ::poll(&p, 1, 50);
            if (p.revents & POLLIN) read_some();
        }
        return true;
    }
    template <class F> bool until(F f, double limit = 20) {
        double end = now_s() + limit;
        while (!f()) {
            if (dead()) return f();
            double left = end - now_s();
            if (left <= 0) return false;
            pump(std::min(left, 0.05));
        }
        return true;
    }
    // Reads until the peer closes; false when it does not.
    bool until_eof(double limit = 20) { until([this] { return eof || broken; }, limit); return eof || broken || fd < 0; }
private:
    Conn(const Conn&);
    void setup() { int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one)); }
    void read_rest() { eof = false; bool b = broken; broken = false; while (!eof && !broken && read_some()) {} broken = b; }
    bool read_some() {
        char buf[65536];
        ssize_t k = ::recv(fd, buf, sizeof(buf), MSG_DONTWAIT);
        if (k > 0) { in.append(buf, k); total_in += k; return true; }
        if (k == 0) { eof = true; return false; }
        if (errno != EAGAIN && errno != EINTR) broken = true;
        return false;
    }
};
class Listener {
public:
    int fd;
    Listener() : fd(-1) {}
    ~Listener() { stop(); }
    bool start(int port, int backlog = 128, int rcvbuf = 0) {
        stop();
        fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        int one = 1;
        setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
        if (rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof(rcvbuf));
        sockaddr_in a = addr_of(port);
        if (bind(fd, (sockaddr*)&a, sizeof(a)) != 0 || listen(fd, backlog) != 0) { stop(); return false; }
        return true;
    }
    void stop() { if (fd >= 0) { ::close(fd); fd = -1; } }
    int accept_fd(double wait) {
        if (fd < 0) return -1;
        pollfd p = {fd, POLLIN, 0};
        if (::poll(&p, 1, (int)(wait * 1000 + 0.999)) <= 0) return -1;
        return ::accept4(fd, NULL, NULL, SOCK_CLOEXEC);
    }
};

// ---- wire format, written from its description
inline void put_varint(string* o, uint64_t v) { while (v >= 0x80) { *o += (char)(v | 0x80); v >>= 7; } *o += (char)v; }
inline void put_field(string* o, int num, uint64_t v) { put_varint(o, (uint64_t)num << 3); put_varint(o, v); }
inline void put_field(string* o, int num, const string& v) { put_varint(o, (uint64_t)num << 3 | 2); put_varint(o, v.size()); *o += v; }
inline bool get_varint(const string& s, size_t* p, uint64_t* v) {
    *v = 0;
    for (int sh = 0; sh < 70; sh += 7) {
        if (*p >= s.size()) return false;
        unsigned char c = s[(*p)++];
        if (sh < 64) *v |= (uint64_t)(c & 0x7f) << sh;
        if (!(c & 0x80)) return true;
    }
    return false;
}
struct Fields {            // last value of each field
    std::map<int, uint64_t> num;
    std::map<int, string> str;
    bool ok;
    explicit Fields(const string& s) : ok(false) {
        size_t p = 0;
        while (p < s.size()) {
            uint64_t k, v;
            if (!get_varint(s, &p, &k)) return;
            switch (k & 7) {
            case 0: if (!get_varint(s, &p, &v)) return; num[k >> 3] = v; break;
            case 2: if (!get_varint(s, &p, &v) || v > s.size() - p) return; str[k >> 3] = s.substr(p, v); p += v; break;
            case 1: if (s.size() - p < 8) return; p += 8; break;
            case 5: if (s.size() - p < 4) return; p += 4; break;
            default: return;
            }
        }
        ok = true;
    }
    bool has(int n) const { return num.count(n) || str.count(n); }
    uint64_t n(int f, uint64_t d = 0) const { auto i = num.find(f); return i == num.end() ? d : i->second; }
    string s(int f) const { auto i = str.find(f); return i == str.end() ? "" : i->second; }
};
inline string header(int32_t meta, int64_t data, int64_t msg) {
    string h = "SOFA";
    for (int i = 0; i < 4; ++i) h += (char)((uint32_t)meta >> (8 * i));
    for (int i = 0; i < 8; ++i) h += (char)((uint64_t)data >> (8 * i));
    for (int i = 0; i < 8; ++i) h += (char)((uint64_t)msg >> (8 * i));
    return h;
}
inline string raw_frame(const string& meta, const string& data) { return header(meta.size(), data.size(), (int64_t)meta.size() + data.size()) + meta + data; }
inline string request_meta(uint64_t seq, const string& method, int64_t timeout = 0, int ctype = -1, int expect = -1) {
    string m;
    put_field(&m, 1, (uint64_t)0);
    put_field(&m, 2, seq);
    put_field(&m, 100, method);
    if (timeout) put_field(&m, 101, (uint64_t)timeout);
    if (ctype >= 0) put_field(&m, 300, (uint64_t)ctype);
    if (expect >= 0) put_field(&m, 301, (uint64_t)expect);
    return m;
}
inline string response_meta(uint64_t seq, int ctype = -1) {
    string m;
    put_field(&m, 1, (uint64_t)1);
    put_field(&m, 2, seq);
    put_field(&m, 200, (uint64_t)0);
    if (ctype >= 0) put_field(&m, 300, (uint64_t)ctype);
    return m;
}
inline string failure_meta(uint64_t seq, int code, const string& reason) {
    string m;
    put_field(&m, 1, (uint64_t)1);
    put_field(&m, 2, seq);
    put_field(&m, 200, (uint64_t)1);
    put_field(&m, 201, (uint64_t)(int64_t)code);
    put_field(&m, 202, reason);
    return m;
}
struct Frame { string meta, data; };
// 1 taken, 0 incomplete, -1 not a frame
inline int take_frame(string* in, Frame* f, string* why = NULL) {
    if (in->size() < 24) {
        if (in->compare(0, std::min<size_t>(4, in->size()), "SOFA", std::min<size_t>(4, in->size())) != 0) { if (why) *why = "no magic: " + show(*in, 40); return -1; }
        return 0;
    }
    if (in->compare(0, 4, "SOFA") != 0) { if (why) *why = "no magic: " + show(*in, 40); return -1; }
    uint32_t ms = 0; uint64_t ds = 0, all = 0;
    for (int i = 3; i >= 0; --i) ms = ms << 8 | (unsigned char)(*in)[4 + i];
    for (int i = 7; i >= 0; --i) ds = ds << 8 | (unsigned char)(*in)[8 + i];
    for (int i = 7; i >= 0; --i) all = all << 8 | (unsigned char)(*in)[16 + i];
    if (ms > (1u << 30) || ds > (1ull << 32) || all != ms + ds) { if (why) *why = fmt("header sizes %u + %llu, message %llu", ms, (unsigned long long)ds, (unsigned long long)all); return -1; }
    if (in->size() < 24 + all) return 0;
    f->meta = in->substr(24, ms);
    f->data = in->substr(24 + ms, ds);
    in->erase(0, 24 + all);
    return 1;
}

// ---- HTTP, written from its description
typedef std::vector<std::pair<string, string>> Headers;
struct Http {
    string status, body;        // status line without line end
    Headers head;
    string h(const string& name) const { string v; for (auto& e : head) if (!strcasecmp(e.first.c_str(), name.c_str())) v = e.second; return v; }
    int count(const string& name) const { int n = 0; for (auto& e : head) n += !strcasecmp(e.first.c_str(), name.c_str()); return n; }
};
inline int take_http(string* in, Http* r, string* why = NULL) {
    static const string start = "HTTP/1.1 ";
    size_t k = std::min(in->size(), start.size());
    if (in->compare(0, k, start, 0, k) != 0) { if (why) *why = "no status line: " + show(*in, 60); return -1; }
    size_t e = in->find("\r\n\r\n");
    if (e == string::npos) { if (in->size() > 1000000 && why) { *why = "endless head"; return -1; } return 0; }
    *r = Http();
    size_t p = 0;
    bool first = true;
    while (p < e + 2) {
        size_t q = in->find("\r\n", p);
        string line = in->substr(p, q - p);
        p = q + 2;
        if (first) { r->status = line; first = false; continue; }
        size_t c = line.find(':');
        if (c == string::npos || c == 0) { if (why) *why = "bad header line: " + show(line, 80); return -1; }
        size_t v = c + 1;
        while (v < line.size() && line[v] == ' ') ++v;
        r->head.push_back({line.substr(0, c), line.substr(v)});
    }
    string l = r->h("Content-Length");
    if (r->count("Content-Length") != 1 || l.empty() || l.size() > 12 || l.find_first_not_of("0123456789") != string::npos) { if (why) *why = "no usable Content-Length: " + show(in->substr(0, e), 200); return -1; }
    size_t n = strtoull(l.c_str(), NULL, 10);
    if (in->size() - e - 4 < n) return 0;
    r->body = in->substr(e + 4, n);
    in->erase(0, e + 4 + n);
    return 1;
}
inline string http_text(const string& method, const string& target, const string& version, const Headers& h, const string& body) {
    string t = method + " " + target + " " + version + "\r\n";
    for (auto& e : h) t += e.first + ": " + e.second + "\r\n";
    return t + "\r\n" + body;
}
// Percent-encodes everything that is not unreserved, and sometimes that too.
inline string url_quote(const string& v, uint64_t seed = 0, int extra_percent = 0) {
    string o;
    for (size_t i = 0; i < v.size(); ++i) {
        unsigned char c = v[i];
        bool plain = isalnum(c) || (c && strchr("-_.~", c));
        if (plain && extra_percent && (int)(mix(seed + i) % 100) < extra_percent) plain = false;
        if (plain) o += c;
        else o += fmt(mix(seed ^ i) & 1 ? "%%%02X" : "%%%02x", c);
    }
    return o;
}

// ---- test service
struct Exec { string method, server; string request; };
class ExecLog {
public:
    void add(uint64_t id, const string& method, const string& server, const google::protobuf::Message& m) {
        Exec e;
        e.method = method;
        e.server = server;
        m.SerializePartialToString(&e.request);
        std::lock_guard<std::mutex> l(mu_);
        log_[id].push_back(e);
        ++total_;
    }
    std::vector<Exec> get(uint64_t id) { std::lock_guard<std::mutex> l(mu_); auto i = log_.find(id); return i == log_.end() ? std::vector<Exec>() : i->second; }
    std::vector<std::pair<uint64_t, Exec>> take() {
        std::lock_guard<std::mutex> l(mu_);
        std::vector<std::pair<uint64_t, Exec>> v;
        for (auto& e : log_) for (auto& x : e.second) v.push_back({e.first, x});
        log_.clear();
        return v;
    }
    uint64_t total() { std::lock_guard<std::mutex> l(mu_); return total_; }
    void clear() { std::lock_guard<std::mutex> l(mu_); log_.clear(); total_ = 0; }
    ExecLog() : total_(0) {}
private:
    std::mutex mu_;
    std::unordered_map<uint64_t, std::vector<Exec>> log_;
    uint64_t total_;
};
inline ExecLog& exec_log() { static ExecLog* l = new ExecLog(); return *l; }
inline uint64_t fresh_id() { static std::atomic<uint64_t> n(1); return n++; }

// Runs things later, on its own thread.
class Later {
public:
    static Later& get() { static Later* l = new Later(); return *l; }
    void in(double s, std::function<void()> f) {
        std::lock_guard<std::mutex> l(mu_);
        q_.insert({now_s() + s, std::move(f)});
        cv_.notify_one();
    }
private:
    Later() { std::thread([this] { run(); }).detach(); }
    void run() {
        std::unique_lock<std::mutex> l(mu_);
        while (true) {
            if (q_.empty()) { cv_.wait(l); continue; }
            double t = q_.begin()->first, n = now_s();
            if (t > n) { cv_.wait_for(l, std::chrono::duration<double>(t - n)); continue; }
            std::function<void()> f = std::move(q_.begin()->second);
            q_.erase(q_.begin());
            l.unlock();
            f();
            f = NULL;
            l.lock();
        }
    }
    std::mutex mu_;
    std::condition_variable cv_;
    std::multimap<double, std::function<void()>> q_;
};

inline void answer(const string& method, const string& server, const vtest::EchoRequest& q, vtest::EchoResponse* r) {
    r->Clear();
    r->set_id(q.id());
    bool rev = method == "Reverse";
    if (q.response_size() > 0 && q.response_size() <= (16 << 20)) r->set_data(Src::expand(q.response_size(), 1 + q.id() % 3, q.id()));
    else if (q.has_data()) r->set_data(rev ? string(q.data().rbegin(), q.data().rend()) : q.data());
    if (q.has_text()) r->set_text(q.text());
    for (int i = 0; i < q.nums_size(); ++i) r->add_nums(q.nums(rev ? q.nums_size() - 1 - i : i));
    r->set_method(method);
    r->set_server(server);
}
class EchoImpl : public vtest::EchoService {
public:
    string server;
    std::atomic<int> running, max_running;
    std::atomic<int> late{0};              // answers promised for later and not sent yet
    std::atomic<int64_t> never;            // calls kept for ever
    std::mutex kept_mu;
    std::vector<google::protobuf::Closure*> kept;
    std::function<void(google::protobuf::RpcController*, const vtest::EchoRequest*)> hook;
    std::atomic<int>* deaths;
    std::atomic<int64_t> nothings;         // calls of Nothing
    explicit EchoImpl(const string& s) : server(s), running(0), max_running(0), never(0), deaths(NULL), nothings(0) {}
    ~EchoImpl() { if (deaths) ++*deaths; }
    typedef google::protobuf::RpcController RC;
    typedef google::protobuf::Closure Cl;
    void Echo(RC* c, const vtest::EchoRequest* q, vtest::EchoResponse* r, Cl* d) override { go("Echo", c, q, r, d); }
    void Reverse(RC* c, const vtest::EchoRequest* q, vtest::EchoResponse* r, Cl* d) override { go("Reverse", c, q, r, d); }
    void EchoT400(RC* c, const vtest::EchoRequest* q, vtest::EchoResponse* r, Cl* d) override { go("EchoT400", c, q, r, d); }
    void EchoZip(RC* c, const vtest::EchoRequest* q, vtest::EchoResponse* r, Cl* d) override { go("EchoZip", c, q, r, d); }
    void Types(RC* c, const vtest::AllTypes* q, vtest::AllTypes* r, Cl* d) override { exec_log().add(q->u64(), "Types", server, *q); r->CopyFrom(*q); d->Run(); }
    void Nothing(RC*, const vtest::Empty*, vtest::Empty*, Cl* d) override { ++nothings; d->Run(); }
    void release() { std::vector<Cl*> k; { std::lock_guard<std::mutex> l(kept_mu); k.swap(kept); } for (auto d : k) { --running; d->Run(); } }
private:
    void go(const char* m, RC* c, const vtest::EchoRequest* q, vtest::EchoResponse* r, Cl* d) {
        int n = ++running, old = max_running;
        while (n > old && !max_running.compare_exchange_weak(old, n)) {}
        exec_log().add(q->id(), m, server, *q);
        if (hook) hook(c, q);
        answer(m, server, *q, r);
        if (q->leave_incomplete()) r->clear_id();
        if (q->has_fail()) c->SetFailed(q->fail());
        if (q->never()) { std::lock_guard<std::mutex> l(kept_mu); kept.push_back(d); ++never; return; }
        if (q->delay_ms() > 0) { ++late; Later::get().in(q->delay_ms() * 1e-3, [this, d] { --running; d->Run(); --late; }); return; }
        --running;
        d->Run();
    }
};
class ShortImpl : public vtest::ShortService {
public:
    string server;
    std::atomic<int>* deaths;
    explicit ShortImpl(const string& s) : server(s), deaths(NULL) {}
    ~ShortImpl() { if (deaths) ++*deaths; }
    typedef google::protobuf::RpcController RC;
    typedef google::protobuf::Closure Cl;
    void Echo(RC* c, const vtest::EchoRequest* q, vtest::EchoResponse* r, Cl* d) override { exec_log().add(q->id(), "Short.Echo", server, *q); answer("Short.Echo", server, *q, r); d->Run(); }
    void EchoT900(RC* c, const vtest::EchoRequest* q, vtest::EchoResponse* r, Cl* d) override { exec_log().add(q->id(), "Short.EchoT900", server, *q); answer("Short.EchoT900", server, *q, r); d->Run(); }
};
// A running server with both services.
struct TestServer {
    std::unique_ptr<Port> port;
    std::unique_ptr<sofa::pbrpc::RpcServer> srv;
    EchoImpl* echo;                     // owned by the server
    string name;
    sofa::pbrpc::RpcServerOptions opt;
    TestServer() : echo(NULL), name("s") { opt.work_thread_num = 2; }
    bool start() {
        if (!port) port.reset(new Port());
        srv.reset(new sofa::pbrpc::RpcServer(opt));
        echo = new EchoImpl(name);
        srv->RegisterService(echo);
        srv->RegisterService(new ShortImpl(name));
        for (int i = 0; i < 20; ++i) { if (srv->Start(port->addr())) return true; nap(0.05); }
        return false;
    }
    string addr() const { return port->addr(); }
    ~TestServer() { if (echo) echo->release(); if (srv) srv->Stop(); if (srv && echo) eventually([this] { return echo->late == 0; }, 20); }
};
inline bool same_msg(const google::protobuf::Message& a, const google::protobuf::Message& b) {
    string x, y;
    a.SerializePartialToString(&x);
    b.SerializePartialToString(&y);
    return x == y;
}
inline int open_fds() { DIR* d = opendir("/proc/self/fd"); int n = -1; while (dirent* e = readdir(d)) n += e->d_name[0] != '.'; closedir(d); return n; }
inline int threads_now() { DIR* d = opendir("/proc/self/task"); int n = 0; while (dirent* e = readdir(d)) n += e->d_name[0] != '.'; closedir(d); return n; }
// A request to the test service with generated contents.
inline void gen_request(Src& s, vtest::EchoRequest* q, uint64_t id, size_t max_data) {
    q->Clear();
    q->set_id(id);
    if (s.chance(80)) q->set_data(s.data(s.size_near({0, 1, 16, 128, 256, 1000, 1024, 4064, 4096, 8192, 16384, 65536}, max_data)));
    if (s.chance(30)) q->set_text(s.str("ab <>\"\\'&{}[]:,/\xe4\xb8\xad", 40));
    int n = s.chance(30) ? (int)s.logsize(40) : 0;
    for (int i = 0; i < n; ++i) q->add_nums(s.any_i64());
}
} // namespace net

// start() of a thread group polls every 100 ms: link with -Wl,--wrap=usleep and use this
#define NET_FAST_START extern "C" int __real_usleep(useconds_t); \
    extern "C" int __wrap_usleep(useconds_t us) { return __real_usleep(us == 100000 ? 500 : us); }
#endif
