// LINK: -Wl,--wrap=usleep -Wl,--wrap=socket
// C28: a peer that reads only when told; what the other side buffers is bounded by its limit, overflow is reported,
// and what was accepted arrives intact.
#include "fake.h"
using namespace net;
using namespace sofa::pbrpc;
NET_FAST_START

// Small send buffers in the system, so that what is buffered is buffered by the library.
extern "C" int __real_socket(int, int, int);
extern "C" int __wrap_socket(int d, int t, int p) {
    int fd = __real_socket(d, t, p), n = 4096;
    if (fd >= 0) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &n, sizeof n);
    return fd;
}
static const int64_t kSystem = 300 << 10;      // more than the system can hold on the way
static int64_t blocks_of(int64_t n) { n += 24 + 120; return std::min(2 * n + 1100, n + n / 100 + 33000); }   // at most this much memory for a message

static void client(Src& s, Ctx& c) {
    Port port;
    Listener lis;
    if (!lis.start(port.num(), 16, 4096)) discard("cannot listen");
    int64_t limit = s.weighted({1, 5, 2});     // MB
    RpcClientOptions o;
    o.work_thread_num = 1 + s.draw(2);
    o.max_pending_buffer_size = limit;
    const int64_t first_limit = limit;
    std::shared_ptr<RpcClient> cli(new RpcClient(o));
    ChanP ch(new RpcChannel(cli.get(), port.addr()));
    static const size_t size_max[] = {3000, 60000, 500000, 500000};
    static const size_t size_min[] = {500, 5000, 150000, 0};
    int kind = s.weighted({2, 3, 2, 3});
    struct Event { int what; size_t call; int64_t limit; };     // 0 issued 1 read by the peer 2 limit set 3 issued among others by several threads
    std::vector<Event> ev;
    std::vector<CallP> calls;
    std::vector<int64_t> size;
    std::map<uint64_t, size_t> by_id;
    std::vector<bool> impatient, read;
    std::unique_ptr<Conn> k;
    int64_t biggest = 0;
    uint64_t seed = s.seed();
    auto make = [&](size_t n, bool imp) {
        CallP p = blank_call("Echo");
        p->q.set_data(Src::expand(n, 1 + p->id % 3, seed + p->id));
        p->cntl.SetTimeout(imp ? 20 + mix(seed + p->id) % 60 : 200000);
        by_id[p->id] = calls.size();
        calls.push_back(p);
        size.push_back(p->q.ByteSizeLong());
        impatient.push_back(imp);
        read.push_back(false);
        biggest = std::max(biggest, size.back());
        return calls.size() - 1;
    };
    auto take = [&](double limit_s) {             // the peer reads one request
        Asked a;
        if (!take_request(*k, &a, limit_s)) return false;
        auto it = by_id.find(a.id);
        PBT_CHECK(it != by_id.end(), "a request arrived that was not made (id %llu)", (unsigned long long)a.id);
        size_t i = it->second;
        PBT_CHECK(!read[i], "a request arrived twice");
        PBT_CHECK(a.data == calls[i]->q.SerializeAsString(), "a request of %lld bytes arrived altered", (long long)size[i]);
        read[i] = true;
        ev.push_back({1, i, 0});
        vtest::EchoResponse r;
        r.set_id(a.id);
        PBT_CHECK(k->send(raw_frame(response_meta(a.seq), r.SerializeAsString())), "the client closed the connection");
        return true;
    };
    // the connection
    size_t first = make(10, false);
    calls[first]->go(ch);
    ev.push_back({0, first, 0});
    int fd = lis.accept_fd(20);
    PBT_CHECK(fd >= 0, "the client does not connect");
    k.reset(new Conn(fd));
    take(20);
    PBT_CHECK(eventually([&] { return calls[first]->finished(); }, 20), "an answered call does not end");
    int steps = 1 + s.draw(4), max_threads = 1;
    string d;
    for (int st = 0; st < steps; ++st) {
        int what = st == 0 ? 0 : s.weighted({4, 3, 1});
        if (what == 0) {                       // calls, while the peer does not read
            int nt = 1 + s.weighted({4, 1, 0, 1});
            int64_t want = s.chance(75) ? (limit + 1) * (1200 << 10) : s.draw(900 << 10), sum = 0;
            std::vector<size_t> idx;
            while (sum < want && idx.size() < 1500) {
                size_t n = size_min[kind] + mix(seed + calls.size()) % (size_max[kind] - size_min[kind]);
                bool imp = nt == 1 && s.chance(3);
                idx.push_back(make(n, imp));
                sum += n;
            }
            if (nt == 1) for (size_t i : idx) { ev.push_back({0, i, 0}); calls[i]->go(ch); }
            else {
                max_threads = std::max(max_threads, nt);
                for (size_t i : idx) ev.push_back({3, i, 0});
                std::vector<std::thread> ts;
                for (int t = 0; t < nt; ++t) ts.emplace_back([&, t] { for (size_t j = t; j < idx.size(); j += nt) calls[idx[j]]->go(ch); });
                for (auto& t : ts) t.join();
            }
            d += fmt("%zu calls by %d threads, ", idx.size(), nt);
        } else if (what == 1) {                // the peer reads some
            int n = 1 + s.logsize(60), got = 0;
            while (got < n && take(0.3)) ++got;
            nap(0.02);
            d += fmt("%d read, ", got);
        } else {
            limit = s.weighted({1, 3, 2, 1});
            o.max_pending_buffer_size = limit;
            cli->ResetOptions(o);
            ev.push_back({2, 0, limit});
            d += fmt("limit %lld MB, ", (long long)limit);
            c.label("limit changed");
        }
    }
    c.note(fmt("limit %d MB, kind %d: %s", o.max_pending_buffer_size, kind, d.c_str()));
    // the peer reads everything
    double end = now_s() + 90;
    auto open_calls = [&] { size_t n = 0; for (auto& p : calls) n += !p->finished(); return n; };
    while (open_calls() && now_s() < end && !k->dead()) take(0.1);
    PBT_CHECK(open_calls() == 0, "%zu of %zu calls have not ended after the peer read everything", open_calls(), calls.size());
    size_t last = make(100, false);
    calls[last]->go(ch);
    while (!calls[last]->finished() && now_s() < end + 20 && !k->dead()) take(0.1);
    PBT_CHECK(calls[last]->finished() && (!calls[last]->cntl.Failed()), "a call after the queue was emptied: %s", calls[last]->outcome().c_str());
    // the history once more, now that it is known which calls were refused
    int64_t lim = first_limit << 20, queued = 0, memory = 0;   // queued: bytes at least in the queue; memory: at most
    std::vector<bool> accepted(calls.size());
    int refused = 0;
    for (size_t i = 0; i < calls.size(); ++i) {
        auto& p = calls[i];
        bool full = p->cntl.Failed() && p->cntl.ErrorCode() == RPC_ERROR_SEND_BUFFER_FULL;
        bool late = impatient[i] && p->cntl.Failed() && p->cntl.ErrorCode() == RPC_ERROR_REQUEST_TIMEOUT;
        PBT_CHECK(full || late || !p->cntl.Failed(), "a call failed: %s", p->outcome().c_str());
        PBT_CHECK(p->done == 1, "a call ended %d times", p->done.load());
        PBT_CHECK(!(full && read[i]), "a call that failed for lack of space was sent nevertheless");
        PBT_CHECK(full || late || read[i], "a call succeeded without having been sent");
        accepted[i] = !full;
        refused += full;
    }
    for (size_t x = 0; x < ev.size(); ++x) {
        const Event& e = ev[x];
        if (e.what == 2) lim = e.limit << 20;
        else if (e.what == 1) { queued -= size[e.call]; memory -= blocks_of(size[e.call]); }
        else {
            int64_t over = e.what == 3 ? max_threads + 1 : 1;
            // calls that timed out leave the queue when they come up, so they count for the most there may be only
            if (accepted[e.call]) {
                PBT_CHECK(queued <= lim + over * blocks_of(biggest) + kSystem, "a call was accepted though %lld bytes were waiting and the limit is %lld", (long long)queued, (long long)lim);
                if (!impatient[e.call]) queued += size[e.call];
                memory += blocks_of(size[e.call]);
            } else if (e.what == 0) PBT_CHECK(memory > lim, "a call was refused though at most %lld bytes were waiting and the limit is %lld", (long long)memory, (long long)lim);
            else {
                int64_t all = memory;                      // other threads may have been first
                for (size_t y = x; y < ev.size() && ev[y].what == 3; ++y) if (accepted[ev[y].call]) all += blocks_of(size[ev[y].call]);
                PBT_CHECK(all > lim, "a call was refused though at most %lld bytes were waiting and the limit is %lld", (long long)all, (long long)lim);
            }
        }
        if (e.what == 1 && impatient[e.call]) queued += size[e.call];
    }
    ch.reset();
    cli->Shutdown();
    if (refused) c.label("buffer full");
    c.nontrivial(refused > 0);
}

static void server(Src& s, Ctx& c) {
    int64_t limit = s.weighted({1, 4, 2});
    TestServer t;
    t.opt.work_thread_num = 1 + s.draw(2);
    t.opt.max_pending_buffer_size = limit;
    if (!t.start()) discard("server does not start");
    int64_t answer_size = 40000 + s.draw(400000), request_size = 3000 + s.draw(27000);
    int64_t bound = ((limit << 20) + kSystem) / answer_size + 2 + (t.opt.work_thread_num + 1) * (32768 / request_size + 2);
    int n = (int)bound * 2 + 5 + s.draw(20);
    c.note(fmt("limit %lld MB, %d requests of %lld bytes, answers of %lld, %d threads", (long long)limit, n, (long long)request_size, (long long)answer_size, t.opt.work_thread_num));
    string out;
    std::vector<vtest::EchoResponse> want(n);
    std::map<uint64_t, int> by_seq;
    std::vector<uint64_t> ids;
    for (int i = 0; i < n; ++i) {
        vtest::EchoRequest q;
        q.set_id(fresh_id());
        ids.push_back(q.id());
        q.set_data(string(request_size, 'q'));
        q.set_response_size(answer_size + i % 7);
        answer("Echo", t.name, q, &want[i]);
        out += raw_frame(request_meta(1000 + i, "vtest.EchoService.Echo"), q.SerializeAsString());
    }
    int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), rb = 4096;
    setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rb, sizeof rb);
    sockaddr_in a = addr_of(t.port->num());
    if (::connect(fd, (sockaddr*)&a, sizeof a) != 0) { close(fd); discard("cannot connect"); }
    Conn k(fd);
    std::atomic<bool> stop(false);
    std::thread sender([&] {
        size_t p = 0;
        while (p < out.size() && !stop) {
            ssize_t w = ::send(fd, out.data() + p, std::min<size_t>(out.size() - p, 60000), MSG_NOSIGNAL | MSG_DONTWAIT);
            if (w > 0) p += w;
            else if (errno == EAGAIN || errno == EINTR) { pollfd pf = {fd, POLLOUT, 0}; ::poll(&pf, 1, 20); }
            else return;
        }
    });
    struct Join { std::thread& t; std::atomic<bool>& s; ~Join() { s = true; if (t.joinable()) t.join(); } } join = {sender, stop};
    uint64_t run = 0, before = ~0ull;
    double quiet_since = now_s();
    for (double end = now_s() + 20; now_s() < end && now_s() < quiet_since + 0.12;) {      // until nothing more is run
        run = 0;
        for (auto id : ids) run += exec_log().get(id).size();
        if (run != before) { before = run; quiet_since = now_s(); }
        nap(0.01);
    }
    PBT_CHECK((int64_t)run <= bound, "%llu requests with answers of %lld bytes were run while the client did not read; the limit is %lld MB", (unsigned long long)run, (long long)answer_size, (long long)limit);
    if ((int)run < n) c.label("server stopped reading");
    // others are served meanwhile
    Conn other;
    if (other.open(t.port->num())) {
        vtest::EchoRequest q;
        q.set_id(fresh_id());
        other.send(raw_frame(request_meta(7, "vtest.EchoService.Echo"), q.SerializeAsString()));
        Frame f;
        int r = 0;
        other.until([&] { r = take_frame(&other.in, &f); return r != 0; }, 20);
        PBT_CHECK(r == 1, "another connection is not served while one client does not read");
    }
    int got = 0;
    std::vector<bool> seen(n);
    while (got < n) {
        Frame f;
        string why;
        int r = 0;
        k.until([&] { r = take_frame(&k.in, &f, &why); return r != 0; }, 40);
        PBT_CHECK(r >= 0, "not a response frame: %s", why.c_str());
        PBT_CHECK(r == 1, "%d of %d requests were answered once the client read again%s", got, n, k.dead() ? ", then the connection was closed" : "");
        Fields m(f.meta);
        int64_t i = (int64_t)m.n(2) - 1000;
        PBT_CHECK(m.ok && i >= 0 && i < n && !seen[i], "answer with sequence id %llu", (unsigned long long)m.n(2));
        seen[i] = true;
        ++got;
        vtest::EchoResponse resp;
        PBT_CHECK(m.n(200) == 0 && resp.ParseFromString(f.data) && same_msg(resp, want[i]), "an answer of %zu bytes is not the method's", f.data.size());
    }
    for (auto id : ids) PBT_CHECK(exec_log().get(id).size() == 1, "a request was run %zu times", exec_log().get(id).size());
    exec_log().clear();
    c.nontrivial((int)run < n);
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C28";
    p.rule = "histories of calls, partial reading by a scripted peer and limit changes on a client, replayed against a model of the queue; pipelined requests with large answers to a server whose client does not read. Non-trivial: a call was refused for lack of space, or the server stopped reading.";
    p.subs = {{"client", client, 360, 16000}, {"server", server, 200, 9000}};
    p.workers = 16;
    p.init = quiet;
    p.recycle = 100;
    p.case_timeout_s = 300;
    return run(argc, argv, p);
}
