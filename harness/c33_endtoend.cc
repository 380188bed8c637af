// LINK: -Wl,--wrap=usleep -Wl,--wrap=send -Wl,--wrap=recv -Wl,--wrap=sendmsg -Wl,--wrap=recvmsg -Wl,--wrap=socket
// C33: whole calls through the library's client and server in one process, under generated concurrency, sizes,
// compression and short reads and writes.  Every call's request, run and response are compared.
#include "fake.h"
#include "gen_msg.h"
#include <sys/uio.h>
using namespace net;
using namespace sofa::pbrpc;
NET_FAST_START

// ---- partial transfers: reads get less than there is, calls are interrupted, and sockets get send buffers so
// small that the system takes only part of what is written.  (A write must not be cut here: the event loop rightly
// waits after a short write until the system says that there is room again.)
static std::atomic<uint64_t> g_io_n(0), g_short(0), g_eintr(0), g_part(0);
static std::atomic<uint64_t> g_io_seed(0);
static std::atomic<int> g_cut(0), g_int(0), g_max(0), g_sndbuf(0);     // chances in 1/1000, longest piece, size of send buffers
static bool interrupted() {
    if (!g_int) return false;
    uint64_t r = mix(g_io_seed + ++g_io_n * 2 + 1);
    if ((int)(r % 1000) >= g_int) return false;
    ++g_eintr;
    errno = EINTR;
    return true;
}
static size_t cut(size_t n) {
    if (!g_cut || n <= 1) return n;
    uint64_t r = mix(g_io_seed + ++g_io_n * 2);
    if ((int)(r % 1000) >= g_cut) return n;
    size_t m = 1 + (r >> 20) % std::max(1, g_max.load());
    if (m >= n) return n;
    ++g_short;
    return m;
}
extern "C" {
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __real_sendmsg(int, const msghdr*, int);
ssize_t __real_recvmsg(int, msghdr*, int);
int __real_socket(int, int, int);
ssize_t __wrap_send(int fd, const void* p, size_t n, int f) { if (interrupted()) return -1; ssize_t r = __real_send(fd, p, n, f); if (r > 0 && r < (ssize_t)n) ++g_part; return r; }
ssize_t __wrap_sendmsg(int fd, const msghdr* m, int f) {
    if (interrupted()) return -1;
    ssize_t r = __real_sendmsg(fd, m, f);
    size_t n = 0;
    for (size_t i = 0; i < m->msg_iovlen; ++i) n += m->msg_iov[i].iov_len;
    if (r > 0 && r < (ssize_t)n) ++g_part;
    return r;
}
ssize_t __wrap_recv(int fd, void* p, size_t n, int f) { if (interrupted()) return -1; return __real_recv(fd, p, cut(n), f); }
ssize_t __wrap_recvmsg(int fd, msghdr* m, int f) {
    if (interrupted()) return -1;
    if (m->msg_iovlen != 1) return __real_recvmsg(fd, m, f);
    iovec one = m->msg_iov[0];
    one.iov_len = cut(one.iov_len);
    msghdr h = *m;
    h.msg_iov = &one;
    ssize_t r = __real_recvmsg(fd, &h, f);
    m->msg_flags = h.msg_flags;
    return r;
}
int __wrap_socket(int d, int t, int p) {
    int fd = __real_socket(d, t, p), n = g_sndbuf;
    if (fd >= 0 && n > 0) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &n, sizeof n);
    return fd;
}
}
static void set_buffers(int n) {
    g_sndbuf = n;
    DIR* d = opendir("/proc/self/fd");
    while (dirent* e = readdir(d)) {
        int fd = atoi(e->d_name), ty = 0, v = n ? n : 200000;
        socklen_t l = sizeof ty;
        if (e->d_name[0] != '.' && getsockopt(fd, SOL_SOCKET, SO_TYPE, &ty, &l) == 0 && ty == SOCK_STREAM) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof v);
    }
    closedir(d);
}

// ---- the standing servers and clients of a worker process
struct World {
    std::vector<std::unique_ptr<TestServer>> srv;
    std::vector<std::shared_ptr<RpcClient>> cli;
    // the channels go before the clients
    std::map<std::pair<int, int>, ChanP> ch;
    ChanP chan(int c, int s) {
        ChanP& p = ch[{c, s}];
        if (!p) p.reset(new RpcChannel(cli[c].get(), srv[s]->addr()));
        return p;
    }
    ~World() { ch.clear(); for (auto& c : cli) c->Shutdown(); }
};
static World* g_world;
static RpcServerOptions server_options(int work, int pools, size_t rb, size_t wb, bool nodelay) {
    RpcServerOptions o;
    o.work_thread_num = work;
    o.io_service_pool_size = pools;
    o.read_buffer_base_block_factor = rb;
    o.write_buffer_base_block_factor = wb;
    o.no_delay = nodelay;
    return o;
}
static bool add_server(World* w, const RpcServerOptions& o) {
    std::unique_ptr<TestServer> t(new TestServer());
    t->opt = o;
    t->name = fmt("s%zu", w->srv.size());
    if (!t->start()) return false;
    w->srv.push_back(std::move(t));
    return true;
}
static void init() {
    quiet();
    g_world = new World();
    if (!add_server(g_world, server_options(1, 1, 0, 0, true)) || !add_server(g_world, server_options(2, 1, 9, 4, false)) || !add_server(g_world, server_options(4, 2, 3, 9, true))) {
        fprintf(stderr, "servers do not start\n");
        _exit(3);
    }
    for (int i = 0; i < 3; ++i) {
        RpcClientOptions o;
        o.work_thread_num = 1 + i;
        o.callback_thread_num = 1 + i;
        o.no_delay = i != 1;
        g_world->cli.emplace_back(new RpcClient(o));
    }
}
typedef std::unique_ptr<google::protobuf::Message> MsgP;
struct Job {
    int kind;                  // 0 echo 1 fails 2 types 3 nothing 4 may time out
    string mname, fail;
    uint64_t id;
    int srv, cli;
    bool sync;
    MsgP q, r;
    vtest::EchoResponse want;
    RpcController cntl;
    std::atomic<int> done;
    Job() : kind(0), id(0), srv(0), cli(0), sync(false), done(0) {}
    static void cb(Job* j) { ++j->done; }
};
static const google::protobuf::MethodDescriptor* method_of(const string& m) {
    return m.compare(0, 6, "Short.") == 0 ? vtest::ShortService::descriptor()->FindMethodByName(m.substr(6)) : vtest::EchoService::descriptor()->FindMethodByName(m);
}
static void calls(Src& s, Ctx& c) {
    World* w = g_world;
    std::unique_ptr<World> own;
    if (s.chance(8)) {
        own.reset(w = new World());
        int ns = 1 + s.draw(1);
        for (int i = 0; i < ns; ++i) if (!add_server(w, server_options(1 + s.draw(5), 1 + s.draw(2), s.draw(9), s.draw(9), s.draw(1)))) discard("server does not start");
        for (int i = 0; i < 1 + (int)s.draw(1); ++i) {
            RpcClientOptions o;
            o.work_thread_num = 1 + s.draw(3);
            o.callback_thread_num = 1 + s.draw(3);
            o.no_delay = s.draw(1);
            w->cli.emplace_back(new RpcClient(o));
        }
        c.label("servers and clients of its own");
    }
    int n = 1 + s.logsize(60), nt = 1 + s.weighted({3, 2, 2, 1, 1});
    static const size_t lim[] = {200, 9000, 150000, 4000000};
    size_t maxd = lim[s.weighted({5, 4, 3, 1})];
    int faults = s.weighted({3, 3, 2, 2});      // none, some cuts, many cuts, many cuts and interruptions
    if (faults && maxd > 200000) maxd = 200000;
    std::vector<std::shared_ptr<Job>> jobs;
    int64_t nothing = 0;
    size_t bytes = 0;
    std::vector<int64_t> nothings(w->srv.size(), 0);
    for (size_t i = 0; i < w->srv.size(); ++i) nothings[i] = w->srv[i]->echo->nothings;
    for (int i = 0; i < n; ++i) {
        auto j = std::make_shared<Job>();
        j->kind = s.weighted({12, 2, 2, 1, 1});
        j->srv = s.draw(w->srv.size() - 1);
        j->cli = s.draw(w->cli.size() - 1);
        j->sync = s.chance(40);
        j->id = fresh_id();
        if (j->kind == 2) {
            j->mname = "Types";
            vtest::AllTypes* q = new vtest::AllTypes();
            gm::Opt o;
            gm::fill(s, q, o);
            q->set_u64(j->id);
            j->q.reset(q);
            j->r.reset(new vtest::AllTypes());
        } else if (j->kind == 3) {
            j->mname = "Nothing";
            j->q.reset(new vtest::Empty());
            j->r.reset(new vtest::Empty());
            ++nothing;
            ++nothings[j->srv];
        } else {
            static const char* ms[] = {"Echo", "Reverse", "EchoZip", "Short.EchoT900"};
            j->mname = ms[s.draw(j->kind == 1 ? 2 : 3)];
            vtest::EchoRequest* q = new vtest::EchoRequest();
            gen_request(s, q, j->id, i % 6 ? std::min<size_t>(maxd, 20000) : maxd);
            if (s.chance(10)) q->set_response_size(1 + s.logsize(maxd));
            if (s.chance(8)) q->set_delay_ms(1 + s.draw(8));
            if (j->kind == 1) { j->fail = s.data(s.logsize(200)); q->set_fail(j->fail); }
            answer(j->mname, w->srv[j->srv]->name, *q, &j->want);
            j->q.reset(q);
            j->r.reset(new vtest::EchoResponse());
        }
        if (s.chance(15)) j->r->ParsePartialFromString(j->q->GetTypeName() == j->r->GetTypeName() ? j->q->SerializePartialAsString() : "\x08\x07\x1a\x03old");   // something is left in the response message
        bytes += j->q->ByteSizeLong();
        j->cntl.SetTimeout(j->kind == 4 ? 1 + s.draw(8) : 100000);
        if (s.chance(25)) j->cntl.SetRequestCompressType((CompressType)(1 + s.draw(3)));
        if (s.chance(25)) j->cntl.SetResponseCompressType((CompressType)(1 + s.draw(3)));
        jobs.push_back(j);
    }
    g_io_seed = s.seed();
    g_max = faults == 1 ? 4000 : bytes > 150000 ? 3000 : faults == 2 ? 40 : 300;
    g_int = faults == 3 ? 100 : 0;
    uint64_t short0 = g_short, int0 = g_eintr, part0 = g_part;
    g_cut = faults == 1 ? 100 : faults ? 600 : 0;
    bool tiny = bytes < 400000 && s.chance(bytes > 5000 ? 60 : 10);
    if (tiny) set_buffers(s.chance(70) ? 1 : 1 + s.draw(20000));
    struct Off { bool t; ~Off() { g_cut = 0; g_int = 0; if (t) set_buffers(0); } } off = {tiny};
    c.note(fmt("%d calls by %d threads, %zu bytes, faults %d", n, nt, bytes, faults));
    std::vector<std::thread> ts;
    for (auto& j : jobs) w->chan(j->cli, j->srv);     // created before the threads start
    auto run = [&](int t) {
        for (int i = t; i < n; i += nt) {
            Job* j = jobs[i].get();
            google::protobuf::RpcChannel* ch = w->ch[{j->cli, j->srv}].get();
            if (j->sync) { ch->CallMethod(method_of(j->mname), &j->cntl, j->q.get(), j->r.get(), NULL); ++j->done; }
            else ch->CallMethod(method_of(j->mname), &j->cntl, j->q.get(), j->r.get(), sofa::pbrpc::NewClosure(&Job::cb, j));
        }
    };
    // std::map::operator[] of an existing key only reads
    for (int t = 1; t < nt; ++t) ts.emplace_back(run, t);
    run(0);
    for (auto& t : ts) t.join();
    bool all = eventually([&] { for (auto& j : jobs) if (!j->done) return false; return true; }, 110);
    int unfinished = 0;
    for (auto& j : jobs) unfinished += !j->done;
    if (!all) { static auto* keep = new std::vector<std::vector<std::shared_ptr<Job>>>(); keep->push_back(jobs); own.release(); }
    PBT_CHECK(all, "%d of %d calls have not ended after 110 s", unfinished, n);
    int timed = 0, okd = 0;
    for (auto& jp : jobs) {
        Job& j = *jp;
        PBT_CHECK(j.done == 1, "a call ended %d times", j.done.load());
        string what = fmt("%s call of %zu bytes (kind %d, %s)", j.mname.c_str(), j.q->ByteSizeLong(), j.kind, j.sync ? "sync" : "async");
        if (j.kind == 4 && j.cntl.Failed()) {
            PBT_CHECK(j.cntl.ErrorCode() == RPC_ERROR_REQUEST_TIMEOUT, "%s failed: %s", what.c_str(), j.cntl.ErrorText().c_str());
            ++timed;
        } else if (j.kind == 1) {
            PBT_CHECK(j.cntl.Failed() && j.cntl.ErrorCode() == RPC_ERROR_FROM_USER && j.cntl.ErrorText() == (j.fail.empty() ? "RPC_ERROR_FROM_USER" : "RPC_ERROR_FROM_USER: " + j.fail), "%s: code %d, reason %s instead of %s", what.c_str(), j.cntl.ErrorCode(), show(j.cntl.ErrorText()).c_str(), show(j.fail).c_str());
        } else {
            PBT_CHECK(!j.cntl.Failed(), "%s failed: %s", what.c_str(), j.cntl.ErrorText().c_str());
            ++okd;
            if (j.kind == 2) PBT_CHECK(same_msg(*j.r, *j.q), "%s: another response than the method made", what.c_str());
            else if (j.kind == 3) PBT_CHECK(j.r->ByteSizeLong() == 0, "%s: another response than the method made", what.c_str());
            else PBT_CHECK(same_msg(*j.r, j.want), "%s: %s instead of %s", what.c_str(), show(j.r->ShortDebugString(), 200).c_str(), show(j.want.ShortDebugString(), 200).c_str());
        }
        if (j.kind == 3) continue;
        auto ex = exec_log().get(j.id);
        if (j.kind == 4) PBT_CHECK(ex.size() <= 1, "%s was run %zu times", what.c_str(), ex.size());
        else PBT_CHECK(ex.size() == 1, "%s was run %zu times", what.c_str(), ex.size());
        if (ex.size()) PBT_CHECK(ex[0].request == j.q->SerializePartialAsString() && ex[0].method == j.mname && ex[0].server == w->srv[j.srv]->name, "%s: the method got something else (%s at %s)", what.c_str(), ex[0].method.c_str(), ex[0].server.c_str());
    }
    for (size_t i = 0; i < nothings.size(); ++i) PBT_CHECK(w->srv[i]->echo->nothings == nothings[i], "%+lld runs of empty requests", (long long)(w->srv[i]->echo->nothings - nothings[i]));
    if (timed) c.label("timed out");
    if (g_short > short0) c.label("short reads");
    if (g_part > part0) c.label("short writes");
    if (g_eintr > int0) c.label("interruptions");
    if (nothing) c.label("empty messages");
    if (okd) c.label("answered calls");
    c.nontrivial(n >= 2 && bytes > 200);
    exec_log().clear();
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C33";
    p.rule = "calls of all kinds (echoes, failures, all field types, empty messages, tight timeouts) by several threads over several clients and servers, compressed or not, with short reads, tiny send buffers and interruptions under both ends; request, number of runs and response of each compared. Non-trivial: at least two calls carrying more than 200 bytes.";
    p.subs = {{"calls", calls, 3000, 150000}};
    p.init = init;
    p.recycle = 400;
    p.case_timeout_s = 300;
    return run(argc, argv, p);
}
