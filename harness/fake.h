// The client side: calls whose completions are counted, and a scripted server on a raw socket.
#ifndef VERIF_FAKE_H
#define VERIF_FAKE_H
#include <deque>
#include "net.h"
#include <sofa/pbrpc/closure.h>

namespace net {
struct Call {
    uint64_t id;
    string method;                         // short name
    vtest::EchoRequest q;
    vtest::EchoResponse r;
    sofa::pbrpc::RpcController cntl;
    std::atomic<int> done;                 // number of completions
    std::atomic<double> t_done;
    double t_start;
    bool sync, started;
    uint64_t seq;                          // as seen by the fake server
    std::function<void(Call*)> on_done;    // runs in the callback
    std::thread th;
    std::shared_ptr<google::protobuf::RpcChannel> ch;    // kept while the call lives
    Call() : id(0), method("Echo"), done(0), t_done(0), t_start(0), sync(false), started(false), seq(0) {}
    ~Call() { join(); }
    void join() { if (th.joinable()) th.join(); }
    bool finished() const { return done.load() > 0; }
    const google::protobuf::MethodDescriptor* desc() const {
        if (method.compare(0, 6, "Short.") == 0) return vtest::ShortService::descriptor()->FindMethodByName(method.substr(6));
        return vtest::EchoService::descriptor()->FindMethodByName(method);
    }
    void finish() {
        t_done = now_s();
        if (on_done) on_done(this);
        ++done;
    }
    static void finished_cb(Call* c) { c->finish(); }
    // Starts the call: asynchronously, or synchronously on a thread of its own.
    void go(const std::shared_ptr<google::protobuf::RpcChannel>& channel) {
        started = true;
        ch = channel;
        t_start = now_s();
        if (sync) {
            th = std::thread([this] { ch->CallMethod(desc(), &cntl, &q, &r, NULL); finish(); });
        } else {
            ch->CallMethod(desc(), &cntl, &q, &r, sofa::pbrpc::NewClosure(&Call::finished_cb, this));
        }
    }
    void run(google::protobuf::RpcChannel* ch) {    // synchronously on this thread
        started = true;
        sync = true;
        t_start = now_s();
        ch->CallMethod(desc(), &cntl, &q, &r, NULL);
        finish();
    }
    string outcome() const { return !finished() ? "unfinished" : cntl.Failed() ? fmt("failed %d (%s)", cntl.ErrorCode(), show(cntl.ErrorText(), 120).c_str()) : "succeeded"; }
};
typedef std::shared_ptr<Call> CallP;
// Calls stay here for a while after their case, so that a second completion is seen, and none is freed
// under the library when a case fails in the middle.
class Grave {
public:
    void add(const CallP& c) { q_.push_back(c); }
    void check() {
        for (auto& c : q_) PBT_CHECK(c->done.load() <= 1, "a call completed %d times (%s)", c->done.load(), c->outcome().c_str());
        while (q_.size() > 600 && (!q_.front()->started || q_.front()->finished())) q_.pop_front();
    }
private:
    std::deque<CallP> q_;
};
inline Grave& grave() { static Grave* g = new Grave(); return *g; }
inline CallP blank_call(const string& method) {
    CallP c = std::make_shared<Call>();
    c->id = fresh_id();
    c->method = method;
    c->q.set_id(c->id);
    grave().add(c);
    return c;
}
inline CallP new_call(Src& s, const string& method, size_t max_data) {
    CallP c = blank_call(method);
    gen_request(s, &c->q, c->id, max_data);
    return c;
}
typedef std::shared_ptr<google::protobuf::RpcChannel> ChanP;
// The requests that arrived on a raw connection.
struct Asked { uint64_t seq, id; string meta, data; int64_t timeout; string method; int ctype, expect; };
inline bool take_request(Conn& k, Asked* a, double limit = 20) {
    Frame f;
    string why;
    int r = 0;
    k.until([&] { r = take_frame(&k.in, &f, &why); return r != 0; }, limit);
    PBT_CHECK(r >= 0, "the client sent something else than a request frame: %s", why.c_str());
    if (r == 0) return false;
    Fields m(f.meta);
    PBT_CHECK(m.ok && m.n(1, 9) == 0 && m.has(2) && m.has(100), "the client sent malformed meta data %s", show(f.meta).c_str());
    a->seq = m.n(2);
    a->method = m.s(100);
    a->timeout = (int64_t)m.n(101);
    a->ctype = (int)m.n(300);
    a->expect = (int)m.n(301);
    a->meta = f.meta;
    a->data = f.data;
    vtest::EchoRequest q;
    a->id = a->ctype == 0 && q.ParseFromString(f.data) ? q.id() : 0;
    return true;
}
} // namespace net
#endif
