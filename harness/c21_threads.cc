// LINK: -Wl,--wrap=usleep
// C21: thread groups run every task exactly once on their own threads and drain before they stop.
#include "pbt.h"
#include <dirent.h>
#include <pthread.h>
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <sofa/pbrpc/common.h>
#include <sofa/pbrpc/closure.h>
#include <sofa/pbrpc/ext_closure.h>
#include <sofa/pbrpc/io_service_pool.h>
#include <sofa/pbrpc/thread_group.h>
#include <sofa/pbrpc/thread_group_impl.h>
using namespace sofa::pbrpc;
using namespace pbt;

extern "C" int __real_usleep(useconds_t);
// start() polls for its threads every 100 ms: poll faster
extern "C" int __wrap_usleep(useconds_t us) { return __real_usleep(us == 100000 ? 500 : us); }

static int threads_now() {
    DIR* d = opendir("/proc/self/task");
    int n = 0;
    while (dirent* e = readdir(d)) n += e->d_name[0] != '.';
    closedir(d);
    return n;
}
static void wait_threads(int n, const char* when) {
    double limit = now_s() + 20;
    int k;
    while ((k = threads_now()) != n) {
        PBT_CHECK(now_s() < limit, "%d threads %s, %d expected", k, when, n);
        __real_usleep(500);
    }
}

static thread_local int t_in_post = 0;      // this thread is inside a call of post
static thread_local int t_group = -1;       // index given by the init function
static std::atomic<int> g_live(0);
struct Tok {
    Tok() { ++g_live; }
    Tok(const Tok&) { ++g_live; }
    ~Tok() { --g_live; }
};
struct Task {
    std::atomic<int> runs;
    std::atomic<bool> inline_in_post;
    pthread_t by;
    bool done;
    int kind;          // 0 nothing 1 sleep 2 spawn children 3 yield
    int arg;
    int how;           // 0 post Closure 1 dispatch Closure 2 post ExtClosure 3 dispatch ExtClosure
    std::vector<std::unique_ptr<Task>> children;
    Task() : runs(0), inline_in_post(false), done(false), kind(0), arg(0), how(0) {}
};
struct World {
    ThreadGroup* g;
    std::mutex mu;
    std::vector<pthread_t> used;
    std::atomic<int> foreign;
    pthread_t posters[8];
    int nposters;
};
static void run_task(World* w, Task* t, Tok);
static void give(World* w, Task* t) {
    switch (t->how) {
    case 0: ++t_in_post; w->g->post(NewClosure(&run_task, w, t, Tok())); --t_in_post; break;
    case 1: w->g->dispatch(NewClosure(&run_task, w, t, Tok())); break;
    case 2: ++t_in_post; w->g->post(NewExtClosure(&run_task, w, t, Tok())); --t_in_post; break;
    default: w->g->dispatch(NewExtClosure(&run_task, w, t, Tok()));
    }
}
static void run_task(World* w, Task* t, Tok) {
    if (t_in_post) t->inline_in_post = true;
    ++t->runs;
    t->by = pthread_self();
    {
        std::lock_guard<std::mutex> l(w->mu);
        bool seen = false;
        for (auto& u : w->used) if (pthread_equal(u, t->by)) seen = true;
        if (!seen) w->used.push_back(t->by);
    }
    for (int i = 0; i < w->nposters; ++i) if (pthread_equal(w->posters[i], t->by)) ++w->foreign;
    if (t->kind == 1) __real_usleep(t->arg);
    if (t->kind == 3) sched_yield();
    int saved = t_in_post;
    for (auto& c : t->children) { t_in_post = 0; give(w, c.get()); }
    t_in_post = saved;
    t->done = true;
}
static void gen_task(Src& s, Task* t, int depth, int* count) {
    ++*count;
    t->how = s.draw(3);
    t->kind = s.weighted({4, 1, 3, 1});
    if (t->kind == 1) t->arg = s.logsize(2000);
    if (t->kind == 2 && depth < 4) {
        int n = 1 + s.draw(2);
        for (int i = 0; i < n && *count < 300; ++i) {
            t->children.emplace_back(new Task());
            gen_task(s, t->children.back().get(), depth + 1, count);
        }
    }
}
static void check_task(const Task* t, int* n) {
    PBT_CHECK(t->runs == 1, "a task given with %s ran %d times by the time the group was destroyed", t->how == 0 || t->how == 2 ? "post" : "dispatch", t->runs.load());
    PBT_CHECK(t->done, "a task was still running after the group was destroyed");
    PBT_CHECK(!t->inline_in_post, "post ran its task inside the call");
    ++*n;
    for (auto& c : t->children) check_task(c.get(), n);
}
struct Barrier {
    std::mutex mu;
    std::condition_variable cv;
    int want, in;
    std::atomic<int> ok;
};
static void barrier_task(Barrier* b) {
    std::unique_lock<std::mutex> l(b->mu);
    if (++b->in == b->want) b->cv.notify_all();
    if (b->cv.wait_for(l, std::chrono::seconds(25), [b] { return b->in >= b->want; })) ++b->ok;
}
static void groups(Src& s, Ctx& c) {
    int live0 = g_live, th0 = threads_now();
    int n = s.weighted({2, 3, 2, 1, 1, 1}) ;       // requested number of threads
    static const int req[] = {1, 2, 4, 8, 0, -1};
    int want = req[n], size = std::max(want, 1);
    World w;
    w.nposters = 1 + s.draw(3);
    w.foreign = 0;
    std::vector<std::vector<std::unique_ptr<Task>>> lists(w.nposters);
    int count = 0;
    for (auto& l : lists) {
        int k = s.logsize(30);
        for (int i = 0; i < k; ++i) { l.emplace_back(new Task()); gen_task(s, l.back().get(), 0, &count); }
    }
    bool barrier = s.chance(40);
    int when = s.draw(2);          // 0 destroy at once, 1 after a pause, 2 after all ran
    int pause = s.logsize(3000);
    c.note(fmt("%d threads asked, %d posters, %d tasks, end %d%s", want, w.nposters, count, when, barrier ? ", barrier" : ""));
    Barrier b;
    b.want = size;
    b.in = 0;
    b.ok = 0;
    w.g = new ThreadGroup(want);
    PBT_CHECK(w.g->thread_num() == size, "thread_num %d for %d", w.g->thread_num(), want);
    wait_threads(th0 + size, "after the group was made");
    w.posters[0] = pthread_self();
    {
        std::vector<std::thread> th;
        std::atomic<int> go(0);
        for (int i = 1; i < w.nposters; ++i)
            th.emplace_back([&, i] { while (!go) sched_yield(); for (auto& t : lists[i]) give(&w, t.get()); });
        for (int i = 1; i < w.nposters; ++i) w.posters[i] = th[i - 1].native_handle();
        go = 1;
        for (auto& t : lists[0]) give(&w, t.get());
        for (auto& t : th) t.join();
        // handles of threads that have ended may be used again by the library: not after this
    }
    if (barrier) for (int i = 0; i < size; ++i) w.g->post(NewClosure(&barrier_task, &b));
    if (when == 1) __real_usleep(pause);
    if (when == 2) {
        double limit = now_s() + 30;
        while (g_live != live0 || (barrier && b.ok != size)) {
            PBT_CHECK(now_s() < limit, "tasks left to themselves did not all run within 30 s (barrier %d of %d)", b.ok.load(), size);
            __real_usleep(300);
        }
    }
    delete w.g;
    wait_threads(th0, "after the group was destroyed");
    int seen = 0;
    for (auto& l : lists) for (auto& t : l) check_task(t.get(), &seen);
    PBT_CHECK(seen == count, "internal");
    PBT_CHECK(w.foreign == 0, "%d tasks ran on the threads that gave them", w.foreign.load());
    PBT_CHECK((int)w.used.size() <= size, "tasks ran on %zu threads of a group of %d", w.used.size(), size);
    if (barrier) PBT_CHECK(b.ok == size, "a group of %d threads ran only %d tasks at the same time", size, b.in);
    PBT_CHECK(g_live == live0, "%d closures not freed", g_live - live0);
    if (w.used.size() > 1) c.label("several threads used");
    if (barrier) c.label("barrier");
    c.nontrivial(count >= 2 && (w.nposters > 1 || size > 1));
}

struct Life {
    std::mutex mu;
    int fail_at;                       // the init call of this number fails, 0 none
    int inits, dests, bad_order;
    std::vector<pthread_t> who, gone;
    std::atomic<int> tasks, tasks_uninit;
    Life() : fail_at(0), inits(0), dests(0), bad_order(0), tasks(0), tasks_uninit(0) {}
};
static thread_local Life* t_life = NULL;
static bool on_init(Life* l) {
    std::lock_guard<std::mutex> g(l->mu);
    if (t_life) ++l->bad_order;
    t_life = l;
    l->who.push_back(pthread_self());
    return ++l->inits != l->fail_at;
}
static void on_dest(Life* l) {
    std::lock_guard<std::mutex> g(l->mu);
    if (t_life != l) ++l->bad_order;
    t_life = NULL;
    ++l->dests;
}
static void life_task(Life* l) {
    if (t_life != l) ++l->tasks_uninit;
    ++l->tasks;
}
static void starts(Src& s, Ctx& c) {
    int th0 = threads_now();
    Life l;
    int threads = 1 + s.draw(5);
    int pools = s.chance(40) ? 1 + s.draw(3) : 0;
    int total = threads * std::max(pools, 1);
    bool with_init = s.chance(80), with_dest = s.chance(80);
    if (with_init && s.chance(35)) l.fail_at = 1 + s.draw(total - 1);
    int ntasks = s.logsize(60), before = s.chance(30) ? s.draw(5) : 0;
    int twice = s.chance(30);
    c.note(fmt("%d x %d threads, init %d failing at %d, dest %d, %d tasks, %d before", std::max(pools, 1), threads, with_init, l.fail_at, with_dest, ntasks, before));
    std::unique_ptr<ExtClosure<bool()>> init(NewPermanentExtClosure(&on_init, &l));
    std::unique_ptr<ExtClosure<void()>> dest(NewPermanentExtClosure(&on_dest, &l));
    int given = 0;
    bool ok;
    if (!pools) {
        ThreadGroupImpl* g = new ThreadGroupImpl(threads, s.chance(50) ? "x" : "");
        if (with_init) g->set_init_func(init.get());
        if (with_dest) g->set_dest_func(dest.get());
        for (int i = 0; i < before; ++i) { g->post(static_cast<google::protobuf::Closure*>(NewClosure(&life_task, &l))); ++given; }
        ok = g->start();
        PBT_CHECK(ok == (l.fail_at == 0), "start returned %d, init fails at %d", ok, l.fail_at);
        if (ok) {
            if (twice) PBT_CHECK(g->start(), "start of a running group failed");
            wait_threads(th0 + threads, "after start");
            for (int i = 0; i < ntasks; ++i) { if (i & 1) g->post(static_cast<google::protobuf::Closure*>(NewClosure(&life_task, &l))); else g->dispatch(NewExtClosure(&life_task, &l)); ++given; }
            int how = s.draw(1);
            if (how) g->stop();
            if (how) PBT_CHECK(l.tasks == given, "%d of %d tasks ran before stop returned", l.tasks.load(), given);
        } else {
            wait_threads(th0, "after a failed start");
        }
        delete g;
    } else {
        IOServicePool* p = new IOServicePool(pools, threads);
        if (with_init) p->set_init_func(init.get());
        if (with_dest) p->set_dest_func(dest.get());
        ok = p->Run();
        PBT_CHECK(ok == (l.fail_at == 0), "Run returned %d, init fails at %d", ok, l.fail_at);
        if (ok) {
            wait_threads(th0 + total, "after Run");
            std::map<IOService*, int> uses;
            for (int i = 0; i < ntasks; ++i) {
                IOService& io = p->GetIOService();
                ++uses[&io];
                io.post([&l] { life_task(&l); });
                ++given;
            }
            PBT_CHECK((int)uses.size() == std::min(pools, ntasks), "%zu io services used for %d tasks on %d", uses.size(), ntasks, pools);
            for (auto& u : uses) PBT_CHECK(u.second >= ntasks / pools && u.second <= (ntasks + pools - 1) / pools, "an io service got %d of %d tasks, %d services", u.second, ntasks, pools);
        }
        p->Stop();
        delete p;
    }
    wait_threads(th0, "after stop");
    if (ok) {
        PBT_CHECK(l.tasks == given, "%d of %d tasks ran", l.tasks.load(), given);
        if (with_init) PBT_CHECK(l.inits == total, "init ran %d times for %d threads", l.inits, total);
        if (with_dest) PBT_CHECK(l.dests == total, "end function ran %d times for %d threads", l.dests, total);
        if (with_init) PBT_CHECK(l.tasks_uninit == 0, "%d tasks ran on a thread whose init function had not run or after its end function", l.tasks_uninit.load());
    } else {
        PBT_CHECK(l.inits >= l.fail_at && l.inits <= total, "init ran %d times", l.inits);
        if (with_dest) PBT_CHECK(l.dests == l.inits, "init ran %d times, end function %d times", l.inits, l.dests);
        c.label("failed start");
    }
    if (with_init && with_dest) PBT_CHECK(l.bad_order == 0, "init and end functions do not alternate on a thread");
    for (size_t i = 0; i < l.who.size() && !pools; ++i)
        for (size_t j = 0; j < i; ++j) PBT_CHECK(!pthread_equal(l.who[i], l.who[j]) , "init ran twice on one thread");
    if (pools) c.label("pool");
    c.nontrivial(total > 1 && (with_init || with_dest));
}

int main(int argc, char** argv) {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    Prop p;
    p.id = "C21";
    p.rule = "non-trivial: at least two tasks and several threads on one side (groups); several threads with an init or end function (starts)";
    p.subs = {{"groups", groups, 24000, 2000000}, {"starts", starts, 16000, 1200000}};
    p.workers = 16;
    p.case_timeout_s = 90;
    return run(argc, argv, p);
}
