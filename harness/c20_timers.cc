// C20: timers fire once, not early, never after they were erased; histories from several threads and callbacks.
#include "pbt.h"
#include <atomic>
#include <memory>
#include <mutex>
#include <thread>
#include <sofa/pbrpc/common.h>
#include <sofa/pbrpc/timeout_manager.h>
using namespace sofa::pbrpc;
using namespace pbt;

static std::atomic<int> g_live(0);       // bound argument copies alive
struct Tok {
    Tok() { ++g_live; }
    Tok(const Tok&) { ++g_live; }
    ~Tok() { --g_live; }
};
struct World;
struct Timer {
    World* w;
    int idx;
    bool repeating;
    int64 interval;                      // ms
    double t_before, t_after;            // around add
    std::atomic<uint64_t> id;
    std::atomic<int> timeouts, erased, cleared;
    std::atomic<double> first, last;     // times of TIMEOUTED runs
    std::atomic<double> min_gap;
    std::atomic<double> erase_returned;  // when a successful erase returned, on the timer thread or not
    std::atomic<bool> erased_on_timer_thread;
    std::atomic<double> last_start;      // start of the last TIMEOUTED run
    std::atomic<bool> erase_refused;     // an erase after its add reported that it does not exist
    std::atomic<bool> late_run;          // ran after an erase on the timer thread had returned
    // what its callback does when it first times out
    int act;                             // 0 nothing 1 erase self 2 erase other 3 add new 4 sleep 5 clear
    int arg;
    Timer() : id(0), timeouts(0), erased(0), cleared(0), first(0), last(0), min_gap(1e9), erase_returned(0), erased_on_timer_thread(false), last_start(0), erase_refused(false), late_run(false), act(0), arg(0) {}
};
struct World {
    TimeoutManager* tm;
    std::mutex mu;                       // guards timers
    std::vector<std::unique_ptr<Timer>> timers;
    std::atomic<int> bad_type;
    std::atomic<int> wrong_id;
    std::atomic<int> clears;
    std::atomic<bool> open;
    World() : bad_type(0), wrong_id(0), clears(0), open(true) {}
};
static thread_local bool t_timer_thread = false;
static void on_timer(Timer* t, Tok, TimeoutManager::Id id, TimeoutManager::Type type);

static Timer* add_timer(World* w, bool repeating, int64 interval, int act, int arg) {
    Timer* t = new Timer();
    t->w = w;
    t->repeating = repeating;
    t->interval = interval;
    t->act = act;
    t->arg = arg;
    TimeoutManager::Id id;
    {
        std::lock_guard<std::mutex> l(w->mu);
        t->idx = w->timers.size();
        w->timers.emplace_back(t);
    }
    t->t_before = now_s();
    if (repeating) id = w->tm->add_repeating(interval, NewPermanentExtClosure(&on_timer, t, Tok()));
    else id = w->tm->add(interval, NewExtClosure(&on_timer, t, Tok()));
    t->t_after = now_s();
    uint64_t was = t->id.exchange(id);
    if (was != 0 && was != id) ++w->wrong_id;
    return t;
}
static Timer* get_timer(World* w, int i) {
    std::lock_guard<std::mutex> l(w->mu);
    if (w->timers.empty()) return NULL;
    return w->timers[i % w->timers.size()].get();
}
static bool erase_timer(Timer* t) {
    uint64_t id = t->id.load();
    if (id == 0) return false;           // its add has not returned
    int before = t->erased.load();
    bool ok = t->w->tm->erase(id);
    if (ok) {
        if (t->erased.load() != before + 1 || before != 0) t->w->bad_type += 100;   // the callback must have run by now, once
        t->erased_on_timer_thread = t_timer_thread;
        t->erase_returned = now_s();
    } else t->erase_refused = true;
    return ok;
}
static void on_timer(Timer* t, Tok, TimeoutManager::Id id, TimeoutManager::Type type) {
    double now = now_s();
    World* w = t->w;
    uint64_t known = t->id.load();
    if (known != 0 && known != id) ++w->wrong_id;
    if (known == 0) { uint64_t z = 0; t->id.compare_exchange_strong(z, id); }
    if (type == TimeoutManager::TIMEOUTED) {
        t_timer_thread = true;
        double er = t->erase_returned.load();
        if (er != 0 && t->erased_on_timer_thread.load()) t->late_run = true;
        if (t->timeouts == 0) t->first = now;
        else { double g = now - t->last.load(); if (g < t->min_gap.load()) t->min_gap = g; }
        t->last = now;
        bool first = ++t->timeouts == 1;
        if (first && w->open) {
            switch (t->act) {
            case 1: erase_timer(t); break;
            case 2: { Timer* o = get_timer(w, t->arg); if (o) erase_timer(o); break; }
            case 3: add_timer(w, t->arg % 3 == 0, t->arg % 40, 0, 0); break;
            case 4: usleep(1000 * (t->arg % 60)); break;
            case 5: ++w->clears; w->tm->clear(); break;
            default: break;
            }
        }
    } else if (type == TimeoutManager::ERASED) ++t->erased;
    else if (type == TimeoutManager::CLEARED) ++t->cleared;
    else ++w->bad_type;
}
struct Op { int kind; int a; int b; int act; int arg; };

static std::vector<Op> gen_ops(Src& s, int n, bool clears, Ctx& c, const char* who) {
    std::vector<Op> v;
    std::string d;
    for (int i = 0; i < n; ++i) {
        Op o;
        o.kind = s.weighted({6, 3, 4, 3, clears ? 1 : 0});
        o.a = o.b = o.act = o.arg = 0;
        switch (o.kind) {
        case 0: o.a = s.chance(30) ? (int)s.draw(3) : (int)s.draw(70); break;
        case 1: o.a = (int)s.draw(30); break;
        case 2: o.a = (int)s.draw(20); break;
        case 3: o.a = (int)s.draw(25); break;
        default: break;
        }
        if (o.kind <= 1 && s.chance(45)) { o.act = 1 + s.weighted({3, 3, 3, 2, clears ? 1 : 0}); o.arg = (int)s.draw(60); }
        static const char* nm[] = {"add", "rep", "erase", "sleep", "clear"};
        d += fmt("%s%d%s ", nm[o.kind], o.a, o.act ? fmt("/%d:%d", o.act, o.arg).c_str() : "");
        v.push_back(o);
    }
    c.note(fmt("%s: %s", who, d.c_str()));
    return v;
}
static void run_ops(World* w, const std::vector<Op>& ops) {
    for (const Op& o : ops) {
        switch (o.kind) {
        case 0: add_timer(w, false, o.a, o.act, o.arg); break;
        case 1: add_timer(w, true, o.a, o.act, o.arg); break;
        case 2: { Timer* t = get_timer(w, o.a); if (t) erase_timer(t); break; }
        case 3: usleep(1000 * o.a); break;
        default: ++w->clears; w->tm->clear();
        }
    }
}
static void history(Src& s, Ctx& c) {
    int live0 = g_live.load();
    int nthreads = s.weighted({4, 3, 2}) ;
    bool clears = s.chance(30);
    std::vector<std::vector<Op>> ops;
    for (int i = 0; i <= nthreads; ++i) ops.push_back(gen_ops(s, 1 + (int)s.draw(nthreads ? 10 : 16), clears, c, fmt("t%d", i).c_str()));
    int end = s.weighted({3, 2, 2});     // 0 wait for the one-shots, 1 destroy at once, 2 clear then destroy
    World w;
    w.tm = new TimeoutManager();
    {
        std::vector<std::thread> th;
        for (int i = 1; i <= nthreads; ++i) th.emplace_back(run_ops, &w, ops[i]);
        run_ops(&w, ops[0]);
        for (auto& t : th) t.join();
    }
    size_t waited = 0;
    if (end == 0) {
        double limit = now_s() + 25;
        while (true) {
            bool all = true;
            {
                std::lock_guard<std::mutex> l(w.mu);
                waited = w.timers.size();
                for (auto& t : w.timers) if (!t->repeating && t->timeouts + t->erased + t->cleared == 0) all = false;
                for (auto& t : w.timers) if (t->repeating && t->timeouts == 0 && t->erased + t->cleared == 0) all = false;
            }
            if (all) break;
            PBT_CHECK(now_s() < limit, "timers of at most 70 ms did not fire within 25 s");
            usleep(2000);
        }
    }
    w.open = false;
    if (end == 2) w.tm->clear();
    delete w.tm;
    double t_end = now_s();
    int fired = 0, erased = 0, cleared = 0, reps = 0;
    PBT_CHECK(w.bad_type == 0, "wrong callback type or erase did not run the callback once (%d)", w.bad_type.load());
    PBT_CHECK(w.wrong_id == 0, "callback got another id than the one that add returned");
    std::set<uint64_t> ids;
    for (auto& tp : w.timers) {
        Timer& t = *tp;
        int total = t.timeouts + t.erased + t.cleared;
        PBT_CHECK(ids.insert(t.id).second, "id %llu given twice", (unsigned long long)t.id.load());
        if (!t.repeating) {
            PBT_CHECK(total == 1, "one-shot timer %d (%lld ms): timed out %d, erased %d, cleared %d times", t.idx, (long long)t.interval, t.timeouts.load(), t.erased.load(), t.cleared.load());
            if ((size_t)t.idx < waited && w.clears == 0 && t.erased == 0) PBT_CHECK(t.timeouts == 1, "timer %d did not time out", t.idx);
        } else {
            PBT_CHECK(t.erased + t.cleared == 1, "repeating timer %d: erased %d, cleared %d times", t.idx, t.erased.load(), t.cleared.load());
            if (w.clears == 0) PBT_CHECK(!t.erase_refused || t.erased == 1, "erase of the repeating timer %d reported that it does not exist, but it was never erased", t.idx);
            PBT_CHECK(!t.late_run, "repeating timer %d ran after erase had returned", t.idx);
            double life = t_end - t.t_before;
            PBT_CHECK(t.timeouts <= (t.interval ? life * 1000 / t.interval + 2 : 1e9), "repeating timer of %lld ms ran %d times in %.0f ms", (long long)t.interval, t.timeouts.load(), life * 1000);
            if (t.timeouts > 1) ++reps;
        }
        if (t.timeouts) PBT_CHECK(t.first - t.t_before > t.interval * 1e-3 - 0.0015, "timer %d of %lld ms fired after %.2f ms", t.idx, (long long)t.interval, 1000 * (t.first - t.t_before));
        fired += t.timeouts > 0;
        erased += t.erased;
        cleared += t.cleared;
    }
    PBT_CHECK(g_live == live0, "%d closures were not freed", g_live.load() - live0);
    if (nthreads) c.label("several threads");
    if (fired) c.label("timed out");
    if (erased) c.label("erased");
    if (cleared) c.label("cleared");
    if (reps) c.label("repeated");
    c.nontrivial(fired + erased + cleared >= 2);
}

int main(int argc, char** argv) {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    Prop p;
    p.id = "C20";
    p.rule = "non-trivial: at least two timers fired, were erased or were cleared; a case is a history of adds, erases, clears and pauses for one to three threads, plus actions inside callbacks";
    p.subs = {{"history", history, 3500, 150000}};
    p.workers = 32;
    p.case_timeout_s = 60;
    p.quick_budget_s = 40;
    return run(argc, argv, p);
}
