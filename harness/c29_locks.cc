// LINK: -Wl,--wrap=pthread_cond_wait -Wl,--wrap=pthread_cond_timedwait
// C29: locks exclude, conditions and events lose no wake-up and wait long enough, counters lose no update.
#include "pbt.h"
#include <pthread.h>
#include <atomic>
#include <memory>
#include <thread>
#include <sofa/pbrpc/common.h>
#include <sofa/pbrpc/atomic.h>
#include <sofa/pbrpc/counter.h>
#include <sofa/pbrpc/locks.h>
#include <sofa/pbrpc/wait_event.h>
using namespace sofa::pbrpc;
using namespace pbt;

// The system may wake a waiter without a signal: do so now and then.
static std::atomic<unsigned> g_spurious(0);       // one wait in that many, 0 never
static std::atomic<unsigned> g_waits(0);
static bool spurious() { unsigned m = g_spurious; return m && g_waits++ % m == 0; }
extern "C" int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
extern "C" int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!spurious()) return __real_pthread_cond_wait(c, m);
    pthread_mutex_unlock(m);
    sched_yield();
    pthread_mutex_lock(m);
    return 0;
}
extern "C" int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const timespec*);
extern "C" int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
    if (!spurious()) return __real_pthread_cond_timedwait(c, m, t);
    pthread_mutex_unlock(m);
    sched_yield();
    pthread_mutex_lock(m);
    return 0;
}

static void pause(int k) {
    switch (k) {
    case 0: break;
    case 1: for (volatile int i = 0; i < 40; ++i) {} break;
    case 2: sched_yield(); break;
    default: usleep(k * 10);
    }
}
// Runs bodies in threads; a body that throws or never ends is reported by the engine's time limit.
template <class F> static void run_threads(int n, F f) {
    std::vector<std::thread> th;
    std::atomic<int> ready(0);
    for (int i = 0; i < n; ++i) th.emplace_back([&, i] { ++ready; while (ready < n) sched_yield(); f(i); });
    for (auto& t : th) t.join();
}

// ---- exclusive locks
struct Shared {
    volatile long a, b;
    volatile int owner;
    std::atomic<long> conflicts;
    long done;
    Shared() : a(0), b(0), owner(0), conflicts(0), done(0) {}
    void enter(int me, int p) {
        if (owner != 0 || a != b) ++conflicts;
        owner = me;
        long x = a;
        a = x + 1;
        pause(p);
        if (owner != me || a != x + 1) ++conflicts;
        b = b + 1;
        owner = 0;
    }
};
struct LockOp { int how, in, out; };
static bool try_it(SpinLock& l) { return l.try_lock(); }
template <class L> static bool try_it(L& l) { l.lock(); return true; }
template <class L> static void exclusive_of(const std::vector<std::vector<LockOp>>& ops, Ctx& c) {
    L* lock = new L();
    Shared sh;
    std::atomic<long> entered(0);
    run_threads(ops.size(), [&](int i) {
        for (const LockOp& o : ops[i]) {
            switch (o.how) {
            case 0: lock->lock(); sh.enter(i + 1, o.in); lock->unlock(); ++entered; break;
            case 1: { ScopedLocker<L> g(*lock); sh.enter(i + 1, o.in); ++entered; break; }
            case 2: { ScopedLocker<L> g(lock); sh.enter(i + 1, o.in); ++entered; break; }
            default: if (try_it(*lock)) { sh.enter(i + 1, o.in); lock->unlock(); ++entered; }
            }
            pause(o.out);
        }
    });
    PBT_CHECK(sh.conflicts == 0, "two threads held the lock at once");
    PBT_CHECK(sh.a == entered && sh.b == entered, "%ld entries, counted %ld and %ld", entered.load(), sh.a, sh.b);
    delete lock;
}
static void exclusive(Src& s, Ctx& c) {
    int type = s.draw(3), n = 2 + s.draw(4);
    std::vector<std::vector<LockOp>> ops(n);
    size_t total = 0;
    for (auto& v : ops) {
        int k = 1 + s.logsize(25);
        for (int i = 0; i < k; ++i) v.push_back(LockOp{(int)s.draw(3), s.weighted({4, 3, 3, 1}), s.weighted({5, 2, 2, 1})});
        total += k;
    }
    static const char* nm[] = {"MutexLock", "SpinLock", "RWLock", "FastLock"};
    c.note(fmt("%s, %d threads, %zu operations", nm[type], n, total));
    c.label(nm[type]);
    switch (type) {
    case 0: exclusive_of<MutexLock>(ops, c); break;
    case 1: exclusive_of<SpinLock>(ops, c); break;
    case 2: exclusive_of<RWLock>(ops, c); break;
    default: exclusive_of<FastLock>(ops, c);
    }
    c.nontrivial(total >= 6);
}
static void trylock(Src& s, Ctx& c) {
    // a held spin lock refuses, a free one accepts
    SpinLock l;
    bool held = false;
    int n = 2 + s.draw(20);
    for (int i = 0; i < n; ++i) {
        int op = s.draw(2);
        if (op == 0 && !held) { l.lock(); held = true; }
        else if (op == 1 && held) { l.unlock(); held = false; }
        else if (op == 2) {
            bool got = l.try_lock(), other = false;
            PBT_CHECK(got == !held, "try_lock returned %d on a %s lock", got, held ? "held" : "free");
            held = true;
            if (s.chance(30)) { std::thread t([&] { other = l.try_lock(); }); t.join(); PBT_CHECK(!other, "try_lock took a lock that another thread holds"); }
        }
    }
    c.note(fmt("%d operations", n));
    c.nontrivial(n > 5);
}

// ---- read-write lock
static void readwrite(Src& s, Ctx& c) {
    int n = 2 + s.draw(4);
    struct Op { bool write; int in, out; bool locker; };
    std::vector<std::vector<Op>> ops(n);
    size_t reads = 0, writes = 0;
    for (auto& v : ops) {
        int k = 1 + s.logsize(25), wp = s.draw(100);
        for (int i = 0; i < k; ++i) {
            bool w = s.chance(wp);
            v.push_back(Op{w, s.weighted({4, 3, 3, 1}), s.weighted({5, 2, 2, 1}), s.chance(50)});
            ++(w ? writes : reads);
        }
    }
    c.note(fmt("%d threads, %zu reads, %zu writes", n, reads, writes));
    RWLock lock;
    volatile long a = 0, b = 0;
    std::atomic<int> readers(0), writers(0);
    std::atomic<long> bad(0), together(0);
    auto rd = [&](int p) {
        if (++readers > 1) ++together;
        long x = a;
        if (writers != 0) ++bad;
        pause(p);
        if (a != x || b != x || writers != 0) ++bad;
        --readers;
    };
    auto wr = [&](int p) {
        if (++writers != 1 || readers != 0) ++bad;
        a = a + 1;
        pause(p);
        b = b + 1;
        if (writers != 1 || readers != 0 || a != b) ++bad;
        --writers;
    };
    run_threads(n, [&](int i) {
        for (const Op& o : ops[i]) {
            if (o.write && o.locker) { WriteLocker g(&lock); wr(o.in); }
            else if (o.write) { lock.lock(); wr(o.in); lock.unlock(); }
            else if (o.locker) { ReadLocker g(&lock); rd(o.in); }
            else { lock.lock_shared(); rd(o.in); lock.unlock(); }
            pause(o.out);
        }
    });
    PBT_CHECK(bad == 0, "a writer was inside together with a reader or another writer");
    PBT_CHECK(a == (long)writes && b == (long)writes, "%zu writes, counted %ld", writes, (long)a);
    // all may read at once
    std::atomic<int> in(0);
    std::atomic<int> ok(0);
    run_threads(n, [&](int i) {
        auto meet = [&] { ++in; double limit = now_s() + 25; while (in < n && now_s() < limit) sched_yield(); if (in >= n) ++ok; };
        if (i & 1) { ReadLocker g(&lock); meet(); } else { lock.lock_shared(); meet(); lock.unlock(); }
    });
    PBT_CHECK(ok == n, "only %d of %d readers were let in together", in.load(), n);
    if (together) c.label("readers together");
    c.nontrivial(reads >= 2 && writes >= 2);
}

// ---- condition variable: a bounded queue
static void queue(Src& s, Ctx& c) {
    int np = 1 + s.draw(2), nc = 1 + s.draw(2), cap = 1 + s.draw(3);
    bool bcast = s.chance(40);       // else signal, which needs one condition per direction
    std::vector<int> per(np);
    int total = 0;
    for (auto& p : per) { p = s.logsize(30); total += p; }
    std::vector<int> pp, cp;
    for (int i = 0; i < 8; ++i) { pp.push_back(s.weighted({4, 2, 3, 1})); cp.push_back(s.weighted({4, 2, 3, 1})); }
    int64 timeout = s.pick<int64>({-1, -1, 1, 3, 60000, 3600000, INT64_MAX, INT64_MAX / 1000, (int64)1 << 40});
    g_spurious = s.pick<unsigned>({0, 0, 2, 3, 7});
    c.note(fmt("%d producers, %d consumers, %d items, room %d, %s, wait %lld ms, spurious 1/%u", np, nc, total, cap, bcast ? "broadcast" : "signal", (long long)timeout, g_spurious.load()));
    MutexLock mu;
    ConditionVariable full, empty;
    std::vector<int> q, got(total, 0);
    int taken = 0;
    std::atomic<int> early(0);
    auto wait = [&](ConditionVariable& v) {
        if (timeout < 0) { v.wait(mu); return; }
        double t0 = now_s();
        if (!v.wait(mu, timeout) && now_s() - t0 < (double)timeout * 1e-3 - 0.002) ++early;
    };
    run_threads(np + nc, [&](int i) {
        if (i < np) {
            int base = 0;
            for (int k = 0; k < i; ++k) base += per[k];
            for (int k = 0; k < per[i]; ++k) {
                pause(pp[k % 8]);
                ScopedLocker<MutexLock> g(mu);
                while ((int)q.size() >= cap) wait(full);
                q.push_back(base + k);
                bcast ? empty.broadcast() : empty.signal();
            }
        } else {
            for (int k = 0;; ++k) {
                ScopedLocker<MutexLock> g(mu);
                while (q.empty() && taken < total) wait(empty);
                if (taken >= total) { empty.broadcast(); return; }
                ++got[q.front()];
                q.erase(q.begin());
                if (++taken == total) empty.broadcast();
                bcast ? full.broadcast() : full.signal();
                if (cp[k % 8] == 3) { mu.unlock(); pause(3); mu.lock(); }
            }
        }
    });
    g_spurious = 0;
    for (int i = 0; i < total; ++i) PBT_CHECK(got[i] == 1, "item %d was taken %d times", i, got[i]);
    PBT_CHECK(early == 0, "a wait of %lld ms ended as timed out too early", (long long)timeout);
    c.nontrivial(total >= 4);
}
static void timedwait(Src& s, Ctx& c) {
    int64 ms = s.weighted({4, 2, 1}) == 0 ? (int64)s.draw(30) : s.pick<int64>({-1, INT64_MAX, INT64_MAX / 1000 + 1, (int64)1 << 53, 1000000000LL, 2147483648LL, 4294968LL, 9223372036854LL});
    bool signalled = ms < 0 || ms > 30 || s.chance(30);
    int delay = s.draw(15);
    c.note(fmt("wait of %lld ms%s", (long long)ms, signalled ? fmt(", signal after %d ms", delay).c_str() : ""));
    MutexLock mu;
    ConditionVariable cv;
    bool flag = false;
    std::thread th;
    if (signalled) th = std::thread([&] { usleep(delay * 1000); ScopedLocker<MutexLock> g(mu); flag = true; cv.signal(); });
    bool r, early = false, f;
    double t0;
    {
        ScopedLocker<MutexLock> g(mu);
        t0 = now_s();
        r = true;
        while (!flag && r) r = cv.wait(mu, ms);
        f = flag;
        early = !r && now_s() - t0 < ms * 1e-3 - 0.002;
    }
    if (th.joinable()) th.join();
    PBT_CHECK(!early, "wait of %lld ms timed out after %.2f ms", (long long)ms, 1000 * (now_s() - t0));
    if (!signalled) PBT_CHECK(!r, "wait without a signal did not time out");
    else if (ms < 0 || ms > 30000) PBT_CHECK(f, "wait ended without a signal");
    else PBT_CHECK(r == f || f, "wait reported neither signal nor time-out");
    c.label(signalled ? "signalled" : "timed out");
    c.nontrivial(ms != 0);
}

// ---- one-shot and repeated events
static void events(Src& s, Ctx& c) {
    int n = 1 + s.draw(3), rounds = 1 + s.logsize(40);
    g_spurious = s.pick<unsigned>({0, 2, 3, 5});
    bool stack = s.chance(50);
    std::vector<int> pa;
    for (int i = 0; i < 8; ++i) pa.push_back(s.weighted({4, 2, 3, 1}));
    c.note(fmt("%d pairs, %d rounds%s, spurious 1/%u", n, rounds, stack ? ", fresh event each round" : "", g_spurious.load()));
    std::atomic<long> bad(0), done(0);
    if (stack) {
        // the waiter owns the event and frees it as soon as it is woken, as synchronous calls do
        run_threads(n, [&](int i) {
            for (int k = 0; k < rounds; ++k) {
                WaitEvent* e = new WaitEvent();
                std::atomic<int> signalled(0);
                std::thread t([&, e] { pause(pa[(k + i) % 8]); signalled = 1; e->Signal(); });
                pause(pa[(k + i + 3) % 8]);
                e->Wait();
                if (!signalled) ++bad;
                t.join();
                delete e;
                ++done;
            }
        });
    } else {
        // ping-pong: each Signal lets exactly one Wait through
        std::vector<std::unique_ptr<WaitEvent>> a, b;
        std::vector<long> turn(n, 0);
        for (int i = 0; i < n; ++i) { a.emplace_back(new WaitEvent()); b.emplace_back(new WaitEvent()); }
        run_threads(2 * n, [&](int t) {
            int i = t / 2;
            for (int k = 0; k < rounds; ++k) {
                if (t & 1) {
                    a[i]->Wait();
                    if (turn[i] != 2 * k + 1) ++bad;
                    turn[i] = 2 * k + 2;
                    pause(pa[k % 8]);
                    b[i]->Signal();
                } else {
                    pause(pa[(k + 2) % 8]);
                    turn[i] = 2 * k + 1;
                    a[i]->Signal();
                    b[i]->Wait();
                    if (turn[i] != 2 * k + 2) ++bad;
                    ++done;
                }
            }
        });
    }
    g_spurious = 0;
    PBT_CHECK(bad == 0, "%ld waits returned without their signal", bad.load());
    PBT_CHECK(done == (long)n * rounds, "internal");
    c.nontrivial(rounds >= 2);
}

// ---- atomics
template <class T> static T ref_op(int op, T& v, T arg, T cmp) {
    T old = v;
    switch (op) {
    case 0: v = old + 1; break;
    case 1: v = old - 1; break;
    case 2: v = old + arg; break;
    case 3: v = old - arg; break;
    case 4: if (old == cmp) v = arg; break;
    case 5: v = arg; break;
    }
    return old;
}
static void atomics(Src& s, Ctx& c) {
    // one thread: exact values
    int n = 1 + s.draw(30);
    volatile uint32_t u = (uint32_t)s.any_i64();
    uint32_t mu = u;
    volatile int32_t d = (int32_t)s.any_i64();
    int32_t md = d;
    volatile uint64_t q = (uint64_t)s.any_i64();
    uint64_t mq = q;
    volatile uint32_t fence[2] = {0x5a5a5a5a, 0xa5a5a5a5};
    for (int i = 0; i < n; ++i) {
        uint32_t a = (uint32_t)s.any_i64(), cm = s.chance(50) ? mu : (uint32_t)s.any_i64();
        uint64_t a64 = (uint64_t)s.any_i64();
        switch (s.draw(15)) {
        case 0: atomic_inc(&u); ref_op<uint32_t>(0, mu, 0, 0); break;
        case 1: atomic_dec(&u); ref_op<uint32_t>(1, mu, 0, 0); break;
        case 2: PBT_CHECK(atomic_add_ret_old(&u, a) == ref_op<uint32_t>(2, mu, a, 0), "add"); break;
        case 3: PBT_CHECK(atomic_inc_ret_old(&u) == ref_op<uint32_t>(0, mu, 0, 0), "inc"); break;
        case 4: PBT_CHECK(atomic_dec_ret_old(&u) == ref_op<uint32_t>(1, mu, 0, 0), "dec"); break;
        case 5: PBT_CHECK(atomic_add_ret_old64(&q, a64) == ref_op<uint64_t>(2, mq, a64, 0), "add64"); break;
        case 6: PBT_CHECK(atomic_inc_ret_old64(&q) == ref_op<uint64_t>(0, mq, 0, 0), "inc64"); break;
        case 7: PBT_CHECK(atomic_dec_ret_old64(&q) == ref_op<uint64_t>(1, mq, 0, 0), "dec64"); break;
        case 8: atomic_add(&u, a); ref_op<uint32_t>(2, mu, a, 0); break;
        case 9: atomic_sub(&u, a); ref_op<uint32_t>(3, mu, a, 0); break;
        case 10: PBT_CHECK(atomic_cmpxchg(&u, cm, a) == ref_op<uint32_t>(4, mu, a, cm), "cmpxchg"); break;
        case 11: PBT_CHECK(atomic_swap(&u, a) == ref_op<uint32_t>(5, mu, a, 0), "swap"); break;
        case 12: PBT_CHECK(atomic_comp_swap(&u, a, cm) == ref_op<uint32_t>(4, mu, a, cm), "comp_swap"); break;
        case 13: PBT_CHECK(atomic_add_ret_old(&d, (int32_t)a) == (int32_t)ref_op<uint32_t>(2, (uint32_t&)md, a, 0), "signed add"); break;
        case 14: PBT_CHECK(atomic_swap(&q, a64) == ref_op<uint64_t>(5, mq, a64, 0), "swap64"); break;
        default: PBT_CHECK(atomic_inc_ret_old(&d) == (int32_t)ref_op<uint32_t>(0, (uint32_t&)md, 0, 0), "signed inc");
        }
        PBT_CHECK(u == mu && d == md && q == mq, "an atomic operation left another value than plain arithmetic");
        PBT_CHECK(fence[0] == 0x5a5a5a5a && fence[1] == 0xa5a5a5a5, "an atomic operation wrote beside its value");
    }
    // counters
    uint32_t i32 = (uint32_t)s.any_i64();
    uint64_t i64 = (uint64_t)s.any_i64();
    AtomicCounter c32(i32);
    AtomicCounter64 c64(i64);
    BasicCounter cb(i32);
    for (int i = 0; i < n; ++i) {
        if (s.chance(50)) { ++i32; ++i64; PBT_CHECK(++c32 == i32 && ++c64 == i64 && ++cb == i32, "increment"); }
        else { --i32; --i64; PBT_CHECK(--c32 == i32 && --c64 == i64 && --cb == i32, "decrement"); }
        PBT_CHECK((uint32_t)c32 == i32 && (uint64_t)c64 == i64 && (uint32_t)cb == i32, "counter value");
    }
    c.note(fmt("%d operations", n));
    c.nontrivial(n >= 4);
}
static void race(Src& s, Ctx& c) {
    int n = 2 + s.draw(4), k = 1 + s.logsize(3000);
    uint32_t b32 = s.chance(50) ? 0 : (uint32_t)-1 - (uint32_t)s.draw(2000);
    uint64_t b64 = s.chance(50) ? 0 : ((uint64_t)1 << 32) - s.draw(2000);
    c.note(fmt("%d threads, %d operations each from %u, %llu", n, k, b32, (unsigned long long)b64));
    AtomicCounter c32(b32);
    AtomicCounter64 c64(b64);
    volatile uint32_t u = b32, last = 0, spin = 0, balance = 0;
    volatile uint64_t q = b64;
    volatile uint64_t sum64 = 0;
    long plain = 0;
    std::vector<std::vector<uint64_t>> seen(n), seen64(n), seen32(n);
    run_threads(n, [&](int t) {
        for (int i = 0; i < k; ++i) {
            seen[t].push_back(atomic_inc_ret_old(&u));
            seen64[t].push_back(++c64);
            seen32[t].push_back(++c32);
            atomic_inc_ret_old64(&q);
            atomic_add_ret_old64(&sum64, (uint64_t)0x100000001ull);
            atomic_inc(&balance); atomic_add(&balance, (uint32_t)5); atomic_sub(&balance, (uint32_t)5); atomic_dec(&balance);
            if (i % 16 == 0) {   // a lock made of compare and swap
                while (atomic_cmpxchg(&spin, 0u, 1u) != 0) sched_yield();
                ++plain;
                atomic_swap(&spin, 0u);
            }
        }
    });
    auto check = [&](std::vector<std::vector<uint64_t>>& v, uint64_t base, uint64_t mask, const char* what) {
        std::vector<uint64_t> all;
        for (auto& x : v) {
            for (size_t i = 1; i < x.size(); ++i) PBT_CHECK(((x[i] - base) & mask) > ((x[i - 1] - base) & mask), "%s goes backwards", what);
            for (auto& y : x) all.push_back((y - base) & mask);
        }
        std::sort(all.begin(), all.end());
        for (size_t i = 0; i < all.size(); ++i) PBT_CHECK(all[i] == i, "%s: value %zu given twice or not at all", what, i);
    };
    check(seen, b32, 0xffffffffu, "atomic_inc_ret_old");
    check(seen64, b64 + 1, UINT64_MAX, "AtomicCounter64");
    check(seen32, b32 + 1, 0xffffffffu, "AtomicCounter");
    uint64_t total = (uint64_t)n * k;
    PBT_CHECK(q == b64 + total && (uint64_t)c64 == b64 + total && (uint32_t)c32 == (uint32_t)(b32 + total), "updates were lost");
    PBT_CHECK(sum64 == total * 0x100000001ull, "64-bit additions were lost");
    PBT_CHECK(balance == 0, "additions and subtractions were lost");
    PBT_CHECK(plain == (long)n * ((k + 15) / 16), "compare and swap let two threads in");
    c.nontrivial(k >= 50);
}

int main(int argc, char** argv) {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    Prop p;
    p.id = "C29";
    p.rule = "non-trivial: at least 6 lock operations, 2 reads and 2 writes, 4 queue items, 2 event rounds, 4 atomic operations or 50 racing ones; programs are generated per thread";
    p.subs = {{"exclusive", exclusive, 6000, 400000}, {"trylock", trylock, 4000, 200000}, {"readwrite", readwrite, 5000, 300000}, {"queue", queue, 4000, 300000},
              {"timedwait", timedwait, 2500, 60000}, {"events", events, 3000, 200000}, {"atomics", atomics, 60000, 1000000}, {"race", race, 1500, 60000}};
    p.workers = 8;
    p.case_timeout_s = 60;
    return run(argc, argv, p);
}
