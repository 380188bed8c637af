// C22: closures of every supported shape call their target with the bound arguments and free themselves.
#include "pbt.h"
#include <utility>
#include <tuple>
#include <sofa/pbrpc/common.h>
#include <sofa/pbrpc/closure.h>
#include <sofa/pbrpc/ext_closure.h>
#include <sofa/pbrpc/smart_ptr/shared_ptr.hpp>
#include <sofa/pbrpc/smart_ptr/enable_shared_from_this.hpp>
using namespace pbt;
namespace sp = sofa::pbrpc;

static int g_args = 0;                  // arguments alive
static int g_objs = 0;                  // objects alive
struct A {
    long v;
    long* heap;                         // AddressSanitizer sees use of a dead argument
    explicit A(long x = 0) : v(x), heap(new long(~x)) { ++g_args; }
    A(const A& o) : v(o.v), heap(new long(*o.heap)) { ++g_args; }
    A& operator=(const A& o) { v = o.v; *heap = *o.heap; return *this; }
    ~A() { --g_args; delete heap; heap = NULL; }
    long get() const { return *heap == ~v ? v : -999999; }
};
static std::vector<long> g_seen;        // what the target saw in its last run
static int g_runs = 0;
static bool g_throw = false;
static bool g_dead = false;             // a method ran on a dead object
struct Thrown {};

// argument kinds by position
template <int K> struct Kind;
template <> struct Kind<0> { typedef A T; static T mk(long v) { return A(v); } };
template <> struct Kind<1> { typedef const A& T; };
template <> struct Kind<2> { typedef A& T; };
template <> struct Kind<3> { typedef long T; };
template <int I> struct Pos { typedef typename Kind<(I * 7 + I / 4) % 4>::T T; };
template <int I> struct Post { typedef typename Kind<(I * 3 + 1) % 4>::T T; };

static void see(const A& a) { g_seen.push_back(a.get()); }
static void see(A& a) { g_seen.push_back(a.get()); a = A(a.v + 1000); }
static void see(long v) { g_seen.push_back(v); }
template <class T> struct Seer { static void go(T a) { see(a); } };
template <> struct Seer<A> { static void go(const A& a) { see(a); } };
static void begin_call() { ++g_runs; g_seen.clear(); }
template <class R> struct Ret;
template <> struct Ret<void> { static void make() {} };
template <> struct Ret<long> { static long make() { return 77 + (long)g_seen.size(); } };
template <> struct Ret<A> { static A make() { return A(770 + (long)g_seen.size()); } };

template <class R, class... Args> R target(Args... a) {
    begin_call();
    (Seer<Args>::go(a), ...);
    if (g_throw) throw Thrown();
    return Ret<R>::make();
}
struct Obj {
    int id;
    int* mark;
    explicit Obj(int i) : id(i), mark(new int(i)) { ++g_objs; }
    ~Obj() { --g_objs; delete mark; mark = NULL; }
    template <class R, class... Args> R method(Args... a) {
        begin_call();
        (Seer<Args>::go(a), ...);
        if (mark == NULL || *mark != id) g_dead = true;
        g_seen.push_back(*mark);
        if (g_throw) throw Thrown();
        return Ret<R>::make();
    }
};
struct Derived : Obj { long pad; explicit Derived(int i) : Obj(i), pad(i) {} };

template <class T> static T& as_arg(A& a, long&, typename std::enable_if<!std::is_same<T, long>::value>::type* = 0) { return (T&)a; }

// value of argument list elements as the closure factories take them
template <class T> struct Give { static const A& from(const A& a) { return a; } };
template <> struct Give<A&> { static A& from(A& a) { return a; } };
template <> struct Give<long> { static long from(const A& a) { return a.v; } };
template <class T> struct IsRef { enum { v = 0 }; };
template <> struct IsRef<A&> { enum { v = 1 }; };

struct Plan {
    int runs;               // of a permanent closure
    bool permanent, throws, drop, never;   // never: deleted without a run
    long base;
};
struct Args10 {
    std::vector<A> pre, post;
};
template <class R, class C, class... Q, size_t... J>
static long call(C* c, std::vector<A>& q, std::index_sequence<J...>) {
    if constexpr (std::is_void<R>::value) { c->Run(Give<Q>::from(q[J])...); return -1; }
    else if constexpr (std::is_same<R, long>::value) return c->Run(Give<Q>::from(q[J])...);
    else return c->Run(Give<Q>::from(q[J])...).get();
}
static Plan g_plan;
static int g_id;

template <class R, class... P, class... Q, size_t... I, size_t... J>
static void one(int kind, std::tuple<P...>*, std::tuple<Q...>*, std::index_sequence<I...> pi, std::index_sequence<J...> qi) {
    const Plan& pl = g_plan;
    int args0 = g_args, objs0 = g_objs;
    {
        std::vector<A> pre, post;
        for (size_t i = 0; i < sizeof...(P); ++i) pre.emplace_back(pl.base + (long)i * 10);
        for (size_t i = 0; i < sizeof...(Q); ++i) post.emplace_back(pl.base + 500 + (long)i * 10);
        std::vector<long> want_pre, want_post;
        for (auto& a : pre) want_pre.push_back(a.v);
        typedef sp::ExtClosure<R(Q...)> C;
        C* c = NULL;
        Derived raw(g_id);
        sp::shared_ptr<Derived> shared(new Derived(g_id));
        int before = g_args;
        typedef R (*F)(P..., Q...);
        typedef R (Obj::*M)(P..., Q...);
        F f = &target<R, P..., Q...>;
        M m = &Obj::method<R, P..., Q...>;
        Obj* pr = &raw;
        sp::shared_ptr<Obj> ps = shared;
        if (kind == 0) c = pl.permanent ? sp::NewPermanentExtClosure(f, Give<P>::from(pre[I])...) : sp::NewExtClosure(f, Give<P>::from(pre[I])...);
        if (kind == 1) c = pl.permanent ? sp::NewPermanentExtClosure(pr, m, Give<P>::from(pre[I])...) : sp::NewExtClosure(pr, m, Give<P>::from(pre[I])...);
        if (kind == 2) c = pl.permanent ? sp::NewPermanentExtClosure(ps, m, Give<P>::from(pre[I])...) : sp::NewExtClosure(ps, m, Give<P>::from(pre[I])...);
        ps.reset();
        int stored = 0;
        ((stored += std::is_same<P, long>::value ? 0 : 1), ...);
        PBT_CHECK(g_args == before + stored, "%d argument copies kept by a closure with %d object arguments", g_args - before, stored);
        PBT_CHECK(c->IsSelfDelete() == !pl.permanent, "IsSelfDelete is wrong");
        for (auto& a : pre) a = A(-5);      // the closure has its own copies
        if (kind == 2) PBT_CHECK(shared.use_count() == 2, "closure holds %ld references to the object", shared.use_count() - 1);
        sp::weak_ptr<Derived> weak(shared);
        if (pl.drop) shared.reset();
        if (kind == 2) PBT_CHECK(weak.lock().get() != NULL, "object died though the closure refers to it");
        if (!pl.never) {
            int runs = pl.permanent ? pl.runs : 1;
            std::vector<char> is_ref = {(char)IsRef<P>::v...};
            for (int r = 0; r < runs; ++r) {
                want_post.clear();
                for (auto& a : post) want_post.push_back(a.v);
                g_runs = 0;
                g_throw = pl.throws;
                bool thrown = false;
                long ret = -1;
                try { ret = call<R, C, Q...>(c, post, qi); } catch (const Thrown&) { thrown = true; }
                g_throw = false;
                PBT_CHECK(g_runs == 1, "target ran %d times in one run", g_runs);
                PBT_CHECK(thrown == pl.throws, "exception lost");
                std::vector<long> want = want_pre;
                want.insert(want.end(), want_post.begin(), want_post.end());
                if (kind) want.push_back(g_id);
                PBT_CHECK(g_seen.size() == want.size(), "target saw %zu arguments, %zu expected", g_seen.size(), want.size());
                for (size_t i = 0; i < want.size(); ++i) PBT_CHECK(g_seen[i] == want[i], "target saw %ld as argument %zu (%zu bound before), %ld expected", g_seen[i], i, sizeof...(P), want[i]);
                if (!thrown && !std::is_void<R>::value) PBT_CHECK(ret == (std::is_same<R, long>::value ? 77 : 770) + (long)g_seen.size() - 0, "result %ld", ret);
                // reference arguments: bound ones are the closure's own, others the caller's
                for (size_t i = 0; i < sizeof...(P); ++i) if (is_ref[i]) want_pre[i] += 1000;
                std::vector<char> q_ref = {(char)IsRef<Q>::v...};
                for (size_t i = 0; i < sizeof...(Q); ++i) PBT_CHECK(post[i].v == want_post[i] + (q_ref[i] ? 1000 : 0), "argument %zu given at the run", i);
            }
        }
        if (pl.permanent || pl.never) {
            if (kind == 2) PBT_CHECK(weak.lock().get() != NULL, "object died before its closure");
            delete c;
        }
        PBT_CHECK(g_args == before, "%d argument copies not freed with the closure", g_args - before);
        if (kind == 2) {
            if (pl.drop) PBT_CHECK(weak.expired(), "object not freed with the closure");
            else PBT_CHECK(shared.use_count() == 1, "closure keeps the object");
        }
        PBT_CHECK(!g_dead, "method ran on a dead object");
    }
    PBT_CHECK(g_args == args0 && g_objs == objs0, "leak: %d arguments, %d objects", g_args - args0, g_objs - objs0);
}
template <int P, int Q, class R, size_t... I, size_t... J>
static void combo2(int kind, std::index_sequence<I...> a, std::index_sequence<J...> b) {
    one<R>(kind, (std::tuple<typename Pos<I>::T...>*)NULL, (std::tuple<typename Post<J>::T...>*)NULL, a, b);
}
template <int P, int Q> static void combo(int kind) {
    typedef typename std::conditional<(P + Q) % 3 == 0, long, typename std::conditional<(P + Q) % 3 == 1, void, A>::type>::type R;
    combo2<P, Q, R>(kind, std::make_index_sequence<P>(), std::make_index_sequence<Q>());
}
typedef void (*Fn)(int);
template <size_t... K> static std::vector<Fn> table(std::index_sequence<K...>) { return {&combo<K / 11, K % 11>...}; }
static const std::vector<Fn>& fns() { static std::vector<Fn> t = table(std::make_index_sequence<121>()); return t; }

static void gen_plan(Src& s, Ctx& c, int kind, int p, int q) {
    g_plan.permanent = s.chance(50);
    g_plan.runs = s.draw(3);
    g_plan.throws = s.chance(15);
    g_plan.drop = s.chance(50);
    g_plan.never = s.chance(12);
    g_plan.base = (long)s.draw(100000);
    g_id = 1 + s.draw(1000);
    g_throw = false;
    g_dead = false;
    static const char* kn[] = {"function", "method", "method of a shared object"};
    c.note(fmt("%s, %d bound, %d given, %s%s%s%s", kn[kind], p, q, g_plan.permanent ? fmt("permanent x%d", g_plan.runs).c_str() : "one-shot", g_plan.throws ? " throwing" : "", g_plan.drop ? " object dropped" : "", g_plan.never ? " never run" : ""));
    c.label(kn[kind]);
    c.nontrivial(p + q >= 1 && (!g_plan.never) && (!g_plan.permanent || g_plan.runs));
}
static void ext(Src& s, Ctx& c) {
    int kind = s.draw(2), p = s.draw(10), q = s.draw(10);
    gen_plan(s, c, kind, p, q);
    fns()[p * 11 + q](kind);
}

// plain closures
template <class... P, size_t... I>
static void plain_one(int kind, std::tuple<P...>*, std::index_sequence<I...>) {
    const Plan& pl = g_plan;
    int args0 = g_args, objs0 = g_objs;
    {
        std::vector<A> pre;
        std::vector<long> want;
        for (size_t i = 0; i < sizeof...(P); ++i) { pre.emplace_back(pl.base + (long)i * 10); want.push_back(pl.base + (long)i * 10); }
        Derived raw(g_id);
        sp::shared_ptr<Derived> shared(new Derived(g_id));
        Obj* pr = &raw;
        sp::shared_ptr<Obj> ps = shared;
        void (*f)(P...) = &target<void, P...>;
        void (Obj::*m)(P...) = &Obj::method<void, P...>;
        int before = g_args;
        google::protobuf::Closure* c = NULL;
        sp::ClosureBase* cb = NULL;
        if (kind == 0) cb = pl.permanent ? sp::NewPermanentClosure(f, Give<P>::from(pre[I])...) : sp::NewClosure(f, Give<P>::from(pre[I])...);
        if (kind == 1) cb = pl.permanent ? sp::NewPermanentClosure(pr, m, Give<P>::from(pre[I])...) : sp::NewClosure(pr, m, Give<P>::from(pre[I])...);
        if (kind == 2) cb = pl.permanent ? sp::NewPermanentClosure(ps, m, Give<P>::from(pre[I])...) : sp::NewClosure(ps, m, Give<P>::from(pre[I])...);
        c = cb;
        ps.reset();
        int stored = 0;
        ((stored += std::is_same<P, long>::value ? 0 : 1), ...);
        PBT_CHECK(g_args == before + stored, "%d argument copies kept by a closure with %d object arguments", g_args - before, stored);
        PBT_CHECK(cb->IsSelfDelete() == !pl.permanent, "IsSelfDelete is wrong");
        for (auto& a : pre) a = A(-5);
        sp::weak_ptr<Derived> weak(shared);
        if (pl.drop) shared.reset();
        if (kind == 2) PBT_CHECK(weak.lock().get() != NULL, "object died though the closure refers to it");
        if (!pl.never) {
            std::vector<char> is_ref = {(char)IsRef<P>::v...};
            for (int r = 0; r < (pl.permanent ? pl.runs : 1); ++r) {
                g_runs = 0;
                g_throw = pl.throws;
                bool thrown = false;
                try { c->Run(); } catch (const Thrown&) { thrown = true; }
                g_throw = false;
                PBT_CHECK(g_runs == 1, "target ran %d times in one run", g_runs);
                PBT_CHECK(thrown == pl.throws, "exception lost");
                std::vector<long> w = want;
                if (kind) w.push_back(g_id);
                PBT_CHECK(g_seen == w, "closure of %zu arguments: wrong arguments at run %d", sizeof...(P), r);
                for (size_t i = 0; i < sizeof...(P); ++i) if (is_ref[i]) want[i] += 1000;
            }
        }
        if (pl.permanent || pl.never) delete c;
        PBT_CHECK(g_args == before, "%d argument copies not freed with the closure", g_args - before);
        if (kind == 2 && pl.drop) PBT_CHECK(weak.expired(), "object not freed with the closure");
        if (kind == 2 && !pl.drop) PBT_CHECK(shared.use_count() == 1, "closure keeps the object");
        PBT_CHECK(!g_dead, "method ran on a dead object");
    }
    PBT_CHECK(g_args == args0 && g_objs == objs0, "leak: %d arguments, %d objects", g_args - args0, g_objs - objs0);
}
template <size_t... I> static void plain_types(int kind, std::index_sequence<I...> i) { plain_one(kind, (std::tuple<typename Pos<I>::T...>*)NULL, i); }
template <size_t... K> static std::vector<Fn> plain_table(std::index_sequence<K...>) { return {[](int kind) { plain_types(kind, std::make_index_sequence<K>()); }...}; }
static void plain(Src& s, Ctx& c) {
    static std::vector<Fn> t = plain_table(std::make_index_sequence<11>());
    int kind = s.draw(2), p = s.draw(10);
    gen_plan(s, c, kind, p, 0);
    t[p](kind);
}

int main(int argc, char** argv) {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    Prop p;
    p.id = "C22";
    p.rule = "non-trivial: at least one argument and at least one run; a case is a target kind, the numbers of arguments bound and given, and a use of the closure";
    p.subs = {{"ext", ext, 300000, 6000000}, {"plain", plain, 100000, 2000000}};
    return run(argc, argv, p);
}
