// C30: shared, weak and scoped pointers against a reference count kept by hand.
#include "pbt.h"
#include <pthread.h>
#include <atomic>
#include <memory>
#include <thread>
#include <sofa/pbrpc/common.h>
#include <sofa/pbrpc/smart_ptr/smart_ptr.hpp>
#include <sofa/pbrpc/smart_ptr/owner_less.hpp>
using namespace pbt;
namespace sp = sofa::pbrpc;

static int g_dead[4096];                // destructor runs per object
struct Pad { virtual ~Pad() {} long pad[3]; };
struct Base : sp::enable_shared_from_this<Base> {
    int id;
    int* heap;
    explicit Base(int i) : id(i), heap(new int(i)) {}
    virtual ~Base() { ++g_dead[id]; delete heap; heap = NULL; }
    bool ok() const { return heap && *heap == id; }
};
struct Derived : Pad, Base {
    int extra;
    explicit Derived(int i) : Base(i), extra(i * 3) {}
};
static std::map<int, int> g_deleter_runs;     // by deleter tag
static std::map<int, void*> g_deleter_arg;
static int g_deleters = 0;                    // deleter copies alive
struct Del {
    int tag;
    explicit Del(int t) : tag(t) { ++g_deleters; }
    Del(const Del& o) : tag(o.tag) { ++g_deleters; }
    ~Del() { --g_deleters; }
    void operator()(Base* p) const { ++g_deleter_runs[tag]; g_deleter_arg[tag] = p; delete p; }
};
static long g_allocs = 0;
template <class T> struct Al {
    typedef T value_type; typedef T* pointer; typedef const T* const_pointer; typedef T& reference; typedef const T& const_reference; typedef size_t size_type; typedef ptrdiff_t difference_type;
    template <class U> struct rebind { typedef Al<U> other; };
    Al() {}
    template <class U> Al(const Al<U>&) {}
    T* allocate(size_t n, const void* = 0) { ++g_allocs; return (T*)malloc(n * sizeof(T)); }
    void deallocate(T* p, size_t) { --g_allocs; free(p); }
    template <class... X> void construct(T* p, X&&... x) { new (p) T(std::forward<X>(x)...); }
    void destroy(T* p) { p->~T(); }
};

struct Group { int strong, obj; bool derived; int tag; bool null_obj; void* raw; };
struct Ref { int g; void* p; };            // g 0: empty
struct M {
    std::vector<Group> groups;
    int next_obj, next_tag;
    M() : next_obj(1), next_tag(1) { groups.push_back(Group{0, 0, false, 0, true, NULL}); }
    void set(Ref& r, Ref n) {
        if (n.g) ++groups[n.g].strong;
        if (r.g) --groups[r.g].strong;
        r = n;
    }
    int count(int g) const { return g ? groups[g].strong : 0; }
};
static const int NB = 4, ND = 3, NC = 2, NV = 2, NI = 2, NW = 4, NX = 2;
struct State {
    sp::shared_ptr<Base> sb[NB]; Ref rb[NB];
    sp::shared_ptr<Derived> sd[ND]; Ref rd[ND];
    sp::shared_ptr<const Base> sc[NC]; Ref rc[NC];
    sp::shared_ptr<void> sv[NV]; Ref rv[NV];
    sp::shared_ptr<int> si[NI]; Ref ri[NI];
    sp::weak_ptr<Base> wb[NW]; int gb[NW];
    sp::weak_ptr<Derived> wd[NX]; int gd[NX];
    M m;
    State() {
        for (auto& r : rb) r = Ref{0, 0}; for (auto& r : rd) r = Ref{0, 0}; for (auto& r : rc) r = Ref{0, 0};
        for (auto& r : rv) r = Ref{0, 0}; for (auto& r : ri) r = Ref{0, 0};
        for (auto& g : gb) g = 0; for (auto& g : gd) g = 0;
    }
};
template <class S> static void check_slot(const S& s, const Ref& r, const M& m, const char* what) {
    PBT_CHECK((const void*)s.get() == r.p, "%s: get() is not the pointer of the model", what);
    PBT_CHECK(s.use_count() == m.count(r.g), "%s: use_count %ld, %d owners", what, s.use_count(), m.count(r.g));
    PBT_CHECK((s ? true : false) == (r.p != NULL) && !s == (r.p == NULL), "%s: truth value", what);
    PBT_CHECK(s.unique() == (m.count(r.g) == 1), "%s: unique() is %d with %d owners", what, s.unique(), m.count(r.g));
}
static void check(State& t) {
    M& m = t.m;
    for (size_t g = 1; g < m.groups.size(); ++g) {
        Group& x = m.groups[g];
        if (!x.null_obj) PBT_CHECK(g_dead[x.obj] == (x.strong == 0), "object with %d owners was destroyed %d times", x.strong, g_dead[x.obj]);
        if (x.tag) {
            PBT_CHECK(g_deleter_runs[x.tag] == (x.strong == 0), "deleter of an object with %d owners ran %d times", x.strong, g_deleter_runs[x.tag]);
            if (x.strong == 0) PBT_CHECK(g_deleter_arg[x.tag] == x.raw, "deleter got another pointer");
        }
    }
    for (int i = 0; i < NB; ++i) { check_slot(t.sb[i], t.rb[i], m, "shared_ptr"); if (t.rb[i].p) PBT_CHECK(t.sb[i]->ok() && (*t.sb[i]).id == t.sb[i].get()->id, "object damaged"); }
    for (int i = 0; i < ND; ++i) { check_slot(t.sd[i], t.rd[i], m, "shared_ptr to derived"); if (t.rd[i].p) PBT_CHECK(t.sd[i]->ok() && t.sd[i]->extra == t.sd[i]->id * 3, "derived object damaged"); }
    for (int i = 0; i < NC; ++i) check_slot(t.sc[i], t.rc[i], m, "shared_ptr to const");
    for (int i = 0; i < NV; ++i) check_slot(t.sv[i], t.rv[i], m, "shared_ptr to void");
    for (int i = 0; i < NI; ++i) check_slot(t.si[i], t.ri[i], m, "shared_ptr to a member");
    for (int i = 0; i < NW; ++i) {
        PBT_CHECK(t.wb[i].use_count() == m.count(t.gb[i]), "weak_ptr: use_count %ld, %d owners", t.wb[i].use_count(), m.count(t.gb[i]));
        PBT_CHECK(t.wb[i].expired() == (m.count(t.gb[i]) == 0), "weak_ptr: expired");
    }
    for (int i = 0; i < NX; ++i) {
        PBT_CHECK(t.wd[i].use_count() == m.count(t.gd[i]), "weak_ptr to derived: use_count %ld, %d owners", t.wd[i].use_count(), m.count(t.gd[i]));
        PBT_CHECK(t.wd[i].expired() == (m.count(t.gd[i]) == 0), "weak_ptr: expired");
    }
}
static void* b_of(void* derived) { return derived ? (void*)(Base*)(Derived*)derived : NULL; }

static std::string step(State& t, Src& s) {
    M& m = t.m;
    int op = s.draw(24), i = s.draw(NB - 1), j = s.draw(NB - 1), k = s.draw(ND - 1);
    switch (op) {
    case 0: case 1: {        // a new object
        bool derived = op == 1, nul = s.chance(8);
        int how = s.draw(5), id = m.next_obj++;
        Group g{0, id, derived, 0, nul, NULL};
        Base* b = NULL;
        Derived* d = NULL;
        if (!nul) { if (derived) b = d = new Derived(id); else b = new Base(id); }
        g.raw = b;
        if (how >= 2) g.tag = m.next_tag++;
        Del del(g.tag);
        sp::shared_ptr<Base>& dst = t.sb[i];
        switch (how) {
        case 0: if (derived) dst.reset(d); else dst.reset(b); break;
        case 1: if (derived) dst = sp::shared_ptr<Base>(d); else dst = sp::shared_ptr<Base>(b); break;
        case 2: dst.reset(b, del); break;
        case 3: dst = sp::shared_ptr<Base>(b, del); break;
        case 4: dst = sp::shared_ptr<Base>(b, del, Al<char>()); break;
        default: if (derived) dst.reset(d, del, Al<int>()); else dst.reset(b, del, Al<int>());
        }
        m.groups.push_back(g);
        m.set(t.rb[i], Ref{(int)m.groups.size() - 1, b});
        Del* p = sp::get_deleter<Del>(dst);
        PBT_CHECK((p != NULL) == (g.tag != 0) && (!p || p->tag == g.tag), "get_deleter");
        return fmt("b%d=new %s%s(%d)", i, nul ? "null " : "", derived ? "Derived" : "Base", how);
    }
    case 2: t.sb[i] = t.sb[j]; m.set(t.rb[i], t.rb[j]); return fmt("b%d=b%d", i, j);
    case 3: t.sb[i] = t.sd[k]; m.set(t.rb[i], Ref{t.rd[k].g, b_of(t.rd[k].p)}); return fmt("b%d=d%d", i, k);
    case 4: {                // down-casts
        bool dyn = s.chance(50);
        Ref r = t.rb[j];
        bool is_d = m.groups[r.g].derived || !r.p;
        if (!dyn && !is_d) return "-";
        if (dyn) t.sd[k] = sp::dynamic_pointer_cast<Derived>(t.sb[j]); else t.sd[k] = sp::static_pointer_cast<Derived>(t.sb[j]);
        Ref n;
        if (dyn && (!r.p || !is_d)) n = Ref{0, NULL};
        else n = Ref{r.g, r.p ? (void*)static_cast<Derived*>((Base*)r.p) : NULL};
        m.set(t.rd[k], n);
        return fmt("d%d=%s(b%d)", k, dyn ? "dynamic" : "static", j);
    }
    case 5: { int c = s.draw(NC - 1); t.sc[c] = t.sb[j]; m.set(t.rc[c], t.rb[j]); return fmt("c%d=b%d", c, j); }
    case 6: { int c = s.draw(NC - 1); t.sb[i] = sp::const_pointer_cast<Base>(t.sc[c]); m.set(t.rb[i], t.rc[c]); return fmt("b%d=const_cast(c%d)", i, c); }
    case 7: { int v = s.draw(NV - 1); if (s.chance(50)) { t.sv[v] = t.sb[j]; m.set(t.rv[v], t.rb[j]); return fmt("v%d=b%d", v, j); } t.sv[v] = t.sd[k]; m.set(t.rv[v], t.rd[k]); return fmt("v%d=d%d", v, k); }
    case 8: { if (s.chance(50)) t.sb[i].swap(t.sb[j]); else sp::swap(t.sb[i], t.sb[j]); std::swap(t.rb[i], t.rb[j]); return fmt("swap b%d b%d", i, j); }
    case 9: { t.sb[i].reset(); m.set(t.rb[i], Ref{0, 0}); return fmt("reset b%d", i); }
    case 10: { t.sd[k].reset(); m.set(t.rd[k], Ref{0, 0}); return fmt("reset d%d", k); }
    case 11: {
        switch (s.draw(3)) {
        case 0: t.sc[i % NC].reset(); m.set(t.rc[i % NC], Ref{0, 0}); return fmt("reset c%d", i % NC);
        case 1: t.sv[i % NV].reset(); m.set(t.rv[i % NV], Ref{0, 0}); return fmt("reset v%d", i % NV);
        case 2: t.si[i % NI].reset(); m.set(t.ri[i % NI], Ref{0, 0}); return fmt("reset i%d", i % NI);
        default: t.wb[i].reset(); t.gb[i] = 0; return fmt("reset w%d", i);
        }
    }
    case 12: t.wb[i] = t.sb[j]; t.gb[i] = t.rb[j].g; return fmt("w%d=b%d", i, j);
    case 13: { int x = s.draw(NX - 1); t.wd[x] = t.sd[k]; t.gd[x] = t.rd[k].g; return fmt("x%d=d%d", x, k); }
    case 14: { int x = s.draw(NX - 1); if (s.chance(50)) { t.wb[i] = t.wd[x]; t.gb[i] = t.gd[x]; return fmt("w%d=x%d", i, x); } t.wb[i] = t.wb[j]; t.gb[i] = t.gb[j]; return fmt("w%d=w%d", i, j); }
    case 15: {               // promote
        sp::shared_ptr<Base> p;
        bool alive = m.count(t.gb[j]) > 0, threw = false;
        bool nothrow = s.chance(50);
        if (nothrow) p = t.wb[j].lock();
        else try { p = sp::shared_ptr<Base>(t.wb[j]); } catch (const sp::bad_weak_ptr&) { threw = true; }
        if (!nothrow) PBT_CHECK(threw == !alive, "promotion of a weak_ptr %s", threw ? "threw while the object lives" : "did not throw though the object is gone");
        if (threw) return "-";
        t.sb[i] = p;
        m.set(t.rb[i], alive ? Ref{t.gb[j], m.groups[t.gb[j]].raw} : Ref{0, 0});
        return fmt("b%d=lock w%d", i, j);
    }
    case 16: { int x = s.draw(NX - 1); t.sd[k] = t.wd[x].lock(); bool alive = m.count(t.gd[x]) > 0; void* raw = m.groups[t.gd[x]].raw; m.set(t.rd[k], alive ? Ref{t.gd[x], raw ? (void*)static_cast<Derived*>((Base*)raw) : NULL} : Ref{0, 0}); return fmt("d%d=lock x%d", k, x); }
    case 17: {               // aliasing
        int n = s.draw(NI - 1);
        int* p = t.rb[j].p ? &((Base*)t.rb[j].p)->id : NULL;
        if (s.chance(50)) t.si[n] = sp::shared_ptr<int>(t.sb[j], p); else t.si[n].reset(t.sb[j], p);
        m.set(t.ri[n], Ref{t.rb[j].g, p});
        return fmt("i%d=member of b%d", n, j);
    }
    case 18: if (!t.rb[j].p) return "-"; t.sb[i] = t.sb[j]->shared_from_this(); m.set(t.rb[i], t.rb[j]); return fmt("b%d=b%d->shared_from_this", i, j);
    case 19: if (!t.rd[k].p) return "-"; { sp::shared_ptr<const Base> p = ((const Derived*)t.sd[k].get())->shared_from_this(); t.sc[i % NC] = p; } m.set(t.rc[i % NC], Ref{t.rd[k].g, b_of(t.rd[k].p)}); return fmt("c%d=d%d->shared_from_this const", i % NC, k);
    case 20: t.sb[i] = sp::atomic_load(&t.sb[j]); m.set(t.rb[i], t.rb[j]); return fmt("b%d=atomic_load b%d", i, j);
    case 21: sp::atomic_store(&t.sb[i], t.sb[j]); m.set(t.rb[i], t.rb[j]); return fmt("atomic_store b%d b%d", i, j);
    case 22: { int l = s.draw(NB - 1); if (i == l) return "-"; t.sb[l] = sp::atomic_exchange(&t.sb[i], t.sb[j]); Ref oi = t.rb[i], nj = t.rb[j]; Ref keep = oi; if (keep.g) ++m.groups[keep.g].strong; m.set(t.rb[i], nj); m.set(t.rb[l], keep); if (keep.g) --m.groups[keep.g].strong; return fmt("b%d=atomic_exchange b%d b%d", l, i, j); }
    case 23: {
        int v = s.draw(NB - 1);
        if (v == i) return "-";
        bool eq = t.rb[i].g == t.rb[v].g && t.rb[i].p == t.rb[v].p;
        bool r = sp::atomic_compare_exchange(&t.sb[i], &t.sb[v], t.sb[j]);
        PBT_CHECK(r == eq, "atomic_compare_exchange returned %d", r);
        if (eq) m.set(t.rb[i], t.rb[j]); else m.set(t.rb[v], t.rb[i]);
        return fmt("cas b%d b%d b%d", i, v, j);
    }
    default: {               // comparisons
        Ref a = t.rb[i], b = t.rb[j], d = t.rd[k];
        PBT_CHECK((t.sb[i] == t.sb[j]) == (a.p == b.p) && (t.sb[i] != t.sb[j]) == (a.p != b.p), "comparison for equality");
        PBT_CHECK((t.sb[i] == t.sd[k]) == (a.p == b_of(d.p)), "comparison with derived");
        bool lt = t.sb[i] < t.sb[j], gt = t.sb[j] < t.sb[i];
        PBT_CHECK(!(lt && gt) && (!lt && !gt) == (a.g == b.g), "order of owners");
        bool wl = t.wb[i].owner_before(t.sb[j]), wg = t.sb[j].owner_before(t.wb[i]);
        PBT_CHECK(!(wl && wg) && (!wl && !wg) == (t.gb[i] == b.g), "order of a weak and a shared owner");
        PBT_CHECK((t.wb[i] < t.wb[j] || t.wb[j] < t.wb[i]) == (t.gb[i] != t.gb[j]), "order of weak owners");
        PBT_CHECK(sp::owner_less<sp::shared_ptr<Base> >()(t.sb[i], t.sb[j]) == lt, "owner_less");
        PBT_CHECK(sp::get_pointer(t.sb[i]) == t.sb[i].get() && sp::hash_value(t.sb[i]) == (size_t)t.sb[i].get(), "get_pointer");
        return fmt("compare b%d b%d", i, j);
    }
    }
}
static void history(Src& s, Ctx& c) {
    memset(g_dead, 0, sizeof(g_dead));
    g_deleter_runs.clear();
    g_deleter_arg.clear();
    int del0 = g_deleters;
    long al0 = g_allocs;
    int n = 4 + s.logsize(80);
    size_t groups = 0;
    {
        std::unique_ptr<State> t(new State());
        std::string d;
        for (int i = 0; i < n; ++i) {
            std::string op = step(*t, s);
            if (d.size() < 1500) d += op + " ";
            check(*t);
        }
        c.note(d);
        groups = t->m.groups.size() - 1;
        std::vector<Group> gs = t->m.groups;
        t.reset();
        for (size_t g = 1; g < gs.size(); ++g) {
            if (!gs[g].null_obj) PBT_CHECK(g_dead[gs[g].obj] == 1, "object destroyed %d times at the end", g_dead[gs[g].obj]);
            if (gs[g].tag) PBT_CHECK(g_deleter_runs[gs[g].tag] == 1, "deleter ran %d times", g_deleter_runs[gs[g].tag]);
        }
    }
    PBT_CHECK(g_deleters == del0 && g_allocs == al0, "%d deleters and %ld blocks not freed", g_deleters - del0, g_allocs - al0);
    c.nontrivial(groups >= 2 && n >= 6);
}

// ---- threads
struct Obj {
    std::atomic<int> alive;
    static std::atomic<int> deaths, births;
    Obj() : alive(0x1234) { ++births; }
    ~Obj() { alive = 0; ++deaths; }
};
std::atomic<int> Obj::deaths(0), Obj::births(0);
static void threads(Src& s, Ctx& c) {
    int n = 2 + s.draw(4), rounds = 1 + s.logsize(30), nops = 1 + s.draw(7);
    bool global = s.chance(50);
    uint64_t seed = s.seed();
    c.note(fmt("%d threads, %d objects, %d operations each%s", n, rounds, nops, global ? ", shared slot" : ""));
    Obj::deaths = Obj::births = 0;
    std::atomic<long> bad(0), locked(0), gone(0);
    {
        std::vector<sp::shared_ptr<Obj>> start(n * rounds);
        std::vector<sp::weak_ptr<Obj>> weak(rounds);
        for (int r = 0; r < rounds; ++r) {
            sp::shared_ptr<Obj> o(new Obj());
            weak[r] = o;
            for (int i = 0; i < n; ++i) if (mix(seed + r * 31 + i) % 3 != 0) start[r * n + i] = o;
        }
        sp::shared_ptr<Obj> slot;
        std::vector<std::atomic<int>> gate(rounds);
        for (auto& g : gate) g = 0;
        std::vector<std::thread> th;
        for (int i = 0; i < n; ++i)
            th.emplace_back([&, i] {
                uint64_t x = mix(seed ^ (i + 1) * 77777ull);
                for (int r = 0; r < rounds; ++r) {
                    ++gate[r];
                    for (int w = 0; gate[r] < n && w < 2000; ++w) sched_yield();
                    sp::shared_ptr<Obj> mine;
                    mine.swap(start[r * n + i]);
                    sp::weak_ptr<Obj> w(weak[r]);
                    std::vector<sp::shared_ptr<Obj>> copies;
                    for (int k = 0; k < nops; ++k) {
                        x = mix(x);
                        switch (x % 8) {
                        case 0: copies.push_back(mine); break;
                        case 1: if (!copies.empty()) copies.pop_back(); break;
                        case 2: mine.reset(); break;
                        case 3: case 4: { sp::shared_ptr<Obj> p = w.lock(); if (p) { ++locked; if (p->alive != 0x1234) ++bad; if (x & 64) copies.push_back(p); } else ++gone; break; }
                        case 5: { try { sp::shared_ptr<Obj> p(w); if (p->alive != 0x1234) ++bad; } catch (const sp::bad_weak_ptr&) { ++gone; } break; }
                        case 6: if (global) { if (x & 64) sp::atomic_store(&slot, mine); else { sp::shared_ptr<Obj> p = sp::atomic_load(&slot); if (p && p->alive != 0x1234) ++bad; mine = p ? p : mine; } } break;
                        default: { sp::weak_ptr<Obj> v(w); w.swap(v); if (x & 256) sched_yield(); }
                        }
                        for (auto& p : copies) if (p && p->alive != 0x1234) ++bad;
                        if (mine && mine->alive != 0x1234) ++bad;
                    }
                }
            });
        for (auto& t : th) t.join();
    }
    PBT_CHECK(bad == 0, "an owned object was destroyed");
    PBT_CHECK(Obj::births == rounds && Obj::deaths == rounds, "%d objects, %d destructions", rounds, Obj::deaths.load());
    if (gone) c.label("lock found it gone");
    if (locked) c.label("lock got it");
    c.nontrivial(rounds >= 2);
}

// ---- objects owned more than once, virtual bases
struct NoDel { int* n; void operator()(Base*) const { ++*n; } };
struct Root { long v; Root() : v(0x77) {} virtual ~Root() { v = 0; } };
struct Mid1 : virtual Root { long a; };
struct Mid2 : virtual Root { long b; };
struct Leaf : Mid1, Mid2 { long c; };
static void epochs(Src& s, Ctx& c) {
    memset(g_dead, 0, sizeof(g_dead));
    int n = 1 + s.draw(4), freed = 0;
    Base b(1);
    Derived dv(2);
    for (int i = 0; i < n; ++i) {
        Base* obj = s.chance(50) ? &b : &dv;
        {
            sp::shared_ptr<Base> p;
            if (s.chance(50)) p = sp::shared_ptr<Base>(obj, NoDel{&freed}); else p.reset(obj, NoDel{&freed});
            sp::weak_ptr<Base> w(p);
            int copies = s.draw(3);
            std::vector<sp::shared_ptr<Base>> v;
            for (int k = 0; k < copies; ++k) v.push_back(s.chance(50) ? obj->shared_from_this() : p);
            PBT_CHECK(obj->shared_from_this().get() == obj && obj->shared_from_this() == p, "shared_from_this gives another object in ownership %d", i);
            PBT_CHECK(p.use_count() == 1 + copies, "%ld owners, %d expected", p.use_count(), 1 + copies);
            p.reset();
            PBT_CHECK(freed == i + (copies == 0), "deleter ran %d times in ownership %d", freed, i);
            v.clear();
            PBT_CHECK(w.expired() && freed == i + 1, "deleter ran %d times after ownership %d", freed, i);
        }
        bool threw = false;
        try { obj->shared_from_this(); } catch (const sp::bad_weak_ptr&) { threw = true; }
        PBT_CHECK(threw, "shared_from_this of an object without owner did not throw");
    }
    // conversions of weak pointers must not touch a dead object
    int m = 1 + s.draw(6);
    sp::shared_ptr<Leaf> l(new Leaf());
    sp::weak_ptr<Leaf> wl(l);
    sp::weak_ptr<Mid2> wm;
    sp::weak_ptr<Root> wr;
    bool alive = true;
    std::string d;
    for (int i = 0; i < m; ++i) {
        switch (s.draw(4)) {
        case 0: l.reset(); alive = false; d += "free "; break;
        case 1: wm = wl; d += "m=l "; break;
        case 2: wr = wl; d += "r=l "; break;
        case 3: { sp::weak_ptr<Root> t(wl); wr.swap(t); d += "r(l) "; break; }
        default: { sp::weak_ptr<Mid2> t(wl); sp::weak_ptr<Root> u(t); wr = u; d += "r=m=l "; break; }
        }
        sp::shared_ptr<Root> r = wr.lock();
        if (r) PBT_CHECK(alive && r->v == 0x77 && r.get() == l.get(), "promotion gives a dead or another object");
        PBT_CHECK(wl.expired() == !alive, "expired");
    }
    c.note(fmt("%d ownerships; %s", n, d.c_str()));
    c.nontrivial(n >= 2);
}

// ---- scoped
struct El { static int live; int v; El() : v(0) { ++live; } ~El() { --live; } };
int El::live = 0;
static void scoped(Src& s, Ctx& c) {
    int live0 = El::live, n = 1 + s.logsize(40);
    std::string d;
    {
        sp::scoped_ptr<El> p[3];
        sp::scoped_array<El> a[3];
        El* mp[3] = {0, 0, 0}; El* ma[3] = {0, 0, 0};
        int na[3] = {0, 0, 0};
        for (int i = 0; i < n; ++i) {
            int x = s.draw(2), y = s.draw(2);
            switch (s.draw(5)) {
            case 0: { El* e = new El(); e->v = i; p[x].reset(e); mp[x] = e; d += fmt("p%d=new ", x); break; }
            case 1: p[x].reset(); mp[x] = NULL; d += fmt("p%d.reset ", x); break;
            case 2: { if (s.chance(50)) p[x].swap(p[y]); else sp::swap(p[x], p[y]); std::swap(mp[x], mp[y]); d += fmt("swap p%d p%d ", x, y); break; }
            case 3: { na[x] = s.draw(9); El* e = new El[na[x]]; a[x].reset(e); ma[x] = e; d += fmt("a%d=new[%d] ", x, na[x]); break; }
            case 4: a[x].reset(); ma[x] = NULL; na[x] = 0; d += fmt("a%d.reset ", x); break;
            default: { if (s.chance(50)) a[x].swap(a[y]); else sp::swap(a[x], a[y]); std::swap(ma[x], ma[y]); std::swap(na[x], na[y]); d += fmt("swap a%d a%d ", x, y); }
            }
            int want = live0;
            for (int k = 0; k < 3; ++k) {
                PBT_CHECK(p[k].get() == mp[k] && (p[k] ? true : false) == (mp[k] != NULL) && !p[k] == !mp[k], "scoped_ptr holds another pointer");
                PBT_CHECK(a[k].get() == ma[k] && (a[k] ? true : false) == (ma[k] != NULL), "scoped_array holds another pointer");
                if (mp[k]) PBT_CHECK(&*p[k] == mp[k] && p[k]->v == mp[k]->v, "access");
                for (int e = 0; e < na[k]; ++e) PBT_CHECK(&a[k][e] == ma[k] + e, "element access");
                want += (mp[k] != NULL) + na[k];
            }
            PBT_CHECK(El::live == want, "%d objects alive, %d owned", El::live, want);
        }
    }
    PBT_CHECK(El::live == live0, "scoped pointers leaked %d objects", El::live - live0);
    c.note(d);
    c.nontrivial(n >= 4);
}

int main(int argc, char** argv) {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    Prop p;
    p.id = "C30";
    p.rule = "non-trivial: at least two objects and six operations (history), two objects shared by threads (threads), four operations (scoped)";
    p.subs = {{"history", history, 200000, 5000000}, {"threads", threads, 15000, 500000}, {"epochs", epochs, 60000, 1500000}, {"scoped", scoped, 60000, 1500000}};
    return run(argc, argv, p);
}
