// C18: the statistics board against a list of events; concurrent reporters lose nothing.
#include "pbt.h"
#include <atomic>
#include <memory>
#include <thread>
#include "vtest.pb.h"
#include <sofa/pbrpc/common.h>
#include <sofa/pbrpc/pbrpc.h>
#include <sofa/pbrpc/service_pool.h>
using namespace sofa::pbrpc;
using namespace pbt;

struct Svc : vtest::EchoService {};
struct Ev { int slot, method; bool ok; int64 us; };

static int64 gen_period(Src& s) {
    switch (s.weighted({5, 3, 2})) {
    case 0: return (int64)s.draw(12);
    case 1: return (int64)s.pick({59, 60, 61, 300, 599, 600, 601, 602, 603, 1000});
    default: return s.any_i64();
    }
}
static int slots_of(int64 period) { return period <= 1 ? 1 : period >= 600 ? 600 : (int)period; }

static void board(Src& s, Ctx& c) {
    Svc* svc = new Svc();
    const auto* d = svc->GetDescriptor();
    int nm = d->method_count();
    ServiceBoard b(NULL, svc, true);
    std::vector<Ev> ev;
    int slot = 0, n = 1 + s.logsize(60), queries = 0;
    std::string desc;
    for (int i = 0; i < n; ++i) {
        switch (s.weighted({6, 4, 3})) {
        case 0: {
            Ev e{slot, (int)s.draw(nm - 1), s.chance(60), s.chance(20) ? (int64)s.draw((uint64_t)1 << 40) : (int64)s.logsize(1000000)};
            b.ReportProcessBegin(e.method);
            if (s.chance(50)) b.ReportProcessEnd(e.method, e.ok, e.us); else b.Method(e.method)->ReportProcessEnd(e.ok, e.us);
            ev.push_back(e);
            if (desc.size() < 900) desc += fmt("m%d%s%lld ", e.method, e.ok ? "+" : "-", (long long)e.us);
            break;
        }
        case 1: {
            int k = s.weighted({5, 3, 2, 1}) ;
            k = k == 0 ? 1 : k == 1 ? 1 + (int)s.draw(5) : k == 2 ? 590 + (int)s.draw(20) : (int)s.logsize(2000);
            for (int j = 0; j < k; ++j) b.NextSlot();
            slot += k;
            if (desc.size() < 900) desc += fmt("tick*%d ", k);
            break;
        }
        default: {
            int64 period = gen_period(s);
            if (desc.size() < 900) desc += fmt("stat(%lld) ", (long long)period);
            ++queries;
            int sc = slots_of(period);
            sofa::pbrpc::builtin::ServiceStat st;
            b.LatestStats(period, &st);
            PBT_CHECK(st.service_name() == d->full_name(), "service name %s", st.service_name().c_str());
            PBT_CHECK(st.period_seconds() == sc, "period %lld answered as %lld", (long long)period, (long long)st.period_seconds());
            PBT_CHECK(st.method_stats_size() == nm, "%d methods", st.method_stats_size());
            int64 all_ok = 0, all_bad = 0;
            for (int m = 0; m < nm; ++m) {
                int64 ok = 0, bad = 0, okt = 0, badt = 0, okmax = 0, badmax = 0;
                for (auto& e : ev) {
                    if (e.method != m || e.slot >= slot || e.slot < slot - sc) continue;
                    if (e.ok) { ++ok; okt += e.us; okmax = std::max(okmax, e.us); } else { ++bad; badt += e.us; badmax = std::max(badmax, e.us); }
                }
                all_ok += ok;
                all_bad += bad;
                const auto& ms = st.method_stats(m);
                PBT_CHECK(ms.method_name() == d->method(m)->full_name(), "method name %s", ms.method_name().c_str());
                PBT_CHECK(ms.succeed_count() == ok && ms.failed_count() == bad, "method %d over %d s: %lld succeeded and %lld failed reported, %lld and %lld happened", m, sc, (long long)ms.succeed_count(), (long long)ms.failed_count(), (long long)ok, (long long)bad);
                PBT_CHECK(ms.succeed_max_time_us() == okmax && ms.failed_max_time_us() == badmax, "maximum times %lld %lld, expected %lld %lld", (long long)ms.succeed_max_time_us(), (long long)ms.failed_max_time_us(), (long long)okmax, (long long)badmax);
                double a1 = ok ? (double)okt / ok : 0, a2 = bad ? (double)badt / bad : 0;
                PBT_CHECK(fabs(ms.succeed_avg_time_us() - a1) <= 1e-5 * a1 + 1e-9 && fabs(ms.failed_avg_time_us() - a2) <= 1e-5 * a2 + 1e-9, "average times %g %g, expected %g %g", ms.succeed_avg_time_us(), ms.failed_avg_time_us(), a1, a2);
            }
            PBT_CHECK(st.succeed_count() == all_ok && st.failed_count() == all_bad, "service totals %lld %lld, methods add up to %lld %lld", (long long)st.succeed_count(), (long long)st.failed_count(), (long long)all_ok, (long long)all_bad);
        }
        }
    }
    c.note(desc);
    if (slot > 602) c.label("ring wrapped");
    c.nontrivial(queries && ev.size() >= 2 && slot);
}

static void race(Src& s, Ctx& c) {
    int n = 2 + s.draw(4), k = 1 + s.logsize(3000), ticks = s.draw(200);
    uint64_t seed = s.seed();
    bool sleepy = s.chance(30);
    c.note(fmt("%d reporters of %d calls, %d ticks", n, k, ticks));
    Svc* svc = new Svc();
    ServiceBoard b(NULL, svc, true);
    std::atomic<int> go(0), running(n);
    std::atomic<long> over(0);
    int64 want[2] = {0, 0}, sum[2] = {0, 0}, mx[2] = {0, 0};
    std::vector<std::thread> th;
    for (int t = 0; t < n; ++t) {
        uint64_t x = mix(seed + t);
        for (int i = 0; i < k; ++i) { x = mix(x); int ok = (x >> 8) % 3 != 0; int64 us = (x >> 16) % 100000; ++want[ok]; sum[ok] += us; mx[ok] = std::max(mx[ok], us); }
        th.emplace_back([&, t] {
            while (!go) sched_yield();
            uint64_t x = mix(seed + t);
            for (int i = 0; i < k; ++i) {
                x = mix(x);
                b.ReportProcessBegin(1);
                b.ReportProcessEnd(1, (x >> 8) % 3 != 0, (x >> 16) % 100000);
                if (sleepy && i % 64 == 0) sched_yield();
            }
            --running;
        });
    }
    std::thread ticker([&] { while (!go) sched_yield(); for (int i = 0; i < ticks; ++i) { b.NextSlot(); for (volatile int j = 0; j < 300; ++j) {} if (i % 8 == 0) sched_yield(); } });
    std::thread reader([&] { while (!go) sched_yield(); do { StatSlot o; b.LatestStats(1, 600, &o); if (o.succeed_count > want[1] || o.failed_count > want[0] || o.succeed_max_process_time > mx[1]) ++over; sched_yield(); } while (running > 0); });
    go = 1;
    for (auto& t : th) t.join();
    ticker.join();
    reader.join();
    b.NextSlot();
    StatSlot o;
    b.LatestStats(1, 600, &o);
    PBT_CHECK(over == 0, "more calls reported than happened");
    PBT_CHECK(o.succeed_count == want[1] && o.failed_count == want[0], "%d threads reported %lld successes and %lld failures, %lld and %lld are counted", n, (long long)want[1], (long long)want[0], (long long)o.succeed_count, (long long)o.failed_count);
    PBT_CHECK(o.succeed_process_time == sum[1] && o.failed_process_time == sum[0], "times add up to %lld and %lld, %lld and %lld are counted", (long long)sum[1], (long long)sum[0], (long long)o.succeed_process_time, (long long)o.failed_process_time);
    PBT_CHECK(o.succeed_max_process_time == mx[1] && o.failed_max_process_time == mx[0], "maximum time lost");
    c.nontrivial(k >= 20);
}

int main(int argc, char** argv) {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    Prop p;
    p.id = "C18";
    p.rule = "non-trivial: two events, a tick and a query (board); 20 calls per thread (race)";
    p.subs = {{"board", board, 60000, 1500000}, {"race", race, 3000, 200000}};
    return run(argc, argv, p);
}
