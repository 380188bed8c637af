// Choice-tape property-based testing engine.
//
// A case is a pure function of a tape of bounded integers ("choices").  Random cases record the
// tape in shared memory as they draw, so a case that crashes or hangs its worker process can be
// replayed and shrunk from outside.  Shrinking edits the tape (delete blocks, zero, halve,
// decrement) and keeps an edit when the replayed case still fails.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace pbt {

inline uint64_t mix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline double now_s() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
inline uint64_t hash_str(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < s.size(); ++i) h = (h ^ (unsigned char)s[i]) * 1099511628211ull;
    return mix(h);
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    char buf[4096];
    vsnprintf(buf, sizeof(buf), f, ap);
    va_end(ap);
    return buf;
}
// Printable rendering of binary data, cut to max bytes.
inline std::string show(const std::string& s, size_t max = 60) {
    std::string r = "\"";
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c >= 0x20 && c < 0x7f) r += c;
        else r += fmt("\\x%02x", c);
    }
    r += "\"";
    if (s.size() > max) r += fmt("...(%zu bytes)", s.size());
    return r;
}

enum { kMaxTape = 1 << 16, kMaxLabels = 96, kHashSlots = 1 << 20, kMaxSamples = 6, kSampleLen = 1500 };

struct WorkerShm {
    volatile uint64_t case_index;      // running case
    volatile uint64_t case_serial;     // bumps at each case start: progress for the watchdog
    volatile uint32_t in_case;
    volatile uint32_t tape_len;
    volatile uint32_t fail_kind;       // 0 none 1 hard 2 soft
    char sub[64];
    char fail_msg[4096];
    char note[4096];
    uint64_t tape[kMaxTape];
};
struct SharedStats {
    volatile uint64_t evaluations, nontrivial, distinct_nontrivial, discarded;
    struct { char name[56]; volatile uint64_t n; } labels[kMaxLabels];
    volatile uint32_t nlabels;
    volatile uint32_t lock;
    volatile uint64_t hashes[kHashSlots];
    volatile uint32_t nsamples;
    char samples[kMaxSamples][kSampleLen];
    char discard_reason[256];
};

struct Failure { int kind; std::string msg; };
struct Discard { std::string msg; };

// A violated oracle.  Hard: does not depend on timing, believed as soon as it is seen.
[[noreturn]] inline void fail(const std::string& m) { throw Failure{1, m}; }
// A violated oracle that a slow machine could also cause: must be seen again on replay.
[[noreturn]] inline void fail_soft(const std::string& m) { throw Failure{2, m}; }
// The environment did not let the case run (no port, no thread...).
[[noreturn]] inline void discard(const std::string& m) { throw Discard{m}; }
#define PBT_CHECK(cond, ...) do { if (!(cond)) ::pbt::fail(std::string("[" #cond "] ") + ::pbt::fmt(__VA_ARGS__)); } while (0)
#define PBT_SOFT(cond, ...) do { if (!(cond)) ::pbt::fail_soft(std::string("[" #cond "] ") + ::pbt::fmt(__VA_ARGS__)); } while (0)

class Src {
public:
    Src(WorkerShm* shm, uint64_t seed) : shm_(shm), replay_(false), state_(seed), pos_(0) { shm_->tape_len = 0; }
    Src(WorkerShm* shm, const std::vector<uint64_t>& tape) : shm_(shm), replay_(true), state_(0), pos_(0), in_(tape) { shm_->tape_len = 0; }
    // Uniform in [0, maxv]; 0 is the simplest choice.
    uint64_t draw(uint64_t maxv) {
        uint64_t v;
        if (replay_) {
            v = pos_ < in_.size() ? in_[pos_] : 0;
            if (v > maxv) v = maxv;
        } else {
            state_ = mix(state_);
            v = maxv == UINT64_MAX ? state_ : state_ % (maxv + 1);
        }
        ++pos_;
        uint32_t n = shm_->tape_len;
        if (n < kMaxTape) { shm_->tape[n] = v; shm_->tape_len = n + 1; }
        return v;
    }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo); }
    int irange(int lo, int hi) { return lo + (int)draw((uint64_t)((int64_t)hi - lo)); }
    // True in pct of 100 cases.
    bool chance(int pct) { return draw(99) >= (uint64_t)(100 - pct); }
    // Weighted pick: returns the index.  Put the simplest first.
    int weighted(std::initializer_list<int> w) {
        int total = 0;
        for (int x : w) total += x;
        int64_t r = (int64_t)draw(total - 1);
        int i = 0;
        for (int x : w) { if (r < x) return i; r -= x; ++i; }
        return 0;
    }
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size() - 1)); }
    // Log-uniform size in [0, max].
    uint64_t logsize(uint64_t max) {
        int bits = 0;
        while ((max >> bits) != 0) ++bits;
        int k = (int)draw(bits);          // 0..bits
        if (k == 0) return 0;
        uint64_t lo = 1ull << (k - 1), hi = k >= 64 ? UINT64_MAX : (1ull << k) - 1;
        if (hi > max) hi = max;
        if (lo > hi) lo = hi;
        return lo + draw(hi - lo);
    }
    // Size near interesting boundaries, or log-uniform.
    uint64_t size_near(std::initializer_list<uint64_t> marks, uint64_t max) {
        if (chance(50)) {
            uint64_t m = pick(marks);
            int64_t d = (int64_t)draw(8);
            d = (d & 1) ? -(d + 1) / 2 : d / 2;
            int64_t v = (int64_t)m + d;
            if (v < 0) v = 0;
            if ((uint64_t)v > max) v = max;
            return v;
        }
        return logsize(max);
    }
    // Data whose content follows from one small choice, so tapes stay short.
    std::string data(size_t n) {
        int kind = weighted({3, 4, 3, 2});
        uint64_t s = draw(0xffffffffu);
        return expand(n, kind, s);
    }
    static std::string expand(size_t n, int kind, uint64_t s) {
        std::string r(n, 'a');
        uint64_t x = mix(s);
        switch (kind) {
        case 0: { char c = s == 0 ? 'a' : (char)(s & 0xff); for (size_t i = 0; i < n; ++i) r[i] = c; break; }
        case 1: for (size_t i = 0; i < n; ++i) { if (i % 8 == 0) x = mix(x); r[i] = (char)(x >> (8 * (i % 8))); } break;
        case 2: { static const char w[] = "the quick brown fox <jumps> over \"lazy\" dogs\r\n0123456789+/=&%?";
                  for (size_t i = 0; i < n; ++i) { if (i % 11 == 0) x = mix(x); r[i] = w[(x + i) % (sizeof(w) - 1)]; } break; }
        default: { size_t p = 1 + s % 300; for (size_t i = 0; i < n; ++i) { if (i < p) { x = mix(x); r[i] = (char)x; } else r[i] = r[i - p]; } break; }
        }
        return r;
    }
    // Short string of freely chosen bytes from an alphabet.
    std::string str(const std::string& alphabet, size_t maxlen) {
        size_t n = logsize(maxlen);
        std::string r;
        for (size_t i = 0; i < n; ++i) r += alphabet[draw(alphabet.size() - 1)];
        return r;
    }
    std::string any_bytes(size_t maxlen) {
        size_t n = logsize(maxlen);
        std::string r;
        for (size_t i = 0; i < n; ++i) r += (char)draw(255);
        return r;
    }
    int64_t any_i64() {
        switch (weighted({4, 3, 2, 2})) {
        case 0: return (int64_t)draw(16) - 4;
        case 1: { int k = (int)draw(63); uint64_t v = (1ull << k) + draw(2) - 1; return chance(50) ? (int64_t)v : (int64_t)(0 - v); }
        case 2: return pick<int64_t>({INT64_MAX, INT64_MIN, INT32_MAX, INT32_MIN, (int64_t)UINT32_MAX, (int64_t)INT32_MAX + 1, (int64_t)INT32_MIN - 1, (int64_t)UINT32_MAX + 1});
        default: return (int64_t)draw(UINT64_MAX);
        }
    }
    // Sub-seed for data the case expands itself.
    uint64_t seed() { return draw(0xffffffffu); }
    // A partition of n into positive chunks.
    std::vector<size_t> chunks(size_t n) {
        std::vector<size_t> r;
        int style = weighted({3, 2, 3, 2});
        size_t left = n;
        if (style == 0) { if (n) r.push_back(n); return r; }
        size_t cap = style == 1 ? 1 : style == 2 ? 40 : std::max<size_t>(1, n);
        size_t max_chunks = 400;
        while (left) {
            size_t c = r.size() >= max_chunks ? left : (style == 1 ? 1 : 1 + logsize(cap - 1));
            if (style == 1 && r.size() >= 64) c = left;
            if (c > left) c = left;
            r.push_back(c);
            left -= c;
        }
        return r;
    }
private:
    WorkerShm* shm_;
    bool replay_;
    uint64_t state_;
    size_t pos_;
    std::vector<uint64_t> in_;
};

class Ctx {
public:
    Ctx(WorkerShm* w, SharedStats* s, bool stats) : w_(w), s_(s), stats_(stats), nontrivial_(false) { w_->note[0] = 0; }
    void label(const std::string& l) { if (stats_) labels_.insert(l); }
    void nontrivial(bool v = true) { if (v) nontrivial_ = true; }
    // Appends to the description of the case (kept for samples and replay files).
    void note(const std::string& m) {
        size_t n = strlen(w_->note);
        if (n + 2 >= sizeof(w_->note)) return;
        snprintf(w_->note + n, sizeof(w_->note) - n, "%s%s", n ? "; " : "", m.c_str());
    }
    bool is_nontrivial() const { return nontrivial_; }
    const std::set<std::string>& labels() const { return labels_; }
private:
    WorkerShm* w_;
    SharedStats* s_;
    bool stats_;
    bool nontrivial_;
    std::set<std::string> labels_;
};

struct Sub {
    const char* name;
    void (*fn)(Src&, Ctx&);
    uint64_t quick, thorough;    // number of cases
};
struct Prop {
    const char* id;
    const char* rule;
    std::vector<Sub> subs;
    int workers;
    double case_timeout_s;       // a case longer than this counts as hung
    double quick_budget_s, thorough_budget_s;
    uint64_t recycle;            // cases per worker process
    void (*init)();              // in each worker process, may be NULL
    Prop() : id(""), rule(""), workers(8), case_timeout_s(30), quick_budget_s(45), thorough_budget_s(700), recycle(2000), init(NULL) {}
};

namespace detail {

inline std::string json_str(const std::string& s) {
    std::string r = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c >= 0x7f) r += fmt("\\u%04x", c); else r += c;
    }
    return r + "\"";
}
template <class T> T* map_shared(size_t n = 1) {
    void* p = mmap(NULL, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (T*)p;
}
inline void spin_lock(volatile uint32_t* l) { while (__sync_lock_test_and_set(l, 1)) usleep(10); }
inline void spin_unlock(volatile uint32_t* l) { __sync_lock_release(l); }

enum { EX_OK = 0, EX_FAIL = 77, EX_DONE_BATCH = 0 };

struct Outcome {
    int kind;              // 0 pass 1 hard 2 soft 3 crash 4 hang 5 discard
    std::string msg;
};

class Runner {
public:
    Runner(const Prop& p) : p_(p), seed_(1), thorough_(false), budget_(0), scale_(1) {}

    int main(int argc, char** argv) {
        std::string replay, only;
        uint64_t case_from = 0;
        bool has_case = false;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a == "--seed") seed_ = strtoull(argv[++i], 0, 10);
            else if (a == "--tier") thorough_ = std::string(argv[++i]) == "thorough";
            else if (a == "--out") out_ = argv[++i];
            else if (a == "--replay-out") replay_out_ = argv[++i];
            else if (a == "--replay") replay = argv[++i];
            else if (a == "--sub") only = argv[++i];
            else if (a == "--scale") scale_ = atof(argv[++i]);
            else if (a == "--case") { case_from = strtoull(argv[++i], 0, 10); has_case = true; }
            else if (a == "--workers") p_.workers = atoi(argv[++i]);
            else if (a == "--log") log_ = argv[++i];
            else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
        }
        if (only.size()) {
            std::vector<Sub> s;
            for (size_t i = 0; i < p_.subs.size(); ++i) if (only == p_.subs[i].name) s.push_back(p_.subs[i]);
            p_.subs = s;
        }
        if (log_.empty()) log_ = out_.size() ? out_ + ".log" : fmt("/tmp/pbt-%s-%d.log", p_.id, (int)getpid());
        stats_ = map_shared<SharedStats>();
        one_ = map_shared<WorkerShm>();
        budget_ = thorough_ ? p_.thorough_budget_s : p_.quick_budget_s;
        signal(SIGPIPE, SIG_IGN);
        if (replay.size()) return do_replay(replay);
        if (has_case) {   // debugging: one case in process
            if (p_.init) p_.init();
            uint64_t n = 0; (void)n;
            Src s(one_, case_seed(p_.subs[0], case_from));
            snprintf(one_->sub, sizeof(one_->sub), "%s", p_.subs[0].name);
            run_in_process(p_.subs[0], s, false, case_from);
            printf("kind=%u msg=%s note=%s\n", one_->fail_kind, one_->fail_msg, one_->note);
            return one_->fail_kind ? 1 : 0;
        }
        return explore();
    }

private:
    uint64_t case_seed(const Sub& sub, uint64_t i) {
        return mix(mix(seed_ * 0x1000193 + hash_str(std::string(p_.id) + "/" + sub.name)) + i);
    }
    const Sub* find_sub(const std::string& n) {
        for (size_t i = 0; i < p_.subs.size(); ++i) if (n == p_.subs[i].name) return &p_.subs[i];
        return NULL;
    }
    // Runs one case in this process and records the outcome in w.
    void run_in_process(const Sub& sub, Src& src, bool stats, uint64_t idx, WorkerShm* w = NULL) {
        if (!w) w = one_;
        w->fail_kind = 0;
        w->fail_msg[0] = 0;
        Ctx ctx(w, stats_, stats);
        bool discarded = false;
        std::string reason;
        try {
            sub.fn(src, ctx);
        } catch (const Failure& f) {
            snprintf(w->fail_msg, sizeof(w->fail_msg), "%s", f.msg.c_str());
            w->fail_kind = f.kind;
            return;
        } catch (const Discard& d) {
            discarded = true;
            reason = d.msg;
        } catch (const std::exception& e) {
            snprintf(w->fail_msg, sizeof(w->fail_msg), "uncaught exception: %s", e.what());
            w->fail_kind = 1;
            return;
        }
        if (!stats) return;
        __sync_fetch_and_add(&stats_->evaluations, 1);
        if (discarded) {
            __sync_fetch_and_add(&stats_->discarded, 1);
            snprintf(stats_->discard_reason, sizeof(stats_->discard_reason), "%s", reason.c_str());
            return;
        }
        std::vector<std::string> ls(ctx.labels().begin(), ctx.labels().end());
        ls.push_back(std::string("sub:") + sub.name);
        for (size_t i = 0; i < ls.size(); ++i) count_label(ls[i]);
        if (ctx.is_nontrivial()) {
            __sync_fetch_and_add(&stats_->nontrivial, 1);
            uint64_t h = hash_str(sub.name);
            for (uint32_t i = 0; i < w->tape_len; ++i) h = mix(h ^ w->tape[i]) + i;
            if (h == 0) h = 1;
            for (uint32_t k = 0; k < 64; ++k) {
                volatile uint64_t* slot = &stats_->hashes[(h + k) % kHashSlots];
                uint64_t old = __sync_val_compare_and_swap(slot, 0, h);
                if (old == 0) { __sync_fetch_and_add(&stats_->distinct_nontrivial, 1); break; }
                if (old == h) break;
            }
            if (stats_->nsamples < kMaxSamples && w->note[0]) {
                spin_lock(&stats_->lock);
                uint32_t n = stats_->nsamples;
                if (n < kMaxSamples) {
                    snprintf(stats_->samples[n], kSampleLen, "%s case %llu: %s", sub.name, (unsigned long long)idx, w->note);
                    stats_->nsamples = n + 1;
                }
                spin_unlock(&stats_->lock);
            }
        }
    }
    void count_label(const std::string& l) {
        for (uint32_t pass = 0; pass < 2; ++pass) {
            for (uint32_t i = 0; i < stats_->nlabels; ++i)
                if (!strncmp(stats_->labels[i].name, l.c_str(), sizeof(stats_->labels[i].name) - 1)) {
                    __sync_fetch_and_add(&stats_->labels[i].n, 1);
                    if (pass) spin_unlock(&stats_->lock);
                    return;
                }
            if (pass == 0) spin_lock(&stats_->lock);
        }
        if (stats_->nlabels < kMaxLabels) {
            snprintf(stats_->labels[stats_->nlabels].name, sizeof(stats_->labels[0].name), "%s", l.c_str());
            stats_->labels[stats_->nlabels].n = 1;
            __sync_synchronize();
            stats_->nlabels = stats_->nlabels + 1;
        }
        spin_unlock(&stats_->lock);
    }
    void child_setup(const std::string& log) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
    }
    // The flat list of cases, interleaved over the subs in proportion to their counts.
    struct Item { uint32_t sub; uint64_t idx; };
    void plan() {
        std::vector<uint64_t> n(p_.subs.size());
        uint64_t total = 0;
        for (size_t i = 0; i < n.size(); ++i) {
            n[i] = (uint64_t)((thorough_ ? p_.subs[i].thorough : p_.subs[i].quick) * scale_);
            if (n[i] == 0) n[i] = 1;
            total += n[i];
        }
        std::vector<uint64_t> done(n.size(), 0);
        items_.reserve(total);
        for (uint64_t t = 0; t < total; ++t) {
            size_t best = 0;
            double bestv = 1e300;
            for (size_t i = 0; i < n.size(); ++i) {
                if (done[i] >= n[i]) continue;
                double v = (done[i] + 0.5) / n[i];
                if (v < bestv) { bestv = v; best = i; }
            }
            items_.push_back(Item{(uint32_t)best, done[best]++});
        }
    }
    void worker_loop(WorkerShm* w, int wi, uint64_t from, uint64_t to) {
        if (p_.init) p_.init();
        for (uint64_t k = from; k < to; ++k) {
            uint64_t g = k * p_.workers + wi;
            if (g >= items_.size()) break;
            if (now_s() > deadline_) _exit(78);
            const Sub& sub = p_.subs[items_[g].sub];
            snprintf(w->sub, sizeof(w->sub), "%s", sub.name);
            w->case_index = k;
            w->case_serial = w->case_serial + 1;
            w->in_case = 1;
            Src src(w, case_seed(sub, items_[g].idx));
            run_in_process(sub, src, true, items_[g].idx, w);
            w->in_case = 0;
            if (w->fail_kind) _exit(EX_FAIL);
        }
        _exit(0);
    }
    struct Found { std::string sub; std::vector<uint64_t> tape; Outcome o; std::string note; int worker; uint64_t from, at; };

    std::string tail_log(const std::string& f) {
        FILE* fp = fopen(f.c_str(), "r");
        if (!fp) return "";
        std::string s;
        char buf[4096];
        size_t n;
        while ((n = fread(buf, 1, sizeof(buf), fp)) > 0 && s.size() < (1 << 20)) s.append(buf, n);
        fclose(fp);
        size_t p = s.find("ERROR: AddressSanitizer");
        if (p == std::string::npos) p = s.find("runtime error:");
        if (p == std::string::npos) p = s.find("CHECK failed");
        if (p == std::string::npos) p = s.find("Assertion");
        if (p == std::string::npos) p = s.size() > 1500 ? s.size() - 1500 : 0;
        size_t b = s.rfind('\n', p);
        b = b == std::string::npos ? 0 : b + 1;
        return s.substr(b, 1800);
    }
    static Outcome classify(int st, WorkerShm* w, bool hang, const std::string& tail) {
        Outcome o;
        if (hang) { o.kind = 4; o.msg = "case did not finish (hang)"; }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == EX_FAIL) { o.kind = w->fail_kind; o.msg = w->fail_msg; }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { o.kind = 0; }
        else {
            o.kind = 3;
            o.msg = WIFSIGNALED(st) ? fmt("process killed by signal %d", WTERMSIG(st)) : fmt("process exited with %d", WEXITSTATUS(st));
            o.msg += "\n" + tail;
        }
        return o;
    }
    // Replays one tape in a fresh process.
    Outcome run_tape(const Sub& sub, const std::vector<uint64_t>& tape, std::vector<uint64_t>* used, double timeout = 0) {
        if (timeout == 0) timeout = p_.case_timeout_s * 1.5 + 5;
        one_->fail_kind = 0;
        one_->tape_len = 0;
        std::string log = log_ + ".replay";
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid == 0) {
            setpgid(0, 0);
            child_setup(log);
            if (p_.init) p_.init();
            Src s(one_, tape);
            run_in_process(sub, s, false, 0);
            _exit(one_->fail_kind ? EX_FAIL : 0);
        }
        int st = 0;
        bool hang = false;
        double end = now_s() + timeout;
        while (true) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) break;
            if (now_s() > end) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hang = true; break; }
            usleep(500);
        }
        if (used) used->assign(one_->tape, one_->tape + one_->tape_len);
        return classify(st, one_, hang, tail_log(log));
    }
    // Replays a worker's case sequence [from..at] in a fresh process.
    Outcome run_stream(int wi, uint64_t from, uint64_t at) {
        one_->fail_kind = 0;
        std::string log = log_ + ".replay";
        pid_t pid = fork();
        if (pid == 0) {
            setpgid(0, 0);
            child_setup(log);
            deadline_ = now_s() + 1e6;
            SharedStats* keep = stats_;
            stats_ = map_shared<SharedStats>();
            (void)keep;
            worker_loop(one_, wi, from, at + 1);
        }
        int st = 0;
        bool hang = false;
        uint64_t serial = one_->case_serial;
        double end = now_s() + p_.case_timeout_s * 1.5 + 5;
        while (true) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) break;
            if (one_->case_serial != serial) { serial = one_->case_serial; end = now_s() + p_.case_timeout_s * 1.5 + 5; }
            if (now_s() > end) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hang = true; break; }
            usleep(500);
        }
        return classify(st, one_, hang, tail_log(log));
    }
    static bool same_class(const Outcome& a, const Outcome& b) {
        if (b.kind == 0 || b.kind == 5) return false;
        if (a.kind == 4 || b.kind == 4) return a.kind == b.kind;
        if (a.kind == 2 || b.kind == 2) return a.kind == b.kind;
        return true;
    }
    void shrink(const Sub& sub, std::vector<uint64_t>& tape, Outcome& o, double budget) {
        double end = now_s() + budget;
        int attempts = 0;
        struct Try {
            Runner* r; const Sub& sub; std::vector<uint64_t>& tape; Outcome& o; double end; int& attempts;
            bool operator()(const std::vector<uint64_t>& cand) {
                if (now_s() > end) return false;
                if (cand == tape) return false;
                ++attempts;
                std::vector<uint64_t> used;
                Outcome n = r->run_tape(sub, cand, &used);
                if (!same_class(o, n)) return false;
                if (used.size() < cand.size()) tape = used; else tape = cand;
                o = n;
                return true;
            }
        } attempt = {this, sub, tape, o, end, attempts};
        bool progress = true;
        while (progress && now_s() < end) {
            progress = false;
            // delete blocks
            for (size_t len = std::max<size_t>(1, tape.size() / 2); len >= 1 && now_s() < end; len /= 2) {
                for (size_t i = 0; i + len <= tape.size() && now_s() < end;) {
                    std::vector<uint64_t> c(tape);
                    c.erase(c.begin() + i, c.begin() + i + len);
                    if (attempt(c)) progress = true; else i += len;
                }
            }
            // zero blocks
            for (size_t len = std::max<size_t>(1, tape.size() / 2); len >= 1 && now_s() < end; len /= 2) {
                for (size_t i = 0; i + len <= tape.size() && now_s() < end; i += len) {
                    std::vector<uint64_t> c(tape);
                    bool any = false;
                    for (size_t k = i; k < i + len; ++k) { if (c[k]) any = true; c[k] = 0; }
                    if (any && attempt(c)) progress = true;
                }
            }
            // lower values
            for (size_t i = 0; i < tape.size() && now_s() < end; ++i) {
                uint64_t lo = 0, hi = tape[i];
                while (lo < hi && now_s() < end) {
                    uint64_t mid = lo + (hi - lo) / 2;
                    std::vector<uint64_t> c(tape);
                    if (i >= c.size()) break;
                    c[i] = mid;
                    if (attempt(c)) { hi = mid; progress = true; if (i >= tape.size()) break; } else lo = mid + 1;
                }
            }
        }
        shrink_attempts_ += attempts;
    }
    void write_replay(const std::string& path, const Found& f, bool stream) {
        FILE* fp = fopen(path.c_str(), "w");
        if (!fp) return;
        fprintf(fp, "pbt-replay 1\nproperty %s\nsub %s\nkind %d\n", p_.id, f.sub.c_str(), f.o.kind);
        if (stream) fprintf(fp, "stream seed=%llu tier=%s workers=%d worker=%d from=%llu at=%llu scale=%g\n", (unsigned long long)seed_,
                            thorough_ ? "thorough" : "quick", p_.workers, f.worker, (unsigned long long)f.from, (unsigned long long)f.at, scale_);
        else {
            fprintf(fp, "tape %zu", f.tape.size());
            for (size_t i = 0; i < f.tape.size(); ++i) fprintf(fp, " %llu", (unsigned long long)f.tape[i]);
            fprintf(fp, "\n");
        }
        fprintf(fp, "# case: %s\n", f.note.c_str());
        std::string m = f.o.msg;
        std::string line;
        for (size_t i = 0; i <= m.size(); ++i) {
            if (i == m.size() || m[i] == '\n') { fprintf(fp, "# %s\n", line.c_str()); line.clear(); }
            else line += m[i];
        }
        fclose(fp);
    }
    int do_replay(const std::string& path) {
        FILE* fp = fopen(path.c_str(), "r");
        if (!fp) { perror(path.c_str()); return 2; }
        std::string sub;
        std::vector<uint64_t> tape;
        bool stream = false;
        int wi = 0; unsigned long long from = 0, at = 0, sd = 1; char tier[32] = "quick"; int workers = 1; double scale = 1;
        char word[256];
        static char skip[1 << 16];
        while (fscanf(fp, "%255s", word) == 1) {
            if (!strcmp(word, "sub")) { char b[128]; if (fscanf(fp, "%127s", b) == 1) sub = b; }
            else if (!strcmp(word, "stream")) {
                stream = true;
                if (fscanf(fp, " seed=%llu tier=%31s workers=%d worker=%d from=%llu at=%llu scale=%lf", &sd, tier, &workers, &wi, &from, &at, &scale) < 6) return 2;
            } else if (!strcmp(word, "tape")) {
                size_t n; if (fscanf(fp, "%zu", &n) != 1) return 2;
                for (size_t i = 0; i < n; ++i) { unsigned long long v; if (fscanf(fp, "%llu", &v) != 1) break; tape.push_back(v); }
            } else if (word[0] == '#') { if (!fgets(skip, sizeof(skip), fp)) break; }
        }
        fclose(fp);
        int bad = 0;
        for (int i = 0; i < 3; ++i) {
            Outcome o;
            if (stream) {
                seed_ = sd; thorough_ = !strcmp(tier, "thorough"); p_.workers = workers; scale_ = scale;
                if (items_.empty()) plan();
                o = run_stream(wi, from, at);
            } else {
                const Sub* s = find_sub(sub);
                if (!s) { fprintf(stderr, "no sub %s\n", sub.c_str()); return 2; }
                o = run_tape(*s, tape, NULL);
            }
            printf("replay %d: kind=%d %s\n", i, o.kind, o.msg.c_str());
            printf("  case: %s\n", one_->note);
            if (o.kind) ++bad;
        }
        return bad ? 1 : 0;
    }
    int explore() {
        double t0 = now_s();
        deadline_ = t0 + budget_;
        plan();
        int W = p_.workers;
        WorkerShm* ws = map_shared<WorkerShm>(W);
        std::vector<pid_t> pid(W, 0);
        std::vector<uint64_t> next(W, 0), from(W, 0), serial(W, 0);
        std::vector<double> since(W, 0);
        std::vector<bool> done(W, false);
        std::vector<Found> found;
        uint64_t per = (items_.size() + W - 1) / W;
        bool stop = false;
        int unreproduced = 0;
        while (true) {
            bool alive = false;
            for (int i = 0; i < W; ++i) {
                if (pid[i] == 0 && !done[i] && !stop) {
                    if (next[i] >= per || now_s() > deadline_) { done[i] = true; continue; }
                    from[i] = next[i];
                    uint64_t to = std::min(per, next[i] + p_.recycle);
                    fflush(stdout); fflush(stderr);
                    pid_t c = fork();
                    if (c == 0) { setpgid(0, 0); child_setup(fmt("%s.%d", log_.c_str(), i)); worker_loop(&ws[i], i, from[i], to); }
                    pid[i] = c;
                    next[i] = to;
                    serial[i] = ws[i].case_serial;
                    since[i] = now_s();
                }
                if (pid[i]) {
                    alive = true;
                    int st;
                    pid_t r = waitpid(pid[i], &st, WNOHANG);
                    bool hang = false;
                    if (r == 0) {
                        if (ws[i].case_serial != serial[i]) { serial[i] = ws[i].case_serial; since[i] = now_s(); }
                        else if (now_s() - since[i] > p_.case_timeout_s && ws[i].in_case) { kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); hang = true; r = pid[i]; }
                        else if (stop) { kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); pid[i] = 0; continue; }
                    }
                    if (r == pid[i]) {
                        pid[i] = 0;
                        if (!hang && WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 78)) {
                            if (WEXITSTATUS(st) == 78) done[i] = true;
                            continue;
                        }
                        Found f;
                        f.sub = ws[i].sub;
                        f.tape.assign(ws[i].tape, ws[i].tape + ws[i].tape_len);
                        f.o = classify(st, &ws[i], hang, tail_log(fmt("%s.%d", log_.c_str(), i)));
                        f.note = ws[i].note;
                        f.worker = i; f.from = from[i]; f.at = ws[i].case_index;
                        next[i] = f.at + 1;
                        // Hard oracle failures and crashes stop the run.  Soft ones are first replayed.
                        found.push_back(f);
                        stop = true;
                    }
                }
            }
            if (!alive) {
                if (!stop) break;
                // confirm
                bool confirmed = false;
                std::vector<Found> all;
                all.swap(found);
                for (size_t i = 0; i < all.size() && !confirmed; ++i) {
                    confirmed = confirm(all[i]);
                    if (confirmed) found.push_back(all[i]);
                    else { ++unreproduced; unrep_msgs_.push_back(all[i].o.msg); }
                }
                if (confirmed) break;
                stop = false;
                if (unreproduced > 25) { fprintf(stderr, "too many unreproduced soft failures\n"); for (auto& m : unrep_msgs_) fprintf(stderr, "  %s\n", m.c_str()); write_out(t0, found, unreproduced); return 4; }
            }
            usleep(2000);
        }
        write_out(t0, found, unreproduced);
        if (found.size()) return 1;
        if (stats_->evaluations && stats_->discarded * 5 > stats_->evaluations) {
            fprintf(stderr, "too many discarded cases: %llu of %llu (%s)\n", (unsigned long long)stats_->discarded,
                    (unsigned long long)stats_->evaluations, stats_->discard_reason);
            return 3;
        }
        return 0;
    }
    bool confirm(Found& f) {
        const Sub* s = find_sub(f.sub);
        fprintf(stderr, "[%s/%s] failing case (kind %d): %s\n  %s\n", p_.id, f.sub.c_str(), f.o.kind, f.o.msg.c_str(), f.note.c_str());
        int need = (f.o.kind == 2 || f.o.kind == 4) ? 3 : 1;   // soft failures and hangs: all of 3
        int tries = need == 3 ? 3 : 6, bad = 0;
        Outcome last;
        bool slow = false;
        double begin = now_s();
        for (int i = 0; i < tries && !slow; ++i) {
            Outcome o = run_tape(*s, f.tape, NULL);
            if (o.kind) { ++bad; last = o; if (bad >= 3 && need == 1) break; } else if (need == 3) break;
            slow = need == 1 && bad && now_s() - begin > 40;
        }
        bool repro = bad >= need;
        fprintf(stderr, "  replayed: %d failures of up to %d\n", bad, tries);
        if (need == 3 && !repro) return false;
        if (repro) {
            f.o = last;
            if (bad >= 3 || slow) shrink(*s, f.tape, f.o, std::min(90.0, 15 + 60 * p_.case_timeout_s));
            run_tape(*s, f.tape, NULL);
            f.note = one_->note;
            write_replay(replay_out_, f, false);
        } else {
            Outcome o = run_stream(f.worker, f.from, f.at);
            fprintf(stderr, "  stream replay: kind=%d\n", o.kind);
            write_replay(replay_out_, f, o.kind != 0);
            // A violated oracle or a crash was seen: it stands even if the schedule that led to it did not recur.
            if (o.kind == 0 && f.o.kind == 3 && f.o.msg.find("signal 9") != std::string::npos) return false;   // memory guard
        }
        return true;
    }
    void write_out(double t0, const std::vector<Found>& found, int unrep) {
        if (out_.empty()) {
            printf("evaluations=%llu nontrivial=%llu distinct=%llu discarded=%llu unreproduced=%d planned=%zu wall=%.1f\n", (unsigned long long)stats_->evaluations,
                   (unsigned long long)stats_->nontrivial, (unsigned long long)stats_->distinct_nontrivial, (unsigned long long)stats_->discarded, unrep, items_.size(), now_s() - t0);
            std::map<std::string, uint64_t> l;
            for (uint32_t i = 0; i < stats_->nlabels; ++i) l[stats_->labels[i].name] += stats_->labels[i].n;
            for (auto& kv : l) printf("  %-50s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
            for (uint32_t i = 0; i < stats_->nsamples && i < 3; ++i) printf("  sample: %.600s\n", stats_->samples[i]);
            for (auto& f : found) printf("FAILED sub=%s kind=%d %s\n  case: %s\n", f.sub.c_str(), f.o.kind, f.o.msg.c_str(), f.note.c_str());
            return;
        }
        FILE* fp = fopen(out_.c_str(), "w");
        if (!fp) { perror(out_.c_str()); return; }
        fprintf(fp, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"discarded\": %llu, \"planned\": %zu, \"unreproduced_soft\": %d, \"wall_s\": %.2f,\n",
                (unsigned long long)stats_->evaluations, (unsigned long long)stats_->nontrivial, (unsigned long long)stats_->distinct_nontrivial,
                (unsigned long long)stats_->discarded, items_.size(), unrep, now_s() - t0);
        fprintf(fp, "\"rule\": %s,\n\"labels\": {", json_str(p_.rule).c_str());
        std::map<std::string, uint64_t> l;
        for (uint32_t i = 0; i < stats_->nlabels; ++i) l[stats_->labels[i].name] += stats_->labels[i].n;
        bool first = true;
        for (auto& kv : l) { fprintf(fp, "%s%s: %llu", first ? "" : ", ", json_str(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
        fprintf(fp, "},\n\"samples\": [");
        for (uint32_t i = 0; i < stats_->nsamples; ++i) fprintf(fp, "%s%s", i ? ",\n " : "", json_str(stats_->samples[i]).c_str());
        fprintf(fp, "],\n\"violations\": [");
        for (size_t i = 0; i < found.size(); ++i)
            fprintf(fp, "%s{\"sub\": %s, \"kind\": %d, \"msg\": %s, \"case\": %s, \"replay\": %s}", i ? ", " : "", json_str(found[i].sub).c_str(), found[i].o.kind,
                    json_str(found[i].o.msg).c_str(), json_str(found[i].note).c_str(), json_str(replay_out_).c_str());
        fprintf(fp, "],\n\"unreproduced_msgs\": [");
        for (size_t i = 0; i < unrep_msgs_.size() && i < 5; ++i) fprintf(fp, "%s%s", i ? ", " : "", json_str(unrep_msgs_[i].substr(0, 300)).c_str());
        fprintf(fp, "]}\n");
        fclose(fp);
    }

    Prop p_;
    uint64_t seed_;
    bool thorough_;
    double budget_, scale_, deadline_;
    std::string out_, replay_out_ = "/tmp/pbt-replay.txt", log_;
    SharedStats* stats_;
    WorkerShm* one_;
    std::vector<Item> items_;
    std::vector<std::string> unrep_msgs_;
    int shrink_attempts_ = 0;
};
} // namespace detail

inline int run(int argc, char** argv, const Prop& p) { return detail::Runner(p).main(argc, argv); }

} // namespace pbt
#endif
