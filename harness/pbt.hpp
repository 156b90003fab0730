// Choice-sequence property-based testing engine.
//
// A property is one function of a Source.  Every random decision is an integer
// drawn from the Source and recorded; the same function is therefore driven by
//   RNG    - seeded pseudo-random choices (pure function of VERIF_SEED)
//   ENUM   - depth-first enumeration of ALL choice sequences of a small scope
//   BYTES  - libFuzzer input bytes (coverage guided, thorough tier)
//   REPLAY - a recorded choice list (shrinking and replay)
// Cases run in forked workers; a crash, sanitizer report, assertion or hang is
// a failure of the case that was running, which is then shrunk in fresh child
// processes and replayed three times before it is reported.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif
#ifdef PBT_ASAN
#include <sanitizer/asan_interface.h>
#define PBT_POISON(p, n) __asan_poison_memory_region((p), (n))
#define PBT_UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#else
#define PBT_POISON(p, n) ((void)0)
#define PBT_UNPOISON(p, n) ((void)0)
#endif

namespace pbt {

inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(const char* s) {
    uint64_t h = 1469598103934665603ull;
    for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
    return h;
}
// Deterministic expansion of a drawn seed (not a source of randomness of its own).
struct Expand {
    uint64_t s;
    explicit Expand(uint64_t seed) : s(mix64(seed ^ 0x5bd1e995u)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
};

struct Skip {};
struct Failure { std::string msg; };

constexpr size_t CH_CAP = 1u << 15;
struct Shm {
    volatile uint64_t case_idx;
    volatile uint64_t nch;
    volatile int state;       // 0 idle, 1 running a case
    char msg[8192];
    uint64_t ch[CH_CAP];
};

class Source {
public:
    enum Mode { RNG, REPLAY, ENUM, BYTES };
    Mode mode = RNG;
    bool small_scope = false;              // generators restrict themselves
    Shm* shm = nullptr;                    // where draws are recorded
    uint64_t st = 0;                       // RNG state
    const std::vector<uint64_t>* rep = nullptr;
    const uint8_t* bytes = nullptr; size_t nbytes = 0, bpos = 0;
    std::vector<std::pair<uint64_t, uint64_t>> path; size_t ppos = 0;  // ENUM
    uint64_t leaf = 0, part = 0, parts = 1;
    uint64_t h = 0;                        // hash of the choices
    uint64_t n = 0;                        // number of choices so far

    void begin() { n = 0; h = 0x1234567; ppos = 0; if (shm) shm->nch = 0; }
    // Uniform choice in [0, bound).  0 is the simplest value.
    uint64_t draw(uint64_t bound) {
        if (bound == 0) bound = 1;
        uint64_t v = 0;
        switch (mode) {
        case RNG: { st += 0x9e3779b97f4a7c15ull; uint64_t z = mix64(st);
                    v = (uint64_t)(((unsigned __int128)z * bound) >> 64); break; }
        case REPLAY: v = n < rep->size() ? (*rep)[n] : 0; if (v >= bound) v = bound - 1; break;
        case BYTES: { if (bound > 1) { int k = bound <= 256 ? 1 : bound <= 65536 ? 2 : bound <= (1ull << 32) ? 4 : 8;
                      for (int i = 0; i < k; ++i) v = v << 8 | (bpos < nbytes ? bytes[bpos++] : 0); v %= bound; } break; }
        case ENUM: if (ppos == path.size()) path.emplace_back(0, bound);
                   v = path[ppos].first; ++ppos; break;
        }
        if (shm && n < CH_CAP) { shm->ch[n] = v; shm->nch = n + 1; }
        ++n;
        h = mix64(h ^ v);
        return v;
    }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }   // inclusive
    int64_t irange(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
    bool flag() { return draw(2) != 0; }
    bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }    // 0 => false
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
    // All choices that decide which case this is have been made.
    void ready() { if (mode == ENUM && leaf % parts != part) throw Skip{}; }
    bool next_leaf() {
        path.resize(std::min(path.size(), ppos));
        while (!path.empty() && path.back().first + 1 >= path.back().second) path.pop_back();
        ++leaf;
        if (path.empty()) return false;
        ++path.back().first;
        return true;
    }
};

class Ctx {
public:
    bool want_desc = false;
    bool nontriv = false;
    std::ostringstream desc;
    std::map<std::string, uint64_t> labels;
    bool counting = true;
    void nontrivial(bool b = true) { if (b) nontriv = true; }
    void label(const char* l, bool b = true) { if (b && counting) ++labels[l]; }
    template <class F> void describe(F f) { if (want_desc) f(desc); }
};

#define PBT_FAIL(expr) do { std::ostringstream o_; o_ << expr; throw ::pbt::Failure{o_.str()}; } while (0)
#define PBT_CHECK(c, expr) do { if (!(c)) PBT_FAIL(expr); } while (0)

using Fn = void (*)(Source&, Ctx&);
struct Test {
    const char* name;
    Fn fn;
    bool enumerate;            // small scope, exhaustively
    uint64_t quick, thorough;  // cases per run (random), or 1/0 = run in this tier (enumerate)
};
std::vector<Test> tests();     // defined by the property source
#ifndef PBT_PROP
#define PBT_PROP "?"
#endif
#ifndef PBT_CFG
#define PBT_CFG "?"
#endif

// ---------------------------------------------------------------- execution
inline Shm* new_shm() {
    void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return static_cast<Shm*>(p);
}
inline Shm*& cur_shm() { static Shm* s = nullptr; return s; }
#ifndef PBT_HANG_S
#define PBT_HANG_S 40
#endif
inline uint64_t rss_limit_pages() { return (uint64_t)
#ifdef PBT_RSS_MB
    PBT_RSS_MB
#else
    3000
#endif
    * 256; }
inline void on_tick(int) {
    static uint64_t last = ~0ull; static int same = 0;
    Shm* s = cur_shm();
    if (!s || s->state != 1) return;
    if (s->case_idx == last) { if (++same >= PBT_HANG_S) _exit(97); } else { last = s->case_idx; same = 0; }
    int fd = open("/proc/self/statm", O_RDONLY);
    if (fd >= 0) { char b[128]; ssize_t k = read(fd, b, sizeof b - 1); close(fd);
        if (k > 0) { b[k] = 0; char* q = strchr(b, ' '); if (q && strtoull(q, nullptr, 10) > rss_limit_pages()) _exit(96); } }
}
inline void arm_watchdog() {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    struct itimerval tv; tv.it_interval.tv_sec = 1; tv.it_interval.tv_usec = 0; tv.it_value = tv.it_interval;
    setitimer(ITIMER_PROF, &tv, nullptr);
}
inline void set_msg(Shm* s, const std::string& m) {
    size_t k = std::min(m.size(), sizeof(s->msg) - 1); memcpy(s->msg, m.data(), k); s->msg[k] = 0;
}
// Runs one case.  true: passed (or skipped).
inline bool run_case(const Test& t, Source& src, Ctx& ctx, bool& skipped) {
    skipped = false;
    src.begin();
    ctx.nontriv = false;
    try { t.fn(src, ctx); }
    catch (const Skip&) { skipped = true; }
    catch (const Failure& f) { set_msg(src.shm, f.msg); return false; }
    catch (const std::exception& e) { set_msg(src.shm, std::string("unexpected exception: ") + e.what()); return false; }
    return true;
}
inline std::string json_escape(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}
inline double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

struct Opts {
    uint64_t seed = 1; int workers = 4; bool thorough = false; double scale = 1.0; double cap = 150;
    std::string out, rundir = ".", replay, only, shrink_from, subtest; bool verbose = false;
};
constexpr size_t HASH_CAP = 1500000;

// Work of one worker on one test; writes a stats record to `f`.
inline void worker_run(const Test& t, int w, const Opts& o, uint64_t start, Shm* shm, FILE* f, uint64_t n_cases, double deadline) {
    cur_shm() = shm;
    arm_watchdog();
    Source src; src.shm = shm;
    Ctx ctx;
    uint64_t evals = 0, nt = 0; bool complete = true;
    std::vector<uint64_t> hashes;
    std::vector<std::string> samples;
    uint64_t base = mix64(o.seed * 0x9e37 + hash_str(PBT_PROP) * 31 + hash_str(PBT_CFG) * 17 + hash_str(t.name));
    bool skipped;
    auto account = [&](uint64_t idx) {
        ++evals;
        if (ctx.nontriv) { ++nt; if (hashes.size() < HASH_CAP) hashes.push_back(mix64(src.h ^ hash_str(t.name))); }
        if (ctx.want_desc) { if (ctx.nontriv && samples.size() < 6) samples.push_back(ctx.desc.str()); ctx.desc.str(""); ctx.want_desc = false; }
        (void)idx;
    };
    if (t.enumerate) {
        src.mode = Source::ENUM; src.small_scope = true; src.part = w; src.parts = o.workers;
        uint64_t next_sample = 1;
        do {
            shm->case_idx = src.leaf; shm->state = 1;
            ctx.want_desc = (src.leaf % o.workers == (uint64_t)w) && evals >= next_sample;
            bool wd = ctx.want_desc;
            if (!run_case(t, src, ctx, skipped)) _exit(3);
            if (!skipped) account(src.leaf); else { ctx.desc.str(""); }
            if (wd) next_sample = next_sample * 13;
            if (((src.leaf & 1023) == 0) && now() > deadline) { complete = false; break; }
        } while (src.next_leaf());
    } else {
        src.mode = Source::RNG;
        for (uint64_t i = start; i < n_cases; i += o.workers) {
            src.st = mix64(base + i * 0x2545f4914f6cdd1dull);
            shm->case_idx = i; shm->state = 1;
            uint64_t k = i / o.workers;
            ctx.want_desc = (k == 3 || k == 50 || k == 700 || k == 4001 || k == 15013);
            if (!run_case(t, src, ctx, skipped)) _exit(3);
            account(i);
            if ((k & 63) == 0 && now() > deadline) { complete = false; break; }
        }
    }
    shm->state = 0;
    fprintf(f, "T\t%s\t%llu\t%llu\t%d\t%d\n", t.name, (unsigned long long)evals, (unsigned long long)nt, (int)t.enumerate, (int)complete);
    for (auto& l : ctx.labels) fprintf(f, "L\t%s\t%s\t%llu\n", t.name, l.first.c_str(), (unsigned long long)l.second);
    for (auto& s : samples) fprintf(f, "S\t%s\t%s\n", t.name, json_escape(s).c_str());
    std::sort(hashes.begin(), hashes.end());
    hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
    fflush(f);
    std::string hp = o.out + ".h";
    int fd = open(hp.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd >= 0) { size_t tot = hashes.size() * 8, done = 0; const char* p = (const char*)hashes.data();
        // one write per worker keeps appended blocks whole
        while (done < tot) { ssize_t k = write(fd, p + done, tot - done); if (k <= 0) break; done += k; } close(fd); }
}

// Run a recorded choice list in a child.  0 = passes, else failure class.
inline int try_choices(const Test& t, const std::vector<uint64_t>& c, Shm* shm, const std::string& errfile, bool desc, std::string* dout) {
    int pfd[2]; if (pipe(pfd)) _exit(2);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        close(pfd[0]);
        int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0) { dup2(fd, 2); close(fd); }
        cur_shm() = shm; shm->case_idx = 0; shm->state = 1; shm->msg[0] = 0;
        arm_watchdog();
        Source s; s.mode = Source::REPLAY; s.rep = &c; s.shm = shm; s.small_scope = t.enumerate;
        Ctx x; x.counting = false; bool sk;
        if (desc) {   // description is emitted before the operation runs
            struct Tee : std::stringbuf { int fd; int sync() override { std::string v = str(); if (!v.empty()) { ssize_t r = write(fd, v.data(), v.size()); (void)r; str(""); } return 0; } };
            static Tee tee; tee.fd = pfd[1]; x.want_desc = true; x.desc.std::ios::rdbuf(&tee); x.desc << std::unitbuf;
        }
        _exit(run_case(t, s, x, sk) ? 0 : 3);
    }
    close(pfd[1]);
    std::string d; char b[4096]; ssize_t k;
    while ((k = read(pfd[0], b, sizeof b)) > 0) if (d.size() < (1u << 20)) d.append(b, k);
    close(pfd[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (dout) *dout = d;
    if (WIFEXITED(st)) return WEXITSTATUS(st);
    return 1000 + WTERMSIG(st);
}
inline const char* klass(int rc) {
    switch (rc) { case 0: return "pass"; case 3: return "oracle"; case 97: return "hang"; case 96: return "memory blow-up"; case 99: return "sanitizer"; case 1006: return "abort/assert"; }
    return rc >= 1000 ? "signal" : "exit";
}
inline std::string tail(const std::string& f, size_t k) {
    std::ifstream in(f); std::string s((std::istreambuf_iterator<char>(in)), {}); 
    if (s.size() > k) s = s.substr(0, k); 
    return s;
}
inline void write_replay(const std::string& path, const Test& t, const std::vector<uint64_t>& c, int rc, const std::string& msg, const std::string& desc, const std::string& err) {
    std::ofstream f(path);
    f << "{\n \"property\": \"" << PBT_PROP << "\",\n \"config\": \"" << PBT_CFG << "\",\n \"test\": \"" << t.name
      << "\",\n \"failure\": \"" << klass(rc) << "\",\n \"message\": \"" << json_escape(msg) << "\",\n \"case\": \"" << json_escape(desc)
      << "\",\n \"stderr\": \"" << json_escape(err) << "\",\n \"choices\": [";
    for (size_t i = 0; i < c.size(); ++i) f << (i ? "," : "") << c[i];
    f << "]\n}\n";
}
inline bool less_choices(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}
inline std::vector<uint64_t> shrink(const Test& t, std::vector<uint64_t> best, Shm* shm, const std::string& ef, int& budget, double deadline) {
    auto fails = [&](const std::vector<uint64_t>& c, std::vector<uint64_t>& used) {
        if (budget <= 0 || now() > deadline) return false;
        --budget;
        if (try_choices(t, c, shm, ef, false, nullptr) == 0) return false;
        used.assign(shm->ch, shm->ch + std::min<uint64_t>((uint64_t)shm->nch, (uint64_t)CH_CAP));
        return true;
    };
    std::vector<uint64_t> u;
    auto accept = [&](const std::vector<uint64_t>& c) {
        if (!fails(c, u)) return false;
        if (u.size() > c.size()) u.resize(c.size());   // choices past the list are zeros
        while (!u.empty() && u.back() == 0) u.pop_back();
        if (less_choices(u, best)) { best = u; return true; }
        return false;
    };
    bool progress = true;
    while (progress && budget > 0 && now() < deadline) {
        progress = false;
        for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1; k /= 2) {          // delete chunks
            for (size_t i = best.size(); i-- > 0;) {
                if (i + k > best.size()) continue;
                auto c = best; c.erase(c.begin() + i, c.begin() + i + k);
                if (accept(c)) progress = true;
                if (budget <= 0) break;
            }
            if (k == 1) break;
        }
        for (size_t i = 0; i < best.size() && budget > 0; ++i) {                          // minimise values
            if (best[i] == 0) continue;
            auto c = best; c[i] = 0;
            if (accept(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
            while (lo + 1 < hi && budget > 0 && i < best.size()) {
                uint64_t mid = lo + (hi - lo) / 2; c = best; c[i] = mid;
                if (accept(c)) { progress = true; hi = mid; } else lo = mid;
                if (i < best.size() && best[i] < hi) hi = best[i];
            }
            if (i < best.size() && best[i] > 0) { c = best; --c[i]; if (accept(c)) progress = true; }
        }
    }
    return best;
}

// Shrinks, replays three times, writes the replay file.  true: confirmed.
inline bool confirm(const Test& t, std::vector<uint64_t> c, const Opts& o, const std::string& out_replay, bool do_shrink) {
    Shm* shm = new_shm();
    std::string ef = o.rundir + "/" + PBT_PROP "." PBT_CFG ".replay.err";
    auto thrice = [&](const std::vector<uint64_t>& x) { for (int i = 0; i < 3; ++i) if (try_choices(t, x, shm, ef, false, nullptr) == 0) return false; return true; };
    if (!thrice(c)) return false;
    auto best = c;
    if (do_shrink) { int budget = 1500; best = shrink(t, c, shm, ef, budget, now() + 60); if (!thrice(best)) best = c; }
    std::string d; int rc = try_choices(t, best, shm, ef, true, &d);
    if (rc == 0) { best = c; rc = try_choices(t, best, shm, ef, true, &d); }
    std::string msg = shm->msg; std::string err = tail(ef, 3000);
    write_replay(out_replay, t, best, rc, msg, d, err);
    printf("FAIL\t%s\t%s\t%s\n", t.name, out_replay.c_str(), klass(rc));
    fprintf(stderr, "[%s/%s/%s] %s: %s\n  case: %s\n%s\n", PBT_PROP, PBT_CFG, t.name, klass(rc), msg.c_str(), d.substr(0, 2000).c_str(), err.substr(0, 2500).c_str());
    munmap(shm, sizeof(Shm));
    return true;
}
inline std::vector<uint64_t> read_choices(const std::string& f, std::string& test) {
    std::ifstream in(f); std::string s((std::istreambuf_iterator<char>(in)), {});
    std::vector<uint64_t> c; size_t p = s.find("\"choices\"");
    if (p == std::string::npos) { fprintf(stderr, "bad replay file\n"); exit(2); }
    p = s.find('[', p);
    const char* q = s.c_str() + p + 1;
    while (*q && *q != ']') { char* e; c.push_back(strtoull(q, &e, 10)); if (e == q) { c.pop_back(); ++q; } else q = e; if (*q == ',') ++q; }
    p = s.find("\"test\""); p = s.find(':', p); p = s.find('"', p); size_t e = s.find('"', p + 1); test = s.substr(p + 1, e - p - 1);
    return c;
}

inline int main_impl(int argc, char** argv) {
    Opts o;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto v = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") o.seed = strtoull(v().c_str(), nullptr, 10);
        else if (a == "--workers") o.workers = atoi(v().c_str());
        else if (a == "--thorough") o.thorough = true;
        else if (a == "--scale") o.scale = atof(v().c_str());
        else if (a == "--cap") o.cap = atof(v().c_str());
        else if (a == "--out") o.out = v();
        else if (a == "--rundir") o.rundir = v();
        else if (a == "--replay") o.replay = v();
        else if (a == "--shrink") o.shrink_from = v();
        else if (a == "--only") o.only = v();
        else { fprintf(stderr, "bad option %s\n", a.c_str()); return 2; }
    }
    auto ts = tests();
    auto find = [&](const std::string& n) -> const Test* { for (auto& t : ts) if (n == t.name) return &t; return nullptr; };
    if (!o.replay.empty() || !o.shrink_from.empty()) {
        std::string tn; auto c = read_choices(o.replay.empty() ? o.shrink_from : o.replay, tn);
        const Test* t = find(tn); if (!t) { fprintf(stderr, "no such test %s\n", tn.c_str()); return 2; }
        std::string outp = o.out.empty() ? o.rundir + "/replay.out.json" : o.out;
        if (confirm(*t, c, o, outp, o.replay.empty())) return 1;
        printf("PASS\t%s\n", tn.c_str());
        return 0;
    }
    double deadline = now() + o.cap;
    FILE* f = fopen(o.out.c_str(), "w"); if (!f) { perror("out"); return 2; }
    fclose(f);
    unlink((o.out + ".h").c_str());
    bool failed = false; int unrep = 0;
    std::vector<Shm*> shms; for (int w = 0; w < o.workers; ++w) shms.push_back(new_shm());
    for (auto& t : ts) {
        if (!o.only.empty() && o.only != t.name) continue;
        uint64_t n = o.thorough ? t.thorough : t.quick;
        if (n == 0) continue;
        if (!t.enumerate) n = std::max<uint64_t>(o.workers, (uint64_t)(n * o.scale));
        struct W { pid_t pid; int w; uint64_t start; };
        std::vector<W> live;
        auto spawn = [&](int w, uint64_t start) {
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) {
                std::string ef = o.rundir + "/" + PBT_PROP "." PBT_CFG "." + std::to_string(w) + ".err";
                int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 2); close(fd); }
                FILE* g = fopen(o.out.c_str(), "a");
                worker_run(t, w, o, start, shms[w], g, n, deadline);
                fclose(g);
                _exit(0);
            }
            live.push_back({pid, w, start});
        };
        for (int w = 0; w < o.workers; ++w) { shms[w]->state = 0; shms[w]->msg[0] = 0; spawn(w, w); }
        struct F { int w; std::vector<uint64_t> c; int rc; uint64_t idx; };
        std::vector<F> fs;
        while (!live.empty()) {
            int st = 0; pid_t p = wait(&st); if (p < 0) break;
            auto it = std::find_if(live.begin(), live.end(), [&](const W& x) { return x.pid == p; });
            if (it == live.end()) continue;
            int w = it->w; live.erase(it);
            int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
            if (rc == 0) continue;
            Shm* s = shms[w];
            fs.push_back({w, std::vector<uint64_t>(s->ch, s->ch + std::min<uint64_t>((uint64_t)s->nch, (uint64_t)CH_CAP)), rc, (uint64_t)s->case_idx});
            for (auto& x : live) kill(x.pid, SIGKILL);       // first failure decides this test
            while (!live.empty()) { pid_t q = wait(&st); if (q < 0) break;
                auto jt = std::find_if(live.begin(), live.end(), [&](const W& x) { return x.pid == q; }); if (jt != live.end()) live.erase(jt); }
        }
        for (auto& x : fs) {
            std::string rp = o.rundir + "/replay-" PBT_PROP "-" PBT_CFG "-" + t.name + ".json";
            if (confirm(t, x.c, o, rp, true)) { failed = true; }
            else { ++unrep; fprintf(stderr, "[%s/%s/%s] worker ended with %s at case %llu (%s), not reproduced on replay\n%s\n", PBT_PROP, PBT_CFG, t.name, klass(x.rc), (unsigned long long)x.idx, shms[x.w]->msg,
                   tail(o.rundir + "/" + PBT_PROP "." PBT_CFG "." + std::to_string(x.w) + ".err", 1500).c_str());
                   printf("UNREPRODUCED\t%s\n", t.name); }
        }
        if (failed) break;
    }
    return failed ? 1 : (unrep ? 4 : 0);
}
}  // namespace pbt

#ifdef PBT_ASAN
extern "C" __attribute__((used)) const char* __asan_default_options();
extern "C" const char* __asan_default_options() { return "exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=1048576:quarantine_size_mb=16:handle_abort=0:abort_on_error=0"; }
extern "C" __attribute__((used)) const char* __ubsan_default_options();
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:exitcode=99:halt_on_error=1"; }
#endif

#if defined(__SANITIZE_THREAD__)
#define PBT_TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define PBT_TSAN 1
#endif
#endif
#ifdef PBT_TSAN
extern "C" __attribute__((used)) const char* __tsan_default_options();
extern "C" const char* __tsan_default_options() { return "exitcode=99:halt_on_error=1:report_bugs=1:history_size=2"; }
#endif

#ifdef PBT_FUZZER
// Coverage-guided driver: the bytes are the choices.  The first test is the target.
extern "C" int LLVMFuzzerInitialize(int*, char***) { return 0; }
static void pbt_fuzz_dump() {
    pbt::Shm* s = pbt::cur_shm(); const char* p = getenv("PBT_FUZZ_REPLAY");
    if (!s || !p || s->state != 1) return;
    auto ts = pbt::tests();
    pbt::write_replay(p, ts[s->case_idx], std::vector<uint64_t>(s->ch, s->ch + s->nch), 3, s->msg, "", "");
}
#include <sanitizer/common_interface_defs.h>
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
    static std::vector<pbt::Test> ts = [] { std::vector<pbt::Test> r; for (auto& t : pbt::tests()) r.push_back(t); __sanitizer_set_death_callback(pbt_fuzz_dump); return r; }();
    static pbt::Shm* shm = pbt::new_shm();
    static std::vector<size_t> idx = [] { std::vector<size_t> r; for (size_t i = 0; i < ts.size(); ++i) if (!ts[i].enumerate && ts[i].quick) r.push_back(i); return r; }();
    static uint64_t execs = 0, nontriv = 0;
    if (n < 2 || idx.empty()) return 0;
    size_t ti = idx[d[0] % idx.size()];
    pbt::cur_shm() = shm; shm->state = 1; shm->case_idx = ti; shm->msg[0] = 0;
    pbt::Source s; s.mode = pbt::Source::BYTES; s.bytes = d + 1; s.nbytes = n - 1; s.shm = shm;
    pbt::Ctx c; c.counting = false; bool sk;
    bool ok = pbt::run_case(ts[ti], s, c, sk);
    ++execs; nontriv += c.nontriv;
    if ((execs & 1023) == 0) if (const char* p = getenv("PBT_FUZZ_STATS")) { FILE* f = fopen(p, "w"); if (f) { fprintf(f, "%llu %llu\n", (unsigned long long)execs, (unsigned long long)nontriv); fclose(f); } }
    if (!ok) { pbt_fuzz_dump(); shm->state = 0; fprintf(stderr, "ORACLE FAILURE: %s\n", shm->msg); abort(); }
    shm->state = 0;
    return 0;
}
#else
int main(int argc, char** argv) { return pbt::main_impl(argc, argv); }
#endif
