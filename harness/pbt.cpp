#include "pbt.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <algorithm>
#include <filesystem>
#include <set>
#include <unordered_set>
#include <map>
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#endif

void (*case_setup)(Gen &) = nullptr;
void (*case_teardown)(Gen &, bool) = nullptr;

std::vector<Target> &targets() { static std::vector<Target> t; return t; }

std::string strf(const char *fmt, ...) {
    char buf[8192];
    va_list va; va_start(va, fmt);
    vsnprintf(buf, sizeof buf, fmt, va);
    va_end(va);
    return buf;
}
void case_fail(const char *file, int line, const char *fmt, ...) {
    char buf[6000];
    va_list va; va_start(va, fmt);
    vsnprintf(buf, sizeof buf, fmt, va);
    va_end(va);
    const char *s = strrchr(file, '/');
    throw CaseFail{std::string(s ? s + 1 : file) + ":" + std::to_string(line) + ": " + buf};
}
std::string hex(const uint8_t *p, size_t n, size_t max) {
    static const char d[] = "0123456789abcdef";
    std::string s;
    for (size_t i = 0; i < n && i < max; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
    if (n > max) s += strf("..(%zu)", n);
    return s;
}

static uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9e3779b97f4a7c15ull + b; return splitmix(x); }
void Prng::reseed(uint64_t seed) { for (auto &x : s) x = splitmix(seed); }
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t Prng::next() {
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}
void Prng::fill(uint8_t *p, size_t n) {
    while (n) {
        uint64_t v = next();
        size_t k = n < 8 ? n : 8;
        memcpy(p, &v, k);
        p += k; n -= k;
    }
}

// ---------------------------------------------------------------- shared
static const size_t MAXC = 1 << 16;
static const size_t HSZ = 1 << 18;
struct Label { char name[48]; uint64_t n; };
struct Shm {
    volatile uint64_t n;
    uint64_t c[MAXC];
    uint64_t nraw;                  // choices asked for, past MAXC too
    volatile int target;
    volatile uint64_t case_no;
    volatile uint64_t idx;
    volatile double cpu_start, wall_start;
    volatile int in_case;
    char msg[6400];
    volatile uint64_t evals, nontriv, distinct;
    uint64_t per_target[64];
    uint64_t h[HSZ];
    Label labels[96];
    int nsamples;
    char samples[12][1500];
};
static Shm *cur = nullptr;

static double now(clockid_t c = CLOCK_MONOTONIC) {
    struct timespec t; clock_gettime(c, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

uint64_t Gen::raw(uint64_t max, bool enumerated) {
    uint64_t v;
    if (gen_mode) {
        if (enumerated && max != ~0ull) {
            v = idx % (max + 1);
            idx /= (max + 1);
        } else if (max == ~0ull) v = prng.next();
        else v = prng.next() % (max + 1);
    } else {
        v = in_pos < in_n ? in[in_pos++] : 0;
        if (max != ~0ull && v > max) v = v % (max + 1);
    }
    if (cur) {
        if (cur->n < MAXC) { cur->c[cur->n] = v; cur->n = cur->n + 1; }
        cur->nraw++;
    }
    return v;
}
uint64_t Gen::u(uint64_t max) { if (!max) return 0; return raw(max, false); }
uint64_t Gen::en(uint64_t n) { if (n <= 1) return 0; return raw(n - 1, true); }
Bytes Gen::rnd(size_t n) {
    Bytes b(n);
    if (!n) return b;
    uint64_t seed = u(~0ull);
    Prng p(seed);
    p.fill(b.data(), n);
    return b;
}
Bytes Gen::bytes(size_t n) {
    Bytes b(n);
    if (!n) return b;
    unsigned kind = (unsigned)u(11);
    switch (kind) {
    case 0: break;
    case 1: std::fill(b.begin(), b.end(), 0xff); break;
    case 2: for (size_t i = 0; i < n; ++i) b[i] = (uint8_t)i; break;
    case 3: { size_t i = u(n - 1); b[i] = (uint8_t)(1u << u(7)); } break;
    case 4: std::fill(b.begin(), b.end(), (uint8_t)u(255)); break;
    default: { uint64_t seed = u(~0ull); Prng p(seed); p.fill(b.data(), n); } break;
    }
    return b;
}
size_t Gen::size(size_t max, const std::vector<size_t> &edges) {
    switch (u(edges.empty() ? 5 : 7)) {
    case 0: return u(max < 4 ? max : 4);
    case 1: return u(max < 40 ? max : 40);
    case 2: return u(max < 300 ? max : 300);
    case 3: return u(max < 5000 ? max : 5000);
    case 4: return u(max);
    case 5: { size_t k = u(max < 3 ? max : 3); return max - k; }
    default: { size_t e = edges[u(edges.size() - 1)]; size_t v = e + u(4); v = v < 2 ? 0 : v - 2; return v > max ? max : v; }
    }
}
uint64_t Gen::u64() {
    switch (u(6)) {
    case 0: return u(3);
    case 1: return u(300);
    case 2: return ~0ull - u(4);
    case 3: { unsigned s = u(63); return (1ull << s) - 1 + u(2); }
    case 4: return u(0xffffffffull);
    default: return u(~0ull);
    }
}
void Gen::key(const std::string &k) {
    uint64_t h = has_key ? khash : 0x1234567;
    for (unsigned char ch : k) h = (h ^ ch) * 0x100000001b3ull;
    khash = mix(h, k.size());
    has_key = true;
}
void Gen::label(const char *name) {
    if (!cur) return;
    for (auto &l : cur->labels) {
        if (!l.name[0]) { snprintf(l.name, sizeof l.name, "%s", name); l.n = 1; return; }
        if (!strncmp(l.name, name, sizeof l.name - 1)) { ++l.n; return; }
    }
}
void Gen::note(const char *fmt, ...) {
    if (desc.size() > 1400) return;
    char buf[1500];
    va_list va; va_start(va, fmt);
    vsnprintf(buf, sizeof buf, fmt, va);
    va_end(va);
    desc += buf;
}

// ---------------------------------------------------------------- running
static std::vector<int> sel;         // indexes of the selected targets
static std::vector<double> cumw;
static std::string g_prop, g_stats, g_replaydir, g_scratch;

// Monitors: the cases of any target are run while something else is watched;
// only what the monitor sees counts, and it is reported for property g_as.
static std::string g_as, g_monitor, g_vglog;
void (*monitor_init)() = nullptr;
long (*monitor_aux)() = nullptr;
std::function<void()> monitor_begin;
std::string leak_note;
std::function<std::string()> monitor_end;
void (*stack_begin_hook)() = nullptr;
std::string (*stack_end_hook)() = nullptr;
static std::set<std::string> g_skip;
static bool wanted(const Target &t) {
    if (g_monitor.empty()) return g_prop == t.prop;
    if (g_monitor == "stack") return t.weight > 0 && !strcmp(t.prop, "C24") && !g_skip.count(std::string(t.prop) + "/" + t.name);
    return t.weight > 0 && !g_skip.count(t.prop) && !g_skip.count(std::string(t.prop) + "/" + t.name);
}
static const char *prop_of(const Target &t) { return g_as.empty() ? t.prop : g_as.c_str(); }
static std::string name_of(const Target &t) { return g_as.empty() ? t.name : std::string(t.prop) + "." + t.name; }

static size_t open_fds() {
    size_t n = 0;
    for (int fd = 0; fd < 256; ++fd) if (fcntl(fd, F_GETFD) != -1) ++n;
    return n;
}
static bool run_case0(const Target &t, Gen &g, std::string &msg);
static bool run_case(const Target &t, Gen &g, std::string &msg) {
    if (g_monitor.empty()) return run_case0(t, g, msg);
    bool ok;
    std::string m;
    if (g_monitor == "stack") {
        stack_begin_hook();
        ok = run_case0(t, g, m);
        msg = stack_end_hook();
    } else if (g_monitor == "leak") {
        size_t fds = open_fds();
        long aux = monitor_aux ? monitor_aux() : 0;
        leak_note.clear();
        monitor_begin();
        ok = run_case0(t, g, m);
        msg = monitor_end();
        if (msg.empty() && open_fds() > fds) msg = strf("%zu descriptors are left open", open_fds() - fds);
        if (!leak_note.empty()) msg = leak_note;        // a case that counts for itself found it
        else if (!ok) msg.clear();  // objects may be left behind by the failing case itself
        else if (msg.empty() && strcmp(t.prop, "C25") && monitor_aux && monitor_aux() > aux) {
            // OpenSSL keeps some things for later: a leak grows every time
            std::vector<uint64_t> c(cur->c, cur->c + cur->n);
            int grew = 0;
            for (int k = 0; k < 4 && grew == k; ++k) {
                aux = monitor_aux();
                Gen g2;
                g2.gen_mode = false;
                g2.in = c.data(); g2.in_n = c.size();
                ok = run_case0(t, g2, m);
                if (ok && monitor_aux() > aux) ++grew;
            }
            if (grew == 4) msg = strf("%ld of OpenSSL's objects are still allocated after every run of the case", monitor_aux() - aux);
        }
    } else {
#ifdef RUNNING_ON_VALGRIND
        struct stat st0 = {};
        stat(g_vglog.c_str(), &st0);
        unsigned long before = VALGRIND_COUNT_ERRORS;
        ok = run_case0(t, g, m);
        unsigned long after = VALGRIND_COUNT_ERRORS;
        if (after > before) {
            msg = "use of memory that was never set (or not allocated)";
            std::string me = strf("==%d==", (int)getpid());
            FILE *f = fopen(g_vglog.c_str(), "r");
            if (f) {
                fseek(f, st0.st_size, SEEK_SET);
                char line[600]; int k = 0;
                while (fgets(line, sizeof line, f) && k < 9)
                    if (!strncmp(line, me.c_str(), me.size()) && strlen(line) > me.size() + 2) {
                        std::string l = line + me.size();
                        while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
                        msg += " |" + l.substr(0, 120); ++k;
                    }
                fclose(f);
            }
        }
#else
        ok = run_case0(t, g, m);
#endif
    }
    if (!ok) g.nontriv = false;
    if (!g.desc.empty() && !msg.empty()) msg += " {" + g.desc.substr(0, 300) + "}";
    return msg.empty();
}

// runs one case; returns false (with msg) on failure
static bool run_case0(const Target &t, Gen &g, std::string &msg) {
    cur->n = 0; cur->nraw = 0;
    cur->cpu_start = now(CLOCK_PROCESS_CPUTIME_ID);
    cur->wall_start = now();
    cur->in_case = 1;
    bool ok = true;
    try {
        if (case_setup) case_setup(g);
        t.fn(g);
        if (case_teardown) case_teardown(g, false);
    } catch (CaseFail &f) {
        ok = false;
        msg = f.msg;
    } catch (std::exception &e) {
        ok = false;
        msg = std::string("exception: ") + e.what();
    }
    if (!ok && case_teardown) { try { case_teardown(g, true); } catch (...) {} }
    if (!ok && !g.desc.empty()) msg += " {" + g.desc.substr(0, 400) + "}";
    cur->in_case = 0;
    return ok;
}

static void account(const Target &t, int ti, Gen &g) {
    cur->evals = cur->evals + 1;
    cur->per_target[ti]++;
    if (!g.nontriv) return;
    cur->nontriv = cur->nontriv + 1;
    uint64_t h = ti + 77;
    if (g.has_key) h = mix(h, g.khash);
    else for (size_t i = 0; i < cur->n; ++i) h = mix(h, cur->c[i]);
    if (!h) h = 1;
    size_t p = h % HSZ;
    for (size_t k = 0; k < 64; ++k, p = (p + 1) % HSZ) {
        if (cur->h[p] == h) return;
        if (!cur->h[p]) { cur->h[p] = h; cur->distinct = cur->distinct + 1; break; }
    }
    uint64_t e = cur->per_target[ti];
    if (cur->nsamples < 12 && (e & (e - 1)) == 0 && (e >= 4 || t.weight == 0) && !g.desc.empty()) {
        snprintf(cur->samples[cur->nsamples], sizeof cur->samples[0], "%s/%s: %s", t.prop, t.name, g.desc.c_str());
        cur->nsamples = cur->nsamples + 1;
    }
}

[[noreturn]] static void worker(int w, int nw, uint64_t seed, double until, double hard, uint64_t mincases) {
    for (uint64_t i = 0;; ++i) {
        double t0 = now();
        uint64_t no = i * nw + w;
        if (t0 > hard || (t0 > until && no >= mincases)) break;
        Prng pr(mix(mix(seed, 0xabcdef), no));
        // stratified choice of target: the fractional part of a Weyl sequence
        double x = (double)((no * 0x9e3779b97f4a7c15ull) >> 11) / 9007199254740992.0 * cumw.back();
        int ti = 0;
        while (ti + 1 < (int)sel.size() && x >= cumw[ti]) ++ti;
        Gen g;
        g.gen_mode = true;
        g.prng.reseed(pr.next());
        // index among this target's cases, roughly dense over all workers
        g.idx = cur->per_target[ti] * nw + w;
        cur->idx = g.idx;
        cur->target = ti;
        cur->case_no = no;
        std::string msg;
        const Target &t = targets()[sel[ti]];
        if (!run_case(t, g, msg)) {
            snprintf(cur->msg, sizeof cur->msg, "%s", msg.c_str());
            _exit(77);
        }
        account(t, ti, g);
    }
    _exit(0);
}

struct Result { bool failed; std::string msg; std::vector<uint64_t> used; };

static std::string tail(const std::string &path) {
    FILE *f = fopen(path.c_str(), "rb");
    if (!f) return "";
    std::string s; char buf[4096]; size_t n;
    while ((n = fread(buf, 1, sizeof buf, f)) > 0 && s.size() < 65536) s.append(buf, n);
    fclose(f);
    // the interesting line of a sanitizer report
    for (const char *k : {"SUMMARY:", "runtime error:", "ERROR:"}) {
        size_t p = s.find(k);
        if (p != std::string::npos) {
            size_t a = s.rfind('\n', p), e = s.find('\n', p);
            a = a == std::string::npos ? 0 : a + 1;
            std::string line = s.substr(a, (e == std::string::npos ? s.size() : e) - a);
            size_t q = s.find("ERROR: AddressSanitizer");
            if (q != std::string::npos && k[0] == 'S') {
                size_t e2 = s.find('\n', q);
                line += " | " + s.substr(q, std::min<size_t>(e2 - q, 200));
            }
            return line;
        }
    }
    return s.substr(0, 300);
}

static double hang_cpu = 60, hang_wall = 400;

// waits for a child that may hang; returns wait status, or -1 for a hang
static int wait_child(pid_t pid, Shm *shm) {
    clockid_t cid;
    bool havec = clock_getcpuclockid(pid, &cid) == 0;
    for (int spin = 0;; ++spin) {
        int st;
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) return st;
        if (spin > 20) usleep(spin > 200 ? 5000 : 500);
        else usleep(100);
        if (shm->in_case) {
            double cpu = havec ? now(cid) - shm->cpu_start : 0;
            if (cpu > hang_cpu || now() - shm->wall_start > hang_wall) {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                return -1;
            }
        }
    }
}

static void redirect(const std::string &path) {
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
}

static Result try_choices(const Target &t, const std::vector<uint64_t> &c, Shm *shm) {
    memset((void *)shm, 0, offsetof(Shm, h));
    std::string log = g_scratch + "/try.log";
    pid_t pid = fork();
    if (pid == 0) {
        redirect(log);
        cur = shm;
        Gen g;
        g.gen_mode = false;
        g.in = c.data(); g.in_n = c.size();
        std::string msg;
        bool ok = run_case(t, g, msg);
        snprintf(shm->msg, sizeof shm->msg, "%s", msg.c_str());
        _exit(ok ? 0 : 77);
    }
    int st = wait_child(pid, shm);
    Result r;
    r.failed = false;
    if (st == -1) { r.failed = true; r.msg = "hang: the case did not finish"; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) r.failed = false;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { r.failed = true; r.msg = shm->msg; }
    else {
        r.failed = true;
        r.msg = strf("crash (%s %d): %s", WIFSIGNALED(st) ? "signal" : "exit",
                     WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), tail(log).c_str());
    }
    r.used.assign(shm->c, shm->c + shm->n);
    return r;
}

static std::vector<uint64_t> shrink(const Target &t, std::vector<uint64_t> c, Shm *shm, std::string &msg, double budget) {
    double end = now() + budget;
    auto attempt = [&](std::vector<uint64_t> v) {
        if (now() > end) return false;
        Result r = try_choices(t, v, shm);
        if (!r.failed) return false;
        if (msg.substr(0, 4) != "hang" && r.msg.substr(0, 4) == "hang") return false;
        if (r.used.size() < v.size()) v = r.used;
        c = v; msg = r.msg;
        return true;
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t len = std::max<size_t>(1, c.size() / 2); len >= 1 && now() < end; len /= 2) {
            for (size_t i = c.size(); i >= len && now() < end;) {
                size_t at = i - len;
                if (at + len <= c.size()) {
                    std::vector<uint64_t> v(c);
                    v.erase(v.begin() + at, v.begin() + at + len);
                    if (attempt(v)) { progress = true; i = std::min(i, c.size()); if (i < len) break; continue; }
                }
                if (i < len + len) { if (i == len) break; i = len; } else i -= len;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < c.size() && now() < end; ++i) {
            if (!c[i]) continue;
            std::vector<uint64_t> v(c);
            v[i] = 0;
            if (attempt(v)) { progress = true; continue; }
            for (uint64_t d = c[i] / 2; d > 0 && i < c.size() && now() < end; d /= 2) {
                if (c[i] < d) continue;
                v = c; v[i] = c[i] - d;
                if (attempt(v)) progress = true;
            }
        }
    }
    return c;
}

static std::string esc(const std::string &s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch < 32 || ch > 126) o += strf("\\u%04x", ch);
        else o += ch;
    }
    return o;
}

static void write_stats(std::vector<Shm *> &shms, double wall, int violations) {
    if (g_stats.empty()) return;
    uint64_t ev = 0, nt = 0;
    std::unordered_set<uint64_t> d;
    std::map<std::string, uint64_t> lab;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> per;
    for (Shm *s : shms) {
        ev += s->evals; nt += s->nontriv;
        for (size_t i = 0; i < HSZ; ++i) if (s->h[i]) d.insert(s->h[i]);
        for (auto &l : s->labels) if (l.name[0]) lab[l.name] += l.n;
        for (size_t i = 0; i < sel.size(); ++i) per[name_of(targets()[sel[i]])] += s->per_target[i];
    }
    // a few samples of each target
    std::map<std::string, int> cnt;
    for (int k = 0; k < 12; ++k)
        for (Shm *s : shms)
            if (k < s->nsamples) {
                std::string x = s->samples[k];
                std::string tn = x.substr(0, x.find(':'));
                if (cnt[tn] < 3) { cnt[tn]++; samples.push_back(x); }
            }
    FILE *f = fopen(g_stats.c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %zu, \"wall_s\": %.2f, \"violations\": %d,\n",
            (unsigned long long)ev, (unsigned long long)nt, d.size(), wall, violations);
    fprintf(f, " \"rules\": {");
    for (size_t i = 0; i < sel.size(); ++i)
        fprintf(f, "%s\"%s\": \"%s\"", i ? ", " : "", name_of(targets()[sel[i]]).c_str(), esc(targets()[sel[i]].rule).c_str());
    fprintf(f, "},\n \"per_target\": {");
    bool first = true;
    for (auto &p : per) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", p.first.c_str(), (unsigned long long)p.second); first = false; }
    fprintf(f, "},\n \"labels\": {");
    first = true;
    for (auto &p : lab) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", esc(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(f, "},\n \"samples\": [");
    for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? ",\n  " : "", esc(samples[i]).c_str());
    fprintf(f, "]}\n");
    fclose(f);
}

static Shm *new_shm() {
    void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shm *)p;
}

static int report(const Target &t, const std::vector<uint64_t> &c, const std::string &msg, const char *backend) {
    mkdir(g_replaydir.c_str(), 0755);
    uint64_t h = 1;
    for (uint64_t v : c) h = mix(h, v);
    std::string path = strf("%s/%s-%s-%s-%08llx.txt", g_replaydir.c_str(), prop_of(t), name_of(t).c_str(), backend,
                            (unsigned long long)(h & 0xffffffff));
    FILE *f = fopen(path.c_str(), "w");
    if (f) {
        fprintf(f, "# %s\nprop %s\ntarget %s\nbackend %s\nchoices", std::string(msg).substr(0, 1000).c_str(), prop_of(t), name_of(t).c_str(), backend);
        // newlines in the message must not break the file
        for (uint64_t v : c) fprintf(f, " %llu", (unsigned long long)v);
        fprintf(f, "\n");
        fclose(f);
    }
    printf("FAIL [%s] %s/%s: %s\n", backend, prop_of(t), name_of(t).c_str(), msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", prop_of(t), path.c_str());
    fflush(stdout);
    return 1;
}

#ifndef PBT_NO_MAIN
std::string g_backend = "none";
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:exitcode=98"; }
extern "C" const char *__tsan_default_options() { return "exitcode=97:halt_on_error=1"; }

#ifndef PBT_NO_MAIN
int main(int argc, char **argv) {
    uint64_t seed = 1, mincases = 0;
    double tlimit = 10, hard = 600, shrink_s = 45;
    int procs = 8;
    std::string replay, only;
    bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> const char * { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") g_prop = val();
        else if (a == "--target") only = val();
        else if (a == "--seed") seed = strtoull(val(), 0, 10);
        else if (a == "--time") tlimit = atof(val());
        else if (a == "--hard") hard = atof(val());
        else if (a == "--min") mincases = strtoull(val(), 0, 10);
        else if (a == "--procs") procs = atoi(val());
        else if (a == "--stats") g_stats = val();
        else if (a == "--replaydir") g_replaydir = val();
        else if (a == "--scratch") g_scratch = val();
        else if (a == "--replay") replay = val();
        else if (a == "--shrink") shrink_s = atof(val());
        else if (a == "--hang") hang_cpu = atof(val());
        else if (a == "--backend") g_backend = val();
        else if (a == "--as") g_as = val();
        else if (a == "--monitor") g_monitor = val();
        else if (a == "--vglog") g_vglog = val();
        else if (a == "--skip") { std::string v = val(); for (size_t p = 0; p < v.size();) { size_t q = v.find(',', p); if (q == std::string::npos) q = v.size(); g_skip.insert(v.substr(p, q - p)); p = q + 1; } }
        else if (a == "--list") list = true;
    }
    if (list) {
        for (auto &t : targets()) printf("%s %s %g\n", t.prop, t.name, t.weight);
        return 0;
    }
    if (g_scratch.empty()) {
        char tmpl[] = "/tmp/pbtXXXXXX";
        if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; }
        g_scratch = tmpl;
        static pid_t self = getpid();
        atexit([] { if (getpid() == self) { std::error_code ec; std::filesystem::remove_all(g_scratch, ec); } });
    } else mkdir(g_scratch.c_str(), 0755);
    if (g_replaydir.empty()) g_replaydir = g_scratch;
    signal(SIGPIPE, SIG_IGN);
    if (g_monitor == "leak" && monitor_init) monitor_init();
    setenv("PBT_SCRATCH", g_scratch.c_str(), 1);
    Shm *tshm = new_shm();

    if (!replay.empty()) {
        FILE *f = fopen(replay.c_str(), "r");
        if (!f) { perror(replay.c_str()); return 3; }
        std::string prop, tn; std::vector<uint64_t> c;
        char *line = nullptr; size_t cap = 0; ssize_t n;
        while ((n = getline(&line, &cap, f)) > 0) {
            if (!strncmp(line, "prop ", 5)) { prop = line + 5; prop.erase(prop.find_last_not_of(" \n") + 1); }
            else if (!strncmp(line, "target ", 7)) { tn = line + 7; tn.erase(tn.find_last_not_of(" \n") + 1); }
            else if (!strncmp(line, "choices", 7)) {
                char *p = line + 7, *e;
                for (;;) { uint64_t v = strtoull(p, &e, 10); if (e == p) break; c.push_back(v); p = e; }
            }
        }
        fclose(f);
        for (auto &t : targets())
            if (prop == prop_of(t) && tn == name_of(t)) {
                Result r = try_choices(t, c, tshm);
                if (r.failed) {
                    printf("FAIL %s/%s: %s\nVIOLATION property=%s replay=%s\n", prop_of(t), name_of(t).c_str(), r.msg.c_str(), prop_of(t), replay.c_str());
                    printf("%s\n", tail(g_scratch + "/try.log").c_str());
                    return 1;
                }
                printf("replay passes\n");
                return 0;
            }
        printf("no such target\n");
        return 3;
    }

    double acc = 0;
    for (size_t i = 0; i < targets().size(); ++i)
        if (wanted(targets()[i]) && (only.empty() ? targets()[i].weight > 0 : only == name_of(targets()[i]))) {
            sel.push_back((int)i);
            acc += targets()[i].weight > 0 && g_monitor.empty() ? targets()[i].weight : 1;
            cumw.push_back(acc);
        }
    if (sel.empty()) { fprintf(stderr, "no targets for %s\n", g_prop.c_str()); return 3; }
    double t0 = now();
    std::vector<Shm *> shms;
    std::vector<pid_t> pids;
    for (int w = 0; w < procs; ++w) {
        shms.push_back(new_shm());
        pid_t pid = fork();
        if (pid == 0) {
            redirect(g_scratch + "/w" + std::to_string(w) + ".log");
            cur = shms[w];
            worker(w, procs, seed, t0 + tlimit, t0 + std::max(tlimit, hard), mincases);
        }
        pids.push_back(pid);
    }
    int bad = -1; std::string msg;
    std::vector<bool> done(procs, false);
    int left = procs;
    while (left > 0) {
        usleep(20000);
        for (int w = 0; w < procs; ++w) {
            if (done[w]) continue;
            int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
            std::string m;
            if (r == 0) {
                clockid_t cid;
                if (shms[w]->in_case) {
                    double cpu = clock_getcpuclockid(pids[w], &cid) == 0 ? now(cid) - shms[w]->cpu_start : 0;
                    if (cpu > hang_cpu || now() - shms[w]->wall_start > hang_wall) {
                        kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0);
                        m = "hang: the case did not finish";
                    }
                }
                if (m.empty()) continue;
            } else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { done[w] = true; --left; continue; }
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) m = shms[w]->msg;
            else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "worker killed (out of memory?)\n"); done[w] = true; --left; continue; }
            else m = strf("crash (%s %d): %s", WIFSIGNALED(st) ? "signal" : "exit",
                          WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st),
                          tail(g_scratch + "/w" + std::to_string(w) + ".log").c_str());
            done[w] = true; --left;
            if (bad < 0) { bad = w; msg = m; }
        }
        if (bad >= 0) break;
    }
    if (bad >= 0) {
        for (int w = 0; w < procs; ++w) if (!done[w]) { kill(pids[w], SIGKILL); waitpid(pids[w], nullptr, 0); }
        Shm *s = shms[bad];
        const Target &t = targets()[sel[s->target]];
        std::vector<uint64_t> c(s->c, s->c + s->n);
        fprintf(stderr, "failing case: %s/%s case %llu (%zu choices): %s\n", t.prop, t.name,
                (unsigned long long)s->case_no, c.size(), msg.c_str());
        // must reproduce three times from its recorded choices
        int rep = 0; Result r;
        for (int k = 0; k < 3; ++k) { r = try_choices(t, c, tshm); if (r.failed) ++rep; }
        if (rep == 0) {
            // Perhaps state left by earlier cases of the same worker mattered:
            // report it all the same only if a fresh run of that worker fails again.
            fprintf(stderr, "not reproduced in isolation; re-running the history of worker %d\n", bad);
            uint64_t target_no = s->case_no;
            memset((void *)tshm, 0, sizeof(Shm));
            pid_t pid = fork();
            if (pid == 0) {
                redirect(g_scratch + "/hist.log");
                cur = tshm;
                for (uint64_t i = 0;; ++i) { if (i * procs + bad > target_no) _exit(0); else break; }
                worker(bad, procs, seed, 0, now() + 3600, target_no + 1);
            }
            int st = wait_child(pid, tshm);
            if (st == -1 || !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) rep = 3;
            if (rep) msg += " (depends on the preceding cases of the run)";
        }
        int rc = 0;
        if (rep > 0) {
            if (r.failed && msg.find("depends on") == std::string::npos) { msg = r.msg; c = shrink(t, c, tshm, msg, shrink_s); }
            std::replace(msg.begin(), msg.end(), '\n', ' ');
            rc = report(t, c, msg, g_backend.c_str());
        } else {
            fprintf(stderr, "failure could not be reproduced (%s); ignored\n", msg.c_str());
        }
        write_stats(shms, now() - t0, rc);
        return rc;
    }
    write_stats(shms, now() - t0, 0);
    return 0;
}
#endif
#endif
