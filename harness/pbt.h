// Small property-based-testing runner: a case is a function of a sequence of
// choices; the sequence is generated from a seed, recorded in shared memory
// (so that a crash loses nothing), shrunk and replayed.
#ifndef PBT_H
#define PBT_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>

typedef std::vector<uint8_t> Bytes;

struct CaseFail { std::string msg; };
[[noreturn]] void case_fail(const char *file, int line, const char *fmt, ...)
    __attribute__((format(printf, 3, 4)));
#define FAILF(...) case_fail(__FILE__, __LINE__, __VA_ARGS__)
#define CHECK(c, ...) do { if (!(c)) FAILF(__VA_ARGS__); } while (0)
#define CHECK_EQ(a, b, what) do { long long _a = (long long)(a), _b = (long long)(b); \
    if (_a != _b) FAILF("%s: got %lld (0x%llx), expected %lld (0x%llx)", what, _a, _a, _b, _b); } while (0)

std::string hex(const uint8_t *p, size_t n, size_t max = 48);
inline std::string hex(const Bytes &b, size_t max = 48) { return hex(b.data(), b.size(), max); }
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

struct Prng {
    uint64_t s[4];
    explicit Prng(uint64_t seed = 0) { reseed(seed); }
    void reseed(uint64_t seed);
    uint64_t next();
    void fill(uint8_t *p, size_t n);
};

class Gen {
public:
    // integer in [0, max]; shrinks towards 0
    uint64_t u(uint64_t max);
    // integer in [lo, hi]
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)u((uint64_t)(hi - lo)); }
    // like u(n-1), but the first cases of a run enumerate the product space
    uint64_t en(uint64_t n);
    bool chance(unsigned num, unsigned den) { return u(den - 1) >= den - num; }
    bool flip() { return u(1) != 0; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[u(v.size() - 1)]; }
    // contents chosen by kind: zeros, ones, counting, random, few bits, ...
    Bytes bytes(size_t n);
    void fill(uint8_t *p, size_t n) { Bytes b = bytes(n); for (size_t i = 0; i < n; ++i) p[i] = b[i]; }
    Bytes rnd(size_t n);              // always (pseudo)random contents
    // size biased towards small values, `edges`, and max
    size_t size(size_t max, const std::vector<size_t> &edges = {});
    uint64_t u64();                   // biased 64-bit value
    void nontrivial(bool v = true) { nontriv = v; }
    void key(const std::string &k);   // what makes the case distinct (adds up)
    void label(const char *name);     // class counters
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));  // appended to the sample text

    // internals
    bool gen_mode = true;
    Prng prng;
    const uint64_t *in = nullptr;
    size_t in_n = 0, in_pos = 0;
    uint64_t idx = 0;
    bool nontriv = false;
    uint64_t khash = 0;
    bool has_key = false;
    std::string desc;
private:
    uint64_t raw(uint64_t max, bool enumerated);
};

typedef void (*TargetFn)(Gen &);
struct Target {
    const char *prop, *name;
    TargetFn fn;
    double weight;
    const char *rule;
};
std::vector<Target> &targets();
struct RegisterTarget {
    RegisterTarget(const char *p, const char *n, TargetFn f, double w, const char *rule) {
        targets().push_back(Target{p, n, f, w, rule});
    }
};
// TARGET(C01, name, weight, "rule") { body using g }
#define TARGET(prop, name, weight, rule) \
    static void target_##prop##_##name(Gen &g); \
    static RegisterTarget reg_##prop##_##name(#prop, #name, target_##prop##_##name, weight, rule); \
    static void target_##prop##_##name(Gen &g)

// the same check for another property
#define ALSO(prop2, prop, name, weight, rule) \
    static RegisterTarget reg_##prop2##_##name(#prop2, #name, target_##prop##_##name, weight, rule);

extern std::string leak_note;        // a leak found by a case that does its own counting
// what the leak monitor counts (set by env.cpp)
extern std::function<void()> monitor_begin;
extern void (*monitor_init)();
extern long (*monitor_aux)();        // objects of OpenSSL's alive
extern void (*stack_begin_hook)();
extern std::string (*stack_end_hook)();
extern std::function<std::string()> monitor_end;   // -> what is wrong, or ""

extern std::string g_backend;   // ref, sodium or openssl

// called before and after every case
extern void (*case_setup)(Gen &);
extern void (*case_teardown)(Gen &, bool failed);

#endif
