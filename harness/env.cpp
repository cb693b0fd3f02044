#include "env.h"
#include <stdlib.h>
#include <string.h>
#include <unordered_map>

// ---------------------------------------------------------------- random
static thread_local Prng rng(1);
thread_local Bytes *env_rand_log = nullptr;
thread_local const Bytes *env_rand_script = nullptr;
thread_local size_t env_rand_script_pos = 0, env_rand_calls = 0, env_rand_bytes_total = 0;
thread_local Prng *env_rand_prng = nullptr;
void (*env_rand_hook)(void *, size_t) = nullptr;

void env_rand_seed(uint64_t seed) {
    rng.reseed(seed);
    env_rand_log = nullptr;
    env_rand_script = nullptr;
    env_rand_script_pos = env_rand_calls = env_rand_bytes_total = 0;
}
extern "C" void __wrap_noise_rand_bytes(void *p, size_t n) {
    uint8_t *b = (uint8_t *)p;
    ++env_rand_calls;
    env_rand_bytes_total += n;
    if (env_rand_hook) env_rand_hook(p, n);
    if (env_rand_prng) { env_rand_prng->fill(b, n); return; }
    size_t i = 0;
    if (env_rand_script)
        for (; i < n && env_rand_script_pos < env_rand_script->size(); ++i)
            b[i] = (*env_rand_script)[env_rand_script_pos++];
    if (i < n) rng.fill(b + i, n - i);
    if (env_rand_log) env_rand_log->insert(env_rand_log->end(), b, b + n);
}

// ---------------------------------------------------------------- malloc
void *(*env_arena)(size_t) = nullptr;       // where to take memory from instead, if it gives any
bool (*env_arena_owns)(void *) = nullptr;
static bool tracking = false;
static size_t live_bytes_ = 0, peak_ = 0;
static uint64_t n_alloc = 0, fail_at = ~0ull;
static bool fail_sticky = false, failed_ = false;
static std::unordered_map<void *, std::pair<size_t, uint64_t>> *live;
struct Secret { Bytes b; std::string name; };
static std::vector<Secret> *secrets;
std::string secret_leak;
uint64_t secret_frees = 0;

static uint64_t epoch;      // how often the tracking was started
void alloc_begin() {
    ++epoch;
    if (!live) live = new std::unordered_map<void *, std::pair<size_t, uint64_t>>;
    live->clear();
    live_bytes_ = peak_ = 0;
    n_alloc = 0; fail_at = ~0ull; failed_ = false; fail_sticky = false;
    tracking = true;
}
void alloc_end() { tracking = false; fail_at = ~0ull; }
size_t alloc_live() { return live ? live->size() : 0; }
size_t alloc_peak() { return peak_; }
size_t alloc_count() { return n_alloc; }
static uint64_t mon_epoch;
static struct Mon {
    Mon() {
        monitor_begin = []() { alloc_begin(); mon_epoch = epoch; };
        monitor_end = []() -> std::string {
            bool mine = epoch == mon_epoch;      // else the case did its own tracking
            tracking = false;
            fail_at = ~0ull;
            if (!mine || !alloc_live()) return "";
            std::string s = strf("%zu blocks (%zu bytes) are still allocated after everything was freed: ", alloc_live(), live_bytes_) + alloc_live_report();
            return s;
        };
    }
} mon_;
void alloc_fail_at(uint64_t n, bool sticky) { fail_at = n; fail_sticky = sticky; failed_ = false; n_alloc = 0; }
bool alloc_failed() { return failed_; }
std::string alloc_live_report() {
    std::string s;
    int k = 0;
    for (auto &p : *live) {
        s += strf("[#%llu %zu bytes] ", (unsigned long long)p.second.second, p.second.first);
        if (++k == 6) break;
    }
    return s;
}
Bytes block_bytes(const void *p) {
    auto it = live->find((void *)p);
    if (it == live->end()) return Bytes();
    return Bytes((const uint8_t *)p, (const uint8_t *)p + it->second.first);
}
std::vector<Bytes> live_blocks() {
    std::vector<Bytes> v;
    for (auto &p : *live) v.push_back(Bytes((uint8_t *)p.first, (uint8_t *)p.first + p.second.first));
    return v;
}
static bool keep_;
static std::vector<std::pair<Bytes, std::string>> kept_;
bool secrets_keeping() { return keep_; }
void secrets_keep(bool on) { keep_ = on; kept_.clear(); }
const std::vector<std::pair<Bytes, std::string>> &secrets_kept() { return kept_; }
void secret_keep(const Bytes &b, const char *name) { if (keep_) kept_.push_back({b, name}); }
void secrets_clear() {
    if (!secrets) secrets = new std::vector<Secret>;
    secrets->clear();
    secret_leak.clear();
    secret_frees = 0;
}
void secret_add(const uint8_t *p, size_t n, const char *name) {
    // low-entropy strings would be found by accident
    if (n < 12) return;
    bool varied = false;
    size_t distinct = 0; bool seen[256] = {0};
    for (size_t i = 0; i < n; ++i) if (!seen[p[i]]) { seen[p[i]] = true; ++distinct; }
    varied = distinct >= 8;
    if (!varied) return;
    secrets->push_back(Secret{Bytes(p, p + n), name});
    if (keep_) kept_.push_back({Bytes(p, p + n), name});
}
static bool should_fail() {
    uint64_t n = n_alloc++;
    if (n == fail_at || (fail_sticky && n > fail_at)) { failed_ = true; return true; }
    return false;
}
static void note_alloc(void *p, size_t n) {
    if (!p) return;
    tracking = false;
    (*live)[p] = {n, n_alloc - 1};
    live_bytes_ += n;
    if (live_bytes_ > peak_) peak_ = live_bytes_;
    tracking = true;
}
static void scan_block(const void *p, size_t n) {
    if (secrets && !secrets->empty()) {
        ++secret_frees;
        for (auto &s : *secrets) {
            // any 8 consecutive bytes of the secret count, where they are
            // varied enough not to be met by accident
            const size_t W = 8;
            if (n < W) continue;
            for (size_t o = 0; o + W <= s.b.size(); o += (s.b.size() > 256 ? 16 : 4)) {
                if (memmem(p, n, s.b.data() + o, W)) {
                    // skip runs without entropy
                    size_t kinds = 0;
                    for (size_t i = 0; i < W; ++i) {
                        bool again = false;
                        for (size_t j = 0; j < i; ++j) if (s.b[o + j] == s.b[o + i]) again = true;
                        kinds += !again;
                    }
                    if (kinds < 6) continue;
                    if (secret_leak.empty()) {
                        tracking = false;
                        secret_leak = s.name + strf(" (offset %zu) is still in a %zu-byte block given back with free", o, n);
                        tracking = true;
                    }
                }
            }
        }
    }
}
static void note_free(void *p) {
    auto it = live->find(p);
    if (it == live->end()) return;
    scan_block(p, it->second.first);
    live_bytes_ -= it->second.first;
    tracking = false;
    live->erase(it);
    tracking = true;
}
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void *__wrap_malloc(size_t n) {
    if (env_arena) if (void *p = env_arena(n)) return p;
    if (!tracking) return __real_malloc(n);
    if (should_fail()) return nullptr;
    void *p = __real_malloc(n);
    note_alloc(p, n);
    return p;
}
void *__wrap_calloc(size_t a, size_t b) {
    if (env_arena) if (void *p = env_arena(a * b)) return memset(p, 0, a * b);
    if (!tracking) return __real_calloc(a, b);
    if (should_fail()) return nullptr;
    void *p = __real_calloc(a, b);
    note_alloc(p, a * b);
    return p;
}
void *__wrap_realloc(void *q, size_t n) {
    if (!tracking) return __real_realloc(q, n);
    if (should_fail()) return nullptr;
    // model realloc as malloc + copy + free, so that secrets left behind show
    auto it = live->find(q);
    if (q && it != live->end()) {
        size_t old = it->second.first;
        void *p = __real_malloc(n);
        if (!p) return nullptr;
        memcpy(p, q, old < n ? old : n);
        note_free(q);
        __real_free(q);
        note_alloc(p, n);
        return p;
    }
    void *p = __real_realloc(q, n);
    note_alloc(p, n);
    return p;
}
void __wrap_free(void *p) {
    if (env_arena_owns && env_arena_owns(p)) return;
    if (tracking && p) note_free(p);
    __real_free(p);
}
}

// ---------------------------------------------------------------- OpenSSL
// Its allocations are counted, failed and scanned like the library's own
// while the gate is open; what it keeps for later is not a leak.
#include <openssl/crypto.h>
bool ossl_gate = false;
struct OHead { uint64_t magic; size_t n; };
static const uint64_t OMAGIC = 0x6f73736c68656164ull;
static long ossl_live = 0;
static void *ossl_malloc(size_t n, const char *, int) {
    if (ossl_gate && tracking && should_fail()) return nullptr;
    if (!n) return nullptr;
    OHead *h = (OHead *)__real_malloc(n + sizeof(OHead));
    if (!h) return nullptr;
    h->magic = OMAGIC; h->n = n;
    ++ossl_live;
    return h + 1;
}
static void ossl_free(void *p, const char *, int) {
    if (!p) return;
    OHead *h = (OHead *)p - 1;
    if (ossl_gate && tracking) scan_block(p, h->n);
    --ossl_live;
    __real_free(h);
}
static void *ossl_realloc(void *p, size_t n, const char *f, int l) {
    if (!p) return ossl_malloc(n, f, l);
    if (!n) { ossl_free(p, f, l); return nullptr; }
    void *q = ossl_malloc(n, f, l);
    if (!q) return nullptr;
    size_t old = ((OHead *)p - 1)->n;
    memcpy(q, p, old < n ? old : n);
    ossl_free(p, f, l);
    return q;
}
bool ossl_hook() { return CRYPTO_set_mem_functions(ossl_malloc, ossl_realloc, ossl_free) == 1; }
static struct MonO {
    MonO() {
        monitor_init = []() { ossl_hook(); };
        monitor_aux = []() { return ossl_live; };
    }
} mono_;
