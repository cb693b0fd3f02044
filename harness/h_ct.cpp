// C34: what is executed and which addresses are touched does not depend on
// secrets.  The library is compiled so that every basic block and every load
// and store calls back here; one operation is run with two sets of secrets of
// the same sizes and otherwise equal inputs, and the two traces must be equal.
#include "nutil.h"
#include "pbt.h"
#include <dlfcn.h>
#include <stdlib.h>
#include <unistd.h>

// ------------------------------------------------------------------ arena
// Allocations come from the same addresses in both runs.
extern void *(*env_arena)(size_t);
extern bool (*env_arena_owns)(void *);
static uint8_t *arena_base;
static size_t arena_pos;
static const size_t ARENA = 8 << 20;
static bool arena_on;
static void *arena_get(size_t n) {
    if (!arena_on) return nullptr;
    arena_pos = (arena_pos + 15) & ~(size_t)15;
    if (arena_pos + n > ARENA) return nullptr;
    void *p = arena_base + arena_pos;
    arena_pos += n;
    return p;
}
static bool arena_has(void *p) { return arena_base && p >= arena_base && p < arena_base + ARENA; }

// ------------------------------------------------------------------ trace
static bool on;
static std::vector<uint64_t> *rec;       // the run being recorded
static const std::vector<uint64_t> *ref; // the run compared with
static size_t pos, diff_at;
static bool differs;
static uint64_t exp_ev, got_ev;
static const uint64_t PC = 1ull << 63, LIB = 1ull << 62;
static inline void ev(uint64_t v) {
    if (rec) { on = false; rec->push_back(v); on = true; return; }      // (what push_back calls is not the library's)
    if (differs) return;
    if (pos >= ref->size() || (*ref)[pos] != v) { differs = true; diff_at = pos; got_ev = v; exp_ev = pos < ref->size() ? (*ref)[pos] : 0; }
    ++pos;
}
extern "C" {
void __sanitizer_cov_trace_pc() { if (on) ev(PC | (uint64_t)__builtin_return_address(0)); }
#define LS(n) \
    void __sanitizer_cov_load##n(void *p) { if (on) ev((uint64_t)p); } \
    void __sanitizer_cov_store##n(void *p) { if (on) ev((uint64_t)p); }
LS(1) LS(2) LS(4) LS(8) LS(16)
// what the C library does with its arguments
int __real_memcmp(const void *, const void *, size_t);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
static size_t first_diff(const void *a, const void *b, size_t n) {
    size_t i = 0;
    while (i < n && ((const uint8_t *)a)[i] == ((const uint8_t *)b)[i]) ++i;
    return i;
}
int __wrap_memcmp(const void *a, const void *b, size_t n) {
    if (on) { ev((uint64_t)a); ev((uint64_t)b); ev(LIB | n); ev(LIB | 0x100000000ull | first_diff(a, b, n)); }
    return __real_memcmp(a, b, n);
}
int __real_bcmp(const void *, const void *, size_t);
int __wrap_bcmp(const void *a, const void *b, size_t n) {
    if (on) { ev((uint64_t)a); ev((uint64_t)b); ev(LIB | n); ev(LIB | 0x100000000ull | first_diff(a, b, n)); }
    return __real_memcmp(a, b, n);
}
void *__wrap_memcpy(void *a, const void *b, size_t n) {
    if (on) { ev((uint64_t)a); ev((uint64_t)b); ev(LIB | n); }
    return __real_memcpy(a, b, n);
}
void *__wrap_memmove(void *a, const void *b, size_t n) {
    if (on) { ev((uint64_t)a); ev((uint64_t)b); ev(LIB | n); }
    return __real_memmove(a, b, n);
}
void *__wrap_memset(void *a, int c, size_t n) {
    if (on) { ev((uint64_t)a); ev(LIB | n); }
    return __real_memset(a, c, n);
}
size_t __real_strlen(const char *);
size_t __wrap_strlen(const char *s) {
    size_t n = __real_strlen(s);
    if (on) { ev((uint64_t)s); ev(LIB | n); }
    return n;
}
}
static std::string where(uint64_t v) {
    if (!(v & PC)) return v & LIB ? strf("a length or position of %llu in a C library call", (unsigned long long)(v & 0xffffffff)) : strf("address %llx", (unsigned long long)v);
    uint64_t pc = v & ~PC;
    Dl_info di;
    std::string s = strf("pc %llx", (unsigned long long)pc);
    if (!dladdr((void *)pc, &di)) return s;
    char exe[512]; ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (k <= 0) return s;
    exe[k] = 0;
    FILE *f = popen(strf("addr2line -f -s -e '%s' 0x%llx 2>/dev/null", exe, (unsigned long long)(pc - (uint64_t)di.dli_fbase - 1)).c_str(), "r");
    if (!f) return s;
    char fn[200] = "", ln[200] = "";
    if (fgets(fn, sizeof fn, f) && fgets(ln, sizeof ln, f)) { fn[strcspn(fn, "\n")] = 0; ln[strcspn(ln, "\n")] = 0; s = std::string(fn) + " " + ln; }
    pclose(f);
    return s;
}

static void reset_rng(const Bytes *script) {
    env_rand_seed(42);
    env_rand_script = script;
    env_rand_script_pos = 0;
}
// A secret: two values of one size; get() gives the one of the current run.
static int run_no;
static uint8_t *pool;           // the same places in every run
static size_t pool_pos;
static const size_t POOL = 1 << 20;
struct Secret2 { Bytes v[2]; const Bytes &get() const { return v[run_no]; } };
static Secret2 secret(Gen &g, size_t n) {
    Secret2 s;
    s.v[0] = g.bytes(n);
    s.v[1] = g.bytes(n);
    if (g.chance(1, 4)) {       // nearly the same
        s.v[1] = s.v[0];
        if (n) s.v[1][g.u(n - 1)] ^= (uint8_t)(1u << g.u(7));
    }
    return s;
}
static Secret2 same(const Bytes &b) { Secret2 s; s.v[0] = s.v[1] = b; return s; }
// a copy of data in the pool: at the same address in every run
static uint8_t *put(const Bytes &b, size_t room = 0) {
    pool_pos = (pool_pos + 15) & ~(size_t)15;
    uint8_t *p = pool + pool_pos;
    size_t n = b.size() > room ? b.size() : room;
    CHECK(pool_pos + n + 64 <= POOL, "harness: pool is full");
    memset(p, 0, n + 16);
    if (!b.empty()) memcpy(p, b.data(), b.size());
    pool_pos += n + 16;
    return p;
}
struct Traced { Traced() { on = true; } ~Traced() { on = false; } };
#define T(x) ([&]() { Traced t_; return (x); }())

static uint64_t events;
__attribute__((noinline)) static void one(std::function<void()> &f, int r) {
    run_no = r;
    arena_pos = pool_pos = 0;
    memset(arena_base, 0, 1 << 16);
    arena_on = true;
    struct Off { ~Off() { on = false; arena_on = false; } } off;
    f();
}
// f: the operation; what it does with T() is traced
static void compare(Gen &g, std::function<void()> f) {
    if (!arena_base) {
        arena_base = (uint8_t *)aligned_alloc(4096, ARENA);
        pool = (uint8_t *)aligned_alloc(4096, POOL);
        memset(arena_base, 0, ARENA);
        memset(pool, 0, POOL);
    }
    static std::vector<uint64_t> a, warm;
    // once to settle what is set up on first use, twice with the same secrets
    rec = &warm; warm.clear();
    one(f, 0);
    rec = &a; a.clear();
    one(f, 0);
    rec = nullptr; ref = &a;
    differs = false; pos = 0;
    one(f, 0);
    if (differs || pos != a.size()) { g.label("trace not repeatable"); g.nontriv = false; return; }
    differs = false; pos = 0;
    one(f, 1);
    if (!differs && pos != a.size()) { differs = true; diff_at = pos; got_ev = 0; exp_ev = a[pos]; }
    events = a.size();
    if (differs) {
        uint64_t last = 0;
        for (size_t i = diff_at; i-- > 0;) if (a[i] & PC) { last = a[i]; break; }
        FAILF("what is executed depends on the secret: step %zu, after %s, is %s with one secret and %s with another", diff_at, where(last).c_str(), where(exp_ev).c_str(), where(got_ev).c_str());
    }
    g.label(a.size() > 100000 ? "over 100000 steps" : a.size() > 1000 ? "over 1000 steps" : "up to 1000 steps");
    g.nontrivial(a.size() >= 10);
}
static void setup(Gen &) { env_rand_seed(42); on = false; }
static struct Init { Init() { case_setup = setup; env_arena = arena_get; env_arena_owns = arena_has; } } init_;

// ------------------------------------------------------------------ targets
TARGET(C34, compare, 2, "noise_is_equal and noise_is_zero on blocks of 1 to 300 bytes that are equal or differ anywhere; distinct by size and places of the differences") {
    size_t n = 1 + g.u(g.flip() ? 63 : 299);
    Bytes base = g.bytes(n);
    Secret2 x = same(base), y = same(base), z = same(Bytes(n, 0));
    std::string key = strf("%zu", n);
    for (int r = 0; r < 2; ++r) {
        if (g.chance(3, 4)) { size_t p = g.u(n - 1); y.v[r][p] ^= (uint8_t)(1 + g.u(254)); key += strf(",%zu", p); }
        if (g.chance(3, 4)) { size_t p = g.u(n - 1); z.v[r][p] = (uint8_t)(1 + g.u(254)); key += strf("/%zu", p); }
    }
    g.note("%zu bytes, differences %s", n, key.c_str());
    g.key(key);
    compare(g, [&]() {
        uint8_t *a = put(x.get()), *b = put(y.get()), *c = put(z.get());
        T((noise_is_equal(a, b, n), noise_is_equal(b, a, n)));
        T(noise_is_zero(c, n));
    });
}
TARGET(C34, dh, 3, "X25519 and X448: key objects set from, generated from and used with two private keys against one public key (ordinary, zero, of small order or arbitrary), refused with two halves that do not match, and used with a null and another public key; distinct by algorithm, kind and keys") {
    bool c448 = g.flip();
    int id = c448 ? NOISE_DH_CURVE448 : NOISE_DH_CURVE25519;
    size_t n = c448 ? 56 : 32;
    Secret2 k = secret(g, n);
    ODH od = c448 ? O_448 : O_25519;
    Bytes pub;
    int kind = (int)g.u(4);
    switch (kind) {
    case 0: pub = Bytes(n, 0); break;
    case 1: pub = Bytes(n, 0); pub[0] = 1; break;
    case 2: pub = g.bytes(n); break;
    default: pub = o_dh_public(od, g.rnd(n));
    }
    int how = (int)g.u(4);
    g.note("%s, private key %s, public key kind %d", c448 ? "X448" : "X25519", how == 0 ? "set" : how == 1 ? "set with its public key" : how == 2 ? "generated" : how == 3 ? "refused with another's public key" : "used with a null public key or not", kind);
    g.key(strf("%d%d%d", c448, how, kind) + hex(k.v[0], 60) + hex(k.v[1], 60));
    Secret2 kp;
    for (int r = 0; r < 2; ++r) {
        kp.v[r] = o_dh_public(od, k.v[r]);
        if (how == 3) kp.v[r][g.u(n - 1)] ^= 1 << g.u(7);
        if (how == 4) kp.v[r] = r ? pub : Bytes(n, 0);
    }
    compare(g, [&]() {
        NoiseDHState *a, *b;
        if (how == 4) {            // one private key, a null public key and another
            CHECK_EQ(noise_dhstate_new_by_id(&a, id), 0, "new");
            CHECK_EQ(noise_dhstate_new_by_id(&b, id), 0, "new");
            uint8_t *kb = put(k.v[0]), *pp = put(kp.get()), *out = put(Bytes(), n);
            CHECK_EQ(noise_dhstate_set_keypair_private(a, kb, n), 0, "key pair");
            CHECK_EQ(noise_dhstate_set_public_key(b, pp, n), 0, "public key");
            T(noise_dhstate_calculate(a, b, out, n));
            T(noise_dhstate_is_null_public_key(b));
            noise_dhstate_free(a);
            noise_dhstate_free(b);
            return;
        }
        CHECK_EQ(noise_dhstate_new_by_id(&a, id), 0, "new");
        CHECK_EQ(noise_dhstate_new_by_id(&b, id), 0, "new");
        uint8_t *kb = put(k.get()), *pb = put(kp.get()), *pp = put(pub), *out = put(Bytes(), n);
        reset_rng(&k.get());
        int e = how == 0 ? T(noise_dhstate_set_keypair_private(a, kb, n)) : how == 1 || how == 3 ? T(noise_dhstate_set_keypair(a, kb, n, pb, n)) : T(noise_dhstate_generate_keypair(a));
        CHECK_EQ(e, how == 3 ? NOISE_ERROR_INVALID_PUBLIC_KEY : 0, "key pair");
        if (how != 3 && noise_dhstate_set_public_key(b, pp, n) == 0) T(noise_dhstate_calculate(a, b, out, n));
        T(noise_dhstate_clear_key(a));
        T(noise_dhstate_free(a));
        noise_dhstate_free(b);
    });
}
TARGET(C34, newhope, 1, "New Hope: both sides' key generation and shared secret with two sets of private randomness for one public seed; distinct by seeds") {
    Bytes seed = g.rnd(32);
    Secret2 a = secret(g, 32), b = secret(g, 32);
    Secret2 whole;
    for (int r = 0; r < 2; ++r) whole.v[r] = a.v[r] + seed;
    bool order = g.flip();
    if (order) for (int r = 0; r < 2; ++r) whole.v[r] = seed + a.v[r];
    g.note("New Hope");
    g.key(hex(a.v[0], 32) + hex(a.v[1], 32) + hex(b.v[0], 32));
    // the public key of the other side is the same in both runs
    compare(g, [&]() {
        NoiseDHState *x, *y;
        CHECK_EQ(noise_dhstate_new_by_id(&x, NOISE_DH_NEWHOPE), 0, "new");
        CHECK_EQ(noise_dhstate_new_by_id(&y, NOISE_DH_NEWHOPE), 0, "new");
        noise_dhstate_set_role(x, NOISE_ROLE_INITIATOR);
        noise_dhstate_set_role(y, NOISE_ROLE_RESPONDER);
        uint8_t *w = put(a.v[0] + seed), *out = put(Bytes(), 32);
        // Bob, against a fixed Alice
        CHECK_EQ(noise_dhstate_set_keypair_private(x, w, 64), 0, "Alice");
        reset_rng(&b.get());
        CHECK_EQ(T(noise_dhstate_generate_dependent_keypair(y, x)), 0, "Bob");
        CHECK_EQ(T(noise_dhstate_calculate(y, x, out, 32)), 0, "Bob's secret");
        T(noise_dhstate_free(y));
        noise_dhstate_free(x);
    });
    compare(g, [&]() {
        NoiseDHState *x, *y, *z;
        CHECK_EQ(noise_dhstate_new_by_id(&x, NOISE_DH_NEWHOPE), 0, "new");
        CHECK_EQ(noise_dhstate_new_by_id(&y, NOISE_DH_NEWHOPE), 0, "new");
        CHECK_EQ(noise_dhstate_new_by_id(&z, NOISE_DH_NEWHOPE), 0, "new");
        noise_dhstate_set_role(x, NOISE_ROLE_INITIATOR);
        noise_dhstate_set_role(z, NOISE_ROLE_INITIATOR);
        noise_dhstate_set_role(y, NOISE_ROLE_RESPONDER);
        // Alice, against a fixed Bob (who answered somebody else)
        uint8_t *w = put(seed + b.v[0]), *ka = put(seed + a.get()), *out = put(Bytes(), 32);
        CHECK_EQ(noise_dhstate_set_keypair_private(z, w, 64), 0, "another Alice");
        reset_rng(&b.v[1]);
        CHECK_EQ(noise_dhstate_generate_dependent_keypair(y, z), 0, "Bob");
        CHECK_EQ(T(noise_dhstate_set_keypair_private(x, ka, 64)), 0, "Alice");
        CHECK_EQ(T(noise_dhstate_calculate(x, y, out, 32)), 0, "Alice's secret");
        T(noise_dhstate_free(x));
        noise_dhstate_free(y);
        noise_dhstate_free(z);
    });
}
TARGET(C34, sign, 2, "Ed25519: key objects set from or generated from two private keys, signing one message, or refused with two halves that do not match; distinct by keys and message length") {
    Secret2 k = secret(g, 32), kp;
    for (int r = 0; r < 2; ++r) kp.v[r] = o_ed_public(k.v[r]);
    Bytes msg = g.bytes(g.size(300));
    int how = (int)g.u(3);
    if (how == 3) for (int r = 0; r < 2; ++r) kp.v[r][g.u(31)] ^= 1 << g.u(7);
    g.note("private key %s, message of %zu bytes", how == 0 ? "set" : how == 1 ? "set with its public key" : how == 2 ? "generated" : "refused with another's public key", msg.size());
    g.key(strf("%d %zu", how, msg.size()) + hex(k.v[0], 32) + hex(k.v[1], 32));
    compare(g, [&]() {
        NoiseSignState *a;
        CHECK_EQ(noise_signstate_new_by_id(&a, NOISE_SIGN_ED25519), 0, "new");
        uint8_t *kb = put(k.get()), *pb = put(kp.get()), *m = put(msg), *sig = put(Bytes(), 64);
        reset_rng(&k.get());
        int e = how == 0 ? T(noise_signstate_set_keypair_private(a, kb, 32)) : how == 1 || how == 3 ? T(noise_signstate_set_keypair(a, kb, 32, pb, 32)) : T(noise_signstate_generate_keypair(a));
        CHECK_EQ(e, how == 3 ? NOISE_ERROR_INVALID_PUBLIC_KEY : 0, "key pair");
        if (how != 3) CHECK_EQ(T(noise_signstate_sign(a, m, msg.size(), sig, 64)), 0, "sign");
        T(noise_signstate_free(a));
    });
}
TARGET(C34, aead, 3, "encryption, decryption and the refusal of a forged message with two keys and two plaintexts of one length, the forgeries differing in other bytes of the tag or text; distinct by cipher, lengths and keys (AES: the lookups in its tables, which are known to depend on the key, are not compared)") {
    int id = g.flip() ? NOISE_CIPHER_CHACHAPOLY : NOISE_CIPHER_AESGCM;
    Secret2 k = secret(g, 32);
    size_t n = g.size(400, {16, 64, 128});
    Secret2 pt = secret(g, n);
    Bytes ad = g.chance(1, 2) ? g.bytes(g.size(64)) : Bytes();
    uint64_t nonce = g.chance(1, 3) ? g.u64() : 0;
    if (nonce == ~0ull) --nonce;
    int bad[2] = {(int)g.u(n + 15), (int)g.u(n + 15)};
    int bit[2] = {(int)g.u(7), (int)g.u(7)};
    g.note("%s, %zu bytes, ad %zu, forged at %d and %d", id == NOISE_CIPHER_CHACHAPOLY ? "ChaChaPoly" : "AESGCM", n, ad.size(), bad[0], bad[1]);
    g.key(strf("%d %zu %zu %d %d", id, n, ad.size(), bad[0], bad[1]) + hex(k.v[0], 32) + hex(k.v[1], 32));
    Secret2 ct;
    for (int r = 0; r < 2; ++r) {
        ct.v[r] = o_encrypt(ocipher(id), k.v[r], nonce, ad, pt.v[r]);
        ct.v[r][bad[r]] ^= 1u << bit[r];
    }
    compare(g, [&]() {
        NoiseCipherState *c;
        CHECK_EQ(noise_cipherstate_new_by_id(&c, id), 0, "new");
        uint8_t *kb = put(k.get()), *m = put(pt.get(), n + 16), *f = put(ct.get()), *a = put(ad);
        NoiseBuffer nb;
        noise_buffer_set_inout(nb, m, n, n + 16);
        CHECK_EQ(T(noise_cipherstate_init_key(c, kb, 32)), 0, "key");
        if (nonce) CHECK_EQ(noise_cipherstate_set_nonce(c, nonce), 0, "nonce");
        CHECK_EQ(T(noise_cipherstate_encrypt_with_ad(c, a, ad.size(), &nb)), 0, "encrypt");
        T(noise_cipherstate_init_key(c, kb, 32));
        if (nonce) CHECK_EQ(noise_cipherstate_set_nonce(c, nonce), 0, "nonce");
        NoiseBuffer fb;
        noise_buffer_set_inout(fb, f, n + 16, n + 16);
        CHECK_EQ(T(noise_cipherstate_decrypt_with_ad(c, a, ad.size(), &fb)), NOISE_ERROR_MAC_FAILURE, "forged message");
        CHECK_EQ(T(noise_cipherstate_decrypt_with_ad(c, a, ad.size(), &nb)), 0, "decrypt");
        T(noise_cipherstate_free(c));
    });
}
TARGET(C34, hash, 2, "hashing (in pieces), HKDF and PBKDF2 of two values of one length; distinct by algorithm, function and lengths") {
    int id = NOISE_ID('H', 1 + g.u(3));
    size_t hl = hash_len(id);
    int fn = (int)g.u(2);
    size_t n = g.size(300, {64, 128});
    Secret2 d = secret(g, n), key = secret(g, fn == 1 ? hl : g.size(200));
    size_t cut = g.u(n);
    unsigned iter = 1 + (unsigned)g.u(4);
    size_t outn = 1 + g.u(150);
    g.note("%s %s of %zu bytes", hash_name(id), fn == 0 ? "hash" : fn == 1 ? "HKDF" : "PBKDF2", n);
    g.key(strf("%d %d %zu %zu %zu", id, fn, n, cut, key.v[0].size()));
    compare(g, [&]() {
        NoiseHashState *h;
        CHECK_EQ(noise_hashstate_new_by_id(&h, id), 0, "new");
        uint8_t *p = put(d.get()), *k = put(key.get()), *o1 = put(Bytes(), 160), *o2 = put(Bytes(), 160);
        if (fn == 0) {
            T(noise_hashstate_reset(h));
            T(noise_hashstate_update(h, p, cut));
            T(noise_hashstate_update(h, p + cut, n - cut));
            CHECK_EQ(T(noise_hashstate_finalize(h, o1, hl)), 0, "hash");
        } else if (fn == 1) {
            CHECK_EQ(T(noise_hashstate_hkdf(h, k, hl, p, n, o1, hl, o2, hl)), 0, "hkdf");
        } else {
            CHECK_EQ(T(noise_hashstate_pbkdf2(h, p, n, k, key.get().size(), iter, o1, outn)), 0, "pbkdf2");
        }
        T(noise_hashstate_free(h));
    });
}
TARGET(C34, random, 1, "a random-number object seeded with two kinds of entropy, requests and padding of the same sizes; distinct by sizes") {
    Secret2 e = secret(g, 400);
    size_t n1 = g.size(3000, {64, 1024}), n2 = g.size(300);
    bool re = g.flip();
    g.note("requests of %zu and %zu bytes", n1, n2);
    g.key(strf("%zu %zu %d", n1, n2, re));
    compare(g, [&]() {
        NoiseRandState *r;
        reset_rng(&e.get());
        uint8_t *o = put(Bytes(), 3300);
        CHECK_EQ(T(noise_randstate_new(&r)), 0, "new");
        T(noise_randstate_generate(r, o, n1));
        if (re) T(noise_randstate_reseed(r));
        T(noise_randstate_pad(r, o, n2 / 2, n2, NOISE_PADDING_RANDOM));
        T(noise_randstate_free(r));
    });
}
TARGET(C34, handshake, 3, "whole handshakes of both parties (any pattern, X25519 or X448 also as hybrid keys, any cipher and hash, optional PSK) and a transport message, with two sets of all the keys, pre-shared keys and payloads of the same sizes; distinct by protocol, sizes and keys") {
    Suite s = gen_suite(g);
    if (s.dh == NOISE_DH_NEWHOPE) s.dh = NOISE_DH_CURVE448;      // (its public keys are sampled with rejection)
    if (s.hybrid == NOISE_DH_NEWHOPE) s.hybrid = NOISE_DH_CURVE25519;
    size_t n = dh_priv_len(s.dh, true), hn = s.hybrid ? dh_priv_len(s.hybrid, true) : 0;
    Secret2 st[2], e[2], f[2], psk = secret(g, 32), spub[2];
    for (int i = 0; i < 2; ++i) {
        st[i] = secret(g, n);
        e[i] = secret(g, n);
        f[i] = secret(g, hn);
        for (int r = 0; r < 2; ++r) spub[i].v[r] = mkey(s.dh, st[i].v[r]).pub;
    }
    Bytes prologue = g.bytes(g.u(40));
    std::vector<Secret2> pay;
    for (int i = 0; i < 6; ++i) pay.push_back(secret(g, g.u(60)));
    MPattern p = parse_pattern(s.pattern);
    g.note("%s", s.name().c_str());
    g.key(s.name() + hex(st[0].v[0], 16) + hex(e[0].v[0], 16));
    compare(g, [&]() {
        Lib l[2];
        reset_rng(nullptr);
        for (int i = 0; i < 2; ++i) {
            NoiseProtocolId id = s.id();
            CHECK_EQ(noise_handshakestate_new_by_id(&l[i].st, &id, i == 0 ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER), 0, "new");
            if (p.needs_s(i == 0)) {
                uint8_t *k = put(st[i].get());
                CHECK_EQ(T(noise_dhstate_set_keypair_private(noise_handshakestate_get_local_keypair_dh(l[i].st), k, n)), 0, "static");
            }
            if (p.needs_rs(i == 0)) {
                uint8_t *k = put(spub[1 - i].get());
                CHECK_EQ(T(noise_dhstate_set_public_key(noise_handshakestate_get_remote_public_key_dh(l[i].st), k, n)), 0, "remote static");
            }
            if (s.psk()) { uint8_t *k = put(psk.get()); CHECK_EQ(T(noise_handshakestate_set_pre_shared_key(l[i].st, k, 32)), 0, "psk"); }
            uint8_t *pr = put(prologue);
            CHECK_EQ(noise_handshakestate_set_prologue(l[i].st, pr, prologue.size()), 0, "prologue");
            uint8_t *ke = put(e[i].get());
            if (NoiseDHState *d = noise_handshakestate_get_fixed_ephemeral_dh(l[i].st)) T(noise_dhstate_set_keypair_private(d, ke, n));
            if (s.hybrid)
                if (NoiseDHState *d = noise_handshakestate_get_fixed_hybrid_dh(l[i].st)) { uint8_t *kf = put(f[i].get()); T(noise_dhstate_set_keypair_private(d, kf, hn)); }
            CHECK_EQ(T(noise_handshakestate_start(l[i].st)), 0, "start");
        }
        int m = 0;
        uint8_t *wire = put(Bytes(), 2000), *out = put(Bytes(), 200);
        while (noise_handshakestate_get_action(l[0].st) == NOISE_ACTION_WRITE_MESSAGE || noise_handshakestate_get_action(l[0].st) == NOISE_ACTION_READ_MESSAGE) {
            int w = noise_handshakestate_get_action(l[0].st) == NOISE_ACTION_WRITE_MESSAGE ? 0 : 1;
            const Bytes &pl = pay[m++ % 6].get();
            NoiseBuffer mb, pb;
            uint8_t *pp = put(pl);
            noise_buffer_set_output(mb, wire, 2000);
            noise_buffer_set_input(pb, pp, pl.size());
            CHECK_EQ(T(noise_handshakestate_write_message(l[w].st, &mb, &pb)), 0, "write");
            noise_buffer_set_output(pb, out, 200);
            CHECK_EQ(T(noise_handshakestate_read_message(l[1 - w].st, &mb, &pb)), 0, "read");
        }
        Cipher c[4];
        CHECK_EQ(T(noise_handshakestate_split(l[0].st, &c[0].c, &c[1].c)), 0, "split");
        CHECK_EQ(T(noise_handshakestate_split(l[1].st, &c[2].c, &c[3].c)), 0, "split");
        const Bytes &pl = pay[5].get();
        uint8_t *pp = put(pl, pl.size() + 16);
        NoiseBuffer mb;
        noise_buffer_set_inout(mb, pp, pl.size(), pl.size() + 16);
        CHECK_EQ(T(noise_cipherstate_encrypt(c[0].c, &mb)), 0, "encrypt");
        CHECK_EQ(T(noise_cipherstate_decrypt(c[3].c, &mb)), 0, "decrypt");
    });
}
