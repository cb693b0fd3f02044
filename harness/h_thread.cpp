// C32: objects that are not shared do not affect each other.  A case gives
// each of several parties a list of jobs on its own objects; a job's outcome
// (every return code and every output byte) is hashed.  Each list is first run
// alone in a fresh process; then all of them together in another fresh
// process, as racing threads, as threads or fibers that take turns at every
// call into the library, or one after the other.  The outcomes must be equal,
// and under ThreadSanitizer there must be no race.  The parent process never
// calls the library, so every run includes the library's first use.
#include "env.h"
#include <noise/protocol.h>
#include <noise/keys.h>
#include <noise/protobufs.h>
#include <pthread.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <algorithm>
#include <set>

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define TSAN 1
#endif
#endif
extern "C" const char *__tsan_default_suppressions() {
    // not instrumented, synchronised by means TSan does not see
    return "called_from_lib:libcrypto.so\ncalled_from_lib:libsodium.so\n";
}
extern "C" void __real_noise_rand_bytes(void *, size_t);

enum { MAXT = 6, MAXJ = 4, MAXR = 400 };
struct Out {                       // shared with the parent
    uint64_t h[MAXT][MAXJ];
    char what[MAXT][MAXJ][80];
    unsigned calls[MAXT];
    unsigned nrand[MAXT];
    uint8_t rand[MAXT][MAXR][16];
};
static Out *out_;                  // in the children
enum Mode { ALONE, SEQ, FREE, TURNS, FIBERS };

// ------------------------------------------------------------------ schedule
struct Sched {
    Mode mode = ALONE;
    Prng pr;
    int n = 0, cur = 0;
    bool done[MAXT];
    pthread_mutex_t mu;
    pthread_cond_t cv;
    pthread_barrier_t bar;
    ucontext_t main_, ctx[MAXT];
    int stick = 0;
};
static Sched sc;
static thread_local int me = 0;
static int pick_next(int self) {
    // stay for a while, or move to any party that is not finished
    if (sc.stick > 0 && !sc.done[self]) { --sc.stick; return self; }
    int alive[MAXT], k = 0;
    for (int i = 0; i < sc.n; ++i) if (!sc.done[i]) alive[k++] = i;
    if (!k) return -1;
    uint64_t r = sc.pr.next();
    sc.stick = (r >> 32) % 8 ? 0 : (int)((r >> 40) % 6);
    return alive[r % k];
}

struct Ctx {
    int t, j;
    Prng p;                        // the job's own choices
    Prng rnd;                      // what the library gets as randomness
    uint64_t h = 0xcbf29ce484222325ull;
    Prng noise;
    std::string what;
    void mix(const void *d, size_t n) { const uint8_t *b = (const uint8_t *)d; for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001b3ull; }
    void mix(uint64_t v) { mix(&v, 8); }
    void mix(const Bytes &b) { mix(b.size()); mix(b.data(), b.size()); }
    uint64_t u(uint64_t max) { return max ? p.next() % (max + 1) : 0; }
    Bytes bytes(size_t n) { Bytes b; b.reserve(n + 1); b.resize(n); p.fill(b.data(), n); return b; }
    // between two calls into the library
    void yield();
    int c(int rc) { mix((uint64_t)(int64_t)rc); yield(); return rc; }
};
static thread_local Ctx *ctx_ = nullptr;
static Ctx *fiber_ctx[MAXT];

void Ctx::yield() {
    ++out_->calls[t];
    switch (sc.mode) {
    case ALONE: case SEQ: return;
    case FREE: {
        uint64_t r = noise.next();
        if (r % 16 == 0) sched_yield();
        else if (r % 64 == 1) usleep((r >> 20) % 60);
        return;
    }
    case TURNS: {
        pthread_mutex_lock(&sc.mu);
        sc.cur = pick_next(t);
        if (sc.cur != t) {
            pthread_cond_broadcast(&sc.cv);
            while (sc.cur != t) pthread_cond_wait(&sc.cv, &sc.mu);
        }
        pthread_mutex_unlock(&sc.mu);
        return;
    }
    case FIBERS: {
        int nx = pick_next(t);
        if (nx == t) return;
        fiber_ctx[t] = ctx_;
        Prng *mine = env_rand_prng;
        sc.cur = nx;
        swapcontext(&sc.ctx[t], &sc.ctx[nx]);
        ctx_ = this;
        env_rand_prng = mine;
        return;
    }
    }
}
static void rand_hook(void *, size_t n) {
    uint8_t tmp[64];
    Ctx *c = ctx_;
    size_t k = std::min<size_t>(n, sizeof tmp);
    __real_noise_rand_bytes(tmp, k);
    if (!c || k < 16) return;
    unsigned i = out_->nrand[c->t];
    if (i < MAXR) { memcpy(out_->rand[c->t][i], tmp, 16); out_->nrand[c->t] = i + 1; }
}

// ------------------------------------------------------------------ jobs
static const int HASHES[] = {NOISE_HASH_SHA256, NOISE_HASH_SHA512, NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b};
static const int CIPHERS[] = {NOISE_CIPHER_CHACHAPOLY, NOISE_CIPHER_AESGCM};
static const int DHS[] = {NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE};

static void job_handshake(Ctx &x) {
    static const int pats[] = {NOISE_PATTERN_N, NOISE_PATTERN_X, NOISE_PATTERN_K, NOISE_PATTERN_NN, NOISE_PATTERN_NK, NOISE_PATTERN_NX,
        NOISE_PATTERN_XN, NOISE_PATTERN_XK, NOISE_PATTERN_XX, NOISE_PATTERN_KN, NOISE_PATTERN_KK, NOISE_PATTERN_KX, NOISE_PATTERN_IN,
        NOISE_PATTERN_IK, NOISE_PATTERN_IX, NOISE_PATTERN_NN_HFS, NOISE_PATTERN_XX_HFS, NOISE_PATTERN_IK_HFS};
    NoiseProtocolId id;
    memset(&id, 0, sizeof id);
    id.prefix_id = x.u(3) ? NOISE_PREFIX_STANDARD : NOISE_PREFIX_PSK;
    id.pattern_id = pats[x.u(17)];
    bool hfs = id.pattern_id == NOISE_PATTERN_NN_HFS || id.pattern_id == NOISE_PATTERN_XX_HFS || id.pattern_id == NOISE_PATTERN_IK_HFS;
    id.dh_id = id.pattern_id == NOISE_PATTERN_NN && x.u(2) == 0 ? NOISE_DH_NEWHOPE : DHS[x.u(3) == 0];
    id.cipher_id = CIPHERS[x.u(1)];
    id.hash_id = HASHES[x.u(3)];
    if (hfs) id.hybrid_id = DHS[x.u(2)];
    bool fb = x.u(3) == 0 && id.pattern_id == NOISE_PATTERN_IK;
    char name[128] = "?";
    x.c(noise_protocol_id_to_name(name, sizeof name, &id));
    x.mix(name, strlen(name));
    x.what = name + std::string(fb ? " (fallback)" : "");
    NoiseHandshakeState *st[2] = {nullptr, nullptr};
    NoiseDHState *bob = nullptr;
    Bytes psk = x.bytes(32), prol = x.bytes(x.u(40));
    for (int i = 0; i < 2; ++i) {
        int rc = x.u(1) ? noise_handshakestate_new_by_id(&st[i], &id, i ? NOISE_ROLE_RESPONDER : NOISE_ROLE_INITIATOR)
                        : noise_handshakestate_new_by_name(&st[i], name, i ? NOISE_ROLE_RESPONDER : NOISE_ROLE_INITIATOR);
        if (x.c(rc)) goto end;
        x.c(noise_handshakestate_set_prologue(st[i], prol.data(), prol.size()));
        if (noise_handshakestate_needs_pre_shared_key(st[i])) x.c(noise_handshakestate_set_pre_shared_key(st[i], psk.data(), 32));
        if (noise_handshakestate_needs_local_keypair(st[i]))
            x.c(noise_dhstate_generate_keypair(noise_handshakestate_get_local_keypair_dh(st[i])));
    }
    for (int i = 0; i < 2; ++i)
        if (noise_handshakestate_needs_remote_public_key(st[i])) {
            uint8_t pub[56] = {0};
            NoiseDHState *o = noise_handshakestate_get_local_keypair_dh(st[1 - i]), *d = noise_handshakestate_get_remote_public_key_dh(st[i]);
            size_t n = noise_dhstate_get_public_key_length(d);
            x.c(noise_dhstate_get_public_key(o, pub, n));
            if (fb && i == 0) {            // a stale key
                x.c(noise_dhstate_new_by_id(&bob, id.dh_id));
                x.c(noise_dhstate_generate_keypair(bob));
                x.c(noise_dhstate_get_public_key(bob, pub, n));
            }
            x.c(noise_dhstate_set_public_key(d, pub, n));
        }
    for (int i = 0; i < 2; ++i) x.c(noise_handshakestate_start(st[i]));
    {
        uint8_t msg[8192] = {0}, pl[256] = {0}, po[512] = {0}, hh[64] = {0};
        NoiseBuffer mb, pb;
        for (int k = 0; k < 8; ++k) {
            int w = -1;
            for (int i = 0; i < 2; ++i) if (noise_handshakestate_get_action(st[i]) == NOISE_ACTION_WRITE_MESSAGE) w = i;
            if (w < 0) break;
            size_t n = x.u(200);
            Bytes b = x.bytes(n);
            memcpy(pl, b.data(), n);
            noise_buffer_set_output(mb, msg, sizeof msg);
            noise_buffer_set_input(pb, pl, n);
            if (x.c(noise_handshakestate_write_message(st[w], &mb, &pb))) break;
            x.mix(mb.data, mb.size);
            noise_buffer_set_output(pb, po, sizeof po);
            int rc = x.c(noise_handshakestate_read_message(st[1 - w], &mb, &pb));
            if (rc && fb) {
                x.c(noise_handshakestate_fallback(st[1]));
                x.c(noise_handshakestate_fallback(st[0]));
                if (psk.size() && noise_handshakestate_needs_pre_shared_key(st[0])) {
                    x.c(noise_handshakestate_set_pre_shared_key(st[0], psk.data(), 32));
                    x.c(noise_handshakestate_set_pre_shared_key(st[1], psk.data(), 32));
                }
                x.c(noise_handshakestate_start(st[0]));
                x.c(noise_handshakestate_start(st[1]));
                fb = false;
                continue;
            }
            if (rc) break;
            x.mix(pb.data, pb.size);
        }
        NoiseCipherState *c[2][2] = {{nullptr, nullptr}, {nullptr, nullptr}};
        for (int i = 0; i < 2; ++i) {
            x.mix((uint64_t)noise_handshakestate_get_action(st[i]));
            if (x.c(noise_handshakestate_get_handshake_hash(st[i], hh, sizeof hh)) == 0) x.mix(hh, sizeof hh);
            x.c(noise_handshakestate_split(st[i], &c[i][0], &c[i][1]));
        }
        int n = 2 + (int)x.u(4);
        for (int k = 0; k < n; ++k) {
            int w = id.pattern_id == NOISE_PATTERN_N || id.pattern_id == NOISE_PATTERN_X || id.pattern_id == NOISE_PATTERN_K ? 0 : (int)x.u(1);
            if (!c[w][0] || !c[1 - w][1]) break;
            size_t len = x.u(2000);
            Bytes b = x.bytes(len);
            memcpy(msg, b.data(), len);
            noise_buffer_set_inout(mb, msg, len, sizeof msg);
            x.c(noise_cipherstate_encrypt(c[w][0], &mb));
            x.mix(mb.data, mb.size);
            x.c(noise_cipherstate_decrypt(c[1 - w][1], &mb));
            x.mix(mb.data, mb.size);
        }
        for (auto &a : c) for (auto *q : a) if (q) x.c(noise_cipherstate_free(q));
    }
end:
    for (int i = 0; i < 2; ++i) if (st[i]) x.c(noise_handshakestate_free(st[i]));
    if (bob) x.c(noise_dhstate_free(bob));
}
static void job_hash(Ctx &x) {
    int id = HASHES[x.u(3)];
    NoiseHashState *s = nullptr;
    x.what = strf("hash %d", id & 255);
    if (x.c(noise_hashstate_new_by_id(&s, id))) return;
    size_t hl = noise_hashstate_get_hash_length(s);
    uint8_t o[64] = {0}, o2[64] = {0}, big[200] = {0};
    for (int k = 1 + (int)x.u(3); k; --k) switch (x.u(3)) {
    case 0: {
        x.c(noise_hashstate_reset(s));
        for (int i = 1 + (int)x.u(4); i; --i) { Bytes b = x.bytes(x.u(300)); x.c(noise_hashstate_update(s, b.data(), b.size())); }
        x.c(noise_hashstate_finalize(s, o, hl));
        x.mix(o, hl);
        break;
    }
    case 1: {
        Bytes a = x.bytes(x.u(200)), b = x.bytes(x.u(200));
        x.c(noise_hashstate_hash_one(s, a.data(), a.size(), o, hl)); x.mix(o, hl);
        x.c(noise_hashstate_hash_two(s, a.data(), a.size(), b.data(), b.size(), o, hl)); x.mix(o, hl);
        break;
    }
    case 2: {
        Bytes a = x.bytes(hl), b = x.bytes(x.u(100));
        x.c(noise_hashstate_hkdf(s, a.data(), a.size(), b.data(), b.size(), o, hl, o2, hl));
        x.mix(o, hl); x.mix(o2, hl);
        break;
    }
    default: {
        Bytes a = x.bytes(x.u(100)), b = x.bytes(x.u(60));
        size_t n = 1 + x.u(150);
        x.c(noise_hashstate_pbkdf2(s, a.data(), a.size(), b.data(), b.size(), 1 + x.u(20), big, n));
        x.mix(big, n);
    }
    }
    x.c(noise_hashstate_free(s));
}
static void job_cipher(Ctx &x) {
    int id = CIPHERS[x.u(1)];
    NoiseCipherState *a = nullptr, *b = nullptr;
    x.what = strf("cipher %d", id & 255);
    if (x.c(noise_cipherstate_new_by_id(&a, id)) || x.c(noise_cipherstate_new_by_id(&b, id))) return;
    uint8_t buf[2100] = {0};
    for (int k = 1 + (int)x.u(2); k; --k) {
        Bytes key = x.bytes(32);
        x.c(noise_cipherstate_init_key(a, key.data(), 32));
        x.c(noise_cipherstate_init_key(b, key.data(), 32));
        if (x.u(2) == 0) { uint64_t n = x.p.next() >> x.u(63); x.c(noise_cipherstate_set_nonce(a, n)); x.c(noise_cipherstate_set_nonce(b, n)); }
        for (int i = 1 + (int)x.u(4); i; --i) {
            Bytes ad = x.bytes(x.u(2) ? 0 : x.u(60)), pt = x.bytes(x.u(2000));
            memcpy(buf, pt.data(), pt.size());
            NoiseBuffer nb;
            noise_buffer_set_inout(nb, buf, pt.size(), sizeof buf);
            x.c(noise_cipherstate_encrypt_with_ad(a, ad.data(), ad.size(), &nb));
            x.mix(nb.data, nb.size);
            if (x.u(4) == 0 && nb.size) buf[x.u(nb.size - 1)] ^= 1;
            if (x.c(noise_cipherstate_decrypt_with_ad(b, ad.data(), ad.size(), &nb)) == 0) x.mix(nb.data, nb.size);
            else break;
        }
    }
    x.c(noise_cipherstate_free(a));
    x.c(noise_cipherstate_free(b));
}
static void job_dh(Ctx &x) {
    int id = DHS[x.u(2)];
    x.what = strf("dh %d", id & 255);
    NoiseDHState *a = nullptr, *b = nullptr;
    if (x.c(noise_dhstate_new_by_id(&a, id)) || x.c(noise_dhstate_new_by_id(&b, id))) return;
    x.c(noise_dhstate_set_role(a, NOISE_ROLE_INITIATOR));
    x.c(noise_dhstate_set_role(b, NOISE_ROLE_RESPONDER));
    static const size_t MAXK = 4096;
    Bytes k1(MAXK), k2(MAXK);
    for (int k = 1 + (int)x.u(1); k; --k) {
        size_t pl = noise_dhstate_get_private_key_length(a);
        if (x.u(1)) x.c(noise_dhstate_generate_keypair(a));
        else { Bytes pr = x.bytes(pl); x.c(noise_dhstate_set_keypair_private(a, pr.data(), pl)); }
        if (id == NOISE_DH_NEWHOPE || x.u(1)) x.c(noise_dhstate_generate_dependent_keypair(b, a));
        else x.c(noise_dhstate_generate_keypair(b));
        for (NoiseDHState *d : {a, b}) {
            size_t n = noise_dhstate_get_public_key_length(d);
            Bytes pub(n);
            x.c(noise_dhstate_get_public_key(d, pub.data(), n));
            x.mix(pub);
            char fp[128] = {0};
            if (x.c(noise_dhstate_format_fingerprint(d, x.u(1) ? NOISE_FINGERPRINT_BASIC : NOISE_FINGERPRINT_FULL, fp, sizeof fp)) == 0)
                x.mix(fp, strlen(fp));
        }
        size_t sl = noise_dhstate_get_shared_key_length(a);
        x.c(noise_dhstate_calculate(a, b, k1.data(), sl));
        x.c(noise_dhstate_calculate(b, a, k2.data(), sl));
        x.mix(k1.data(), sl);
        x.mix(k2.data(), sl);
        x.mix((uint64_t)(memcmp(k1.data(), k2.data(), sl) == 0));
    }
    x.c(noise_dhstate_free(a));
    x.c(noise_dhstate_free(b));
}
static void job_sign(Ctx &x) {
    x.what = "sign";
    NoiseSignState *a = nullptr, *b = nullptr;
    if (x.c(noise_signstate_new_by_id(&a, NOISE_SIGN_ED25519)) || x.c(noise_signstate_new_by_id(&b, NOISE_SIGN_ED25519))) return;
    uint8_t pub[32] = {0}, priv[32] = {0}, sig[64] = {0};
    bool gen = x.u(1), det = !gen || g_backend != "sodium";    // libsodium uses its own randomness there
    if (gen) x.c(noise_signstate_generate_keypair(a));
    else { Bytes p = x.bytes(32); x.c(noise_signstate_set_keypair_private(a, p.data(), 32)); }
    x.c(noise_signstate_get_keypair(a, priv, 32, pub, 32));
    if (det) x.mix(priv, 32), x.mix(pub, 32);
    if (x.u(2) == 0) {                     // both halves given, matching or not
        uint8_t other[32];
        memcpy(other, pub, 32);
        bool bad = x.u(1);
        if (bad) other[x.u(31)] ^= 4;
        x.c(noise_signstate_set_keypair(b, priv, 32, other, 32));
        if (det) x.mix((uint64_t)noise_signstate_has_keypair(b));
    }
    x.c(noise_signstate_set_public_key(b, pub, 32));
    for (int k = 1 + (int)x.u(2); k; --k) {
        Bytes m = x.bytes(1 + x.u(300));
        x.c(noise_signstate_sign(a, m.data(), m.size(), sig, 64));
        if (det) x.mix(sig, 64);
        if (x.u(2) == 0) sig[x.u(62)] ^= 1;
        x.c(noise_signstate_verify(b, m.data(), m.size(), sig, 64));
    }
    x.c(noise_signstate_free(a));
    x.c(noise_signstate_free(b));
}
static void job_rand(Ctx &x) {
    x.what = "randstate";
    uint8_t buf[300] = {0};
    if (x.u(3) == 0) { x.c(noise_randstate_generate_simple(buf, 64)); x.mix(buf, 64); }
    NoiseRandState *r = nullptr;
    if (x.c(noise_randstate_new(&r))) return;
    for (int k = 1 + (int)x.u(5); k; --k) switch (x.u(3)) {
    case 0: x.c(noise_randstate_reseed(r)); break;
    case 1: { size_t n = x.u(50); memset(buf, 1, sizeof buf); x.c(noise_randstate_pad(r, buf, n, n + x.u(100), (int)x.u(1) ? NOISE_PADDING_RANDOM : NOISE_PADDING_ZERO)); x.mix(buf, sizeof buf); break; }
    default: { size_t n = x.u(300); x.c(noise_randstate_generate(r, buf, n)); x.mix(buf, n); }
    }
    x.c(noise_randstate_free(r));
}
static void job_sym(Ctx &x) {
    NoiseProtocolId id;
    memset(&id, 0, sizeof id);
    id.prefix_id = NOISE_PREFIX_STANDARD; id.pattern_id = NOISE_PATTERN_XX; id.dh_id = DHS[0];
    id.cipher_id = CIPHERS[x.u(1)]; id.hash_id = HASHES[x.u(3)];
    x.what = "symmetricstate";
    NoiseSymmetricState *a = nullptr, *b = nullptr;
    if (x.c(noise_symmetricstate_new_by_id(&a, &id)) || x.c(noise_symmetricstate_new_by_id(&b, &id))) return;
    uint8_t buf[400] = {0};
    for (int k = 1 + (int)x.u(6); k; --k) {
        Bytes d = x.bytes(x.u(200));
        switch (x.u(2)) {
        case 0: x.c(noise_symmetricstate_mix_key(a, d.data(), d.size())); x.c(noise_symmetricstate_mix_key(b, d.data(), d.size())); break;
        case 1: x.c(noise_symmetricstate_mix_hash(a, d.data(), d.size())); x.c(noise_symmetricstate_mix_hash(b, d.data(), d.size())); break;
        default: {
            NoiseBuffer nb;
            memcpy(buf, d.data(), d.size());
            noise_buffer_set_inout(nb, buf, d.size(), sizeof buf);
            x.c(noise_symmetricstate_encrypt_and_hash(a, &nb));
            x.mix(nb.data, nb.size);
            x.c(noise_symmetricstate_decrypt_and_hash(b, &nb));
            x.mix(nb.data, nb.size);
        }
        }
    }
    NoiseCipherState *c1 = nullptr, *c2 = nullptr;
    if (x.c(noise_symmetricstate_split(a, &c1, &c2)) == 0)
        for (auto *q : {c1, c2}) {
            NoiseBuffer nb;
            memset(buf, 7, 50);
            noise_buffer_set_inout(nb, buf, 50, sizeof buf);
            x.c(noise_cipherstate_encrypt(q, &nb));
            x.mix(nb.data, nb.size);
            x.c(noise_cipherstate_free(q));
        }
    x.c(noise_symmetricstate_free(a));
    x.c(noise_symmetricstate_free(b));
}
static void job_names(Ctx &x) {
    x.what = "names";
    char buf[200] = {0};
    for (int k = 2 + (int)x.u(8); k; --k) switch (x.u(4)) {
    case 0: {
        static const char *const n[] = {"Noise_XX_25519_AESGCM_SHA256", "NoisePSK_IK_448_ChaChaPoly_BLAKE2b", "Noise_NNhfs_25519+448_ChaChaPoly_BLAKE2s",
            "Noise_IK_25519_ChaChaPoly_SHA512x", "Noise_XXhfs_25519+NewHope_AESGCM_BLAKE2b", "Noise_XX_25519_AESGCM"};
        const char *s = n[x.u(5)];
        NoiseProtocolId id;
        if (x.c(noise_protocol_name_to_id(&id, s, strlen(s))) == 0) {
            x.mix(&id, sizeof(int) * 6);
            x.c(noise_protocol_id_to_name(buf, sizeof buf, &id));
            x.mix(buf, strlen(buf));
        }
        break;
    }
    case 1: {
        static const int cats[] = {NOISE_CIPHER_CATEGORY, NOISE_HASH_CATEGORY, NOISE_DH_CATEGORY, NOISE_PATTERN_CATEGORY, NOISE_PREFIX_CATEGORY, NOISE_SIGN_CATEGORY};
        int c = cats[x.u(5)];
        const char *s = noise_id_to_name(c, c + (int)x.u(20));
        x.yield();
        if (s) { x.mix(s, strlen(s)); x.c(noise_name_to_id(c, s, strlen(s))); }
        break;
    }
    case 2: memset(buf, 0, sizeof buf); x.c(noise_strerror(NOISE_ID('E', x.u(25)), buf, 1 + x.u(60))); x.mix(buf, strlen(buf)); break;
    default: {
        Bytes k = x.bytes(1 + x.u(100));
        memset(buf, 0, sizeof buf);
        x.c(noise_format_fingerprint(x.u(1) ? NOISE_FINGERPRINT_BASIC : NOISE_FINGERPRINT_FULL, buf, 50 + x.u(100), k.data(), k.size()));
        x.mix(buf, strlen(buf));
    }
    }
}
static std::string text(Ctx &x, size_t max) { std::string s; for (size_t n = x.u(max); n; --n) s += (char)('a' + x.u(25)); return s; }
static void job_pbuf(Ctx &x) {
    x.what = "protobuf";
    uint8_t buf[2000] = {0};
    NoiseProtobuf pb;
    x.c(noise_protobuf_prepare_output(&pb, buf, sizeof buf));
    int n = 1 + (int)x.u(10);
    std::vector<int> k; 
    for (int i = 0; i < n; ++i) {
        k.push_back((int)x.u(4));
        switch (k.back()) {
        case 0: x.c(noise_protobuf_write_uint64(&pb, i + 1, x.p.next() >> x.u(63))); break;
        case 1: x.c(noise_protobuf_write_sint64(&pb, i + 1, (int64_t)x.p.next())); break;
        case 2: { Bytes b = x.bytes(x.u(50)); x.c(noise_protobuf_write_bytes(&pb, i + 1, b.data(), b.size())); break; }
        case 3: { std::string s = text(x, 20); x.c(noise_protobuf_write_string(&pb, i + 1, s.data(), s.size())); break; }
        default: { size_t end;
            x.c(noise_protobuf_write_end_element(&pb, &end));
            x.c(noise_protobuf_write_uint32(&pb, 7, (uint32_t)x.p.next()));
            x.c(noise_protobuf_write_start_element(&pb, i + 1, end)); }
        }
    }
    uint8_t *d = nullptr; size_t len = 0;
    x.c(noise_protobuf_finish_output(&pb, &d, &len));
    x.mix(d, len);
    NoiseProtobuf in;
    x.c(noise_protobuf_prepare_input(&in, d, len));
    for (int i = n - 1; i >= 0; --i) switch (k[i]) {
    case 0: { uint64_t v = 0; x.c(noise_protobuf_read_uint64(&in, i + 1, &v)); x.mix(v); break; }
    case 1: { int64_t v = 0; x.c(noise_protobuf_read_sint64(&in, i + 1, &v)); x.mix((uint64_t)v); break; }
    case 2: { void *p = nullptr; size_t m = 0; if (x.c(noise_protobuf_read_alloc_bytes(&in, i + 1, &p, 0, &m)) == 0) { x.mix(p, m); free(p); } break; }
    case 3: { char *p = nullptr; size_t m = 0; if (x.c(noise_protobuf_read_alloc_string(&in, i + 1, &p, 0, &m)) == 0) { x.mix(p, m); free(p); } break; }
    default: { size_t end; uint32_t v = 0;
        x.c(noise_protobuf_read_start_element(&in, i + 1, &end));
        x.c(noise_protobuf_read_uint32(&in, 7, &v)); x.mix(v);
        x.c(noise_protobuf_read_end_element(&in, end)); }
    }
    x.c(noise_protobuf_finish_input(&in));
}
static void job_cert(Ctx &x) {
    x.what = "certificate";
    Noise_CertificateChain *ch = nullptr;
    if (x.c(Noise_CertificateChain_new(&ch))) return;
    for (int n = 1 + (int)x.u(1); n; --n) {
        Noise_Certificate *c = nullptr;
        x.c(Noise_CertificateChain_add_certs(ch, &c));
        x.c(Noise_Certificate_set_version(c, (uint32_t)x.u(300)));
        Noise_SubjectInfo *su = nullptr;
        x.c(Noise_Certificate_get_new_subject(c, &su));
        std::string s = text(x, 30);
        x.c(Noise_SubjectInfo_set_name(su, s.data(), s.size()));
        for (int k = (int)x.u(3); k; --k) {
            Noise_PublicKeyInfo *p = nullptr;
            x.c(Noise_SubjectInfo_add_keys(su, &p));
            Bytes b = x.bytes(32);
            x.c(Noise_PublicKeyInfo_set_algorithm(p, "25519", 5));
            x.c(Noise_PublicKeyInfo_set_key(p, b.data(), 32));
            Noise_MetaInfo *m = nullptr;
            x.c(Noise_SubjectInfo_add_meta(su, &m));
            s = text(x, 10);
            x.c(Noise_MetaInfo_set_name(m, s.data(), s.size()));
            x.c(Noise_MetaInfo_set_value(m, s.data(), s.size()));
        }
    }
    uint8_t buf[4000] = {0};
    NoiseProtobuf pb;
    x.c(noise_protobuf_prepare_output(&pb, buf, sizeof buf));
    x.c(noise_save_certificate_chain_to_buffer(ch, &pb));
    uint8_t *d = nullptr; size_t len = 0;
    x.c(noise_protobuf_finish_output(&pb, &d, &len));
    x.mix(d, len);
    Noise_CertificateChain *c2 = nullptr;
    bool file = x.u(2) == 0;
    std::string fn;
    if (file) {
        fn = strf("%s/th-%d-%d-%d.crt", getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp", (int)getpid(), x.t, x.j);
        x.c(noise_save_certificate_chain_to_file(ch, fn.c_str()));
        x.c(noise_load_certificate_chain_from_file(&c2, fn.c_str()));
        unlink(fn.c_str());
    } else {
        if (x.u(3) == 0 && len) { d[x.u(len - 1)] ^= (uint8_t)(1 + x.u(254)); }
        NoiseProtobuf in;
        x.c(noise_protobuf_prepare_input(&in, d, len));
        x.c(noise_load_certificate_chain_from_buffer(&c2, &in));
    }
    if (c2) {
        uint8_t b2[4000] = {0};
        x.c(noise_protobuf_prepare_output(&pb, b2, sizeof b2));
        x.c(noise_save_certificate_chain_to_buffer(c2, &pb));
        x.c(noise_protobuf_finish_output(&pb, &d, &len));
        x.mix(d, len);
        x.c(Noise_CertificateChain_free(c2));
    }
    x.c(Noise_CertificateChain_free(ch));
}
static Noise_PrivateKey *mk_key(Ctx &x) {
    Noise_PrivateKey *k = nullptr;
    if (x.c(Noise_PrivateKey_new(&k))) return nullptr;
    std::string s = text(x, 20);
    x.c(Noise_PrivateKey_set_id(k, s.data(), s.size()));
    for (int n = 1 + (int)x.u(2); n; --n) {
        Noise_PrivateKeyInfo *i = nullptr;
        x.c(Noise_PrivateKey_add_keys(k, &i));
        Bytes b = x.bytes(32);
        x.c(Noise_PrivateKeyInfo_set_algorithm(i, "25519", 5));
        x.c(Noise_PrivateKeyInfo_set_key(i, b.data(), 32));
    }
    return k;
}
static void mix_key(Ctx &x, Noise_PrivateKey *k) {
    uint8_t buf[3000] = {0};
    NoiseProtobuf pb;
    uint8_t *d = nullptr; size_t len = 0;
    x.c(noise_protobuf_prepare_output(&pb, buf, sizeof buf));
    x.c(Noise_PrivateKey_write(&pb, 0, k));
    x.c(noise_protobuf_finish_output(&pb, &d, &len));
    x.mix(d, len);
}
static void job_key(Ctx &x) {            // slow: saving takes 20000 iterations
    static const char *const prot[] = {"ChaChaPoly_SHA256_PBKDF2", "AESGCM_SHA512_PBKDF2", "ChaChaPoly_BLAKE2s_PBKDF2", "ChaChaPoly_BLAKE2b_PBKDF2"};
    const char *pn = prot[x.u(3)];
    x.what = std::string("private key ") + pn;
    Noise_PrivateKey *k = mk_key(x);
    if (!k) return;
    Bytes pass = x.bytes(1 + x.u(40));
    uint8_t buf[3000] = {0};
    NoiseProtobuf pb;
    uint8_t *d = nullptr; size_t len = 0;
    x.c(noise_protobuf_prepare_output(&pb, buf, sizeof buf));
    if (x.c(noise_save_private_key_to_buffer(k, &pb, pass.data(), pass.size(), pn)) == 0) {
        x.c(noise_protobuf_finish_output(&pb, &d, &len));
        x.mix(d, len);
        NoiseProtobuf in;
        Noise_PrivateKey *k2 = nullptr;
        x.c(noise_protobuf_prepare_input(&in, d, len));
        if (x.u(2) == 0) pass[0] ^= 1;
        x.c(noise_load_private_key_from_buffer(&k2, &in, pass.data(), pass.size()));
        if (k2) { mix_key(x, k2); x.c(Noise_PrivateKey_free(k2)); }
    }
    x.c(Noise_PrivateKey_free(k));
}
static void job_load(Ctx &x) {           // an encrypted key made by hand, with few iterations
    x.what = "load key";
    Noise_PrivateKey *k = mk_key(x);
    if (!k) return;
    uint8_t plain[3000] = {0}, kk[40] = {0}, buf[3000] = {0};
    NoiseProtobuf pb;
    uint8_t *d = nullptr; size_t len = 0;
    x.c(noise_protobuf_prepare_output(&pb, plain, sizeof plain - 16));
    x.c(Noise_PrivateKey_write(&pb, 0, k));
    x.c(noise_protobuf_finish_output(&pb, &d, &len));
    x.c(Noise_PrivateKey_free(k));
    Bytes pass = x.bytes(1 + x.u(80)), salt = x.bytes(16);
    unsigned iters = 1 + x.u(15);
    int h = (int)x.u(3);
    static const char *const hn[] = {"SHA256", "SHA512", "BLAKE2s", "BLAKE2b"};
    NoiseHashState *hs = nullptr;
    NoiseCipherState *cs = nullptr;
    x.c(noise_hashstate_new_by_id(&hs, HASHES[h]));
    x.c(noise_hashstate_pbkdf2(hs, pass.data(), pass.size(), salt.data(), 16, iters, kk, 40));
    x.c(noise_hashstate_free(hs));
    x.c(noise_cipherstate_new_by_id(&cs, CIPHERS[0]));
    x.c(noise_cipherstate_init_key(cs, kk, 32));
    uint64_t nonce = 0;
    for (int i = 0; i < 8; ++i) nonce |= (uint64_t)kk[32 + i] << (8 * i);
    x.c(noise_cipherstate_set_nonce(cs, nonce));
    NoiseBuffer nb;
    noise_buffer_set_inout(nb, d, len, len + 16);
    memmove(plain, d, len);
    noise_buffer_set_inout(nb, plain, len, sizeof plain);
    x.c(noise_cipherstate_encrypt(cs, &nb));
    x.c(noise_cipherstate_free(cs));
    Noise_EncryptedPrivateKey *e = nullptr;
    x.c(Noise_EncryptedPrivateKey_new(&e));
    std::string alg = std::string("ChaChaPoly_") + hn[h] + "_PBKDF2";
    x.c(Noise_EncryptedPrivateKey_set_version(e, 1));
    x.c(Noise_EncryptedPrivateKey_set_algorithm(e, alg.data(), alg.size()));
    x.c(Noise_EncryptedPrivateKey_set_salt(e, salt.data(), 16));
    x.c(Noise_EncryptedPrivateKey_set_iterations(e, iters));
    x.c(Noise_EncryptedPrivateKey_set_encrypted_data(e, nb.data, nb.size));
    x.c(noise_protobuf_prepare_output(&pb, buf, sizeof buf));
    x.c(Noise_EncryptedPrivateKey_write(&pb, 0, e));
    x.c(noise_protobuf_finish_output(&pb, &d, &len));
    x.c(Noise_EncryptedPrivateKey_free(e));
    x.mix(d, len);
    NoiseProtobuf in;
    Noise_PrivateKey *k2 = nullptr;
    x.c(noise_protobuf_prepare_input(&in, d, len));
    if (x.u(4) == 0) pass[0] ^= 1;
    x.c(noise_load_private_key_from_buffer(&k2, &in, pass.data(), pass.size()));
    if (k2) { mix_key(x, k2); x.c(Noise_PrivateKey_free(k2)); }
}

struct Kind { const char *name; void (*fn)(Ctx &); int weight; };
static const Kind KINDS[] = {
    {"handshake", job_handshake, 8}, {"hash", job_hash, 4}, {"cipher", job_cipher, 4}, {"dh", job_dh, 5}, {"sign", job_sign, 4},
    {"rand", job_rand, 3}, {"sym", job_sym, 3}, {"names", job_names, 3}, {"pbuf", job_pbuf, 2}, {"cert", job_cert, 4}, {"load", job_load, 4}, {"key", job_key, 1},
};
static const int NK = sizeof KINDS / sizeof KINDS[0];

struct Job { int kind; uint64_t seed; };
struct Plan { int T; std::vector<Job> jobs[MAXT]; bool init[MAXT]; uint64_t sched; };

static void run_list(const Plan &pl, int t) {
    me = t;
    for (size_t j = 0; j < pl.jobs[t].size(); ++j) {
        Ctx x;
        x.t = t; x.j = (int)j;
        x.p.reseed(pl.jobs[t][j].seed);
        x.rnd.reseed(pl.jobs[t][j].seed ^ 0x5151515151ull);
        x.noise.reseed(pl.sched + t * 977 + j);
        ctx_ = &x;
        env_rand_prng = &x.rnd;
        if (pl.init[t] && !j) x.c(noise_init());
        KINDS[pl.jobs[t][j].kind].fn(x);
        x.mix(x.p.next());
        x.mix(x.rnd.next());                 // and the amount of randomness used
        out_->h[t][j] = x.h;
        snprintf(out_->what[t][j], sizeof out_->what[t][j], "%s", x.what.c_str());
        ctx_ = nullptr;
        env_rand_prng = nullptr;
    }
}
static const Plan *plan_;
static void *thread_main(void *a) {
    int t = (int)(intptr_t)a;
    if (sc.mode == TURNS) {
        pthread_mutex_lock(&sc.mu);
        while (sc.cur != t) pthread_cond_wait(&sc.cv, &sc.mu);
        pthread_mutex_unlock(&sc.mu);
    } else pthread_barrier_wait(&sc.bar);
    run_list(*plan_, t);
    if (sc.mode == TURNS) {
        pthread_mutex_lock(&sc.mu);
        sc.done[t] = true;
        sc.cur = pick_next(t);
        pthread_cond_broadcast(&sc.cv);
        pthread_mutex_unlock(&sc.mu);
    }
    return nullptr;
}
static void fiber_main(int t) {
    run_list(*plan_, t);
    sc.done[t] = true;
    int nx = pick_next(t);
    if (nx < 0) setcontext(&sc.main_);
    sc.cur = nx;
    setcontext(&sc.ctx[nx]);
}
static void together(const Plan &pl, Mode mode) {
    sc.mode = mode;
    sc.n = pl.T;
    sc.pr.reseed(pl.sched);
    memset(sc.done, 0, sizeof sc.done);
    plan_ = &pl;
    if (mode == SEQ) { for (int t = 0; t < pl.T; ++t) run_list(pl, t); return; }
    if (mode == FIBERS) {
        for (int t = 0; t < pl.T; ++t) {
            getcontext(&sc.ctx[t]);
            size_t n = 1 << 20;
            sc.ctx[t].uc_stack.ss_sp = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            sc.ctx[t].uc_stack.ss_size = n;
            sc.ctx[t].uc_link = nullptr;
            makecontext(&sc.ctx[t], (void (*)())fiber_main, 1, t);
        }
        sc.cur = (int)(sc.pr.next() % pl.T);
        swapcontext(&sc.main_, &sc.ctx[sc.cur]);
        return;
    }
    pthread_mutex_init(&sc.mu, nullptr);
    pthread_cond_init(&sc.cv, nullptr);
    pthread_barrier_init(&sc.bar, nullptr, pl.T);
    sc.cur = (int)(sc.pr.next() % pl.T);
    pthread_t th[MAXT];
    for (int t = 0; t < pl.T; ++t) pthread_create(&th[t], nullptr, thread_main, (void *)(intptr_t)t);
    for (int t = 0; t < pl.T; ++t) pthread_join(th[t], nullptr);
}

static std::string slurp(const std::string &p) {
    std::string s;
    if (FILE *f = fopen(p.c_str(), "r")) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < 20000) s.append(b, n); fclose(f); }
    return s;
}
// runs fn in a child of its own; anything but a clean exit fails the case
template <class F> static void in_child(const char *what, F fn) {
    std::string log = strf("%s/th-%d.log", getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp", (int)getpid());
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0) { dup2(fd, 2); close(fd); }
        alarm(120);
        fn();
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { unlink(log.c_str()); return; }
    std::string s = slurp(log);
    unlink(log.c_str());
    size_t p = s.find("SUMMARY:");
    std::string brief = p == std::string::npos ? s.substr(0, 300) : s.substr(p, s.find('\n', p) - p);
    p = s.find("Location is");
    if (p != std::string::npos) brief += " | " + s.substr(p, s.find('\n', p) - p);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) FAILF("%s: did not finish (deadlock?)", what);
    FAILF("%s: %s %d: %s", what, WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), brief.c_str());
}

static void setup(Gen &) {}
static struct Init { Init() { case_setup = setup; env_rand_hook = rand_hook; } } init_;

TARGET(C32, threads, 1, "two to six parties with one to three jobs each on objects of their own (handshakes with transport, hashes, ciphers, key exchange, signatures, random states, names, protobuf, certificates, encrypted keys), run alone in a fresh process each and then together: racing threads, threads or fibers taking turns at every call, or one after the other; non-trivial if at least two parties made ten calls each and the parties were interleaved; distinct by the jobs and the kind of schedule") {
    static Out *alone, *tog;
    if (!alone) {
        alone = (Out *)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        tog = (Out *)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    memset(alone, 0, sizeof *alone);
    memset(tog, 0, sizeof *tog);
    Plan pl;
    static const Mode modes[] = {FREE, TURNS, FREE,
#ifndef TSAN
        FIBERS, SEQ, FIBERS,
#endif
    };
    Mode mode = modes[g.u(sizeof modes / sizeof modes[0] - 1)];
    static const char *const mn[] = {"alone", "in sequence", "racing", "taking turns", "fibers taking turns"};
    pl.T = 2 + (int)g.u(MAXT - 2);
    pl.sched = g.u(0xffffffff);
    // often everyone does the same kind of thing
    int same = g.flip() ? (int)g.u(NK - 1) : -1;
    bool initall = g.flip() || g_backend == "sodium";
    g.note("%d %s:", pl.T, mn[mode]);
    g.key(mn[mode]);
    int total = 0;
    for (auto &k : KINDS) total += k.weight;
    int keys = 0;
    for (int t = 0; t < pl.T; ++t) {
        pl.init[t] = initall || g.chance(1, 4);
        int n = 1 + (int)g.u(2);
        g.note(" [");
        for (int j = 0; j < n; ++j) {
            int kind = same;
            if (kind < 0 || g.chance(1, 4)) {
                int w = (int)g.u(total - 1);
                for (kind = 0; w >= KINDS[kind].weight; ++kind) w -= KINDS[kind].weight;
            }
            // slow: 20000 iterations of PBKDF2
#ifdef TSAN
            if (!strcmp(KINDS[kind].name, "key") && (g.chance(9, 10) || ++keys > 1)) kind = 10;
#else
            if (!strcmp(KINDS[kind].name, "key") && ++keys > 2) kind = 10;
#endif
            pl.jobs[t].push_back({kind, g.u(0xffffffff)});
            g.note("%s%s", j ? " " : "", KINDS[kind].name);
            g.key(KINDS[kind].name);
        }
        g.note("]");
    }
    g.label(mn[mode]);
    for (int t = 0; t < pl.T; ++t)
        in_child(strf("party %d alone", t).c_str(), [&] { out_ = alone; sc.mode = ALONE; run_list(pl, t); });
    in_child(mn[mode], [&] { out_ = tog; together(pl, mode); });
    int busy = 0;
    for (int t = 0; t < pl.T; ++t) {
        if (alone->calls[t] >= 10) ++busy;
        for (size_t j = 0; j < pl.jobs[t].size(); ++j)
            CHECK(alone->h[t][j] == tog->h[t][j], "party %d's job %zu (%s, %s) came out differently %s than alone", t, j,
                  KINDS[pl.jobs[t][j].kind].name, alone->what[t][j], mn[mode]);
    }
    std::set<Bytes> seen;
    for (int t = 0; t < pl.T; ++t)
        for (unsigned i = 0; i < tog->nrand[t]; ++i)
            CHECK(seen.insert(Bytes(tog->rand[t][i], tog->rand[t][i] + 16)).second, "the same random bytes %s were handed out twice (party %d)",
                  hex(tog->rand[t][i], 16).c_str(), t);
    if (busy >= 2 && mode != SEQ) g.nontrivial();
}
