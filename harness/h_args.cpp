// C37: wrong arguments are refused with the documented error, and a refused
// call changes nothing.  Two objects get the same history of good calls; one of
// them also gets refused ones in between.  Whatever either gives must be equal.
#include "nutil.h"
#include <noise/keys.h>
#include <noise/protobufs.h>
#include <functional>
#include <set>
#include <errno.h>
#include <unistd.h>

#define PARAM NOISE_ERROR_INVALID_PARAM
#define LENGTH NOISE_ERROR_INVALID_LENGTH
#define STATE NOISE_ERROR_INVALID_STATE

namespace {
struct Sink {                            // every output of one refused call
    std::vector<Buf *> bufs;
    Buf &out(size_t n) { bufs.push_back(new Buf(n)); return *bufs.back(); }
    Buf &in(const Bytes &b) { ins.push_back(new Buf(b)); kept.push_back(b); return *ins.back(); }
    ~Sink() { for (Buf *b : bufs) delete b; for (Buf *b : ins) delete b; }
    // outputs are as they were, or cleared; inputs are as they were
    void check(const char *what) {
        for (Buf *b : bufs) {
            Bytes v = b->bytes();
            bool same = true;
            for (uint8_t x : v) same = same && (x == 0xa5 || x == 0);
            CHECK(same, "%s: refused, but its output was set to %s", what, hex(v, 40).c_str());
        }
        for (size_t i = 0; i < ins.size(); ++i) CHECK(ins[i]->bytes() == kept[i], "%s: refused, but its input was changed", what);
    }
private:
    std::vector<Buf *> ins;
    std::vector<Bytes> kept;
};
std::string trail;                       // what was refused, for the message
size_t refused;
template <class F> void null_args(Gen &g, const char *what, int n, F call) {
    unsigned mask = (unsigned)g.u((1u << n) - 2) + 1;
    Sink s;
    int e = call(mask, s);
    trail += strf("%s/%x ", what, mask); ++refused;
    CHECK(e == PARAM, "%s with null arguments (%x): got 0x%x, expected the parameter error", what, mask, e);
    s.check(what);
}
#define N(i, x) ((mask >> (i) & 1) ? nullptr : (x))
template <class F> void bad(const char *what, std::initializer_list<int> want, F call) {
    Sink s;
    int e = call(s);
    trail += strf("%s ", what); ++refused;
    for (int w : want) if (e == w) { s.check(what); return; }
    FAILF("%s: got 0x%x, expected 0x%x", what, e, *want.begin());
}
// a null object: the getters' "nothing"
void zero(const char *what, long long v) { trail += strf("%s ", what); ++refused; CHECK(v == 0, "%s of a null object gives %lld", what, v); }
#define ZERO(f) zero(#f, (long long)f(nullptr))

size_t other_len(Gen &g, size_t n) {     // a length that is not n
    size_t l = g.size(n + 40, {0, n ? n - 1 : 0, n + 1, 2 * n});
    return l == n ? n + 1 : l;
}
bool known(int category, int id) { return noise_id_to_name(category, id) != nullptr; }
int unknown_id(Gen &g, int category) {
    int id;
    switch (g.u(4)) {
    case 0: id = 0; break;
    case 1: id = (int)(g.u64() & 0xffffffff); break;
    case 2: id = category | (int)g.u(255); break;
    case 3: id = NOISE_ID(g.flip() ? 'C' : g.flip() ? 'H' : g.flip() ? 'D' : 'S', g.u(6)); break;
    default: id = (category | (int)g.u(9)) ^ (int)(1u << (8 + g.u(23))); break;
    }
    return known(category, id) ? category | 0xfe : id;
}
std::string unknown_name(Gen &g, int category) {
    static const char *const names[] = {"", "ChaChaPoly", "AESGCM", "BLAKE2s", "BLAKE2b", "SHA256", "SHA512", "25519", "448", "NewHope",
        "Ed25519", "chachapoly", "AESGCM ", " SHA256", "SHA256_", "2551", "255190", "ed25519", "AES", "Noise", "XX", "NoisePSK"};
    std::string s = names[g.u(sizeof names / sizeof *names - 1)];
    return noise_name_to_id(category, s.c_str(), s.size()) ? s + "x" : s;
}
int unknown_fp(Gen &g) {
    int t = unknown_id(g, NOISE_FINGERPRINT_BASIC & 0xff00);
    return t == NOISE_FINGERPRINT_BASIC || t == NOISE_FINGERPRINT_FULL ? 0 : t;
}
template <class T> bool untouched(T *p) { return p == nullptr || p == (T *)8; }
#define NEW_CALLS(T, x, cat) \
    switch (g.u(5)) { \
    case 0: null_args(g, #x "_new_by_id(NULL)", 1, [&](unsigned, Sink &) { return noise_##x##_new_by_id(nullptr, NOISE_##cat##_CATEGORY + 1); }); break; \
    case 1: bad(#x "_new_by_id of an unknown id", {NOISE_ERROR_UNKNOWN_ID}, [&](Sink &) { \
            T *o = (T *)8; int e = noise_##x##_new_by_id(&o, unknown_id(g, NOISE_##cat##_CATEGORY)); \
            CHECK(untouched(o), #x "_new_by_id of an unknown id gives an object"); return e; }); break; \
    case 2: null_args(g, #x "_new_by_name", 2, [&](unsigned mask, Sink &) { \
            T *o = (T *)8; int e = noise_##x##_new_by_name(N(0, &o), N(1, "x")); \
            CHECK(untouched(o), #x "_new_by_name without a name gives an object"); return e; }); break; \
    case 3: bad(#x "_new_by_name of an unknown name", {NOISE_ERROR_UNKNOWN_NAME}, [&](Sink &) { \
            T *o = (T *)8; int e = noise_##x##_new_by_name(&o, unknown_name(g, NOISE_##cat##_CATEGORY).c_str()); \
            CHECK(untouched(o), #x "_new_by_name of an unknown name gives an object"); return e; }); break; \
    default: bad(#x "_free(NULL)", {PARAM}, [&](Sink &) { return noise_##x##_free(nullptr); }); break; \
    }

struct Twin {                            // randomness of its own
    Prng r;
    void use() { env_rand_prng = &r; }
};
struct Rand {
    Twin t[2];
    explicit Rand(Gen &g) { uint64_t s = g.u64(); t[0].r.reseed(s); t[1].r.reseed(s); t[0].use(); }
    ~Rand() { env_rand_prng = nullptr; }
    bool same() { Prng a = t[0].r, b = t[1].r; return a.next() == b.next(); }
};
std::string show(int err, const Bytes &b) { return strf("0x%x ", err) + hex(b, 4000); }

// ---------------------------------------------------------------- cipher
void bad_cipher(Gen &g, NoiseCipherState *c) {
    size_t kl = noise_cipherstate_get_key_length(c);
    Bytes in = g.rnd(g.u(40));
    switch (g.u(9)) {
    case 0: NEW_CALLS(NoiseCipherState, cipherstate, CIPHER) break;
    case 1: ZERO(noise_cipherstate_get_cipher_id); ZERO(noise_cipherstate_get_key_length); ZERO(noise_cipherstate_get_mac_length); ZERO(noise_cipherstate_has_key); break;
    case 2: null_args(g, "init_key", 2, [&](unsigned mask, Sink &s) { return noise_cipherstate_init_key(N(0, c), N(1, s.in(g.rnd(kl)).p), kl); }); break;
    case 3: { size_t l = other_len(g, kl); bad("init_key of another length", {LENGTH}, [&](Sink &s) { return noise_cipherstate_init_key(c, s.in(g.rnd(l)).p, l); }); break; }
    case 4: case 5: case 6: {
        bool enc = g.flip(), ad = g.flip();
        null_args(g, enc ? "encrypt" : "decrypt", ad ? 4 : 3, [&](unsigned mask, Sink &s) {
            Bytes d = in; d.resize(in.size() + 16, 0xa5);
            Buf &b = s.in(d);
            NoiseBuffer nb;
            noise_buffer_set_inout(nb, N(2, b.p), enc ? in.size() : d.size(), d.size());
            const uint8_t *a = ad ? N(3, in.data()) : nullptr;
            size_t an = ad ? g.u(9) + 1 : 0;
            if (ad && a && in.size() < an) an = in.size();
            size_t was = nb.size;
            int e;
            if (!ad && g.flip()) e = enc ? noise_cipherstate_encrypt(N(0, c), N(1, &nb)) : noise_cipherstate_decrypt(N(0, c), N(1, &nb));
            else e = enc ? noise_cipherstate_encrypt_with_ad(N(0, c), a, an, N(1, &nb)) : noise_cipherstate_decrypt_with_ad(N(0, c), a, an, N(1, &nb));
            CHECK(nb.size == was || nb.size == 0, "refused, but the buffer's size went from %zu to %zu", was, nb.size);
            return e;
        });
        break;
    }
    case 7: {
        bool enc = g.flip();
        bad(enc ? "encrypt of more than the buffer's maximum" : "decrypt of more than the buffer's maximum", {LENGTH}, [&](Sink &s) {
            Buf &b = s.in(g.rnd(60));
            NoiseBuffer nb;
            size_t max = g.u(50);
            noise_buffer_set_inout(nb, b.p, max + 1 + g.u(9), max);
            return enc ? noise_cipherstate_encrypt_with_ad(c, nullptr, 0, &nb) : noise_cipherstate_decrypt_with_ad(c, nullptr, 0, &nb);
        });
        break;
    }
    case 8: bad("set_nonce(NULL)", {PARAM}, [&](Sink &) { return noise_cipherstate_set_nonce(nullptr, g.u(5)); }); break;
    case 9: if (!noise_cipherstate_has_key(c)) bad("set_nonce without a key", {STATE}, [&](Sink &) { return noise_cipherstate_set_nonce(c, g.u(5)); }); break;
    }
}
// ---------------------------------------------------------------- hash
void bad_hash(Gen &g, NoiseHashState *h) {
    size_t n = noise_hashstate_get_hash_length(h);
    Bytes in = g.rnd(g.u(70));
    size_t l = other_len(g, n), m = in.size();
    switch (g.u(12)) {
    case 0: NEW_CALLS(NoiseHashState, hashstate, HASH) break;
    case 1: ZERO(noise_hashstate_get_hash_id); ZERO(noise_hashstate_get_hash_length); ZERO(noise_hashstate_get_block_length); break;
    case 2: bad("reset(NULL)", {PARAM}, [&](Sink &) { return noise_hashstate_reset(nullptr); }); break;
    case 3: null_args(g, "update", 2, [&](unsigned mask, Sink &s) { return noise_hashstate_update(N(0, h), N(1, s.in(in).p), m); }); break;
    case 4: null_args(g, "finalize", 2, [&](unsigned mask, Sink &s) { return noise_hashstate_finalize(N(0, h), N(1, s.out(n).p), n); }); break;
    case 5: bad("finalize into another length", {LENGTH}, [&](Sink &s) { return noise_hashstate_finalize(h, s.out(l).p, l); }); break;
    case 6: null_args(g, "hash_one", 3, [&](unsigned mask, Sink &s) { return noise_hashstate_hash_one(N(0, h), N(1, s.in(in).p), m, N(2, s.out(n).p), n); }); break;
    case 7: bad("hash_one into another length", {LENGTH}, [&](Sink &s) { return noise_hashstate_hash_one(h, s.in(in).p, m, s.out(l).p, l); }); break;
    case 8: null_args(g, "hash_two", 4, [&](unsigned mask, Sink &s) { return noise_hashstate_hash_two(N(0, h), N(1, s.in(in).p), m, N(2, s.in(in).p), m, N(3, s.out(n).p), n); }); break;
    case 9: bad("hash_two into another length", {LENGTH}, [&](Sink &s) { return noise_hashstate_hash_two(h, s.in(in).p, m, s.in(in).p, m, s.out(l).p, l); }); break;
    case 10: null_args(g, "hkdf", 5, [&](unsigned mask, Sink &s) { return noise_hashstate_hkdf(N(0, h), N(1, s.in(in).p), m, N(2, s.in(in).p), m, N(3, s.out(n).p), n, N(4, s.out(n).p), g.u(n)); }); break;
    case 11: {
        size_t a = n, b = n;
        unsigned w = (unsigned)g.u(2) + 1;
        if (w & 1) a = n + 1 + g.u(30);
        if (w & 2) b = n + 1 + g.u(30);
        bad("hkdf of too much", {LENGTH}, [&](Sink &s) { return noise_hashstate_hkdf(h, s.in(in).p, m, s.in(in).p, m, s.out(a).p, a, s.out(b).p, b); });
        break;
    }
    case 12: null_args(g, "pbkdf2", 4, [&](unsigned mask, Sink &s) { return noise_hashstate_pbkdf2(N(0, h), N(1, s.in(in).p), m, N(2, s.in(in).p), m, g.u(3), N(3, s.out(40).p), 40); }); break;
    }
}
// ------------------------------------------------------------ key objects
void bad_dh(Gen &g, NoiseDHState *d) {
    size_t kn = noise_dhstate_get_private_key_length(d), pn = noise_dhstate_get_public_key_length(d), sn = noise_dhstate_get_shared_key_length(d);
    size_t kl = other_len(g, kn), pl = other_len(g, pn), sl = other_len(g, sn);
    int id = noise_dhstate_get_dh_id(d);
    auto other = [&](NoiseDHState **o) {
        int ids[] = {NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE};
        int i = (int)g.u(2);
        if (ids[i] == id) i = (i + 1) % 3;
        CHECK_EQ(noise_dhstate_new_by_id(o, ids[i]), 0, "new");
    };
    switch (g.u(19)) {
    case 0: NEW_CALLS(NoiseDHState, dhstate, DH) break;
    case 1: ZERO(noise_dhstate_get_dh_id); ZERO(noise_dhstate_get_public_key_length); ZERO(noise_dhstate_get_private_key_length); ZERO(noise_dhstate_get_shared_key_length); break;
    case 2: ZERO(noise_dhstate_is_ephemeral_only); ZERO(noise_dhstate_has_keypair); ZERO(noise_dhstate_has_public_key); ZERO(noise_dhstate_is_null_public_key); ZERO(noise_dhstate_get_role); break;
    case 3: bad("generate_keypair(NULL)", {PARAM}, [&](Sink &) { return noise_dhstate_generate_keypair(nullptr); }); break;
    case 4: bad("generate_dependent_keypair(NULL)", {PARAM}, [&](Sink &) { return noise_dhstate_generate_dependent_keypair(nullptr, g.flip() ? d : nullptr); }); break;
    case 5: bad("generate_dependent_keypair for another algorithm", {PARAM}, [&](Sink &) {
            NoiseDHState *o; other(&o); int e = noise_dhstate_generate_dependent_keypair(d, o); noise_dhstate_free(o); return e; }); break;
    case 6: null_args(g, "dh set_keypair", 3, [&](unsigned mask, Sink &s) { return noise_dhstate_set_keypair(N(0, d), N(1, s.in(g.rnd(kn)).p), kn, N(2, s.in(g.rnd(pn)).p), pn); }); break;
    case 7: { unsigned w = (unsigned)g.u(2) + 1;
            bad("dh set_keypair of another length", {LENGTH}, [&](Sink &s) { return noise_dhstate_set_keypair(d, s.in(g.rnd(w & 1 ? kl : kn)).p, w & 1 ? kl : kn, s.in(g.rnd(w & 2 ? pl : pn)).p, w & 2 ? pl : pn); }); break; }
    case 8: null_args(g, "dh set_keypair_private", 2, [&](unsigned mask, Sink &s) { return noise_dhstate_set_keypair_private(N(0, d), N(1, s.in(g.rnd(kn)).p), kn); }); break;
    case 9: bad("dh set_keypair_private of another length", {LENGTH, NOISE_ERROR_NOT_APPLICABLE}, [&](Sink &s) { return noise_dhstate_set_keypair_private(d, s.in(g.rnd(kl)).p, kl); }); break;
    case 10: null_args(g, "dh get_keypair", 3, [&](unsigned mask, Sink &s) { return noise_dhstate_get_keypair(N(0, d), N(1, s.out(kn).p), kn, N(2, s.out(pn).p), pn); }); break;
    case 11: { unsigned w = (unsigned)g.u(2) + 1;
            bad("dh get_keypair of another length", {LENGTH}, [&](Sink &s) { return noise_dhstate_get_keypair(d, s.out(w & 1 ? kl : kn).p, w & 1 ? kl : kn, s.out(w & 2 ? pl : pn).p, w & 2 ? pl : pn); }); break; }
    case 12: null_args(g, "dh set_public_key", 2, [&](unsigned mask, Sink &s) { return noise_dhstate_set_public_key(N(0, d), N(1, s.in(g.rnd(pn)).p), pn); }); break;
    case 13: bad("dh set_public_key of another length", {LENGTH}, [&](Sink &s) { return noise_dhstate_set_public_key(d, s.in(g.rnd(pl)).p, pl); }); break;
    case 14: null_args(g, "dh get_public_key", 2, [&](unsigned mask, Sink &s) { return noise_dhstate_get_public_key(N(0, d), N(1, s.out(pn).p), pn); }); break;
    case 15: bad("dh get_public_key of another length", {LENGTH}, [&](Sink &s) { return noise_dhstate_get_public_key(d, s.out(pl).p, pl); }); break;
    case 16: bad("set_null_public_key(NULL)", {PARAM}, [&](Sink &) { return noise_dhstate_set_null_public_key(nullptr); });
            bad("dh clear_key(NULL)", {PARAM}, [&](Sink &) { return noise_dhstate_clear_key(nullptr); });
            bad("set_role(NULL)", {PARAM}, [&](Sink &) { return noise_dhstate_set_role(nullptr, 0); });
            bad("set_role to none of the roles", {PARAM}, [&](Sink &) {
                int r = g.flip() ? (int)(g.u64() & 0xffffffff) : NOISE_ROLE_INITIATOR + (int)g.u(4) - 1;
                return noise_dhstate_set_role(d, !r || r == NOISE_ROLE_INITIATOR || r == NOISE_ROLE_RESPONDER ? 1 : r); });
            if (id == NOISE_DH_NEWHOPE) bad("set_null_public_key for New Hope", {PARAM}, [&](Sink &) { return noise_dhstate_set_null_public_key(d); });
            break;
    case 17: null_args(g, "calculate", 3, [&](unsigned mask, Sink &s) { return noise_dhstate_calculate(N(0, d), N(1, d), N(2, s.out(sn).p), sn); }); break;
    case 18: bad("calculate of another length", {LENGTH}, [&](Sink &s) { return noise_dhstate_calculate(d, d, s.out(sl).p, sl); });
            bad("calculate or copy across algorithms", {PARAM}, [&](Sink &s) {
                NoiseDHState *o; other(&o);
                int e = g.flip() ? noise_dhstate_calculate(d, o, s.out(sn).p, sn) : noise_dhstate_calculate(o, d, s.out(sn).p, sn);
                int e2 = noise_dhstate_copy(d, o);
                noise_dhstate_free(o);
                CHECK(e2 == NOISE_ERROR_NOT_APPLICABLE, "copy across algorithms: got 0x%x", e2);
                return e; });
            break;
    case 19: null_args(g, "dh copy", 2, [&](unsigned mask, Sink &) { return noise_dhstate_copy(N(0, d), N(1, d)); });
            null_args(g, "dh format_fingerprint", 2, [&](unsigned mask, Sink &s) { return noise_dhstate_format_fingerprint(N(0, d), NOISE_FINGERPRINT_BASIC, N(1, (char *)s.out(60).p), 60); });
            if (noise_dhstate_has_public_key(d)) bad("dh format_fingerprint of an unknown type", {PARAM}, [&](Sink &s) { return noise_dhstate_format_fingerprint(d, unknown_fp(g), (char *)s.out(200).p, 200); });
            break;
    }
}
void bad_sign(Gen &g, NoiseSignState *d) {
    size_t kl = other_len(g, 32), pl = other_len(g, 32), sl = other_len(g, 64);
    Bytes m = g.rnd(g.u(50));
    switch (g.u(15)) {
    case 0: NEW_CALLS(NoiseSignState, signstate, SIGN) break;
    case 1: ZERO(noise_signstate_get_sign_id); ZERO(noise_signstate_get_public_key_length); ZERO(noise_signstate_get_private_key_length); ZERO(noise_signstate_get_signature_length); break;
    case 2: ZERO(noise_signstate_has_keypair); ZERO(noise_signstate_has_public_key); break;
    case 3: bad("sign generate_keypair(NULL)", {PARAM}, [&](Sink &) { return noise_signstate_generate_keypair(nullptr); });
            bad("sign clear_key(NULL)", {PARAM}, [&](Sink &) { return noise_signstate_clear_key(nullptr); }); break;
    case 4: null_args(g, "sign set_keypair", 3, [&](unsigned mask, Sink &s) { return noise_signstate_set_keypair(N(0, d), N(1, s.in(g.rnd(32)).p), 32, N(2, s.in(g.rnd(32)).p), 32); }); break;
    case 5: { unsigned w = (unsigned)g.u(2) + 1;
            bad("sign set_keypair of another length", {LENGTH}, [&](Sink &s) { return noise_signstate_set_keypair(d, s.in(g.rnd(w & 1 ? kl : 32)).p, w & 1 ? kl : 32, s.in(g.rnd(w & 2 ? pl : 32)).p, w & 2 ? pl : 32); }); break; }
    case 6: null_args(g, "sign set_keypair_private", 2, [&](unsigned mask, Sink &s) { return noise_signstate_set_keypair_private(N(0, d), N(1, s.in(g.rnd(32)).p), 32); }); break;
    case 7: bad("sign set_keypair_private of another length", {LENGTH}, [&](Sink &s) { return noise_signstate_set_keypair_private(d, s.in(g.rnd(kl)).p, kl); }); break;
    case 8: null_args(g, "sign get_keypair", 3, [&](unsigned mask, Sink &s) { return noise_signstate_get_keypair(N(0, d), N(1, s.out(32).p), 32, N(2, s.out(32).p), 32); }); break;
    case 9: { unsigned w = (unsigned)g.u(2) + 1;
            bad("sign get_keypair of another length", {LENGTH}, [&](Sink &s) { return noise_signstate_get_keypair(d, s.out(w & 1 ? kl : 32).p, w & 1 ? kl : 32, s.out(w & 2 ? pl : 32).p, w & 2 ? pl : 32); }); break; }
    case 10: null_args(g, "sign set_public_key", 2, [&](unsigned mask, Sink &s) { return noise_signstate_set_public_key(N(0, d), N(1, s.in(g.rnd(32)).p), 32); });
            bad("sign set_public_key of another length", {LENGTH}, [&](Sink &s) { return noise_signstate_set_public_key(d, s.in(g.rnd(pl)).p, pl); }); break;
    case 11: null_args(g, "sign get_public_key", 2, [&](unsigned mask, Sink &s) { return noise_signstate_get_public_key(N(0, d), N(1, s.out(32).p), 32); });
            bad("sign get_public_key of another length", {LENGTH}, [&](Sink &s) { return noise_signstate_get_public_key(d, s.out(pl).p, pl); }); break;
    case 12: null_args(g, "sign", 3, [&](unsigned mask, Sink &s) { return noise_signstate_sign(N(0, d), N(1, s.in(m).p), m.size(), N(2, s.out(64).p), 64); }); break;
    case 13: bad("sign into another length", {LENGTH}, [&](Sink &s) { return noise_signstate_sign(d, s.in(m).p, m.size(), s.out(sl).p, sl); }); break;
    case 14: null_args(g, "verify", 3, [&](unsigned mask, Sink &s) { return noise_signstate_verify(N(0, d), N(1, s.in(m).p), m.size(), N(2, s.in(g.rnd(64)).p), 64); });
            bad("verify of another length", {LENGTH}, [&](Sink &s) { return noise_signstate_verify(d, s.in(m).p, m.size(), s.in(g.rnd(sl)).p, sl); }); break;
    case 15: null_args(g, "sign copy", 2, [&](unsigned mask, Sink &) { return noise_signstate_copy(N(0, d), N(1, d)); });
            null_args(g, "sign format_fingerprint", 2, [&](unsigned mask, Sink &s) { return noise_signstate_format_fingerprint(N(0, d), NOISE_FINGERPRINT_BASIC, N(1, (char *)s.out(60).p), 60); });
            if (noise_signstate_has_public_key(d)) bad("sign format_fingerprint of an unknown type", {PARAM}, [&](Sink &s) { return noise_signstate_format_fingerprint(d, unknown_fp(g), (char *)s.out(200).p, 200); });
            break;
    }
}
// ---------------------------------------------------------------- random
void bad_rand(Gen &g, NoiseRandState *r) {
    switch (g.u(4)) {
    case 0: bad("randstate_new(NULL)", {PARAM}, [&](Sink &) { return noise_randstate_new(nullptr); });
            bad("randstate_free(NULL)", {PARAM}, [&](Sink &) { return noise_randstate_free(nullptr); }); break;
    case 1: bad("reseed(NULL)", {PARAM}, [&](Sink &) { return noise_randstate_reseed(nullptr); }); break;
    case 2: null_args(g, "generate", 2, [&](unsigned mask, Sink &s) { size_t n = g.u(90); return noise_randstate_generate(N(0, r), N(1, s.out(n).p), n); }); break;
    case 3: bad("generate_simple(NULL)", {PARAM}, [&](Sink &) { return noise_randstate_generate_simple(nullptr, g.u(90)); }); break;
    case 4: {
        size_t a = g.u(30), b = g.u(60);
        int mode = g.flip() ? NOISE_PADDING_ZERO : NOISE_PADDING_RANDOM;
        bad("pad(NULL payload)", {PARAM}, [&](Sink &) { return noise_randstate_pad(g.flip() ? r : nullptr, nullptr, a, b, mode); });
        Bytes in = g.rnd(60);
        Buf p(in);
        CHECK_EQ(noise_randstate_pad(nullptr, p.p, a, b, mode), PARAM, "pad without an object");
        for (size_t i = a; i < b; ++i) in[i] = 0;
        CHECK(p.bytes() == in, "pad without an object: the region is not cleared, or more than it was changed");
        break;
    }
    }
}
// ------------------------------------------------------------- symmetric
void bad_protocol(Gen &g, NoiseProtocolId &id) {
    unsigned w = (unsigned)g.u(4);
    if (w == 0) id.prefix_id = unknown_id(g, NOISE_PREFIX_CATEGORY);
    if (w == 1) id.pattern_id = unknown_id(g, NOISE_PATTERN_CATEGORY);
    if (w == 2) id.dh_id = unknown_id(g, NOISE_DH_CATEGORY);
    if (w == 3) id.cipher_id = unknown_id(g, NOISE_CIPHER_CATEGORY);
    if (w == 4) id.hash_id = unknown_id(g, NOISE_HASH_CATEGORY);
}
std::string bad_protocol_name(Gen &g, const Suite &s) {
    std::string n = s.name();
    switch (g.u(3)) {
    case 0: return n + "_";
    case 1: return n.substr(0, g.u(n.size() - 1));
    case 2: n[g.u(n.size() - 1)] = '?'; return n;
    default: return "";
    }
}
void bad_symmetric(Gen &g, NoiseSymmetricState *y, const Suite &su, bool split) {
    Bytes in = g.rnd(g.u(60));
    NoiseProtocolId id = su.id();
    switch (g.u(9)) {
    case 0: null_args(g, "symmetricstate_new_by_id", 2, [&](unsigned mask, Sink &) { NoiseSymmetricState *o = (NoiseSymmetricState *)8; int e = noise_symmetricstate_new_by_id(N(0, &o), N(1, &id)); CHECK(untouched(o), "an object"); return e; }); break;
    case 1: null_args(g, "symmetricstate_new_by_name", 2, [&](unsigned mask, Sink &) { NoiseSymmetricState *o = (NoiseSymmetricState *)8; int e = noise_symmetricstate_new_by_name(N(0, &o), N(1, su.name().c_str())); CHECK(untouched(o), "an object"); return e; }); break;
    case 2: bad("symmetricstate_new_by_id of an unknown id", {NOISE_ERROR_UNKNOWN_ID}, [&](Sink &) { bad_protocol(g, id); NoiseSymmetricState *o = (NoiseSymmetricState *)8; int e = noise_symmetricstate_new_by_id(&o, &id); CHECK(untouched(o), "an object"); return e; }); break;
    case 3: bad("symmetricstate_new_by_name of an unknown name", {NOISE_ERROR_UNKNOWN_NAME}, [&](Sink &) { NoiseSymmetricState *o = (NoiseSymmetricState *)8; int e = noise_symmetricstate_new_by_name(&o, bad_protocol_name(g, su).c_str()); CHECK(untouched(o), "an object"); return e; }); break;
    case 4: bad("symmetricstate_free(NULL)", {PARAM}, [&](Sink &) { return noise_symmetricstate_free(nullptr); }); ZERO(noise_symmetricstate_get_mac_length); break;
    case 5: null_args(g, "symmetricstate_get_protocol_id", 2, [&](unsigned mask, Sink &s) { return noise_symmetricstate_get_protocol_id(N(0, y), (NoiseProtocolId *)N(1, s.out(sizeof id).p)); }); break;
    case 6: null_args(g, "mix_key", 2, [&](unsigned mask, Sink &s) { return noise_symmetricstate_mix_key(N(0, y), N(1, s.in(in).p), in.size()); });
            if (split) bad("mix_key after split", {STATE}, [&](Sink &s) { return noise_symmetricstate_mix_key(y, s.in(in).p, in.size()); }); break;
    case 7: null_args(g, "mix_hash", 2, [&](unsigned mask, Sink &s) { return noise_symmetricstate_mix_hash(N(0, y), N(1, s.in(in).p), in.size()); });
            if (split) bad("mix_hash after split", {STATE}, [&](Sink &s) { return noise_symmetricstate_mix_hash(y, s.in(in).p, in.size()); }); break;
    case 8: {
        bool enc = g.flip();
        auto call = [&](unsigned mask, Sink &s, size_t size, size_t max) {
            Bytes d = in; d.resize(100, 0xa5);
            NoiseBuffer nb;
            noise_buffer_set_inout(nb, N(2, s.in(d).p), size, max);
            int e = enc ? noise_symmetricstate_encrypt_and_hash(N(0, y), N(1, &nb)) : noise_symmetricstate_decrypt_and_hash(N(0, y), N(1, &nb));
            CHECK(nb.size == size || nb.size == 0, "refused, but the buffer's size went from %zu to %zu", size, nb.size);
            return e;
        };
        null_args(g, enc ? "encrypt_and_hash" : "decrypt_and_hash", 3, [&](unsigned mask, Sink &s) { return call(mask, s, in.size(), 100); });
        if (split) bad(enc ? "encrypt_and_hash after split" : "decrypt_and_hash after split", {STATE}, [&](Sink &s) { return call(0, s, in.size(), 100); });
        else {
            size_t max = g.u(50);
            bad(enc ? "encrypt_and_hash of more than the maximum" : "decrypt_and_hash of more than the maximum", {LENGTH}, [&](Sink &s) { return call(0, s, max + 1 + g.u(9), max); });
        }
        break;
    }
    case 9: {
        NoiseCipherState *a = (NoiseCipherState *)8, *b = (NoiseCipherState *)8;
        bad("symmetric split(NULL)", {PARAM}, [&](Sink &) { return noise_symmetricstate_split(nullptr, &a, &b); });
        CHECK(untouched(a) && untouched(b), "split of no object gives ciphers");
        bad("symmetric split into nothing", {PARAM}, [&](Sink &) { return noise_symmetricstate_split(y, nullptr, nullptr); });
        if (split) {
            a = b = (NoiseCipherState *)8;
            bad("symmetric split twice", {STATE}, [&](Sink &) { return noise_symmetricstate_split(y, &a, &b); });
            CHECK(untouched(a) && untouched(b), "a second split gives ciphers");
        }
        break;
    }
    }
}
// ------------------------------------------------------------- handshake
void bad_handshake(Gen &g, NoiseHandshakeState *h, const Suite &su) {
    NoiseProtocolId id = su.id();
    int action = noise_handshakestate_get_action(h);
    Bytes in = g.rnd(g.u(60));
    typedef NoiseHandshakeState H;
    switch (g.u(14)) {
    case 0: null_args(g, "handshakestate_new_by_id", 2, [&](unsigned mask, Sink &) { H *o = (H *)8; int e = noise_handshakestate_new_by_id(N(0, &o), N(1, &id), NOISE_ROLE_INITIATOR); CHECK(untouched(o), "an object"); return e; }); break;
    case 1: null_args(g, "handshakestate_new_by_name", 2, [&](unsigned mask, Sink &) { H *o = (H *)8; int e = noise_handshakestate_new_by_name(N(0, &o), N(1, su.name().c_str()), NOISE_ROLE_INITIATOR); CHECK(untouched(o), "an object"); return e; }); break;
    case 2: bad("handshakestate_new with none of the roles", {PARAM}, [&](Sink &) {
            int r = g.flip() ? (int)(g.u64() & 0xffffffff) : g.flip() ? 0 : NOISE_ROLE_INITIATOR + (int)g.u(5) - 2;
            if (r == NOISE_ROLE_INITIATOR || r == NOISE_ROLE_RESPONDER) r = 0;
            H *o = (H *)8;
            int e = g.flip() ? noise_handshakestate_new_by_id(&o, &id, r) : noise_handshakestate_new_by_name(&o, su.name().c_str(), r);
            CHECK(untouched(o), "an object"); return e; }); break;
    case 3: bad("handshakestate_new_by_id of an unknown id", {NOISE_ERROR_UNKNOWN_ID}, [&](Sink &) { bad_protocol(g, id); H *o = (H *)8; int e = noise_handshakestate_new_by_id(&o, &id, NOISE_ROLE_RESPONDER); CHECK(untouched(o), "an object"); return e; }); break;
    case 4: bad("handshakestate_new_by_name of an unknown name", {NOISE_ERROR_UNKNOWN_NAME}, [&](Sink &) { H *o = (H *)8; int e = noise_handshakestate_new_by_name(&o, bad_protocol_name(g, su).c_str(), NOISE_ROLE_RESPONDER); CHECK(untouched(o), "an object"); return e; }); break;
    case 5: bad("handshakestate_free(NULL)", {PARAM}, [&](Sink &) { return noise_handshakestate_free(nullptr); });
            ZERO(noise_handshakestate_get_role); ZERO(noise_handshakestate_get_local_keypair_dh); ZERO(noise_handshakestate_get_remote_public_key_dh);
            ZERO(noise_handshakestate_get_fixed_ephemeral_dh); ZERO(noise_handshakestate_get_fixed_hybrid_dh); break;
    case 6: ZERO(noise_handshakestate_needs_pre_shared_key); ZERO(noise_handshakestate_has_pre_shared_key); ZERO(noise_handshakestate_needs_local_keypair);
            ZERO(noise_handshakestate_has_local_keypair); ZERO(noise_handshakestate_needs_remote_public_key); ZERO(noise_handshakestate_has_remote_public_key);
            CHECK_EQ(noise_handshakestate_get_action(nullptr), NOISE_ACTION_NONE, "action of a null object"); break;
    case 7: null_args(g, "handshakestate_get_protocol_id", 2, [&](unsigned mask, Sink &s) { return noise_handshakestate_get_protocol_id(N(0, h), (NoiseProtocolId *)N(1, s.out(sizeof id).p)); }); break;
    case 8: null_args(g, "set_pre_shared_key", 2, [&](unsigned mask, Sink &s) { return noise_handshakestate_set_pre_shared_key(N(0, h), N(1, s.in(g.rnd(32)).p), 32); });
            { size_t l = other_len(g, 32); bad("set_pre_shared_key of another length", {LENGTH, NOISE_ERROR_NOT_APPLICABLE, STATE}, [&](Sink &s) { return noise_handshakestate_set_pre_shared_key(h, s.in(g.rnd(l)).p, l); }); }
            if (!su.psk()) bad("set_pre_shared_key without PSKs", {NOISE_ERROR_NOT_APPLICABLE}, [&](Sink &s) { return noise_handshakestate_set_pre_shared_key(h, s.in(g.rnd(32)).p, 32); });
            else if (action != NOISE_ACTION_NONE) bad("set_pre_shared_key after the start", {STATE}, [&](Sink &s) { return noise_handshakestate_set_pre_shared_key(h, s.in(g.rnd(32)).p, 32); });
            break;
    case 9: null_args(g, "set_prologue", 2, [&](unsigned mask, Sink &s) { return noise_handshakestate_set_prologue(N(0, h), N(1, s.in(in).p), in.size()); });
            if (action != NOISE_ACTION_NONE) bad("set_prologue after the start", {STATE}, [&](Sink &s) { return noise_handshakestate_set_prologue(h, s.in(in).p, in.size()); });
            break;
    case 10: bad("start(NULL)", {PARAM}, [&](Sink &) { return noise_handshakestate_start(nullptr); });
            bad("fallback(NULL)", {PARAM}, [&](Sink &) { return noise_handshakestate_fallback(nullptr); });
            bad("fallback_to(NULL)", {PARAM}, [&](Sink &) { return noise_handshakestate_fallback_to(nullptr, NOISE_PATTERN_XX_FALLBACK); });
            if (action != NOISE_ACTION_NONE) bad("start again", {STATE}, [&](Sink &) { return noise_handshakestate_start(h); });
            break;
    case 11: case 12: {
        bool write = g.flip();
        // 0: no object, 1: no message, 2: message without memory, 3: payload without memory
        auto call = [&](unsigned mask, Sink &s, bool pay, size_t size, size_t max, size_t psize, size_t pmax) {
            Bytes d = g.rnd(100);
            NoiseBuffer m, p;
            if (write) noise_buffer_set_output(m, N(2, s.in(d).p), max);
            noise_buffer_set_inout(m, N(2, s.in(d).p), size, max);
            noise_buffer_set_inout(p, N(3, s.in(d).p), psize, pmax);
            int e = write ? noise_handshakestate_write_message(N(0, h), N(1, &m), pay ? &p : nullptr) : noise_handshakestate_read_message(N(0, h), N(1, &m), pay ? &p : nullptr);
            CHECK(m.size == size || m.size == 0, "refused, but the message's size went from %zu to %zu", size, m.size);
            return e;
        };
        bool pay = g.flip();
        null_args(g, write ? "write_message" : "read_message", pay ? 4 : 3, [&](unsigned mask, Sink &s) { return call(mask, s, pay, write ? 0 : g.u(90), 100, g.u(50), 60); });
        if (!write) { size_t max = g.u(80); bad("read_message of more than the maximum", {LENGTH, STATE}, [&](Sink &s) { return call(0, s, pay, max + 1 + g.u(5), max, 0, 60); }); }
        if (action != (write ? NOISE_ACTION_WRITE_MESSAGE : NOISE_ACTION_READ_MESSAGE))
            bad(write ? "write_message out of turn" : "read_message out of turn", {STATE}, [&](Sink &s) { return call(0, s, pay, write ? 0 : g.u(90), 100, g.u(50), 60); });
        break;
    }
    case 13: {
        NoiseCipherState *a = (NoiseCipherState *)8, *b = (NoiseCipherState *)8;
        bad("split(NULL)", {PARAM}, [&](Sink &) { return noise_handshakestate_split(nullptr, &a, &b); });
        bad("split into nothing", {PARAM}, [&](Sink &) { return noise_handshakestate_split(h, nullptr, nullptr); });
        if (action != NOISE_ACTION_SPLIT) bad("split at the wrong time", {STATE}, [&](Sink &) { return noise_handshakestate_split(h, &a, &b); });
        CHECK(untouched(a) && untouched(b), "a refused split gives ciphers");
        break;
    }
    case 14: null_args(g, "get_handshake_hash", 2, [&](unsigned mask, Sink &s) { size_t n = g.u(80); return noise_handshakestate_get_handshake_hash(N(0, h), N(1, s.out(n).p), n); });
            if (action != NOISE_ACTION_SPLIT && action != NOISE_ACTION_COMPLETE)
                bad("get_handshake_hash too soon", {STATE}, [&](Sink &s) { size_t n = g.u(80); return noise_handshakestate_get_handshake_hash(h, s.out(n).p, n); });
            break;
    }
}
int more(Gen &g) { return (int)g.u(3); }

// a history of good calls on both, bad ones on the first; op(w) does the next good call on the w-th
struct History {
    Gen &g; Rand r;
    int steps = 0;
    explicit History(Gen &g_) : g(g_), r(g_) { trail.clear(); refused = 0; }
    void bads(std::function<void()> f) {
        r.t[0].use();
        for (int i = more(g); i; --i) f();
        CHECK(r.same(), "a refused call took random bytes (%s)", trail.c_str());
    }
    void good(const char *what, std::function<std::string(int)> op) {
        r.t[0].use(); std::string a = op(0);
        r.t[1].use(); std::string b = op(1);
        r.t[0].use();
        CHECK(a == b, "%s gives %.300s, without the refused calls %.300s (refused before: %s)", what, a.c_str(), b.c_str(), trail.c_str());
        ++steps;
    }
    void finish(const char *what) {
        g.note("%s: %s", what, trail.c_str());
        g.key(what + trail);
        g.label(what);
        g.nontrivial(steps >= 2 && refused >= 2);
    }
};
}

TARGET(C37, cipher, 1, "a cipher object with and without refused calls in its history; non-trivial with 2 refused and 2 good calls; distinct by object and refused calls") {
    History h(g);
    Cipher c[2];
    int id = g.flip() ? NOISE_CIPHER_CHACHAPOLY : NOISE_CIPHER_AESGCM;
    for (Cipher &x : c) CHECK_EQ(noise_cipherstate_new_by_id(&x.c, id), 0, "new");
    int n = 2 + (int)g.u(7);
    Bytes last;
    for (int i = 0; i < n; ++i) {
        h.bads([&] { bad_cipher(g, c[0].c); });
        unsigned op = (unsigned)g.u(6);
        Bytes ad = g.rnd(g.u(20)), d = g.flip() && op > 3 ? last : g.rnd(g.size(200, {16}));
        uint64_t nonce = g.u(20);
        if (op == 0) { Bytes k = g.rnd(32); h.good("init_key", [&](int w) { return show(noise_cipherstate_init_key(c[w].c, k.data(), 32), {}); }); }
        else if (op == 1) h.good("set_nonce", [&](int w) { return show(noise_cipherstate_set_nonce(c[w].c, nonce), {}); });
        else h.good(op < 4 ? "encrypt" : "decrypt", [&](int w) {
            Buf b(d.size() + 16);
            if (!d.empty()) memcpy(b.p, d.data(), d.size());
            NoiseBuffer nb;
            noise_buffer_set_inout(nb, b.p, d.size(), b.n);
            int e = op < 4 ? noise_cipherstate_encrypt_with_ad(c[w].c, ad.data(), ad.size(), &nb) : noise_cipherstate_decrypt_with_ad(c[w].c, ad.data(), ad.size(), &nb);
            if (op < 4 && !e) last = b.bytes(nb.size);
            return show(e, b.bytes(nb.size)) + strf(" %d", noise_cipherstate_has_key(c[w].c));
        });
    }
    h.finish("cipher");
}
TARGET(C37, hash, 1, "the same for hash objects") {
    History h(g);
    struct HS { NoiseHashState *h = nullptr; ~HS() { if (h) noise_hashstate_free(h); } } x[2];
    static const int ids[] = {NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512};
    int id = ids[g.u(3)];
    for (HS &y : x) CHECK_EQ(noise_hashstate_new_by_id(&y.h, id), 0, "new");
    size_t hl = noise_hashstate_get_hash_length(x[0].h);
    int n = 2 + (int)g.u(7);
    h.good("reset", [&](int w) { return show(noise_hashstate_reset(x[w].h), {}); });
    for (int i = 0; i < n; ++i) {
        h.bads([&] { bad_hash(g, x[0].h); });
        Bytes d = g.rnd(g.size(300, {1, 64, 128}));
        switch (g.u(3)) {
        case 0: case 1: h.good("update", [&](int w) { Buf b(d); return show(noise_hashstate_update(x[w].h, b.p, b.n), {}); }); break;
        case 2: h.good("finalize", [&](int w) { Buf b(hl); int e = noise_hashstate_finalize(x[w].h, b.p, hl); Bytes r = b.bytes(); noise_hashstate_reset(x[w].h); return show(e, r); }); break;
        default: h.good("hkdf", [&](int w) { Buf a(hl), b(hl); int e = noise_hashstate_hkdf(x[w].h, d.data(), d.size() / 2 + 1 > d.size() ? d.size() : d.size() / 2, d.data(), d.size(), a.p, hl, b.p, hl);
            if (d.empty()) return std::string(); noise_hashstate_reset(x[w].h); return show(e, a.bytes()) + hex(b.bytes(), 100); }); break;
        }
    }
    h.bads([&] { bad_hash(g, x[0].h); });
    h.good("finalize", [&](int w) { Buf b(hl); int e = noise_hashstate_finalize(x[w].h, b.p, hl); return show(e, b.bytes()); });
    h.finish("hash");
}
TARGET(C37, dh, 1, "the same for DH objects") {
    History h(g);
    struct D { NoiseDHState *d = nullptr; ~D() { if (d) noise_dhstate_free(d); } } x[2];
    int id = g.chance(1, 5) ? NOISE_DH_NEWHOPE : g.chance(1, 5) ? NOISE_DH_CURVE448 : NOISE_DH_CURVE25519;
    for (D &y : x) CHECK_EQ(noise_dhstate_new_by_id(&y.d, id), 0, "new");
    size_t kn = noise_dhstate_get_private_key_length(x[0].d), pn = noise_dhstate_get_public_key_length(x[0].d), sn = noise_dhstate_get_shared_key_length(x[0].d);
    auto state = [&](int w) {
        Buf a(kn), b(pn);
        int e = noise_dhstate_get_keypair(x[w].d, a.p, kn, b.p, pn), f = 0;
        std::string s = show(e, e ? Bytes() : a.bytes());
        if (noise_dhstate_has_public_key(x[w].d)) { f = noise_dhstate_get_public_key(x[w].d, b.p, pn); s += show(f, b.bytes()); }
        return s + strf(" %d %d %d %d", !!noise_dhstate_has_keypair(x[w].d), !!noise_dhstate_has_public_key(x[w].d), !!noise_dhstate_is_null_public_key(x[w].d), noise_dhstate_get_role(x[w].d));
    };
    int n = 2 + (int)g.u(5);
    for (int i = 0; i < n; ++i) {
        h.bads([&] { bad_dh(g, x[0].d); });
        h.good("state", state);
        Bytes k = g.rnd(kn), p = g.rnd(pn);
        switch (g.u(6)) {
        case 0: h.good("generate", [&](int w) { return show(noise_dhstate_generate_keypair(x[w].d), {}); }); break;
        case 1: h.good("set_keypair_private", [&](int w) { return show(noise_dhstate_set_keypair_private(x[w].d, k.data(), kn), {}); }); break;
        case 2: if (id != NOISE_DH_NEWHOPE) h.good("set_public_key", [&](int w) { return show(noise_dhstate_set_public_key(x[w].d, p.data(), pn), {}); }); break;
        case 3: h.good("clear", [&](int w) { return show(noise_dhstate_clear_key(x[w].d), {}); }); break;
        case 4: h.good("set_role", [&](int w) { return show(noise_dhstate_set_role(x[w].d, NOISE_ROLE_INITIATOR), {}); }); break;
        case 5: if (id != NOISE_DH_NEWHOPE) h.good("set_null", [&](int w) { return show(noise_dhstate_set_null_public_key(x[w].d), {}); }); break;
        default: if (id != NOISE_DH_NEWHOPE && noise_dhstate_has_keypair(x[0].d)) h.good("calculate", [&](int w) { Buf s(sn); int e = noise_dhstate_calculate(x[w].d, x[w].d, s.p, sn); return show(e, s.bytes()); }); break;
        }
    }
    h.bads([&] { bad_dh(g, x[0].d); });
    h.good("state", state);
    h.finish("dh");
}
TARGET(C37, sign, 1, "the same for signature objects") {
    History h(g);
    struct D { NoiseSignState *d = nullptr; ~D() { if (d) noise_signstate_free(d); } } x[2];
    for (D &y : x) CHECK_EQ(noise_signstate_new_by_id(&y.d, NOISE_SIGN_ED25519), 0, "new");
    auto state = [&](int w) {
        Buf a(32), b(32);
        int e = noise_signstate_get_keypair(x[w].d, a.p, 32, b.p, 32);
        std::string s = show(e, e ? Bytes() : a.bytes());
        if (noise_signstate_has_public_key(x[w].d)) { int f = noise_signstate_get_public_key(x[w].d, b.p, 32); s += show(f, b.bytes()); }
        return s + strf(" %d %d", !!noise_signstate_has_keypair(x[w].d), !!noise_signstate_has_public_key(x[w].d));
    };
    int n = 2 + (int)g.u(5);
    for (int i = 0; i < n; ++i) {
        h.bads([&] { bad_sign(g, x[0].d); });
        h.good("state", state);
        Bytes k = g.rnd(32), m = g.rnd(g.u(100));
        switch (g.u(4)) {
        case 0: if (g_backend != "sodium") h.good("generate", [&](int w) { return show(noise_signstate_generate_keypair(x[w].d), {}); }); break;
        case 1: h.good("set_keypair_private", [&](int w) { return show(noise_signstate_set_keypair_private(x[w].d, k.data(), 32), {}); }); break;
        case 2: h.good("set_public_key", [&](int w) { return show(noise_signstate_set_public_key(x[w].d, k.data(), 32), {}); }); break;
        case 3: h.good("clear", [&](int w) { return show(noise_signstate_clear_key(x[w].d), {}); }); break;
        default: if (noise_signstate_has_keypair(x[0].d)) h.good("sign", [&](int w) { Buf s(64), b(m); int e = noise_signstate_sign(x[w].d, b.p, b.n, s.p, 64); return show(e, s.bytes()); }); break;
        }
    }
    h.bads([&] { bad_sign(g, x[0].d); });
    h.good("state", state);
    h.finish("sign");
}
TARGET(C37, random, 0.5, "the same for random number objects") {
    History h(g);
    struct D { NoiseRandState *d = nullptr; ~D() { if (d) noise_randstate_free(d); } } x[2];
    h.good("new", [&](int w) { return show(noise_randstate_new(&x[w].d), {}); });
    int n = 2 + (int)g.u(5);
    for (int i = 0; i < n; ++i) {
        h.bads([&] { bad_rand(g, x[0].d); });
        size_t k = g.size(300, {32, 64});
        if (g.chance(1, 5)) h.good("reseed", [&](int w) { return show(noise_randstate_reseed(x[w].d), {}); });
        else h.good("generate", [&](int w) { Buf s(k); int e = noise_randstate_generate(x[w].d, s.p, k); return show(e, s.bytes()); });
    }
    h.finish("random");
}
TARGET(C37, symmetric, 1, "the same for symmetric-state objects") {
    History h(g);
    struct D { NoiseSymmetricState *d = nullptr; ~D() { if (d) noise_symmetricstate_free(d); } } x[2];
    Suite su = gen_suite(g, false);
    for (D &y : x) CHECK_EQ(noise_symmetricstate_new_by_name(&y.d, su.name().c_str()), 0, "new");
    bool split = false;
    Bytes last;
    int n = 2 + (int)g.u(6);
    for (int i = 0; i < n; ++i) {
        h.bads([&] { bad_symmetric(g, x[0].d, su, split); });
        Bytes d = g.rnd(g.size(100, {32}));
        unsigned op = (unsigned)g.u(5);
        if (op == 0) h.good("mix_key", [&](int w) { Buf b(d); return show(noise_symmetricstate_mix_key(x[w].d, b.p, b.n), {}); });
        else if (op == 1) h.good("mix_hash", [&](int w) { Buf b(d); return show(noise_symmetricstate_mix_hash(x[w].d, b.p, b.n), {}); });
        else if (op < 5 || split) h.good(op < 4 ? "encrypt_and_hash" : "decrypt_and_hash", [&](int w) {
            Bytes in = op == 4 && !last.empty() ? last : d;
            Buf b(in.size() + 16);
            if (!in.empty()) memcpy(b.p, in.data(), in.size());
            NoiseBuffer nb;
            noise_buffer_set_inout(nb, b.p, in.size(), b.n);
            int e = op < 4 ? noise_symmetricstate_encrypt_and_hash(x[w].d, &nb) : noise_symmetricstate_decrypt_and_hash(x[w].d, &nb);
            return show(e, e ? Bytes() : b.bytes(nb.size)) + strf(" %zu", noise_symmetricstate_get_mac_length(x[w].d));
        });
        else {
            h.good("split", [&](int w) {
                Cipher a, b;
                int e = noise_symmetricstate_split(x[w].d, &a.c, &b.c);
                std::string r = show(e, {});
                for (NoiseCipherState *c : {a.c, b.c}) if (c) {
                    Buf t(20, 1);
                    NoiseBuffer nb;
                    noise_buffer_set_inout(nb, t.p, 4, 20);
                    noise_cipherstate_encrypt_with_ad(c, nullptr, 0, &nb);
                    r += hex(t.bytes());
                }
                return r;
            });
            split = true;
        }
    }
    h.bads([&] { bad_symmetric(g, x[0].d, su, split); });
    h.finish("symmetric");
}
TARGET(C37, handshake, 3, "the same for whole handshakes: refused calls before, during and after, and the session still gives the messages, hash and ciphers of one without them; distinct by protocol and refused calls") {
    History h(g);
    Suite su = gen_suite(g);
    Keys k = gen_keys(g, su);
    bool init = g.flip();
    Lib l[2];
    for (int w = 0; w < 2; ++w) {
        CHECK_EQ(noise_handshakestate_new_by_name(&l[w].st, su.name().c_str(), init ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER), 0, "new");
        if (w == 0) h.bads([&] { bad_handshake(g, l[0].st, su); });
        h.r.t[w].use();
        lib_config(g, l[w], su, init, k, false);
    }
    h.r.t[0].use();
    MHandshake m;
    model_config(m, su, !init, k);
    m.start();
    h.bads([&] { bad_handshake(g, l[0].st, su); });
    h.good("start", [&](int w) { return show(noise_handshakestate_start(l[w].st), {}); });
    while (!m.done()) {
        h.bads([&] { bad_handshake(g, l[0].st, su); });
        Bytes pay = g.rnd(g.size(80, {}));
        if (m.my_turn()) {
            Bytes msg = m.write(pay);
            h.good("read_message", [&](int w) {
                Buf in(msg), out(pay.size());
                NoiseBuffer mb, pb;
                noise_buffer_set_input(mb, in.p, in.n);
                noise_buffer_set_output(pb, out.p, out.n);
                int e = noise_handshakestate_read_message(l[w].st, &mb, &pb);
                return show(e, e ? Bytes() : out.bytes(pb.size));
            });
        } else {
            Bytes msg;
            h.good("write_message", [&](int w) {
                Buf in(pay), out(5000);
                NoiseBuffer mb, pb;
                noise_buffer_set_output(mb, out.p, out.n);
                noise_buffer_set_input(pb, in.p, in.n);
                int e = noise_handshakestate_write_message(l[w].st, &mb, &pb);
                msg = e ? Bytes() : out.bytes(mb.size);
                return show(e, msg);
            });
            Bytes got;
            int e = m.read(msg, got);
            if (e != M_OK) { CHECK(m.unreduced, "the other side cannot read the message (%d)", e); return; }
            CHECK(got == pay, "the other side reads another payload");
        }
        h.good("action", [&](int w) { return strf("%d", noise_handshakestate_get_action(l[w].st)); });
        if (noise_handshakestate_get_action(l[0].st) == NOISE_ACTION_FAILED) return;     // (an unreduced X448 value)
    }
    h.bads([&] { bad_handshake(g, l[0].st, su); });
    h.good("split", [&](int w) {
        Cipher a, b;
        Buf hh(hash_len(su.hash));
        int f = noise_handshakestate_get_handshake_hash(l[w].st, hh.p, hh.n);
        int e = noise_handshakestate_split(l[w].st, &a.c, &b.c);
        std::string r = show(f, hh.bytes()) + show(e, {});
        for (NoiseCipherState *c : {a.c, b.c}) if (c) {
            Buf t(20, 1);
            NoiseBuffer nb;
            noise_buffer_set_inout(nb, t.p, 4, 20);
            CHECK_EQ(noise_cipherstate_encrypt_with_ad(c, nullptr, 0, &nb), 0, "encrypt");
            r += hex(t.bytes());
        }
        return r;
    });
    h.bads([&] { bad_handshake(g, l[0].st, su); });
    h.good("action", [&](int w) { return strf("%d", noise_handshakestate_get_action(l[w].st)); });
    h.finish(su.name().c_str());
}
// ------------------------------------------------------------- protobufs
namespace {
struct PVals { int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; float f; double d; int b; size_t z; char *cp; void *vp; };
void bad_protobuf(Gen &g, NoiseProtobuf *p, bool writer) {
    PVals v;
    memset(&v, 0xa5, sizeof v);
    int tag = (int)g.u(4);
    Bytes in = g.rnd(g.u(20) + 1);
#define RD1(name, where) case __COUNTER__ - BASE - 1: null_args(g, "read_" #name, 2, [&](unsigned mask, Sink &) { return noise_protobuf_read_##name(N(0, p), tag, N(1, where)); }); break;
#define WR1(name, val) case __COUNTER__ - BASE - 1: null_args(g, "write_" #name, 1, [&](unsigned, Sink &) { return noise_protobuf_write_##name(nullptr, tag, val); }); break;
    enum { BASE = __COUNTER__ };
    switch (g.u(46)) {
    RD1(int32, &v.i32) RD1(uint32, &v.u32) RD1(int64, &v.i64) RD1(uint64, &v.u64) RD1(sint32, &v.i32) RD1(sint64, &v.i64)
    RD1(sfixed32, &v.i32) RD1(fixed32, &v.u32) RD1(sfixed64, &v.i64) RD1(fixed64, &v.u64) RD1(float, &v.f) RD1(double, &v.d) RD1(bool, &v.b)
    RD1(start_element, &v.z)
    WR1(int32, 1) WR1(uint32, 1) WR1(int64, 1) WR1(uint64, 1) WR1(sint32, 1) WR1(sint64, 1)
    WR1(sfixed32, 1) WR1(fixed32, 1) WR1(sfixed64, 1) WR1(fixed64, 1) WR1(float, 1) WR1(double, 1) WR1(bool, 1)
    case 27: null_args(g, "write_string", 2, [&](unsigned mask, Sink &) { return noise_protobuf_write_string(N(0, p), tag, N(1, "abc"), 3); }); break;
    case 28: null_args(g, "write_bytes", 2, [&](unsigned mask, Sink &s) { return noise_protobuf_write_bytes(N(0, p), tag, N(1, s.in(in).p), in.size()); }); break;
    case 29: null_args(g, "write_end_element", 2, [&](unsigned mask, Sink &) { return noise_protobuf_write_end_element(N(0, p), N(1, &v.z)); }); break;
    case 30: bad("write_start_element(NULL)", {PARAM}, [&](Sink &) { return noise_protobuf_write_start_element(nullptr, tag, 0); });
        if (writer) bad("write_start_element out of range", {PARAM, NOISE_ERROR_INVALID_LENGTH, NOISE_ERROR_INVALID_FORMAT}, [&](Sink &) {
            size_t at = g.flip() ? p->size + 1 + g.u(9) : p->posn ? g.u(p->posn - 1) : p->size + 1;
            return noise_protobuf_write_start_element(p, tag, at); });
        break;
    case 31: null_args(g, "read_string", 2, [&](unsigned mask, Sink &s) { return noise_protobuf_read_string(N(0, p), tag, (char *)N(1, s.out(30).p), 30, &v.z); }); break;
    case 32: null_args(g, "read_bytes", 3, [&](unsigned mask, Sink &s) { return noise_protobuf_read_bytes(N(0, p), tag, N(1, s.out(30).p), 30, N(2, &v.z)); }); break;
    case 33: null_args(g, "read_alloc_string", 2, [&](unsigned mask, Sink &) { return noise_protobuf_read_alloc_string(N(0, p), tag, N(1, &v.cp), 0, &v.z); }); break;
    case 34: null_args(g, "read_alloc_bytes", 3, [&](unsigned mask, Sink &) { return noise_protobuf_read_alloc_bytes(N(0, p), tag, N(1, &v.vp), 0, N(2, &v.z)); }); break;
    case 35: bad("read_end_element(NULL)", {PARAM}, [&](Sink &) { return noise_protobuf_read_end_element(nullptr, g.u(9)); }); break;
    case 36: zero("at_end_element is false", !noise_protobuf_read_at_end_element(nullptr, g.u(9))); break;
    case 37: bad("read_stop(NULL)", {PARAM}, [&](Sink &) { return noise_protobuf_read_stop(nullptr); }); break;
    case 38: bad("read_skip(NULL)", {PARAM}, [&](Sink &) { return noise_protobuf_read_skip(nullptr); }); break;
    case 39: bad("finish_input(NULL)", {PARAM}, [&](Sink &) { return noise_protobuf_finish_input(nullptr); }); break;
    case 40: { uint8_t *o = (uint8_t *)8; null_args(g, "finish_output", 3, [&](unsigned mask, Sink &) { return noise_protobuf_finish_output(N(0, p), N(1, &o), N(2, &v.z)); }); CHECK(untouched(o), "finish_output gives a message"); break; }
    case 41: { uint8_t *o = (uint8_t *)8; null_args(g, "finish_output_shift", 3, [&](unsigned mask, Sink &) { return noise_protobuf_finish_output_shift(N(0, p), N(1, &o), N(2, &v.z)); }); CHECK(untouched(o), "finish_output_shift gives a message"); break; }
    case 42: null_args(g, "finish_measure", 2, [&](unsigned mask, Sink &) { return noise_protobuf_finish_measure(N(0, p), N(1, &v.z)); }); break;
    case 43: bad("prepare_input(NULL)", {PARAM}, [&](Sink &s) { return noise_protobuf_prepare_input(nullptr, s.in(in).p, in.size()); }); break;
    case 44: bad("prepare_output(NULL)", {PARAM}, [&](Sink &s) { return noise_protobuf_prepare_output(nullptr, s.in(in).p, in.size()); }); break;
    case 45: bad("prepare_measure(NULL)", {PARAM}, [&](Sink &) { return noise_protobuf_prepare_measure(nullptr, g.u(100)); }); break;
    case 46: ZERO(noise_protobuf_peek_tag); ZERO(noise_protobuf_peek_size); break;
    default: break;
    }
    // nothing a caller would take for a value
    auto junk = [](const void *q, size_t n) { const uint8_t *b = (const uint8_t *)q; for (size_t i = 0; i < n; ++i) if (b[i] != 0xa5 && b[i]) return true; return false; };
    CHECK(!junk(&v, sizeof v), "a refused call gives a value (%s)", trail.c_str());
}
}
TARGET(C37, writer, 0.7, "the same for protobufs being written or measured") {
    History h(g);
    size_t cap = g.flip() ? 400 : g.u(60);
    Buf mem[2] = {Buf(cap), Buf(cap)};
    NoiseProtobuf p[2];
    bool measure = g.chance(1, 3);
    for (int w = 0; w < 2; ++w) CHECK_EQ(measure ? noise_protobuf_prepare_measure(&p[w], cap) : noise_protobuf_prepare_output(&p[w], mem[w].p, cap), 0, "prepare");
    int n = 2 + (int)g.u(8);
    std::vector<size_t> ends;
    for (int i = 0; i < n; ++i) {
        h.bads([&] { bad_protobuf(g, &p[0], true); });
        int tag = (int)g.u(40);
        uint64_t u = g.u64();
        Bytes d = g.rnd(g.u(40));
        size_t e = 0;
        switch (g.u(5)) {
        case 0: h.good("write_uint64", [&](int w) { return show(noise_protobuf_write_uint64(&p[w], tag, u), {}); }); break;
        case 1: h.good("write_fixed32", [&](int w) { return show(noise_protobuf_write_fixed32(&p[w], tag, (uint32_t)u), {}); }); break;
        case 2: h.good("write_bytes", [&](int w) { return show(noise_protobuf_write_bytes(&p[w], tag, d.data(), d.size()), {}); }); break;
        case 3: h.good("write_bool", [&](int w) { return show(noise_protobuf_write_bool(&p[w], tag, (int)(u & 1)), {}); }); break;
        case 4: h.good("write_end_element", [&](int w) { int r = noise_protobuf_write_end_element(&p[w], &e); return show(r, {}) + strf("%zu", e); }); ends.push_back(e); break;
        default: if (!ends.empty()) { e = ends.back(); ends.pop_back(); h.good("write_start_element", [&](int w) { return show(noise_protobuf_write_start_element(&p[w], tag, e), {}); }); } break;
        }
    }
    h.bads([&] { bad_protobuf(g, &p[0], true); });
    h.good("finish", [&](int w) {
        size_t z = 0; uint8_t *o = nullptr;
        int e = measure ? noise_protobuf_finish_measure(&p[w], &z) : noise_protobuf_finish_output(&p[w], &o, &z);
        return show(e, o && !e ? Bytes(o, o + z) : Bytes()) + strf("%zu", z);
    });
    h.finish("writer");
}
TARGET(C37, reader, 0.7, "the same for protobufs being read") {
    History h(g);
    Bytes data;
    int n = 1 + (int)g.u(6);
    for (int i = 0; i < n; ++i) {
        int tag = 1 + (int)g.u(3);
        switch (g.u(2)) {
        case 0: data.push_back((uint8_t)(tag << 3)); data.push_back((uint8_t)g.u(127)); break;
        case 1: { data.push_back((uint8_t)(tag << 3 | 2)); Bytes d = g.rnd(g.u(20)); data.push_back((uint8_t)d.size()); data.insert(data.end(), d.begin(), d.end()); break; }
        default: { data.push_back((uint8_t)(tag << 3 | 5)); Bytes d = g.rnd(4); data.insert(data.end(), d.begin(), d.end()); break; }
        }
    }
    Buf in(data);
    NoiseProtobuf p[2];
    for (int w = 0; w < 2; ++w) CHECK_EQ(noise_protobuf_prepare_input(&p[w], in.p, in.n), 0, "prepare");
    for (int i = 0; i < n; ++i) {
        h.bads([&] { bad_protobuf(g, &p[0], false); });
        h.good("peek", [&](int w) { return strf("%d %zu %d", noise_protobuf_peek_tag(&p[w]), noise_protobuf_peek_size(&p[w]), noise_protobuf_read_at_end_element(&p[w], in.n / 2)); });
        int tag = noise_protobuf_peek_tag(&p[1]);
        if (g.chance(1, 12)) tag ^= 1;
        switch (g.u(4)) {
        case 0: h.good("read_uint32", [&](int w) { uint32_t v = 7; int e = noise_protobuf_read_uint32(&p[w], tag, &v); return show(e, {}) + strf("%u", e ? 0 : v); }); break;
        case 1: h.good("read_fixed32", [&](int w) { uint32_t v = 7; int e = noise_protobuf_read_fixed32(&p[w], tag, &v); return show(e, {}) + strf("%u", e ? 0 : v); }); break;
        case 2: h.good("read_bytes", [&](int w) { Buf b(30); size_t z = 0; int e = noise_protobuf_read_bytes(&p[w], tag, b.p, 30, &z); return show(e, e ? Bytes() : b.bytes(z)); }); break;
        default: h.good("read_skip", [&](int w) { return show(noise_protobuf_read_skip(&p[w]), {}); }); break;
        }
    }
    h.bads([&] { bad_protobuf(g, &p[0], false); });
    h.good("finish", [&](int w) { return show(noise_protobuf_finish_input(&p[w]), {}); });
    h.finish("reader");
}
// --------------------------------------------------------- files of keys
TARGET(C37, loader, 0.5, "null arguments of the loading and saving calls: the parameter error, no object, no file; distinct by call and arguments") {
    trail.clear(); refused = 0;
    const char *dir = getenv("VERIF_SCRATCH");
    std::string file = strf("%s/args.%d", dir ? dir : "/tmp", (int)getpid());
    unlink(file.c_str());
    const char *fn = file.c_str();
    struct Here { std::string n; ~Here() { unlink(n.c_str()); } } have{file + ".in"};
    const char *in_fn = have.n.c_str();
    struct Objs {
        Noise_Certificate *c = nullptr; Noise_CertificateChain *ch = nullptr; Noise_PrivateKey *k = nullptr;
        ~Objs() { if (c) Noise_Certificate_free(c); if (ch) Noise_CertificateChain_free(ch); if (k) Noise_PrivateKey_free(k); }
    } o;
    CHECK_EQ(Noise_Certificate_new(&o.c), 0, "new");
    CHECK_EQ(Noise_CertificateChain_new(&o.ch), 0, "new");
    CHECK_EQ(Noise_PrivateKey_new(&o.k), 0, "new");
    Bytes raw = g.rnd(50);
    { FILE *f = fopen(in_fn, "wb"); CHECK(f, "cannot make %s", in_fn); fwrite(raw.data(), 1, raw.size(), f); fclose(f); }
    int n = 1 + (int)g.u(3);
    for (int i = 0; i < n; ++i) {
        Buf in(raw), out(200);
        NoiseProtobuf pi, po;
        noise_protobuf_prepare_input(&pi, in.p, in.n);
        noise_protobuf_prepare_output(&po, out.p, out.n);
        auto r = [&](NoiseProtobuf *p) { return p; };
        Noise_Certificate *c = (Noise_Certificate *)8; Noise_CertificateChain *ch = (Noise_CertificateChain *)8; Noise_PrivateKey *k = (Noise_PrivateKey *)8;
        switch (g.u(11)) {
        case 0: null_args(g, "load_certificate_from_file", 2, [&](unsigned mask, Sink &) { return noise_load_certificate_from_file(N(0, &c), N(1, in_fn)); }); break;
        case 1: null_args(g, "load_certificate_from_buffer", 2, [&](unsigned mask, Sink &) { return noise_load_certificate_from_buffer(N(0, &c), N(1, r(&pi))); }); break;
        case 2: null_args(g, "load_certificate_chain_from_file", 2, [&](unsigned mask, Sink &) { return noise_load_certificate_chain_from_file(N(0, &ch), N(1, in_fn)); }); break;
        case 3: null_args(g, "load_certificate_chain_from_buffer", 2, [&](unsigned mask, Sink &) { return noise_load_certificate_chain_from_buffer(N(0, &ch), N(1, r(&pi))); }); break;
        case 4: null_args(g, "load_private_key_from_file", 3, [&](unsigned mask, Sink &) { return noise_load_private_key_from_file(N(0, &k), N(1, in_fn), N(2, "pass"), 4); }); break;
        case 5: null_args(g, "load_private_key_from_buffer", 3, [&](unsigned mask, Sink &) { return noise_load_private_key_from_buffer(N(0, &k), N(1, r(&pi)), N(2, "pass"), 4); }); break;
        case 6: null_args(g, "save_certificate_to_file", 2, [&](unsigned mask, Sink &) { return noise_save_certificate_to_file(N(0, o.c), N(1, fn)); }); break;
        case 7: null_args(g, "save_certificate_to_buffer", 2, [&](unsigned mask, Sink &) { return noise_save_certificate_to_buffer(N(0, o.c), N(1, r(&po))); }); break;
        case 8: null_args(g, "save_certificate_chain_to_file", 2, [&](unsigned mask, Sink &) { return noise_save_certificate_chain_to_file(N(0, o.ch), N(1, fn)); }); break;
        case 9: null_args(g, "save_certificate_chain_to_buffer", 2, [&](unsigned mask, Sink &) { return noise_save_certificate_chain_to_buffer(N(0, o.ch), N(1, r(&po))); }); break;
        case 10: null_args(g, "save_private_key_to_file", 4, [&](unsigned mask, Sink &) { return noise_save_private_key_to_file(N(0, o.k), N(1, fn), N(2, "pass"), 4, N(3, "ChaChaPoly_BLAKE2s_PBKDF2")); }); break;
        case 11: null_args(g, "save_private_key_to_buffer", 4, [&](unsigned mask, Sink &) { return noise_save_private_key_to_buffer(N(0, o.k), N(1, r(&po)), N(2, "pass"), 4, N(3, "ChaChaPoly_BLAKE2s_PBKDF2")); }); break;
        }
        CHECK(untouched(c) && untouched(ch) && untouched(k), "a refused load gives an object (%s)", trail.c_str());
        CHECK(out.bytes() == Bytes(200, 0xa5), "a refused save wrote to the buffer (%s)", trail.c_str());
        CHECK(access(fn, F_OK) < 0, "a refused save made a file (%s)", trail.c_str());
    }
    g.note("%s", trail.c_str());
    g.key(trail);
    g.nontrivial();
}
