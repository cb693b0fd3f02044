// Under valgrind: what a call is to fill in is marked as never set before it,
// and looked at when the call reports success.  (The harness's own filling of
// its buffers would hide an output that is not, or not wholly, written.)
#include <noise/protocol.h>
#include <noise/protobufs.h>
#include <cstring>
#include <vector>
#include <valgrind/memcheck.h>

namespace {
struct Out {
    uint8_t *p; size_t n; bool on = false;
    static bool overlap(const uint8_t *a, size_t n, const void *b_, size_t m) {
        const uint8_t *b = (const uint8_t *)b_;
        return b && m && a < b + m && b < a + n;
    }
    Out(void *q, size_t k) : p((uint8_t *)q), n(q ? k : 0) { arm(); }
    Out(void *q, size_t k, const void *in, size_t inlen, const void *in2 = nullptr, size_t in2len = 0) : p((uint8_t *)q), n(q ? k : 0) {
        if (!overlap(p, n, in, inlen) && !overlap(p, n, in2, in2len)) arm();
    }
    void arm() {
        if (!RUNNING_ON_VALGRIND || !n || n > 1 << 20) return;
        std::vector<uint8_t> v(n);
        if (VALGRIND_GET_VBITS(p, v.data(), n) != 1) return;     // not all of it addressable
        for (uint8_t b : v) if (b) return;                       // not set before either: valgrind's own view holds
        VALGRIND_MAKE_MEM_UNDEFINED(p, n);
        on = true;
    }
    // k bytes must be there; the rest is as the caller left it
    void done(bool ok, size_t k) {
        if (!on) return;
        if (ok) VALGRIND_CHECK_MEM_IS_DEFINED(p, k < n ? k : n);
        VALGRIND_MAKE_MEM_DEFINED(p, n);
        on = false;
    }
    ~Out() { done(false, 0); }
};
size_t room(const NoiseBuffer *b) { return b && b->data && b->max_size > b->size ? b->max_size - b->size : 0; }
size_t text(const char *s, size_t n) {
    // (not strlen: what is looked at may be unset)
    if (!s || !n) return 0;
    std::vector<char> t(n);
    VALGRIND_MAKE_MEM_DEFINED(t.data(), n);
    std::vector<uint8_t> v(n, 0);
    for (size_t i = 0; i < n; ++i) {
        uint8_t b = 0;
        if (VALGRIND_GET_VBITS(s + i, &b, 1) != 1 || b) return i + 1;
        if (!s[i]) return i + 1;
    }
    return n;
}
}
#define OK(e) ((e) == NOISE_ERROR_NONE)
#define W1(ret, name, params) extern "C" ret __real_##name params; extern "C" ret __wrap_##name params

W1(int, noise_dhstate_calculate, (const NoiseDHState *a, const NoiseDHState *b, uint8_t *s, size_t n)) { Out o(s, n); int e = __real_noise_dhstate_calculate(a, b, s, n); o.done(OK(e), n); return e; }
W1(int, noise_dhstate_get_keypair, (const NoiseDHState *a, uint8_t *s, size_t n, uint8_t *p, size_t m)) { Out o(s, n), q(p, m); int e = __real_noise_dhstate_get_keypair(a, s, n, p, m); o.done(OK(e), n); q.done(OK(e), m); return e; }
W1(int, noise_dhstate_get_public_key, (const NoiseDHState *a, uint8_t *p, size_t m)) { Out q(p, m); int e = __real_noise_dhstate_get_public_key(a, p, m); q.done(OK(e), m); return e; }
W1(int, noise_signstate_get_keypair, (const NoiseSignState *a, uint8_t *s, size_t n, uint8_t *p, size_t m)) { Out o(s, n), q(p, m); int e = __real_noise_signstate_get_keypair(a, s, n, p, m); o.done(OK(e), n); q.done(OK(e), m); return e; }
W1(int, noise_signstate_get_public_key, (const NoiseSignState *a, uint8_t *p, size_t m)) { Out q(p, m); int e = __real_noise_signstate_get_public_key(a, p, m); q.done(OK(e), m); return e; }
W1(int, noise_signstate_sign, (const NoiseSignState *a, const uint8_t *m, size_t k, uint8_t *s, size_t n)) { Out o(s, n, m, k); int e = __real_noise_signstate_sign(a, m, k, s, n); o.done(OK(e), n); return e; }
W1(int, noise_hashstate_finalize, (NoiseHashState *a, uint8_t *h, size_t n)) { Out o(h, n); int e = __real_noise_hashstate_finalize(a, h, n); o.done(OK(e), n); return e; }
W1(int, noise_hashstate_hash_one, (NoiseHashState *a, const uint8_t *d, size_t k, uint8_t *h, size_t n)) { Out o(h, n, d, k); int e = __real_noise_hashstate_hash_one(a, d, k, h, n); o.done(OK(e), n); return e; }
W1(int, noise_hashstate_hash_two, (NoiseHashState *a, const uint8_t *d, size_t k, const uint8_t *d2, size_t k2, uint8_t *h, size_t n)) { Out o(h, n, d, k, d2, k2); int e = __real_noise_hashstate_hash_two(a, d, k, d2, k2, h, n); o.done(OK(e), n); return e; }
W1(int, noise_hashstate_hkdf, (NoiseHashState *a, const uint8_t *k, size_t kn, const uint8_t *d, size_t dn, uint8_t *p, size_t pn, uint8_t *q, size_t qn)) {
    Out o(p, pn, k, kn, d, dn), r(q, qn, k, kn, d, dn);
    int e = __real_noise_hashstate_hkdf(a, k, kn, d, dn, p, pn, q, qn);
    o.done(OK(e), pn); r.done(OK(e), qn);
    return e;
}
W1(int, noise_hashstate_pbkdf2, (NoiseHashState *a, const uint8_t *k, size_t kn, const uint8_t *d, size_t dn, size_t it, uint8_t *p, size_t pn)) {
    Out o(p, pn, k, kn, d, dn);
    int e = __real_noise_hashstate_pbkdf2(a, k, kn, d, dn, it, p, pn);
    o.done(OK(e), pn);
    return e;
}
#define CIPH(name, params, ad, adlen, args) W1(int, name, params) { \
    size_t had = b ? b->size : 0; \
    Out o(b && b->data ? b->data + had : nullptr, room(b) < 64 ? room(b) : 64, ad, adlen); \
    int e = __real_##name args; \
    o.done(OK(e), OK(e) && b->size > had ? b->size - had : 0); \
    return e; }
CIPH(noise_cipherstate_encrypt_with_ad, (NoiseCipherState *a, const uint8_t *d, size_t n, NoiseBuffer *b), d, n, (a, d, n, b))
CIPH(noise_cipherstate_encrypt, (NoiseCipherState *a, NoiseBuffer *b), nullptr, 0, (a, b))
CIPH(noise_symmetricstate_encrypt_and_hash, (NoiseSymmetricState *a, NoiseBuffer *b), nullptr, 0, (a, b))
W1(int, noise_randstate_generate, (NoiseRandState *a, uint8_t *h, size_t n)) { Out o(h, n); int e = __real_noise_randstate_generate(a, h, n); o.done(OK(e), n); return e; }
W1(int, noise_randstate_generate_simple, (uint8_t *h, size_t n)) { Out o(h, n); int e = __real_noise_randstate_generate_simple(h, n); o.done(OK(e), n); return e; }
W1(int, noise_randstate_pad, (NoiseRandState *a, uint8_t *p, size_t k, size_t n, int m)) { Out o(p ? p + k : p, n > k ? n - k : 0); int e = __real_noise_randstate_pad(a, p, k, n, m); o.done(OK(e), n > k ? n - k : 0); return e; }
W1(int, noise_handshakestate_write_message, (NoiseHandshakeState *a, NoiseBuffer *m, const NoiseBuffer *p)) {
    Out o(m ? m->data : nullptr, m ? m->max_size : 0, p ? p->data : nullptr, p ? p->size : 0);
    int e = __real_noise_handshakestate_write_message(a, m, p);
    o.done(OK(e), m ? m->size : 0);
    return e;
}
W1(int, noise_handshakestate_read_message, (NoiseHandshakeState *a, NoiseBuffer *m, NoiseBuffer *p)) {
    Out o(p ? p->data : nullptr, p ? p->max_size : 0, m ? m->data : nullptr, m ? m->max_size : 0);
    int e = __real_noise_handshakestate_read_message(a, m, p);
    o.done(OK(e), p ? p->size : 0);
    return e;
}
W1(int, noise_handshakestate_get_handshake_hash, (const NoiseHandshakeState *a, uint8_t *h, size_t n)) { Out o(h, n); int e = __real_noise_handshakestate_get_handshake_hash(a, h, n); o.done(OK(e), n); return e; }
W1(int, noise_handshakestate_get_protocol_id, (const NoiseHandshakeState *a, NoiseProtocolId *i)) { Out o(i, sizeof *i); int e = __real_noise_handshakestate_get_protocol_id(a, i); o.done(OK(e), sizeof *i); return e; }
W1(int, noise_symmetricstate_get_protocol_id, (const NoiseSymmetricState *a, NoiseProtocolId *i)) { Out o(i, sizeof *i); int e = __real_noise_symmetricstate_get_protocol_id(a, i); o.done(OK(e), sizeof *i); return e; }
W1(int, noise_protocol_name_to_id, (NoiseProtocolId *i, const char *s, size_t n)) { Out o(i, sizeof *i); int e = __real_noise_protocol_name_to_id(i, s, n); o.done(OK(e), sizeof *i); return e; }
W1(int, noise_protocol_id_to_name, (char *s, size_t n, const NoiseProtocolId *i)) { Out o(s, n); int e = __real_noise_protocol_id_to_name(s, n, i); o.done(OK(e), text(s, OK(e) ? n : 0)); return e; }
W1(int, noise_strerror, (int c, char *s, size_t n)) { Out o(s, n); int e = __real_noise_strerror(c, s, n); o.done(OK(e), text(s, OK(e) ? n : 0)); return e; }
W1(int, noise_format_fingerprint, (int t, char *s, size_t n, const uint8_t *k, size_t kn)) { Out o(s, n, k, kn); int e = __real_noise_format_fingerprint(t, s, n, k, kn); o.done(OK(e), text(s, OK(e) ? n : 0)); return e; }
W1(int, noise_dhstate_format_fingerprint, (const NoiseDHState *a, int t, char *s, size_t n)) { Out o(s, n); int e = __real_noise_dhstate_format_fingerprint(a, t, s, n); o.done(OK(e), text(s, OK(e) ? n : 0)); return e; }
W1(int, noise_signstate_format_fingerprint, (const NoiseSignState *a, int t, char *s, size_t n)) { Out o(s, n); int e = __real_noise_signstate_format_fingerprint(a, t, s, n); o.done(OK(e), text(s, OK(e) ? n : 0)); return e; }
#define RD(name, type) W1(int, noise_protobuf_read_##name, (NoiseProtobuf *b, int t, type *v)) { Out o(v, sizeof *v); int e = __real_noise_protobuf_read_##name(b, t, v); o.done(OK(e), sizeof *v); return e; }
RD(int32, int32_t) RD(uint32, uint32_t) RD(int64, int64_t) RD(uint64, uint64_t) RD(sint32, int32_t) RD(sint64, int64_t)
RD(sfixed32, int32_t) RD(fixed32, uint32_t) RD(sfixed64, int64_t) RD(fixed64, uint64_t) RD(float, float) RD(double, double) RD(bool, int)
#define RS(name, type) W1(int, noise_protobuf_read_##name, (NoiseProtobuf *b, int t, type *v, size_t n, size_t *k)) { \
    Out o((void *)v, n), s(k, sizeof *k); int e = __real_noise_protobuf_read_##name(b, t, v, n, k); \
    s.done(OK(e), sizeof *k); o.done(OK(e), OK(e) && k ? *k : 0); return e; }
RS(string, char) RS(bytes, void)
#define RA(name, type) W1(int, noise_protobuf_read_alloc_##name, (NoiseProtobuf *b, int t, type **v, size_t n, size_t *k)) { \
    Out s(k, sizeof *k); int e = __real_noise_protobuf_read_alloc_##name(b, t, v, n, k); \
    s.done(OK(e), sizeof *k); if (OK(e) && v && *v && k && RUNNING_ON_VALGRIND) VALGRIND_CHECK_MEM_IS_DEFINED(*v, *k); return e; }
RA(string, char) RA(bytes, void)
W1(int, noise_protobuf_finish_output, (NoiseProtobuf *b, uint8_t **d, size_t *n)) {
    int e = __real_noise_protobuf_finish_output(b, d, n);
    if (OK(e) && d && *d && n && RUNNING_ON_VALGRIND) VALGRIND_CHECK_MEM_IS_DEFINED(*d, *n);
    return e;
}
