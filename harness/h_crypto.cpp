// Primitives and key objects: C06-C12, C26, C27.
#include "nutil.h"
#include "newhope_model.h"
#include <stdexcept>
#include <sys/mman.h>
#include <unistd.h>

static void setup(Gen &g) { env_rand_seed(g.u(0xffffffffull)); }
static struct Init { Init() { case_setup = setup; } } init_;

static const int CIPHERS[] = {NOISE_CIPHER_CHACHAPOLY, NOISE_CIPHER_AESGCM};
static OCipher oc(int id) { return id == NOISE_CIPHER_AESGCM ? O_AESGCM : O_CHACHAPOLY; }
static const int HASHES[] = {NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512};
static const OHash OHASHES[] = {O_BLAKE2s, O_BLAKE2b, O_SHA256, O_SHA512};
static const char *HNAMES[] = {"BLAKE2s", "BLAKE2b", "SHA256", "SHA512"};
static const char *cname(int id) { return id == NOISE_CIPHER_AESGCM ? "AESGCM" : "ChaChaPoly"; }

static void new_cipher(Gen &g, Cipher &c, int id) {
    int err = g.flip() ? noise_cipherstate_new_by_id(&c.c, id) : noise_cipherstate_new_by_name(&c.c, cname(id));
    CHECK(err == 0 && c.c, "cannot create cipher %s: 0x%x", cname(id), err);
    CHECK_EQ(noise_cipherstate_get_cipher_id(c.c), id, "cipher id");
    CHECK_EQ(noise_cipherstate_get_key_length(c.c), 32, "key length");
    CHECK_EQ(noise_cipherstate_get_mac_length(c.c), 16, "mac length");
    CHECK_EQ(!!noise_cipherstate_has_key(c.c), 0, "new cipher has no key");
}
static size_t gen_len(Gen &g, size_t max) {
    return g.chance(1, 25) ? max - g.u(20) : g.chance(1, 10) ? g.u(max) : g.size(1200, {15, 16, 17, 31, 32, 48, 63, 64, 65, 112, 127, 128, 129, 192, 255, 256, 257, 512, 1024});
}
static uint64_t gen_nonce(Gen &g) {
    static const uint64_t e[] = {0, 1, 255, 256, 0xffff, 0x10000, 0x7fffffff, 0x80000000ull, 0xfffffffeull, 0xffffffffull, 0x100000000ull, 0x100000001ull,
                                 0xffffffffffull, 0x10000000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull - 1, ~0ull - 2, ~0ull - 3};
    switch (g.u(3)) {
    case 0: return g.u(20);
    case 1: return e[g.u(sizeof e / sizeof *e - 1)];
    default: return g.u64() == ~0ull ? 5 : g.u64() & 0xfffffffffffffffeull;
    }
}
static int do_crypt(Gen &g, NoiseCipherState *c, bool enc, const Bytes &ad, NoiseBuffer &nb, bool misalign = true) {
    if (ad.empty() && g.flip()) return enc ? noise_cipherstate_encrypt(c, &nb) : noise_cipherstate_decrypt(c, &nb);
    size_t off = misalign ? g.u(7) : 0;
    Buf a(Bytes(off, 0) + ad);
    const uint8_t *p = ad.empty() && g.flip() ? nullptr : a.p + off;
    return enc ? noise_cipherstate_encrypt_with_ad(c, p, ad.size(), &nb) : noise_cipherstate_decrypt_with_ad(c, p, ad.size(), &nb);
}

// ------------------------------------------------------------------ C06
TARGET(C06, aead, 1, "encryption under a random key, nonce, associated data and plaintext (lengths 0..65519, all alignments) compared with OpenSSL's ChaCha20-Poly1305 / AES-256-GCM in Noise's nonce encoding, and decryption of OpenSSL's output; several messages per object; non-trivial with plaintext or associated data; distinct by cipher, nonce and lengths") {
    int id = CIPHERS[g.en(2)];
    Cipher c, d;
    new_cipher(g, c, id);
    new_cipher(g, d, id);
    int n = 1 + (int)g.u(4);
    Bytes key;
    uint64_t nonce = 0;
    bool nt = false;
    g.note("%s", cname(id));
    g.key(cname(id));
    for (int i = 0; i < n; ++i) {
        if (i == 0 || g.chance(1, 6)) {
            key = g.bytes(32);
            Buf k(key);
            CHECK_EQ(noise_cipherstate_init_key(c.c, k.p, 32), 0, "init_key");
            CHECK_EQ(noise_cipherstate_init_key(d.c, k.p, 32), 0, "init_key");
            memset(k.p, 0x77, 32);
            nonce = 0;
        }
        if (g.chance(2, 3)) {
            uint64_t want = gen_nonce(g);
            if (want >= nonce) {
                nonce = want;
                CHECK_EQ(noise_cipherstate_set_nonce(c.c, nonce), 0, "set_nonce");
                CHECK_EQ(noise_cipherstate_set_nonce(d.c, nonce), 0, "set_nonce");
            }
        }
        if (nonce == ~0ull) break;
        Bytes pt = g.bytes(gen_len(g, 65519)), ad = g.chance(1, 3) ? Bytes() : g.bytes(gen_len(g, 70000));
        Bytes want = o_encrypt(oc(id), key, nonce, ad, pt);
        size_t off = g.u(15), slack = g.chance(1, 2) ? 0 : g.u(40);
        Buf b(Bytes(off, 0xa5) + pt + Bytes(16, 0xa5) + Bytes(slack, 0xa5));
        NoiseBuffer nb;
        noise_buffer_set_inout(nb, b.p + off, pt.size(), b.n - off);
        int err = do_crypt(g, c.c, true, ad, nb);
        CHECK_EQ(err, 0, "encrypt");
        CHECK_EQ(nb.size, pt.size() + 16, "ciphertext size");
        CHECK(Bytes(b.p + off, b.p + off + nb.size) == want, "%s: encryption of %zu bytes with %zu bytes of associated data under nonce %llx differs from the standard: %s, expected %s",
              cname(id), pt.size(), ad.size(), (unsigned long long)nonce, hex(b.p + off, nb.size).c_str(), hex(want).c_str());
        for (size_t q = 0; q < off; ++q) CHECK(b.p[q] == 0xa5, "write before the buffer");
        for (size_t q = off + nb.size; q < b.n; ++q) CHECK(b.p[q] == 0xa5, "write after the MAC");
        // and back again
        size_t off2 = g.u(15);
        Buf b2(Bytes(off2, 0xa5) + want);
        NoiseBuffer nb2;
        noise_buffer_set_inout(nb2, b2.p + off2, want.size(), want.size());
        err = do_crypt(g, d.c, false, ad, nb2);
        CHECK_EQ(err, 0, "decrypt of a genuine ciphertext");
        CHECK(nb2.size == pt.size() && Bytes(b2.p + off2, b2.p + off2 + nb2.size) == pt, "decryption gives other plaintext");
        ++nonce;
        nt |= !pt.empty() || !ad.empty();
        g.note(" n=%llx ad=%zu pt=%zu", (unsigned long long)(nonce - 1), ad.size(), pt.size());
        g.key(strf("%llx %zu %zu", (unsigned long long)nonce, ad.size(), pt.size()));
    }
    g.nontrivial(nt);
}

// A long read-only run of bytes that repeats a block of 4 MB, without the memory for it.
struct LongBytes {
    static const size_t STEP = 4u << 20;
    uint8_t *p; size_t n, span;
    LongBytes(const Bytes &block, size_t n_) : n(n_), span((n_ + STEP - 1) / STEP * STEP) {
        p = (uint8_t *)mmap(nullptr, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        int fd = memfd_create("block", 0);
        if (p == MAP_FAILED || fd < 0 || ftruncate(fd, STEP) != 0) throw std::runtime_error("no address space");
        if (write(fd, block.data(), STEP) != (ssize_t)STEP) throw std::runtime_error("no memory");
        for (size_t o = 0; o < span; o += STEP)
            if (mmap(p + o, STEP, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) throw std::runtime_error("no address space");
        close(fd);
    }
    ~LongBytes() { munmap(p, span); }
    LongBytes(const LongBytes &) = delete;
};
TARGET(C06, longad, 0, "associated data whose length passes 2^32 bits, 2^31 bytes or 2^32 bytes, encrypted and decrypted, compared with OpenSSL fed in pieces; a changed byte near the end is noticed") {
    uint64_t what = g.en(4);
    bool ref = g_backend != "openssl";     // (the others take too long over AESGCM)
    int id = what == 0 || (ref && what == 3) ? NOISE_CIPHER_CHACHAPOLY : NOISE_CIPHER_AESGCM;
    uint64_t base = what == 1 || (ref && what == 2) ? 1ull << 29 : what == 2 || (ref && what == 3) ? 1ull << 31 : 1ull << 32;
    LongBytes ad(g.rnd(LongBytes::STEP), base - 20 + g.u(60));
    Bytes key = g.rnd(32), pt = g.rnd(g.u(100));
    Bytes want = o_encrypt(oc(id), key, 0, ad.p, ad.n, pt);
    g.note("%s with %zu bytes of associated data", cname(id), ad.n);
    g.key(strf("%d %zu", id, ad.n));
    g.nontrivial();
    Cipher c, d;
    new_cipher(g, c, id);
    new_cipher(g, d, id);
    CHECK_EQ(noise_cipherstate_init_key(c.c, key.data(), 32), 0, "init_key");
    CHECK_EQ(noise_cipherstate_init_key(d.c, key.data(), 32), 0, "init_key");
    Buf b(pt + Bytes(16, 0));
    NoiseBuffer nb;
    noise_buffer_set_inout(nb, b.p, pt.size(), b.n);
    int err = noise_cipherstate_encrypt_with_ad(c.c, ad.p, ad.n, &nb);
    CHECK(err == 0, "%s: encryption with %zu bytes of associated data failed: 0x%x", cname(id), ad.n, err);
    CHECK(b.bytes() == want, "%s: encryption with %zu bytes of associated data differs from the standard", cname(id), ad.n);
    // shorter associated data is other associated data
    noise_buffer_set_inout(nb, b.p, b.n, b.n);
    err = noise_cipherstate_decrypt_with_ad(d.c, ad.p, ad.n - 1, &nb);
    CHECK(err == NOISE_ERROR_MAC_FAILURE, "%s: decryption with one of %zu bytes of associated data missing: 0x%x", cname(id), ad.n, err);
    memcpy(b.p, want.data(), b.n);
    noise_buffer_set_inout(nb, b.p, b.n, b.n);
    err = noise_cipherstate_decrypt_with_ad(d.c, ad.p, ad.n, &nb);
    CHECK(err == 0, "%s: decryption with %zu bytes of associated data failed: 0x%x", cname(id), ad.n, err);
    CHECK(nb.size == pt.size() && b.bytes(nb.size) == pt, "%s: decryption with %zu bytes of associated data gives other plaintext", cname(id), ad.n);
}
TARGET(C06, polyedge, 1, "ChaChaPoly messages built so that Poly1305's accumulator takes a chosen value (0 to 9, near its prime, at limb boundaries, or what makes the tag all zeros or all ones) at the end or after some block, which random messages do not reach; encryption and decryption compared with OpenSSL; non-trivial when the value was reached; distinct by value and lengths") {
    Cipher c;
    new_cipher(g, c, NOISE_CIPHER_CHACHAPOLY);
    Bytes key = g.rnd(32);
    uint64_t nonce = gen_nonce(g);
    if (nonce == ~0ull) nonce = 1;
    Bytes ad = g.flip() ? Bytes() : g.bytes(g.size(100, {15, 16, 17}));
    size_t blocks = 1 + g.u(18), extra = g.flip() ? 0 : g.u(15);
    Bytes pt = g.rnd(16 * blocks + extra);
    std::string what;
    bool hit = false;
    for (int tries = 0; tries < 8 && !hit; ++tries) {
        Bytes t(17, 0);
        auto addto = [&](int v) {          // t += v, modulo 2^136
            int carry = v;
            for (auto &x : t) { carry += x; x = (uint8_t)carry; carry >>= 8; }
        };
        switch (g.u(4)) {
        case 0: t[0] = (uint8_t)g.u(9); what = strf("%d", t[0]); break;
        case 1: { int k = (int)g.u(9); t.assign(17, 0xff); t[0] = 0xfa; t[16] = 3; addto(-k); what = strf("p-%d", k + 1); break; }
        case 2: { static const int bits[] = {13, 16, 26, 32, 39, 44, 52, 64, 65, 78, 88, 96, 104, 128, 129};
                  int b = bits[g.u(14)], k = (int)g.range(-3, 3); t[b / 8] = (uint8_t)(1 << b % 8); addto(k); what = strf("2^%d%+d", b, k); break; }
        case 3: { Bytes rs = o_poly_rs(key, nonce); int k = (int)g.range(-1, 1);   // tag = k
                  int borrow = 0;
                  for (int i = 0; i < 16; ++i) { int v = -(int)rs[16 + i] - borrow; borrow = v < 0; t[i] = (uint8_t)v; }
                  addto(k); t[16] = (uint8_t)g.u(3); what = strf("tag %d", k); break; }
        default: { for (int i = 0; i < 16; ++i) t[i] = g.flip() ? 0xff : 0; t[16] = (uint8_t)g.u(2); what = "limbs"; break; }
        }
        size_t q = g.chance(1, 3) ? 1 + g.u(blocks + (ad.size() + 15) / 16) : 0;
        hit = o_poly_target(key, nonce, ad, pt, g.u(blocks - 1), q, t);
        if (q) what += " inside";
        if (!hit) pt[g.u(pt.size() - 1)] ^= 0x10;
    }
    g.note("accumulator %s, ad=%zu pt=%zu n=%llx", hit ? what.c_str() : "not reached", ad.size(), pt.size(), (unsigned long long)nonce);
    g.key(what + strf(" %zu %zu", ad.size(), pt.size()));
    g.nontrivial(hit);
    Bytes want = o_encrypt(O_CHACHAPOLY, key, nonce, ad, pt);
    Buf b(pt + Bytes(16, 0xa5));
    NoiseBuffer nb;
    CHECK_EQ(noise_cipherstate_init_key(c.c, key.data(), 32), 0, "init_key");
    CHECK_EQ(noise_cipherstate_set_nonce(c.c, nonce), 0, "set_nonce");
    noise_buffer_set_inout(nb, b.p, pt.size(), b.n);
    CHECK_EQ(do_crypt(g, c.c, true, ad, nb), 0, "encrypt");
    CHECK(b.bytes(nb.size) == want, "encryption differs from the standard where the accumulator is %s: %s, expected %s", what.c_str(), hex(b.p, nb.size).c_str(), hex(want).c_str());
    CHECK_EQ(noise_cipherstate_init_key(c.c, key.data(), 32), 0, "init_key");
    CHECK_EQ(noise_cipherstate_set_nonce(c.c, nonce), 0, "set_nonce");
    CHECK_EQ(do_crypt(g, c.c, false, ad, nb), 0, "decrypt of a genuine ciphertext");
    CHECK(b.bytes(nb.size) == pt, "decryption gives other plaintext");
}

// ------------------------------------------------------------------ C07
TARGET(C07, tamper, 1, "a genuine ciphertext is damaged (bit flips anywhere, cut, extended, other associated data, other nonce, other key, swapped halves, tag of another message): decryption must report the failure, release no plaintext, leave size and nonce alone so the genuine message still decrypts; distinct by cipher, damage and lengths") {
    int id = CIPHERS[g.en(2)];
    Cipher c;
    new_cipher(g, c, id);
    Bytes key = g.bytes(32);
    CHECK_EQ(noise_cipherstate_init_key(c.c, key.data(), 32), 0, "init_key");
    uint64_t nonce = gen_nonce(g);
    if (nonce == ~0ull) nonce = 1;
    CHECK_EQ(noise_cipherstate_set_nonce(c.c, nonce), 0, "set_nonce");
    Bytes pt = g.rnd(gen_len(g, 65519)), ad = g.flip() ? Bytes() : g.bytes(g.size(300, {16, 32}));
    Bytes ct = o_encrypt(oc(id), key, nonce, ad, pt);
    int attempts = 1 + (int)g.u(5);
    for (int i = 0; i < attempts; ++i) {
        Bytes m(ct), a(ad);
        std::string how;
        switch (g.u(10)) {
        case 0: { size_t p = g.u(m.size() - 1); m[p] ^= (uint8_t)(1 << g.u(7)); how = strf("bit flip at %zu", p); break; }
        case 1: { size_t p = m.size() - 16 + g.u(15); m[p] ^= (uint8_t)(1 << g.u(7)); how = strf("tag bit flip at %zu", p - (m.size() - 16)); break; }
        case 2: { size_t cut = 1 + g.u(m.size() - 1); m.resize(m.size() - cut); how = "cut"; break; }
        case 3: m = m + g.bytes(1 + g.u(20)); if (m.size() > 65535) m.resize(65535); if (m == ct) continue; how = "extended"; break;
        case 4: a = a.empty() ? Bytes(1, 0) : g.flip() ? Bytes(a.begin(), a.end() - 1) : a + Bytes(1 + g.u(16), 0); how = "other associated data length"; break;
        case 5: if (a.empty()) continue; a[g.u(a.size() - 1)] ^= (uint8_t)(1 << g.u(7)); how = "associated data bit flip"; break;
        case 6: m = o_encrypt(oc(id), key, nonce == 0 ? 1 + g.u(300) : g.flip() ? nonce - 1 : nonce ^ (1ull << g.u(62)), ad, pt); how = "other nonce"; break;
        case 7: { Bytes k2(key); k2[g.u(31)] ^= (uint8_t)(1 << g.u(7)); m = o_encrypt(oc(id), k2, nonce, ad, pt); how = "other key"; break; }
        case 8: { Bytes o = o_encrypt(oc(id), key, nonce, ad, g.rnd(pt.size())); std::copy(o.end() - 16, o.end(), m.end() - 16); if (m == ct) continue; how = "tag of another message"; break; }
        case 9: for (size_t p = m.size() - 16; p < m.size(); ++p) m[p] = g.flip() ? 0 : 0xff; if (m == ct) continue; how = "constant tag"; break;
        case 10: { // move a byte between associated data and ciphertext
            if (m.size() == 16) continue; a.push_back(m[0]); m.erase(m.begin()); how = "byte moved into the associated data"; break; }
        }
        Buf b(m);
        NoiseBuffer nb;
        noise_buffer_set_inout(nb, b.p, m.size(), m.size());
        int err = do_crypt(g, c.c, false, a, nb);
        g.note("%s(pt %zu) ", how.c_str(), pt.size());
        g.key(strf("%s %s %zu %zu", cname(id), how.c_str(), pt.size(), ad.size()));
        CHECK(err != 0, "%s: forged message accepted (%s; %zu bytes of plaintext, %zu of associated data)", cname(id), how.c_str(), pt.size(), ad.size());
        CHECK_EQ(err, m.size() < 16 ? NOISE_ERROR_INVALID_LENGTH : NOISE_ERROR_MAC_FAILURE, "error for a forged message");
        // no part of the plaintext may be in the caller's buffer
        for (size_t p = 0; p + 16 <= pt.size() && p + 16 <= m.size(); p += 16)
            CHECK(memcmp(b.p + p, pt.data() + p, 16) || !memcmp(m.data() + p, pt.data() + p, 16),
                  "%s: plaintext at offset %zu was released although the message is forged (%s)", cname(id), p, how.c_str());
        g.nontrivial();
    }
    Buf b(ct);
    NoiseBuffer nb;
    noise_buffer_set_inout(nb, b.p, ct.size(), ct.size());
    CHECK_EQ(do_crypt(g, c.c, false, ad, nb), 0, "genuine message after forgeries");
    CHECK(b.bytes(nb.size) == pt, "plaintext after forgeries");
}

// ------------------------------------------------------------------ C08
TARGET(C08, nonce, 1, "a random sequence of encrypt / decrypt / set_nonce / init_key calls, some of them failing (small buffer, over-long message, forged message, nonce going backwards, nonce exhausted), outputs compared with a model that counts nonces; non-trivial with at least one failure between two encryptions; distinct by the sequence") {
    int id = CIPHERS[g.en(2)];
    Cipher c;
    new_cipher(g, c, id);
    uint64_t n = 0;
    bool has = false;
    Bytes key;
    std::string seq;
    int enc = 0, fails_between = 0, pending = 0;
    int steps = 4 + (int)g.u(20);
    std::set<std::pair<Bytes, uint64_t>> used;
    for (int i = 0; i < steps; ++i) {
        unsigned op = (unsigned)g.u(11);
        if (i == 0 && g.chance(4, 5)) op = 9;
        seq += (char)('a' + op);
        switch (op) {
        case 0: case 1: case 2: case 3: {           // encrypt
            size_t len = g.size(100);
            unsigned bad = (unsigned)g.u(7);
            Bytes pt = g.bytes(bad == 1 ? 65520 + g.u(30) : len);
            size_t room = bad == 0 ? g.u(15) : 16 + g.u(3);
            Buf b(pt + Bytes(room, 0));
            NoiseBuffer nb;
            noise_buffer_set_inout(nb, b.p, pt.size(), b.n);
            Bytes ad = g.chance(1, 3) ? g.bytes(g.u(40)) : Bytes();
            int err = do_crypt(g, c.c, true, ad, nb);
            if (!has) {
                if (pt.size() > 65535) { CHECK_EQ(err, NOISE_ERROR_INVALID_LENGTH, "over-long message without a key"); break; }
                CHECK_EQ(err, 0, "encrypt without a key");
                CHECK(nb.size == pt.size() && b.bytes(pt.size()) == pt, "encrypt without a key changed the message");
                break;
            }
            if (bad <= 1) {
                CHECK(err != 0, "encryption that cannot fit succeeded");
                if (n != ~0ull) CHECK_EQ(err, NOISE_ERROR_INVALID_LENGTH, "encryption that cannot fit");
                CHECK(b.bytes(pt.size()) == pt, "refused encryption changed the message");
                ++pending;
                break;
            }
            if (n == ~0ull) {
                CHECK_EQ(err, NOISE_ERROR_INVALID_NONCE, "encryption with an exhausted nonce");
                CHECK(b.bytes(pt.size()) == pt && nb.size == pt.size(), "refused encryption changed the message");
                ++pending;
                break;
            }
            CHECK_EQ(err, 0, "encrypt");
            CHECK(used.insert({key, n}).second, "model error");
            CHECK(b.bytes(nb.size) == o_encrypt(oc(id), key, n, ad, pt), "message was not encrypted under nonce %llu, the next one", (unsigned long long)n);
            ++n;
            ++enc;
            if (pending && enc > 1) ++fails_between;
            pending = 0;
            break;
        }
        case 4: case 5: {                           // decrypt, genuine
            Bytes pt = g.bytes(g.size(100)), ad = g.chance(1, 3) ? g.bytes(g.u(40)) : Bytes();
            Bytes ct = has && n != ~0ull ? o_encrypt(oc(id), key, n, ad, pt) : pt + Bytes(16, 1);
            Buf b(ct);
            NoiseBuffer nb;
            noise_buffer_set_inout(nb, b.p, b.n, b.n);
            int err = do_crypt(g, c.c, false, ad, nb);
            if (!has) { CHECK(err == 0 && nb.size == ct.size() && b.bytes() == ct, "decrypt without a key changed the message"); break; }
            if (n == ~0ull) { CHECK_EQ(err, NOISE_ERROR_INVALID_NONCE, "decryption with an exhausted nonce"); ++pending; break; }
            CHECK_EQ(err, 0, "decrypt of the message with the next nonce");
            CHECK(b.bytes(nb.size) == pt, "plaintext");
            ++n;
            break;
        }
        case 6: case 7: {                           // decrypt, forged or short
            Bytes pt = g.bytes(g.size(100));
            Bytes ct = has ? o_encrypt(oc(id), key, g.flip() ? n + 1 : n - 1, Bytes(), pt) : pt;
            if (!has) break;
            bool shrt = g.chance(1, 4);
            if (shrt) ct.resize(g.u(15));
            Buf b(ct);
            NoiseBuffer nb;
            noise_buffer_set_inout(nb, b.p, b.n, b.n);
            int err = do_crypt(g, c.c, false, Bytes(), nb);
            if (shrt) CHECK_EQ(err, NOISE_ERROR_INVALID_LENGTH, "message too short for its MAC");
            else CHECK_EQ(err, n == ~0ull ? NOISE_ERROR_INVALID_NONCE : NOISE_ERROR_MAC_FAILURE, "message with another nonce");
            ++pending;
            break;
        }
        case 8: case 10: {                          // set_nonce
            uint64_t v = g.chance(1, 4) && n ? n - 1 - g.u(n > 10 ? 9 : n - 1) : g.chance(1, 3) ? n + g.u(3) : g.chance(1, 4) ? ~0ull - g.u(3) : gen_nonce(g);
            int err = noise_cipherstate_set_nonce(c.c, v);
            if (!has) { CHECK_EQ(err, NOISE_ERROR_INVALID_STATE, "set_nonce without a key"); break; }
            if (v < n) { CHECK_EQ(err, NOISE_ERROR_INVALID_NONCE, "set_nonce backwards"); ++pending; break; }
            CHECK_EQ(err, 0, "set_nonce forwards");
            n = v;
            break;
        }
        case 9: {                                   // init_key
            Bytes k = g.rnd(32);
            if (g.chance(1, 6)) {
                size_t kl = g.u(64);
                if (kl == 32) break;
                Buf kb(g.bytes(kl));
                CHECK_EQ(noise_cipherstate_init_key(c.c, kb.p, kl), NOISE_ERROR_INVALID_LENGTH, "key of the wrong length");
                CHECK_EQ(!!noise_cipherstate_has_key(c.c), has, "has_key after a refused key");
                break;
            }
            CHECK_EQ(noise_cipherstate_init_key(c.c, k.data(), 32), 0, "init_key");
            CHECK_EQ(!!noise_cipherstate_has_key(c.c), 1, "has_key");
            key = k; has = true; n = 0;
            break;
        }
        case 11: {                                  // invalid parameters
            uint8_t z[20] = {0};
            NoiseBuffer nb;
            noise_buffer_set_inout(nb, z, 21, 20);
            CHECK_EQ(noise_cipherstate_encrypt(c.c, &nb), NOISE_ERROR_INVALID_LENGTH, "size > max_size");
            CHECK_EQ(noise_cipherstate_decrypt(c.c, &nb), NOISE_ERROR_INVALID_LENGTH, "size > max_size");
            noise_buffer_set_inout(nb, z, 4, 20);
            CHECK_EQ(noise_cipherstate_encrypt_with_ad(c.c, nullptr, 3, &nb), NOISE_ERROR_INVALID_PARAM, "NULL associated data");
            CHECK_EQ(noise_cipherstate_decrypt_with_ad(c.c, nullptr, 3, &nb), NOISE_ERROR_INVALID_PARAM, "NULL associated data");
            ++pending;
            break;
        }
        }
    }
    g.note("%s %s", cname(id), seq.c_str());
    g.key(cname(id) + seq);
    g.nontrivial(fails_between > 0);
}

// ------------------------------------------------------------------ C09
struct Hash { NoiseHashState *h = nullptr; ~Hash() { if (h) noise_hashstate_free(h); } };
static void new_hash(Gen &g, Hash &h, int i) {
    int err = g.flip() ? noise_hashstate_new_by_id(&h.h, HASHES[i]) : noise_hashstate_new_by_name(&h.h, HNAMES[i]);
    CHECK(err == 0 && h.h, "cannot create hash %s: 0x%x", HNAMES[i], err);
    CHECK_EQ(noise_hashstate_get_hash_id(h.h), HASHES[i], "hash id");
    CHECK_EQ(noise_hashstate_get_hash_length(h.h), o_hashlen(OHASHES[i]), "hash length");
    CHECK_EQ(noise_hashstate_get_block_length(h.h), o_blocklen(OHASHES[i]), "block length");
}
static size_t hlen(Gen &g, size_t max = 70000) {
    return g.chance(1, 20) ? g.u(max) : g.size(700, {1, 31, 32, 55, 56, 57, 63, 64, 65, 111, 112, 113, 127, 128, 129, 191, 192, 255, 256, 257, 383, 384, 511, 512});
}
TARGET(C09, hash, 3, "messages hashed in one piece, in two, and in random pieces on one reused object, compared with OpenSSL; non-trivial with at least two pieces; distinct by hash and piece sizes") {
    int i = (int)g.en(4);
    Hash h;
    new_hash(g, h, i);
    size_t hl = o_hashlen(OHASHES[i]);
    int rounds = 1 + (int)g.u(3);
    g.note("%s", HNAMES[i]);
    g.key(HNAMES[i]);
    for (int r = 0; r < rounds; ++r) {
        Bytes d = g.bytes(hlen(g));
        Bytes want = o_hash(OHASHES[i], d);
        Buf out(hl);
        unsigned how = (unsigned)g.u(3);
        if (how == 0) {
            Buf in(d);
            CHECK_EQ(noise_hashstate_hash_one(h.h, in.p, in.n, out.p, hl), 0, "hash_one");
            g.note(" one:%zu", d.size()); g.key(strf("1 %zu", d.size()));
        } else if (how == 1) {
            size_t cut = g.u(d.size());
            Buf a(sub(d, 0, cut)), b(sub(d, cut, d.size() - cut));
            CHECK_EQ(noise_hashstate_hash_two(h.h, a.p, a.n, b.p, b.n, out.p, hl), 0, "hash_two");
            g.note(" two:%zu+%zu", cut, d.size() - cut); g.key(strf("2 %zu %zu", cut, d.size()));
            g.nontrivial();
        } else {
            CHECK_EQ(noise_hashstate_reset(h.h), 0, "reset");
            size_t pos = 0;
            if (g.chance(1, 5)) { Bytes x = g.bytes(g.size(300)); Buf xb(x); noise_hashstate_update(h.h, xb.p, xb.n); noise_hashstate_reset(h.h); }
            int parts = 0;
            while (pos < d.size()) {
                size_t n = g.chance(1, 4) ? g.u(d.size() - pos) : std::min<size_t>(d.size() - pos, g.size(300, {1, 63, 64, 65, 127, 128, 129}));
                if (!n && ++parts > 40) n = d.size() - pos;
                Buf p(sub(d, pos, n));
                CHECK_EQ(noise_hashstate_update(h.h, p.p, p.n), 0, "update");
                pos += n;
                ++parts;
                g.key(strf("%zu", n));
            }
            if (g.chance(1, 8)) {
                Buf w(hl + 8);
                size_t bad = g.flip() ? hl - 1 : hl + 1 + g.u(4);
                CHECK_EQ(noise_hashstate_finalize(h.h, w.p, bad), NOISE_ERROR_INVALID_LENGTH, "finalize with a wrong length");
            }
            CHECK_EQ(noise_hashstate_finalize(h.h, out.p, hl), 0, "finalize");
            g.note(" pieces:%d/%zu", parts, d.size());
            if (parts > 1) g.nontrivial();
        }
        CHECK(out.bytes() == want, "%s of %zu bytes (way %u, use %d of the object) is %s, expected %s", HNAMES[i], d.size(), how, r, hex(out.p, hl, 64).c_str(), hex(want, 64).c_str());
    }
}
TARGET(C09, kdf, 2, "HKDF (Noise's two-output form) with random key, data and output lengths, outputs aliasing the key as well, and PBKDF2, compared with OpenSSL; distinct by hash and lengths") {
    int i = (int)g.en(4);
    Hash h;
    new_hash(g, h, i);
    size_t hl = o_hashlen(OHASHES[i]), bl = o_blocklen(OHASHES[i]);
    g.nontrivial();
    auto len = [&](size_t usual, std::initializer_list<size_t> sp) -> size_t {
        if (g.chance(1, 12)) return g.size(g.chance(1, 8) ? 70000 : 5000, {255, 256, 257, 1024, 4096});
        return g.size(usual, sp);
    };
    if (g.chance(2, 3)) {
        Bytes key = g.bytes(g.chance(1, 3) ? hl : len(300, {0, 31, 32, 63, 64, 65, 127, 128, 129})), data = g.bytes(len(400, {0, 32, 56, 64}));
        size_t n1 = g.flip() ? hl : g.u(hl), n2 = g.flip() ? hl : g.u(hl);
        bool bad = g.chance(1, 12);
        if (bad) (g.flip() ? n1 : n2) = hl + 1 + g.u(10);
        auto want = o_hkdf2(OHASHES[i], key, data);
        Buf o2(n2 + 8), d(data);
        bool alias = key.size() >= n1 && g.flip();
        Buf k(key), o1(n1 + 8);
        uint8_t *dst1 = alias ? k.p : o1.p;
        int err = noise_hashstate_hkdf(h.h, k.p, key.size(), d.p, d.n, dst1, n1, o2.p, n2);
        g.note("%s hkdf key %zu data %zu -> %zu,%zu%s", HNAMES[i], key.size(), data.size(), n1, n2, alias ? " aliased" : "");
        g.key(strf("%d %zu %zu %zu %zu %d", i, key.size(), data.size(), n1, n2, alias));
        if (bad) { CHECK_EQ(err, NOISE_ERROR_INVALID_LENGTH, "hkdf with over-long outputs"); return; }
        CHECK_EQ(err, 0, "hkdf");
        CHECK(!memcmp(dst1, want.first.data(), n1), "%s HKDF first output differs (key %zu bytes, block %zu)", HNAMES[i], key.size(), bl);
        CHECK(!memcmp(o2.p, want.second.data(), n2), "%s HKDF second output differs (key %zu bytes)", HNAMES[i], key.size());
        for (size_t q = n2; q < o2.n; ++q) CHECK(o2.p[q] == 0xa5, "hkdf wrote past output 2");
        if (!alias) for (size_t q = n1; q < o1.n; ++q) CHECK(o1.p[q] == 0xa5, "hkdf wrote past output 1");
        if (alias) for (size_t q = n1; q < key.size(); ++q) CHECK(k.p[q] == key[q], "hkdf wrote past the aliased output 1");
        else CHECK(k.bytes() == key, "hkdf changed the key");
    } else {
        Bytes pass = g.bytes(len(200, {0, 63, 64, 65, 128, 129})), salt = g.bytes(len(120, {0, 16}));
        size_t out_len = g.size(300, {0, 1, hl - 1, hl, hl + 1, 40, 2 * hl, 2 * hl + 1});
        unsigned iter = 1 + (unsigned)g.u(12);
        if (g.chance(1, 25)) { out_len = g.size(20000, {255 * hl, 256 * hl, 255 * hl + 1, 256 * hl + 1}); iter = 1 + (unsigned)g.u(1); }
        if (g.chance(1, 25) && pass.size() < 400) iter = 1 + (unsigned)g.u(600);
        Buf o(out_len + 4), p(pass), s(salt);
        CHECK_EQ(noise_hashstate_pbkdf2(h.h, p.p, p.n, s.p, s.n, iter, o.p, out_len), 0, "pbkdf2");
        Bytes want = o_pbkdf2(OHASHES[i], pass, salt, iter, out_len);
        g.note("%s pbkdf2 pass %zu salt %zu iter %u -> %zu", HNAMES[i], pass.size(), salt.size(), iter, out_len);
        g.key(strf("p %d %zu %zu %u %zu", i, pass.size(), salt.size(), iter, out_len));
        CHECK(o.bytes(out_len) == want, "%s PBKDF2 (%u iterations, %zu bytes) differs", HNAMES[i], iter, out_len);
        for (size_t q = out_len; q < o.n; ++q) CHECK(o.p[q] == 0xa5, "pbkdf2 wrote past the output");
    }
}
// Very long messages, for the length counters inside the hashes.  Run
// separately, on the uninstrumented build.
TARGET(C09, longmsg, 0, "a message that overflows the hash's 32-bit length counter (512 MB for SHA256 and SHA512, 4 GB for BLAKE2s and BLAKE2b), or PBKDF2 with more than 65536 iterations or blocks of output, compared with OpenSSL") {
    uint64_t what = g.en(6);
    int i = what == 0 ? 2 : what == 1 ? 0 : what == 4 ? 3 : what == 5 ? 1 : (int)g.u(3);
    Hash h;
    new_hash(g, h, i);
    if (what == 3) {
        // the block counter of PBKDF2 in its third byte
        size_t hl = o_hashlen(OHASHES[i]);
        Bytes pass = g.bytes(1 + g.u(80)), salt = g.bytes(1 + g.u(40)), out(65536 * hl + g.u(3 * hl));
        g.note("%s pbkdf2 with %zu bytes of output", HNAMES[i], out.size());
        g.nontrivial();
        CHECK_EQ(noise_hashstate_pbkdf2(h.h, pass.data(), pass.size(), salt.data(), salt.size(), 1, out.data(), out.size()), 0, "pbkdf2");
        CHECK(out == o_pbkdf2(OHASHES[i], pass, salt, 1, out.size()), "%s PBKDF2 (%zu bytes of output) differs", HNAMES[i], out.size());
        return;
    }
    if (what == 2) {
        Bytes pass = g.bytes(1 + g.u(80)), salt = g.bytes(1 + g.u(40)), out(1 + g.u(80));
        unsigned iter = 65536 + (unsigned)g.u(300);
        g.note("%s pbkdf2 with %u iterations", HNAMES[i], iter);
        g.nontrivial();
        CHECK_EQ(noise_hashstate_pbkdf2(h.h, pass.data(), pass.size(), salt.data(), salt.size(), iter, out.data(), out.size()), 0, "pbkdf2");
        CHECK(out == o_pbkdf2(OHASHES[i], pass, salt, iter, out.size()), "%s PBKDF2 (%u iterations) differs", HNAMES[i], iter);
        return;
    }
    uint64_t total = (i >= 2 ? 1ull << 29 : 1ull << 32) - 64 + g.u(300);
    Bytes block = g.rnd(1 << 20);
    void *o = o_md_start(OHASHES[i]);
    noise_hashstate_reset(h.h);
    uint64_t done = 0;
    while (done < total) {
        size_t n = (size_t)std::min<uint64_t>(total - done, block.size());
        noise_hashstate_update(h.h, block.data(), n);
        o_md_update(o, block.data(), n);
        done += n;
    }
    Bytes out(o_hashlen(OHASHES[i]));
    CHECK_EQ(noise_hashstate_finalize(h.h, out.data(), out.size()), 0, "finalize");
    g.note("%s of %llu bytes", HNAMES[i], (unsigned long long)total);
    g.nontrivial();
    CHECK(out == o_md_finish(o), "%s of %llu bytes differs", HNAMES[i], (unsigned long long)total);
}

// ------------------------------------------------------------------ C10
struct DH {
    NoiseDHState *d = nullptr;
    ~DH() { if (d) noise_dhstate_free(d); }
    DH() {}
    DH(const DH &) = delete;
};
static void new_dh(Gen &g, DH &d, int id) {
    const char *name = id == NOISE_DH_CURVE25519 ? "25519" : id == NOISE_DH_CURVE448 ? "448" : "NewHope";
    int err = g.flip() ? noise_dhstate_new_by_id(&d.d, id) : noise_dhstate_new_by_name(&d.d, name);
    CHECK(err == 0 && d.d, "cannot create DH %s: 0x%x", name, err);
    CHECK_EQ(noise_dhstate_get_dh_id(d.d), id, "dh id");
    CHECK_EQ(!!noise_dhstate_is_ephemeral_only(d.d), id == NOISE_DH_NEWHOPE, "is_ephemeral_only");
}
static Bytes dh_calc(NoiseDHState *priv, NoiseDHState *pub, size_t n, int &err) {
    Buf s(n);
    err = noise_dhstate_calculate(priv, pub, s.p, n);
    return s.bytes();
}
static Bytes from_hex(const char *s) {
    Bytes r;
    for (; s[0] && s[1]; s += 2) { unsigned v; sscanf(s, "%2x", &v); r.push_back((uint8_t)v); }
    return r;
}
// A value for the shared secret that random keys never give: near 0, near p or
// at a limb boundary.
static Bytes gen_result(Gen &g, ODH o, std::string &kind) {
    struct V { int bit, delta; };          // 2^bit + delta, or p + delta
    static const V v25519[] = {{-1, 2}, {-1, 9}, {-1, 16}, {0, -10}, {0, -8}, {254, -7}, {254, -4}, {254, -2}, {254, 3}, {254, 5}, {128, -7}, {128, 8},
                               {51, -9}, {51, -1}, {51, 10}, {102, -12}, {102, -2}, {102, -1}, {102, 2}, {102, 6}, {204, -6}, {204, 5}, {204, 7}};
    static const V v448[] = {{-1, 5}, {-1, 22}, {-1, 23}, {-1, 25}, {-1, 33}, {-1, 50}, {0, -6}, {0, -5}, {224, -12}, {224, -5}, {224, -2}, {224, -1}, {224, 2}, {224, 3},
                             {447, -4}, {447, -1}, {447, 2}, {56, -6}, {56, 1}, {56, 4}, {28, -6}, {28, -2}, {28, -1}, {28, 2}, {336, -1}, {336, 1}, {336, 2}};
    V v = o == O_25519 ? v25519[g.u(sizeof v25519 / sizeof(V) - 1)] : v448[g.u(sizeof v448 / sizeof(V) - 1)];
    size_t n = o_dhlen(o);
    Bytes t(n, 0);
    if (g.chance(1, 4)) {                  // a quarter or an eighth of these can be reached
        size_t limb = o == O_25519 ? n : g.flip() ? 28 : 7;
        for (size_t i = 0; i < n; ++i) t[i] = (i / limb) % 2 ? 0 : 0xff;
        if (o == O_25519) { t.assign(n, g.flip() ? 0xff : 0); size_t k = g.u(31); t[k] = (uint8_t)g.u(255); t[31] &= 0x7f; }
        else { size_t k = g.u(55); t[k] = (uint8_t)g.u(255); }
        kind = "result with full limbs";
        return t;
    }
    if (v.bit == 0) { t.assign(n, 0xff); if (o == O_25519) { t[0] = 0xed; t[31] = 0x7f; } else t[28] = 0xfe; }
    else if (v.bit > 0) t[v.bit / 8] = (uint8_t)(1 << v.bit % 8);
    int carry = v.delta;
    for (auto &x : t) { carry += x; x = (uint8_t)carry; carry >>= 8; }
    kind = v.bit == 0 ? "result near p" : v.bit < 0 ? "result near 0" : "result near a power of 2";
    return t;
}
static Bytes gen_pub(Gen &g, ODH o, std::string &kind, const Bytes &priv) {
    size_t n = o_dhlen(o);
    if (g.chance(1, 10))
        for (int i = 0; i < 4; ++i) {
            Bytes p = o_dh_preimage(o, priv, gen_result(g, o, kind));
            if (!p.empty()) return p;
        }
    switch (g.u(6)) {
    case 0: case 1: case 2: kind = "honest"; return o_dh_public(o, g.bytes(n));
    case 3: kind = "arbitrary"; return g.bytes(n);
    case 4: kind = "arbitrary random"; return g.rnd(n);
    case 5: { // near p, and the points of low order
        kind = "edge";
        Bytes p(n, 0xff);
        if (o == O_25519) {
            static const char *low[] = {"e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
                                        "0100000000000000000000000000000000000000000000000000000000000000", "0000000000000000000000000000000000000000000000000000000000000000"};
            if (g.flip()) { p = from_hex(low[g.u(3)]); }
            else { p[0] = (uint8_t)(0xed + g.range(-6, 18)); p[31] = 0x7f; }
            if (g.chance(1, 3)) p[31] |= 0x80;
        } else {
            if (g.flip()) { p.assign(n, 0); p[0] = (uint8_t)g.u(3); }
            else { for (int i = 28; i < 56; ++i) p[i] = 0xff; p[28] = 0xfe; for (int i = 0; i < 28; ++i) p[i] = 0xff; p[0] = (uint8_t)(0xff - g.u(4)); }
        }
        return p;
    }
    default: {
        kind = "small u";
        Bytes p(n, 0);
        p[0] = (uint8_t)g.u(255);
        return p;
    }
    }
}
TARGET(C10, dh, 1, "X25519 / X448 with random and special private keys against honest, arbitrary, low-order, unreduced and null public keys, and keys built so that the shared secret is a chosen number near 0, near p or at a limb boundary, compared with OpenSSL, and both sides of honest exchanges agreeing; distinct by curve, keys") {
    ODH o = g.en(3) == 0 ? O_448 : O_25519;
    int id = o == O_25519 ? NOISE_DH_CURVE25519 : NOISE_DH_CURVE448;
    size_t n = o_dhlen(o);
    DH a, b;
    new_dh(g, a, id);
    new_dh(g, b, id);
    Bytes priv;
    bool generated = g.chance(1, 4);
    if (generated) {
        CHECK_EQ(noise_dhstate_generate_keypair(a.d), 0, "generate");
        priv.resize(n);
        Bytes pub(n);
        CHECK_EQ(noise_dhstate_get_keypair(a.d, priv.data(), n, pub.data(), n), 0, "get_keypair");
        CHECK(pub == o_dh_public(o, priv), "generated public key does not belong to the private key");
    } else {
        priv = g.bytes(n);
        Buf pb(priv);
        CHECK_EQ(noise_dhstate_set_keypair_private(a.d, pb.p, n), 0, "set_keypair_private");
        Bytes pub(n), want = o_dh_public(o, priv);
        CHECK_EQ(noise_dhstate_get_public_key(a.d, pub.data(), n), 0, "get_public_key");
        CHECK(pub == want, "public key of private key %s is %s, expected %s", hex(priv, 56).c_str(), hex(pub, 56).c_str(), hex(want, 56).c_str());
        DH c;
        new_dh(g, c, id);
        CHECK_EQ(noise_dhstate_set_keypair(c.d, priv.data(), n, want.data(), n), 0, "set_keypair of a matching pair");
        Bytes bad(want);
        bad[g.u(n - 1)] ^= (uint8_t)(1 << g.u(7));
        CHECK_EQ(noise_dhstate_set_keypair(c.d, priv.data(), n, bad.data(), n), NOISE_ERROR_INVALID_PUBLIC_KEY, "set_keypair of a pair that does not match");
    }
    std::string kind;
    Bytes pub = gen_pub(g, o, kind, priv);
    Buf pb(pub);
    int err = noise_dhstate_set_public_key(b.d, pb.p, n);
    bool zero = pub == Bytes(n, 0);
    g.note("%s %s priv %s pub %s", o == O_25519 ? "X25519" : "X448", kind.c_str(), hex(priv, 6).c_str(), hex(pub, 6).c_str());
    g.key(hex(priv, 56) + hex(pub, 56));
    g.label(kind.c_str());
    g.nontrivial();
    // a back end may refuse an unreduced X448 value, here or in calculate()
    bool may_refuse = o == O_448 && x448_out_of_range(pub);
    if (err == NOISE_ERROR_INVALID_PUBLIC_KEY && may_refuse) return;
    CHECK_EQ(err, 0, "set_public_key");
    CHECK_EQ(!!noise_dhstate_is_null_public_key(b.d), zero, "is_null_public_key");
    Bytes got = dh_calc(a.d, b.d, n, err);
    if (err == NOISE_ERROR_INVALID_PUBLIC_KEY && may_refuse) return;
    CHECK_EQ(err, 0, "calculate");
    Bytes want = zero ? Bytes(n, 0) : o_dh(o, priv, pub);
    CHECK(got == want, "shared secret of private key %s and public key %s (%s) is %s, expected %s", hex(priv, 56).c_str(), hex(pub, 56).c_str(), kind.c_str(), hex(got, 56).c_str(), hex(want, 56).c_str());
    // the peer's view
    Bytes bp = g.bytes(n);
    CHECK_EQ(noise_dhstate_set_keypair_private(b.d, bp.data(), n), 0, "peer's key");
    Bytes s1 = dh_calc(a.d, b.d, n, err), s2;
    CHECK_EQ(err, 0, "calculate");
    s2 = dh_calc(b.d, a.d, n, err);
    CHECK_EQ(err, 0, "calculate");
    CHECK(s1 == s2, "the two sides of a Diffie-Hellman exchange disagree");
    CHECK(s1 == o_dh(o, bp, o_dh_public(o, priv)), "shared secret differs from the standard's");
}

// ------------------------------------------------------------------ C11
TARGET(C11, newhope, 1, "a New Hope exchange between two library objects (generated or given seeds, by set_keypair_private, dependent generation or a fixed second key) compared with an independent model: both messages and the shared secret; damaged messages must not give the same secret; distinct by seeds and route") {
    DH a, b, bpub, apub;
    for (DH *d : {&a, &b, &bpub, &apub}) new_dh(g, *d, NOISE_DH_NEWHOPE);
    CHECK_EQ(noise_dhstate_set_role(a.d, NOISE_ROLE_INITIATOR), 0, "role");
    CHECK_EQ(noise_dhstate_set_role(apub.d, NOISE_ROLE_INITIATOR), 0, "role");
    CHECK_EQ(noise_dhstate_set_role(b.d, NOISE_ROLE_RESPONDER), 0, "role");
    CHECK_EQ(noise_dhstate_set_role(bpub.d, NOISE_ROLE_RESPONDER), 0, "role");
    CHECK_EQ(noise_dhstate_get_public_key_length(a.d), NH_SENDA, "Alice's message length");
    CHECK_EQ(noise_dhstate_get_public_key_length(b.d), NH_SENDB, "Bob's message length");
    CHECK_EQ(noise_dhstate_get_private_key_length(a.d), 64, "Alice's seed length");
    CHECK_EQ(noise_dhstate_get_private_key_length(b.d), 32, "Bob's seed length");
    CHECK_EQ(noise_dhstate_get_shared_key_length(b.d), 32, "shared key length");
    Bytes seed_a, seed_b;
    unsigned ra = (unsigned)g.u(1), rb = (unsigned)g.u(2);
    Bytes log;
    // what the objects were used for before must not matter
    std::string before;
    while (before.size() < 3 && g.chance(1, 4)) {
        DH other;
        new_dh(g, other, NOISE_DH_NEWHOPE);
        Bytes junk = g.bytes(64);
        size_t w = g.en(4);
        before += "gspr"[w];
        CHECK_EQ(noise_dhstate_set_role(other.d, NOISE_ROLE_INITIATOR), 0, "role");
        CHECK_EQ(noise_dhstate_set_keypair_private(other.d, junk.data(), 64), 0, "another Alice");
        switch (w) {
        case 0:                                   // earlier exchanges, generated
            CHECK_EQ(noise_dhstate_generate_dependent_keypair(b.d, other.d), 0, "an earlier Bob");
            CHECK_EQ(noise_dhstate_generate_keypair(a.d), 0, "an earlier Alice");
            break;
        case 1: {                                 // given, and completed
            int e;
            CHECK_EQ(noise_dhstate_set_keypair_private(b.d, junk.data(), 32), 0, "an earlier Bob");
            dh_calc(b.d, other.d, 32, e);
            CHECK_EQ(noise_dhstate_set_keypair_private(a.d, junk.data(), 64), 0, "an earlier Alice");
            break;
        }
        case 2: {                                 // held someone else's message
            Buf m(NH_SENDA);
            CHECK_EQ(noise_dhstate_get_public_key(other.d, m.p, m.n), 0, "message");
            CHECK_EQ(noise_dhstate_set_public_key(a.d, m.p, m.n), 0, "message");
            Bytes mb = g.bytes(NH_SENDB);
            CHECK_EQ(noise_dhstate_set_public_key(b.d, mb.data(), mb.size()), 0, "message");
            break;
        }
        default:                                  // played the other part
            for (DH *d : {&a, &b, &apub, &bpub}) {
                int role = noise_dhstate_get_role(d->d);
                CHECK_EQ(noise_dhstate_set_role(d->d, role == NOISE_ROLE_INITIATOR ? NOISE_ROLE_RESPONDER : NOISE_ROLE_INITIATOR), 0, "role");
                if (role == NOISE_ROLE_RESPONDER) CHECK_EQ(noise_dhstate_set_keypair_private(d->d, junk.data(), 64), 0, "Alice's part");
                else if (g.flip()) CHECK_EQ(noise_dhstate_set_keypair_private(d->d, junk.data(), 32), 0, "Bob's part");
                else CHECK_EQ(noise_dhstate_generate_dependent_keypair(d->d, other.d), 0, "Bob's part");
                CHECK_EQ(noise_dhstate_set_role(d->d, role), 0, "role");
            }
        }
    }
    if (ra == 0) { seed_a = g.bytes(64); CHECK_EQ(noise_dhstate_set_keypair_private(a.d, seed_a.data(), 64), 0, "Alice's seed"); }
    else { env_rand_log = &log; CHECK_EQ(noise_dhstate_generate_keypair(a.d), 0, "generate Alice"); env_rand_log = nullptr; seed_a = log; CHECK_EQ(log.size(), 64, "random bytes used by Alice"); }
    Buf ma(NH_SENDA);
    CHECK_EQ(noise_dhstate_get_public_key(a.d, ma.p, ma.n), 0, "Alice's message");
    g.note("before %s Alice %s Bob %u seeds %s", before.c_str(), ra ? "generated" : "given", rb, hex(seed_a, 6).c_str());
    g.key(hex(seed_a, 64) + std::to_string(rb));
    CHECK(ma.bytes() == nh_keygen(seed_a), "Alice's New Hope message differs from the model's for seed %s", hex(seed_a, 64).c_str());
    Bytes wire_a = ma.bytes();
    bool dmg_a = g.chance(1, 8);
    if (dmg_a) wire_a[g.u(wire_a.size() - 1)] ^= (uint8_t)(1 << g.u(7));
    CHECK_EQ(noise_dhstate_set_public_key(apub.d, wire_a.data(), wire_a.size()), 0, "Alice's message to Bob");
    int err;
    Bytes mb, sb, want_mb, want_sb;
    if (rb == 0) {
        log.clear(); env_rand_log = &log;
        CHECK_EQ(noise_dhstate_generate_dependent_keypair(b.d, apub.d), 0, "generate Bob");
        env_rand_log = nullptr;
        seed_b = log;
        CHECK_EQ(seed_b.size(), 32, "random bytes used by Bob");
    } else {
        seed_b = g.bytes(32);
        CHECK_EQ(noise_dhstate_set_keypair_private(b.d, seed_b.data(), 32), 0, "Bob's seed");
    }
    want_mb = nh_sharedb(seed_b, wire_a, want_sb);
    sb = dh_calc(b.d, apub.d, 32, err);
    CHECK_EQ(err, 0, "Bob's secret");
    mb.resize(NH_SENDB);
    CHECK_EQ(noise_dhstate_get_public_key(b.d, mb.data(), mb.size()), 0, "Bob's message");
    CHECK(mb == want_mb, "Bob's New Hope message differs from the model's for seed %s", hex(seed_b, 32).c_str());
    CHECK(sb == want_sb, "Bob's New Hope secret differs from the model's");
    Bytes wire_b = mb;
    bool dmg_b = !dmg_a && g.chance(1, 8);
    if (dmg_b) wire_b[g.u(wire_b.size() - 1)] ^= 0x80 >> g.u(2);
    CHECK_EQ(noise_dhstate_set_public_key(bpub.d, wire_b.data(), wire_b.size()), 0, "Bob's message to Alice");
    Bytes sa = dh_calc(a.d, bpub.d, 32, err);
    CHECK_EQ(err, 0, "Alice's secret");
    CHECK(sa == nh_shareda(seed_a, wire_b), "Alice's New Hope secret differs from the model's");
    if (!dmg_a && !dmg_b) CHECK(sa == sb, "the two sides of an honest New Hope exchange disagree (seeds %s / %s)", hex(seed_a, 64).c_str(), hex(seed_b, 32).c_str());
    g.nontrivial();
}

// ------------------------------------------------------------------ C12
struct Sign { NoiseSignState *s = nullptr; ~Sign() { if (s) noise_signstate_free(s); } };
static void new_sign(Gen &g, Sign &s) {
    int err = g.flip() ? noise_signstate_new_by_id(&s.s, NOISE_SIGN_ED25519) : noise_signstate_new_by_name(&s.s, "Ed25519");
    CHECK(err == 0 && s.s, "cannot create Ed25519: 0x%x", err);
}
// s + k * L, little-endian, in 32 bytes; false on overflow
static bool add_L(Bytes &sig, int times) {
    static const uint8_t L[32] = {0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10};
    for (int t = 0; t < times; ++t) {
        unsigned c = 0;
        for (int i = 0; i < 32; ++i) { c += sig[32 + i] + L[i]; sig[32 + i] = (uint8_t)c; c >>= 8; }
        if (c) return false;
    }
    return true;
}
// the points 0 and 2^k B, encoded
static const struct { int k; const char *enc; } ED_POW[] = {
    {-1, "0100000000000000000000000000000000000000000000000000000000000000"},
    {0, "5866666666666666666666666666666666666666666666666666666666666666"},
    {1, "c9a3f86aae465f0e56513864510f3997561fa2c9e85ea21dc2292309f3cd6022"},
    {4, "eb2767c137ab7ad8279c078eff116ab0786ead3a2e0f989f72c37f82f2969670"},
    {7, "fc864b08eee7a0fd21450934c1613223fc9b55485399f763d099ce01e09feba8"},
    {8, "c7f66c563120140ea8d927c19a3d1b7d0e26d381aaebf56b7902f1515c75550f"},
    {15, "468db03354265b68dfbbc5ecc2f93c5a37c18e2747aa495af8fb680423d1eb40"},
    {16, "36ec54f8cee485dff66f1d9008bce8c0922d436b92a98eab0a2e1c1e64239fac"},
    {31, "82e7f6ba53840aa334ff3ca36aa137eaddb695b37819761e552f772e7fc1ea5e"},
    {32, "1ab9c910fb1e4ef4844b8a5e7b4be8438c8f00b55413c55cb6354e9de45b41ed"},
    {63, "89f98007cf3fb3e9e745443d2a7ce9e4165c5e651cc77dc67afb43ee25764672"},
    {64, "1353e48257fa1e8f062b90ba08b610544f7c1b26edda6bdd25d04eea42bb2503"},
    {100, "dc8eebc6bfdd117be747e6cee7b6c5e88adc4b57153b66ca89a3fdac0de11dfa"},
    {120, "656e0aa4590717f26b4a1f6ef6b5bc62e4b6daa293bc2905d2d2734603164031"},
    {124, "eada999e1983666de9768750d1fd3c6087c641d98edb5edeaa9ad328da95ea47"},
    {125, "7a6c4527c4937f7d7c6250383a6bb588c6d9f17819b939933dc9e09c3ccef5f2"},
    {127, "612ec2dd9557d1ab80e86317b548e48a119e72be858d510af29fe01ca90728fb"},
    {128, "6ba6f54b11bdba5b9ec4a4511ebed0903a9cc226b61ef1957dc86d52e6992c5f"},
    {160, "20ef59dea42b936e2eec429ad42df44658272b188f833d699ed43eb6c5fd5883"},
    {200, "ab1bb5e52bc30e29b0d073e64f64f2bce4e4e19a52332fbdcc03ee8afa005fd0"},
    {250, "e9dd5e55b00ade214c5a2ed4803a57927af1c42c40af2fc99203e55abcdcf409"},
    {251, "155537c61c271c6d144fcaa4c488254639fc5ae5fe291169f572844d789f9495"},
};
TARGET(C12, sign, 1, "Ed25519 signatures of random messages equal to OpenSSL's, accepted by a verifier holding only the public key; altered messages, signatures (bit flips, S plus multiples of the group order, zeros, another message's) and keys rejected; distinct by key, message length and alteration") {
    Sign a, v;
    new_sign(g, a);
    new_sign(g, v);
    Bytes seed = g.bytes(32), pub;
    if (g.chance(1, 4)) {
        CHECK_EQ(noise_signstate_generate_keypair(a.s), 0, "generate");
        pub.resize(32);
        CHECK_EQ(noise_signstate_get_keypair(a.s, seed.data(), 32, pub.data(), 32), 0, "get_keypair");
        CHECK(pub == o_ed_public(seed), "generated public key does not belong to the private key");
    } else {
        pub = o_ed_public(seed);
        if (g.flip()) CHECK_EQ(noise_signstate_set_keypair_private(a.s, seed.data(), 32), 0, "set_keypair_private");
        else {
            Bytes bad(pub);
            if (g.flip()) bad[g.u(31)] ^= (uint8_t)(1 << g.u(7));
            else { size_t i = g.u(31), j = (i + 1 + g.u(30)) % 32; bad[i] ^= 0x80; bad[j] ^= 0x80; }    // differences that add up to nothing
            CHECK_EQ(noise_signstate_set_keypair(a.s, seed.data(), 32, bad.data(), 32), NOISE_ERROR_INVALID_PUBLIC_KEY, "set_keypair of a pair that does not match");
            CHECK_EQ(noise_signstate_set_keypair(a.s, seed.data(), 32, pub.data(), 32), 0, "set_keypair");
        }
        Bytes got(32);
        CHECK_EQ(noise_signstate_get_public_key(a.s, got.data(), 32), 0, "get_public_key");
        CHECK(got == pub, "public key of %s", hex(seed, 32).c_str());
    }
    CHECK_EQ(noise_signstate_set_public_key(v.s, pub.data(), 32), 0, "set_public_key");
    Bytes msg = g.bytes(g.size(3000, {0, 1, 32, 63, 64, 95, 96, 127, 128, 129}));
    Buf m(msg), sg(64);
    CHECK_EQ(noise_signstate_sign(a.s, m.p, m.n, sg.p, 64), 0, "sign");
    Bytes sig = sg.bytes();
    CHECK(sig == o_ed_sign(seed, msg), "signature of a %zu-byte message differs from the standard's", msg.size());
    CHECK_EQ(noise_signstate_verify(v.s, m.p, m.n, sg.p, 64), 0, "genuine signature");
    CHECK_EQ(noise_signstate_verify(a.s, m.p, m.n, sg.p, 64), 0, "genuine signature (signer)");
    std::string how;
    Bytes bm(msg), bs(sig), bp(pub);
    switch (g.u(9)) {
    case 0: { size_t i = g.u(63); bs[i] ^= (uint8_t)(1 << g.u(7)); how = "signature bit flip"; break; }
    case 1: { if (bm.empty()) bm.push_back(0); else bm[g.u(bm.size() - 1)] ^= (uint8_t)(1 << g.u(7)); how = "message changed"; break; }
    case 2: if (bm.empty()) return; bm.pop_back(); how = "message cut"; break;
    case 3: bm.push_back((uint8_t)g.u(255)); how = "message extended"; break;
    case 4: case 5: { int t = 1 + (int)g.u(6); if (!add_L(bs, t)) { bs = sig; add_L(bs, 1); } how = "S plus a multiple of the group order"; break; }
    case 6: for (int i = 32; i < 64; ++i) bs[i] = 0; how = "S zero"; break;
    case 7: { Bytes o = o_ed_sign(seed, msg + Bytes(1, 7)); for (int i = 0; i < 32; ++i) bs[i + (g.flip() ? 0 : 0)] = o[i]; how = "R of another message"; break; }
    case 8: { Bytes s2 = g.rnd(32); bp = o_ed_public(s2); how = "another key"; break; }
    case 9: bs = g.rnd(64); how = "random signature"; break;
    }
    g.note("%s, %zu-byte message", how.c_str(), msg.size());
    g.key(hex(seed, 8) + how + std::to_string(msg.size()));
    g.label(how.c_str());
    g.nontrivial();
    if (bm == msg && bs == sig && bp == pub) return;
    Sign w;
    new_sign(g, w);
    int err = noise_signstate_set_public_key(w.s, bp.data(), 32);
    if (err) return;
    Buf wm(bm), ws(bs);
    CHECK_EQ(noise_signstate_verify(w.s, wm.p, wm.n, ws.p, 64), NOISE_ERROR_INVALID_SIGNATURE, strf("verification after: %s", how.c_str()).c_str());
}

TARGET(C12, highs, 0.4, "signatures whose S is a small number or a power of two plus a multiple of the group order, under the key that is the neutral point, so that only the range of S speaks against them: all rejected; distinct by S") {
    int j = (int)g.en(sizeof(ED_POW) / sizeof(ED_POW[0]));
    Bytes sig = from_hex(ED_POW[j].enc);
    sig.resize(64);
    if (ED_POW[j].k >= 0) sig[32 + ED_POW[j].k / 8] |= (uint8_t)(1 << ED_POW[j].k % 8);
    int t = 1 + (int)g.u(6);
    if (!add_L(sig, t)) { for (int i = 32; i < 64; ++i) sig[i] = 0; if (ED_POW[j].k >= 0) sig[32 + ED_POW[j].k / 8] |= (uint8_t)(1 << ED_POW[j].k % 8); t = 1; add_L(sig, 1); }
    Bytes pub(32); pub[0] = 1;
    Sign w;
    new_sign(g, w);
    int err = noise_signstate_set_public_key(w.s, pub.data(), 32);
    Bytes msg = g.bytes(g.size(100, {0, 32}));
    g.note("S = %s%d + %d L", ED_POW[j].k < 0 ? "0*2^" : "2^", ED_POW[j].k < 0 ? 0 : ED_POW[j].k, t);
    g.key(strf("%d %d %zu", j, t, msg.size()));
    g.nontrivial();
    if (err) return;
    Buf wm(msg), ws(sig);
    CHECK_EQ(noise_signstate_verify(w.s, wm.p, wm.n, ws.p, 64), NOISE_ERROR_INVALID_SIGNATURE, "verification of a signature with S >= L");
}

TARGET(C12, lowr, 0.4, "signatures under the key that is the neutral point, so that R alone speaks against them: R = S*B with one to three bits changed, or written with p added to its y; all rejected; distinct by S and R") {
    int j = (int)g.en(sizeof(ED_POW) / sizeof(ED_POW[0]));
    Bytes sig = from_hex(ED_POW[j].enc), was(sig);
    std::string how;
    if (j == 0 && g.chance(1, 4)) { sig = Bytes(32, 0xff); sig[0] = 0xee; sig[31] = g.flip() ? 0x7f : 0xff; how = "y + p"; }
    else {
        int n = 1 + (int)g.u(2);
        for (int i = 0; i < n; ++i) {
            size_t bit = g.u(255);
            sig[bit / 8] ^= (uint8_t)(1 << bit % 8);
            how += strf("%zu ", bit);
        }
    }
    if (sig == was) return;
    sig.resize(64);
    if (ED_POW[j].k >= 0) sig[32 + ED_POW[j].k / 8] |= (uint8_t)(1 << ED_POW[j].k % 8);
    Bytes pub(32); pub[0] = 1;
    Sign w;
    new_sign(g, w);
    int err = noise_signstate_set_public_key(w.s, pub.data(), 32);
    Bytes msg = g.bytes(g.size(100, {0, 32}));
    g.note("S = %s, R changed: %s", ED_POW[j].k < 0 ? "0" : strf("2^%d", ED_POW[j].k).c_str(), how.c_str());
    g.key(strf("%d ", j) + how);
    g.nontrivial();
    if (err) return;
    Buf wm(msg), ws(sig);
    CHECK_EQ(noise_signstate_verify(w.s, wm.p, wm.n, ws.p, 64), NOISE_ERROR_INVALID_SIGNATURE, "verification of a signature with another R");
}

// ------------------------------------------------------------------ C26
struct MState { int type = 0; Bytes priv, pub; };   // 0 none, 1 public, 2 keypair
TARGET(C26, dhstate, 2, "a random sequence of calls on two DHState objects (set, generate, clear, copy, query, calculate, wrong lengths and mismatched pairs) compared with a model; non-trivial with at least 4 kinds of call; distinct by curve and sequence") {
    ODH o = g.en(4) == 0 ? O_448 : O_25519;
    int id = o == O_25519 ? NOISE_DH_CURVE25519 : NOISE_DH_CURVE448;
    size_t n = o_dhlen(o);
    DH d[2];
    MState m[2];
    for (DH &x : d) new_dh(g, x, id);
    std::string seq;
    int steps = 3 + (int)g.u(12);
    std::set<unsigned> kinds;
    for (int i = 0; i < steps; ++i) {
        int w = (int)g.u(1);
        NoiseDHState *x = d[w].d;
        MState &s = m[w];
        unsigned op = (unsigned)g.u(11);
        seq += (char)('a' + op);
        kinds.insert(op);
        switch (op) {
        case 0:
            CHECK_EQ(g.flip() ? noise_dhstate_generate_keypair(x) : noise_dhstate_generate_dependent_keypair(x, g.flip() ? d[1 - w].d : nullptr), 0, "generate");
            s.priv.assign(n, 0); s.pub.assign(n, 0);
            CHECK_EQ(noise_dhstate_get_keypair(x, s.priv.data(), n, s.pub.data(), n), 0, "get_keypair");
            s.type = 2;
            CHECK(s.pub == o_dh_public(o, s.priv), "generated pair does not match");
            break;
        case 1: s.priv = g.bytes(n); s.pub = o_dh_public(o, s.priv); s.type = 2; CHECK_EQ(noise_dhstate_set_keypair(x, s.priv.data(), n, s.pub.data(), n), 0, "set_keypair"); break;
        case 2: s.priv = g.bytes(n); s.pub = o_dh_public(o, s.priv); s.type = 2; CHECK_EQ(noise_dhstate_set_keypair_private(x, s.priv.data(), n), 0, "set_keypair_private"); break;
        case 3: {
            Bytes p = g.bytes(n), q = o_dh_public(o, p);
            if (g.flip()) q[g.u(n - 1)] ^= (uint8_t)(1 << g.u(7));
            else { size_t i = g.u(n - 1), j = (i + 1 + g.u(n - 2)) % n; q[i] ^= 0x80; q[j] ^= 0x80; }
            CHECK_EQ(noise_dhstate_set_keypair(x, p.data(), n, q.data(), n), NOISE_ERROR_INVALID_PUBLIC_KEY, "set_keypair, no match");
            // whatever is in the object now, it is not the pair that was refused
            Bytes a(n), b(n);
            if (noise_dhstate_get_keypair(x, a.data(), n, b.data(), n) == 0) {
                CHECK(b != q && b == o_dh_public(o, a), "the mismatched pair is in the object");
                CHECK(s.type == 2 && a == s.priv, "an unknown key pair is in the object");
            } else {
                CHECK_EQ(!!noise_dhstate_has_keypair(x), 0, "has_keypair");
                noise_dhstate_clear_key(x);
                s = MState();
            }
            break;
        }
        case 4: {
            s.pub = o_dh_public(o, g.bytes(n)); s.priv.assign(n, 0); s.type = 1;
            CHECK_EQ(noise_dhstate_set_public_key(x, s.pub.data(), n), 0, "set_public_key");
            break;
        }
        case 5: s.pub.assign(n, 0); s.priv.assign(n, 0); s.type = 1; CHECK_EQ(noise_dhstate_set_null_public_key(x), 0, "set_null"); break;
        case 6: s = MState(); CHECK_EQ(noise_dhstate_clear_key(x), 0, "clear"); break;
        case 7: {
            CHECK_EQ(noise_dhstate_copy(x, d[1 - w].d), 0, "copy");
            s = m[1 - w];
            break;
        }
        case 8: { // wrong lengths and parameters leave the object alone
            Bytes p = g.bytes(n + 3);
            size_t l = g.flip() ? n - 1 - g.u(3) : n + 1 + g.u(1);
            CHECK_EQ(noise_dhstate_set_public_key(x, p.data(), l), NOISE_ERROR_INVALID_LENGTH, "public key length");
            CHECK_EQ(noise_dhstate_set_keypair_private(x, p.data(), l), NOISE_ERROR_INVALID_LENGTH, "private key length");
            CHECK_EQ(noise_dhstate_set_keypair(x, p.data(), n, p.data(), l), NOISE_ERROR_INVALID_LENGTH, "public key length");
            CHECK_EQ(noise_dhstate_set_keypair(x, p.data(), l, p.data(), n), NOISE_ERROR_INVALID_LENGTH, "private key length");
            CHECK_EQ(noise_dhstate_get_public_key(x, p.data(), l), NOISE_ERROR_INVALID_LENGTH, "public key length");
            CHECK_EQ(noise_dhstate_get_keypair(x, p.data(), l, p.data(), n), NOISE_ERROR_INVALID_LENGTH, "private key length");
            CHECK_EQ(noise_dhstate_calculate(d[0].d, d[1].d, p.data(), l), NOISE_ERROR_INVALID_LENGTH, "shared key length");
            CHECK_EQ(noise_dhstate_set_public_key(x, nullptr, n), NOISE_ERROR_INVALID_PARAM, "NULL key");
            DH other;
            new_dh(g, other, id == NOISE_DH_CURVE448 ? NOISE_DH_CURVE25519 : NOISE_DH_CURVE448);
            CHECK_EQ(noise_dhstate_copy(x, other.d), NOISE_ERROR_NOT_APPLICABLE, "copy from another algorithm");
            CHECK_EQ(noise_dhstate_calculate(x, other.d, p.data(), n), NOISE_ERROR_INVALID_PARAM, "calculate across algorithms");
            break;
        }
        default: {
            int err;
            if (m[1 - w].type == 0) break;
            Bytes got = dh_calc(x, d[1 - w].d, n, err);
            if (s.type != 2) { CHECK_EQ(err, NOISE_ERROR_INVALID_PRIVATE_KEY, "calculate without a private key"); break; }
            CHECK_EQ(err, 0, "calculate");
            Bytes pub = m[1 - w].pub;
            CHECK(got == (pub == Bytes(n, 0) ? Bytes(n, 0) : o_dh(o, s.priv, pub)), "shared secret");
            break;
        }
        }
        for (int j = 0; j < 2; ++j) {
            MState &t = m[j];
            CHECK_EQ(!!noise_dhstate_has_keypair(d[j].d), t.type == 2, "has_keypair");
            CHECK_EQ(!!noise_dhstate_has_public_key(d[j].d), t.type != 0, "has_public_key");
            CHECK_EQ(!!noise_dhstate_is_null_public_key(d[j].d), t.type != 0 && t.pub == Bytes(n, 0), "is_null_public_key");
            Buf a(n), b(n);
            int err = noise_dhstate_get_keypair(d[j].d, a.p, n, b.p, n);
            CHECK_EQ(err, t.type == 2 ? 0 : NOISE_ERROR_INVALID_STATE, "get_keypair");
            CHECK(a.bytes() == (t.type == 2 ? t.priv : Bytes(n, 0)), "private key read back (%s)", seq.c_str());
            CHECK(b.bytes() == (t.type == 2 ? t.pub : Bytes(n, 0)), "public key read back (%s)", seq.c_str());
            if (t.type) {
                CHECK_EQ(noise_dhstate_get_public_key(d[j].d, b.p, n), 0, "get_public_key");
                CHECK(b.bytes() == t.pub, "public key read back");
            }
        }
    }
    g.note("%s %s", o == O_25519 ? "25519" : "448", seq.c_str());
    g.key((o == O_25519 ? "25519" : "448") + seq);
    g.nontrivial(kinds.size() >= 4);
}
TARGET(C26, signstate, 1, "a random sequence of calls on two SignState objects (set, generate, clear, copy, query, sign, verify, wrong lengths and mismatched pairs) compared with a model; non-trivial with at least 4 kinds of call; distinct by sequence") {
    Sign d[2];
    MState m[2];
    for (Sign &x : d) new_sign(g, x);
    std::string seq;
    int steps = 3 + (int)g.u(12);
    std::set<unsigned> kinds;
    for (int i = 0; i < steps; ++i) {
        int w = (int)g.u(1);
        NoiseSignState *x = d[w].s;
        MState &s = m[w];
        unsigned op = (unsigned)g.u(10);
        seq += (char)('a' + op);
        kinds.insert(op);
        switch (op) {
        case 0:
            CHECK_EQ(noise_signstate_generate_keypair(x), 0, "generate");
            s.priv.assign(32, 0); s.pub.assign(32, 0);
            CHECK_EQ(noise_signstate_get_keypair(x, s.priv.data(), 32, s.pub.data(), 32), 0, "get_keypair");
            s.type = 2;
            CHECK(s.pub == o_ed_public(s.priv), "generated pair does not match");
            break;
        case 1: s.priv = g.bytes(32); s.pub = o_ed_public(s.priv); s.type = 2; CHECK_EQ(noise_signstate_set_keypair(x, s.priv.data(), 32, s.pub.data(), 32), 0, "set_keypair"); break;
        case 2: s.priv = g.bytes(32); s.pub = o_ed_public(s.priv); s.type = 2; CHECK_EQ(noise_signstate_set_keypair_private(x, s.priv.data(), 32), 0, "set_keypair_private"); break;
        case 3: {
            Bytes p = g.bytes(32), q = o_ed_public(p);
            if (g.flip()) q[g.u(31)] ^= (uint8_t)(1 << g.u(7));
            else { size_t i = g.u(31), j = (i + 1 + g.u(30)) % 32; q[i] ^= 0x80; q[j] ^= 0x80; }
            CHECK_EQ(noise_signstate_set_keypair(x, p.data(), 32, q.data(), 32), NOISE_ERROR_INVALID_PUBLIC_KEY, "set_keypair, no match");
            Bytes a(32), b(32);
            if (noise_signstate_get_keypair(x, a.data(), 32, b.data(), 32) == 0) {
                CHECK(s.type == 2 && a == s.priv && b == s.pub, "a refused key pair changed the object");
            } else if (s.type != 1 || !noise_signstate_has_public_key(x)) { noise_signstate_clear_key(x); s = MState(); }
            break;
        }
        case 4: s.pub = o_ed_public(g.bytes(32)); s.priv.assign(32, 0); s.type = 1; CHECK_EQ(noise_signstate_set_public_key(x, s.pub.data(), 32), 0, "set_public_key"); break;
        case 5: s = MState(); CHECK_EQ(noise_signstate_clear_key(x), 0, "clear"); break;
        case 6: CHECK_EQ(noise_signstate_copy(x, d[1 - w].s), 0, "copy"); s = m[1 - w]; break;
        case 7: {
            Bytes p = g.bytes(70);
            size_t l = g.flip() ? 31 - g.u(3) : 33 + g.u(1);
            CHECK_EQ(noise_signstate_set_public_key(x, p.data(), l), NOISE_ERROR_INVALID_LENGTH, "public key length");
            CHECK_EQ(noise_signstate_set_keypair_private(x, p.data(), l), NOISE_ERROR_INVALID_LENGTH, "private key length");
            CHECK_EQ(noise_signstate_set_keypair(x, p.data(), 32, p.data(), l), NOISE_ERROR_INVALID_LENGTH, "public key length");
            CHECK_EQ(noise_signstate_get_keypair(x, p.data(), l, p.data(), 32), NOISE_ERROR_INVALID_LENGTH, "private key length");
            CHECK_EQ(noise_signstate_sign(x, p.data(), 3, p.data(), g.flip() ? 63 : 65), NOISE_ERROR_INVALID_LENGTH, "signature length");
            CHECK_EQ(noise_signstate_verify(x, p.data(), 3, p.data(), g.flip() ? 63 : 65), NOISE_ERROR_INVALID_LENGTH, "signature length");
            break;
        }
        default: {
            Bytes msg = g.bytes(g.size(100));
            Buf mm(msg), sg(64);
            int err = noise_signstate_sign(x, mm.p, mm.n, sg.p, 64);
            if (s.type != 2) { CHECK_EQ(err, NOISE_ERROR_INVALID_PRIVATE_KEY, "sign without a private key"); sg.p[0] = 1; }
            else { CHECK_EQ(err, 0, "sign"); CHECK(sg.bytes() == o_ed_sign(s.priv, msg), "signature"); }
            NoiseSignState *y = d[1 - w].s;
            MState &t = m[1 - w];
            err = noise_signstate_verify(y, mm.p, mm.n, sg.p, 64);
            if (t.type == 0) CHECK_EQ(err, NOISE_ERROR_INVALID_PUBLIC_KEY, "verify without a key");
            else CHECK_EQ(err, s.type == 2 && t.pub == s.pub ? 0 : NOISE_ERROR_INVALID_SIGNATURE, "verify");
            break;
        }
        }
        for (int j = 0; j < 2; ++j) {
            MState &t = m[j];
            CHECK_EQ(!!noise_signstate_has_keypair(d[j].s), t.type == 2, "has_keypair");
            CHECK_EQ(!!noise_signstate_has_public_key(d[j].s), t.type != 0, "has_public_key");
            Buf a(32), b(32);
            CHECK_EQ(noise_signstate_get_keypair(d[j].s, a.p, 32, b.p, 32), t.type == 2 ? 0 : NOISE_ERROR_INVALID_STATE, "get_keypair");
            CHECK(a.bytes() == (t.type == 2 ? t.priv : Bytes(32, 0)), "private key read back (%s)", seq.c_str());
            if (t.type) {
                CHECK_EQ(noise_signstate_get_public_key(d[j].s, b.p, 32), 0, "get_public_key");
                CHECK(b.bytes() == t.pub, "public key read back (%s)", seq.c_str());
            } else CHECK_EQ(noise_signstate_get_public_key(d[j].s, b.p, 32), NOISE_ERROR_INVALID_STATE, "get_public_key without a key");
        }
    }
    g.note("Ed25519 %s", seq.c_str());
    g.key(seq);
    g.nontrivial(kinds.size() >= 4);
}

// ------------------------------------------------------------------ C27
TARGET(C27, fingerprint, 1, "fingerprints of DH, signing and raw keys of any length into buffers of every size 0..120, compared with the documented form (colon-separated SHA256 prefix); distinct by kind, type, buffer length and key") {
    int type = g.chance(1, 10) ? (int)g.u(0x4700) : g.flip() ? NOISE_FINGERPRINT_BASIC : NOISE_FINGERPRINT_FULL;
    size_t len = g.chance(1, 3) ? g.u(120) : g.chance(1, 2) ? 45 + g.u(6) : 93 + g.u(6);
    unsigned kind = (unsigned)g.en(4);
    Bytes pub;
    Buf out(len);
    int err;
    bool nokey = false;
    if (kind == 0 || kind == 1) {
        DH d;
        int id = kind ? NOISE_DH_CURVE448 : NOISE_DH_CURVE25519;
        new_dh(g, d, id);
        size_t n = noise_dhstate_get_public_key_length(d.d);
        nokey = g.chance(1, 8);
        if (!nokey) {
            pub = o_dh_public(kind ? O_448 : O_25519, g.bytes(n));
            CHECK_EQ(noise_dhstate_set_public_key(d.d, pub.data(), n), 0, "set_public_key");
        }
        err = noise_dhstate_format_fingerprint(d.d, type, (char *)out.p, len);
    } else if (kind == 2) {
        Sign s;
        new_sign(g, s);
        nokey = g.chance(1, 8);
        if (!nokey) { pub = o_ed_public(g.bytes(32)); CHECK_EQ(noise_signstate_set_public_key(s.s, pub.data(), 32), 0, "set_public_key"); }
        err = noise_signstate_format_fingerprint(s.s, type, (char *)out.p, len);
    } else {
        pub = g.bytes(g.size(300, {32, 55, 56, 64, 119, 120}));
        Buf p(pub);
        err = noise_format_fingerprint(type, (char *)out.p, len, p.p, p.n);
    }
    size_t need = type == NOISE_FINGERPRINT_BASIC ? 48 : 96;
    bool known = type == NOISE_FINGERPRINT_BASIC || type == NOISE_FINGERPRINT_FULL;
    g.note("kind %u type %x len %zu -> 0x%x", kind, type, len, err);
    g.key(strf("%u %x %zu", kind, type, len) + hex(pub, 8));
    if (len) CHECK(memchr(out.p, 0, len), "the fingerprint is not terminated");
    if (!len) { CHECK_EQ(err, NOISE_ERROR_INVALID_LENGTH, "empty buffer"); return; }
    if (nokey) { CHECK_EQ(err, NOISE_ERROR_INVALID_STATE, "fingerprint without a key"); CHECK(out.p[0] == 0, "string after an error"); return; }
    if (!known) { CHECK_EQ(err, NOISE_ERROR_INVALID_PARAM, "unknown type"); CHECK(out.p[0] == 0, "string after an error"); return; }
    if (len < need) { CHECK_EQ(err, NOISE_ERROR_INVALID_LENGTH, "buffer too small"); CHECK(out.p[0] == 0, "string after an error"); return; }
    CHECK_EQ(err, 0, "format_fingerprint");
    Bytes h = o_hash(O_SHA256, pub);
    std::string want;
    for (size_t i = 0; i < need / 3; ++i) want += strf(i ? ":%02x" : "%02x", h[i]);
    CHECK(want == (char *)out.p, "fingerprint is %s, expected %s", (char *)out.p, want.c_str());
    for (size_t q = need; q < len; ++q) CHECK(out.p[q] == 0xa5, "written past the fingerprint");
    g.nontrivial();
}

// ---------------------------------------------------------------- C33
// the other forms of the reference crypto (the driver links them in)
ALSO(C33, C06, aead, 3, "as C06, with the 32, 16 and 8-bit Poly1305 and ChaCha20 without vectors")
ALSO(C33, C06, polyedge, 2, "as C06")
ALSO(C33, C07, tamper, 1, "as C07")
ALSO(C33, C09, hash, 1, "as C09, with BLAKE2s without vectors")
ALSO(C33, C10, dh, 3, "as C10, with the 32-bit X25519 and the 32-bit and portable 64-bit X448")
ALSO(C33, C12, sign, 3, "as C12, with the 32-bit, SSE2 and assembler-free Ed25519")
