#include "oracle.h"
#include <openssl/evp.h>
#include <openssl/err.h>
#include <openssl/bn.h>
#include <algorithm>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>

#define MUST(x) do { if (!(x)) { fprintf(stderr, "oracle: %s failed\n", #x); abort(); } } while (0)

size_t o_hashlen(OHash h) { return h == O_BLAKE2s || h == O_SHA256 ? 32 : 64; }
size_t o_blocklen(OHash h) { return h == O_BLAKE2s || h == O_SHA256 ? 64 : 128; }
static EVP_MD *md(OHash h) {
    static EVP_MD *m[4] = {
        EVP_MD_fetch(nullptr, "BLAKE2S-256", nullptr), EVP_MD_fetch(nullptr, "BLAKE2B-512", nullptr),
        EVP_MD_fetch(nullptr, "SHA2-256", nullptr), EVP_MD_fetch(nullptr, "SHA2-512", nullptr)};
    return m[h];
}
Bytes o_hash(OHash h, const Bytes &d) {
    Bytes r(o_hashlen(h));
    unsigned n = 0;
    EVP_MD_CTX *c = EVP_MD_CTX_new();
    MUST(c && EVP_DigestInit_ex(c, md(h), nullptr) == 1);
    if (!d.empty()) MUST(EVP_DigestUpdate(c, d.data(), d.size()) == 1);
    MUST(EVP_DigestFinal_ex(c, r.data(), &n) == 1 && n == r.size());
    EVP_MD_CTX_free(c);
    return r;
}
Bytes o_hmac(OHash h, const Bytes &k, const Bytes &d) {
    Bytes key = k.size() > o_blocklen(h) ? o_hash(h, k) : k;
    key.resize(o_blocklen(h), 0);
    Bytes i(key), o(key);
    for (auto &x : i) x ^= 0x36;
    for (auto &x : o) x ^= 0x5c;
    return o_hash(h, o + o_hash(h, i + d));
}
std::pair<Bytes, Bytes> o_hkdf2(OHash h, const Bytes &ck, const Bytes &ikm) {
    Bytes temp = o_hmac(h, ck, ikm);
    Bytes a = o_hmac(h, temp, Bytes{1});
    Bytes b = o_hmac(h, temp, a + Bytes{2});
    return {a, b};
}
Bytes o_pbkdf2(OHash h, const Bytes &pass, const Bytes &salt, unsigned iter, size_t len) {
    Bytes out;
    for (uint32_t i = 1; out.size() < len; ++i) {
        Bytes u = o_hmac(h, pass, salt + Bytes{(uint8_t)(i >> 24), (uint8_t)(i >> 16), (uint8_t)(i >> 8), (uint8_t)i});
        Bytes t = u;
        for (unsigned k = 1; k < iter; ++k) {
            u = o_hmac(h, pass, u);
            for (size_t j = 0; j < t.size(); ++j) t[j] ^= u[j];
        }
        out = out + t;
    }
    out.resize(len);
    return out;
}
static EVP_CIPHER *cipher(OCipher c) {
    static EVP_CIPHER *m[2] = {EVP_CIPHER_fetch(nullptr, "ChaCha20-Poly1305", nullptr),
                               EVP_CIPHER_fetch(nullptr, "AES-256-GCM", nullptr)};
    return m[c];
}
static void make_iv(OCipher c, uint64_t n, uint8_t iv[12]) {
    memset(iv, 0, 12);
    for (int i = 0; i < 8; ++i)
        iv[4 + i] = (uint8_t)(c == O_CHACHAPOLY ? n >> (8 * i) : n >> (56 - 8 * i));
}
Bytes o_encrypt(OCipher c, const Bytes &key, uint64_t n, const Bytes &ad, const Bytes &pt) {
    return o_encrypt(c, key, n, ad.data(), ad.size(), pt);
}
Bytes o_encrypt(OCipher c, const Bytes &key, uint64_t n, const uint8_t *ad, size_t ad_len, const Bytes &pt) {
    uint8_t iv[12]; make_iv(c, n, iv);
    Bytes out(pt.size() + 16);
    int len;
    uint8_t dummy = 0;
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
    MUST(x && EVP_EncryptInit_ex(x, cipher(c), nullptr, key.data(), iv) == 1);
    while (ad_len) {
        size_t k = std::min<size_t>(ad_len, 1 << 20);
        MUST(EVP_EncryptUpdate(x, nullptr, &len, ad, (int)k) == 1);
        ad += k; ad_len -= k;
    }
    if (!pt.empty()) MUST(EVP_EncryptUpdate(x, out.data(), &len, pt.data(), (int)pt.size()) == 1);
    MUST(EVP_EncryptFinal_ex(x, &dummy, &len) == 1);
    MUST(EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_GET_TAG, 16, out.data() + pt.size()) == 1);
    EVP_CIPHER_CTX_free(x);
    return out;
}
bool o_decrypt(OCipher c, const Bytes &key, uint64_t n, const Bytes &ad, const Bytes &ct, Bytes &pt) {
    if (ct.size() < 16) return false;
    uint8_t iv[12]; make_iv(c, n, iv);
    pt.assign(ct.size() - 16, 0);
    int len;
    uint8_t dummy = 0;
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
    MUST(x && EVP_DecryptInit_ex(x, cipher(c), nullptr, key.data(), iv) == 1);
    if (!ad.empty()) MUST(EVP_DecryptUpdate(x, nullptr, &len, ad.data(), (int)ad.size()) == 1);
    if (!pt.empty()) MUST(EVP_DecryptUpdate(x, pt.data(), &len, ct.data(), (int)pt.size()) == 1);
    MUST(EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_SET_TAG, 16, (void *)(ct.data() + pt.size())) == 1);
    bool ok = EVP_DecryptFinal_ex(x, &dummy, &len) == 1;
    EVP_CIPHER_CTX_free(x);
    ERR_clear_error();
    if (!ok) pt.clear();
    return ok;
}
size_t o_dhlen(ODH d) { return d == O_25519 ? 32 : 56; }
static int ktype(ODH d) { return d == O_25519 ? EVP_PKEY_X25519 : EVP_PKEY_X448; }
Bytes o_dh_public(ODH d, const Bytes &priv) {
    EVP_PKEY *k = EVP_PKEY_new_raw_private_key(ktype(d), nullptr, priv.data(), priv.size());
    MUST(k);
    Bytes r(o_dhlen(d)); size_t n = r.size();
    MUST(EVP_PKEY_get_raw_public_key(k, r.data(), &n) == 1);
    EVP_PKEY_free(k);
    return r;
}
Bytes o_dh(ODH d, const Bytes &priv, const Bytes &pub) {
    EVP_PKEY *k = EVP_PKEY_new_raw_private_key(ktype(d), nullptr, priv.data(), priv.size());
    EVP_PKEY *p = EVP_PKEY_new_raw_public_key(ktype(d), nullptr, pub.data(), pub.size());
    MUST(k && p);
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(k, nullptr);
    Bytes r(o_dhlen(d), 0); size_t n = r.size();
    if (EVP_PKEY_derive_init(c) != 1 || EVP_PKEY_derive_set_peer_ex(c, p, 0) != 1 || EVP_PKEY_derive(c, r.data(), &n) != 1)
        r.assign(o_dhlen(d), 0);
    ERR_clear_error();
    EVP_PKEY_CTX_free(c); EVP_PKEY_free(k); EVP_PKEY_free(p);
    return r;
}
Bytes o_ed_public(const Bytes &seed) {
    EVP_PKEY *k = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, nullptr, seed.data(), 32);
    MUST(k);
    Bytes r(32); size_t n = 32;
    MUST(EVP_PKEY_get_raw_public_key(k, r.data(), &n) == 1);
    EVP_PKEY_free(k);
    return r;
}
Bytes o_ed_sign(const Bytes &seed, const Bytes &msg) {
    EVP_PKEY *k = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, nullptr, seed.data(), 32);
    MUST(k);
    EVP_MD_CTX *c = EVP_MD_CTX_new();
    Bytes r(64); size_t n = 64;
    uint8_t z = 0;
    MUST(EVP_DigestSignInit(c, nullptr, nullptr, nullptr, k) == 1);
    MUST(EVP_DigestSign(c, r.data(), &n, msg.empty() ? &z : msg.data(), msg.size()) == 1);
    EVP_MD_CTX_free(c); EVP_PKEY_free(k);
    return r;
}
bool o_ed_verify(const Bytes &pub, const Bytes &msg, const Bytes &sig) {
    EVP_PKEY *k = EVP_PKEY_new_raw_public_key(EVP_PKEY_ED25519, nullptr, pub.data(), 32);
    if (!k) { ERR_clear_error(); return false; }
    EVP_MD_CTX *c = EVP_MD_CTX_new();
    uint8_t z = 0;
    bool ok = EVP_DigestVerifyInit(c, nullptr, nullptr, nullptr, k) == 1 &&
              EVP_DigestVerify(c, sig.data(), sig.size(), msg.empty() ? &z : msg.data(), msg.size()) == 1;
    ERR_clear_error();
    EVP_MD_CTX_free(c); EVP_PKEY_free(k);
    return ok;
}
void *o_md_start(OHash h) {
    EVP_MD_CTX *c = EVP_MD_CTX_new();
    MUST(c && EVP_DigestInit_ex(c, md(h), nullptr) == 1);
    return c;
}
void o_md_update(void *c, const uint8_t *p, size_t n) { MUST(EVP_DigestUpdate((EVP_MD_CTX *)c, p, n) == 1); }
Bytes o_md_finish(void *c) {
    uint8_t b[64]; unsigned n = 0;
    MUST(EVP_DigestFinal_ex((EVP_MD_CTX *)c, b, &n) == 1);
    EVP_MD_CTX_free((EVP_MD_CTX *)c);
    return Bytes(b, b + n);
}

// ------------------------------------------- inputs with a chosen outcome
namespace {
struct BN {
    BIGNUM *v;
    BN(unsigned long w = 0) : v(BN_new()) { BN_set_word(v, w); }
    BN(const BN &o) : v(BN_dup(o.v)) {}
    BN &operator=(const BN &o) { BN_copy(v, o.v); return *this; }
    ~BN() { BN_free(v); }
    static BN le(const uint8_t *p, size_t n) { BN r; BN_lebin2bn(p, (int)n, r.v); return r; }
    static BN hex(const char *s) { BN r; BN_hex2bn(&r.v, s); return r; }
};
BN_CTX *ctx() { static BN_CTX *c = BN_CTX_new(); return c; }
BN mul(const BN &a, const BN &b, const BN &m) { BN r; BN_mod_mul(r.v, a.v, b.v, m.v, ctx()); return r; }
BN add(const BN &a, const BN &b, const BN &m) { BN r; BN_mod_add(r.v, a.v, b.v, m.v, ctx()); return r; }
BN subm(const BN &a, const BN &b, const BN &m) { BN r; BN_mod_sub(r.v, a.v, b.v, m.v, ctx()); return r; }
BN inv(const BN &a, const BN &m) { BN r; if (!BN_mod_inverse(r.v, a.v, m.v, ctx())) { ERR_clear_error(); BN_zero(r.v); } return r; }
}
Bytes o_dh_preimage(ODH d, const Bytes &priv, const Bytes &t) {
    static const BN P[2] = {BN::hex("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed"),
                            BN::hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffffffffffffffffffffffffffffffffffffffffffffffffffff")};
    static const BN ORDER[2][2] = {       // of the curve and of its twist
        {BN::hex("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed"), BN::hex("1fffffffffffffffffffffffffffffffd6420c42ba10c6534fdb39cb4614581d")},
        {BN::hex("3fffffffffffffffffffffffffffffffffffffffffffffffffffffff7cca23e9c44edb49aed63690216cc2728dc58f552378c292ab5844f3"),
         BN::hex("400000000000000000000000000000000000000000000000000000000335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d")}};
    static const unsigned long A[2] = {486662, 156326}, A24[2] = {121665, 39081};
    const BN &p = P[d];
    Bytes k(priv);
    if (d == O_25519) { k[0] &= 248; k[31] &= 127; k[31] |= 64; }
    else { k[0] &= 252; k[55] |= 128; }
    BN kk = BN::le(k.data(), k.size()), x1 = BN::le(t.data(), t.size());
    if (BN_cmp(x1.v, p.v) >= 0) return Bytes();
    BN n = mul(x1, add(add(mul(x1, x1, p), mul(BN(A[d]), x1, p), p), BN(1), p), p);
    int tw = BN_kronecker(n.v, p.v, ctx()) == 1 ? 0 : 1;
    BN e;
    BN_mod(kk.v, kk.v, ORDER[d][tw].v, ctx());
    e = inv(kk, ORDER[d][tw]);
    BN x2(1), z2(0), x3(x1), z3(1), a24(A24[d]);
    for (int i = BN_num_bits(e.v) - 1; i >= 0; --i) {
        bool b = BN_is_bit_set(e.v, i);
        if (b) { BN_swap(x2.v, x3.v); BN_swap(z2.v, z3.v); }
        BN a = add(x2, z2, p), aa = mul(a, a, p), bb0 = subm(x2, z2, p), bb = mul(bb0, bb0, p), ee = subm(aa, bb, p);
        BN da = mul(subm(x3, z3, p), a, p), cb = mul(add(x3, z3, p), bb0, p);
        BN s = add(da, cb, p), f = subm(da, cb, p);
        x3 = mul(s, s, p);
        z3 = mul(x1, mul(f, f, p), p);
        x2 = mul(aa, bb, p);
        z2 = mul(ee, add(aa, mul(a24, ee, p), p), p);
        if (b) { BN_swap(x2.v, x3.v); BN_swap(z2.v, z3.v); }
    }
    BN r = mul(x2, inv(z2, p), p);
    Bytes out(o_dhlen(d));
    MUST(BN_bn2lebinpad(r.v, out.data(), (int)out.size()) >= 0);
    return o_dh(d, priv, out) == t ? out : Bytes();
}
Bytes o_poly_rs(const Bytes &key, uint64_t n) {
    uint8_t iv[16] = {0};
    make_iv(O_CHACHAPOLY, n, iv + 4);
    Bytes z(32, 0), out(32);
    int len;
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
    MUST(x && EVP_EncryptInit_ex(x, EVP_chacha20(), nullptr, key.data(), iv) == 1 && EVP_EncryptUpdate(x, out.data(), &len, z.data(), 32) == 1);
    EVP_CIPHER_CTX_free(x);
    return out;
}
bool o_poly_target(const Bytes &key, uint64_t n, const Bytes &ad, Bytes &pt, size_t j, size_t q, const Bytes &t) {
    static const BN p = BN::hex("3fffffffffffffffffffffffffffffffb");
    Bytes rs = o_poly_rs(key, n);
    for (int i : {3, 7, 11, 15}) rs[i] &= 15;
    for (int i : {4, 8, 12}) rs[i] &= 252;
    BN r = BN::le(rs.data(), 16);
    Bytes ks = o_encrypt(O_CHACHAPOLY, key, n, Bytes(), Bytes(pt.size(), 0)), m(ad);
    while (m.size() % 16) m.push_back(0);
    size_t at = m.size() + 16 * j;
    for (size_t i = 0; i < pt.size(); ++i) m.push_back(pt[i] ^ ks[i]);
    while (m.size() % 16) m.push_back(0);
    for (int i = 0; i < 8; ++i) m.push_back((uint8_t)((uint64_t)ad.size() >> (8 * i)));
    for (int i = 0; i < 8; ++i) m.push_back((uint8_t)((uint64_t)pt.size() >> (8 * i)));
    size_t blocks = m.size() / 16;
    if (q && q < blocks) blocks = q;
    if (at / 16 >= blocks || 16 * j + 16 > pt.size()) return false;
    BN h(0), f(0);
    for (size_t i = 0; i < blocks; ++i) {
        uint8_t b[17];
        memcpy(b, &m[16 * i], 16);
        b[16] = 1;
        if (16 * i == at) { f = BN(1); } else h = add(h, BN::le(b, 17), p);
        h = mul(h, r, p);
        f = mul(f, r, p);
    }
    BN c = mul(subm(BN::le(t.data(), t.size()), h, p), inv(f, p), p);
    uint8_t out[17];
    MUST(BN_bn2lebinpad(c.v, out, 17) == 17);
    if (out[16] != 1) return false;
    for (int i = 0; i < 16; ++i) pt[16 * j + i] = out[i] ^ ks[16 * j + i];
    return true;
}
