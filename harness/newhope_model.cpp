#include "newhope_model.h"
#include <openssl/evp.h>
#include <stdlib.h>
#include <string.h>
typedef std::vector<uint32_t> Poly;
static const uint32_t Q = 12289, N = 1024, PSI = 7, OMEGA = 49;

static uint32_t powm(uint32_t b, uint32_t e) {
    uint64_t r = 1, x = b % Q;
    for (; e; e >>= 1, x = x * x % Q) if (e & 1) r = r * x % Q;
    return (uint32_t)r;
}
static void must(bool b) { if (!b) abort(); }
static Bytes sha3(const uint8_t *p, size_t n) {
    Bytes r(32); unsigned l;
    EVP_MD_CTX *c = EVP_MD_CTX_new();
    must(EVP_DigestInit_ex(c, EVP_sha3_256(), nullptr) && EVP_DigestUpdate(c, p, n) && EVP_DigestFinal_ex(c, r.data(), &l));
    EVP_MD_CTX_free(c);
    return r;
}
static Bytes shake128(const Bytes &seed, size_t n) {
    Bytes r(n);
    EVP_MD_CTX *c = EVP_MD_CTX_new();
    must(EVP_DigestInit_ex(c, EVP_shake128(), nullptr) && EVP_DigestUpdate(c, seed.data(), seed.size()) && EVP_DigestFinalXOF(c, r.data(), n));
    EVP_MD_CTX_free(c);
    return r;
}
static Bytes chacha20(const Bytes &key, const uint8_t nonce[8], size_t n) {
    uint8_t iv[16] = {0};
    memcpy(iv + 8, nonce, 8);
    Bytes z(n, 0), r(n); int l;
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
    must(EVP_EncryptInit_ex(c, EVP_chacha20(), nullptr, key.data(), iv) && EVP_EncryptUpdate(c, r.data(), &l, z.data(), (int)n));
    EVP_CIPHER_CTX_free(c);
    return r;
}
// A(x) at w^0 .. w^(n-1)
static void fft(Poly &a, uint32_t w) {
    size_t n = a.size();
    if (n == 1) return;
    Poly e(n / 2), o(n / 2);
    for (size_t i = 0; i < n / 2; ++i) { e[i] = a[2 * i]; o[i] = a[2 * i + 1]; }
    uint32_t w2 = (uint32_t)((uint64_t)w * w % Q);
    fft(e, w2); fft(o, w2);
    uint64_t x = 1;
    for (size_t i = 0; i < n / 2; ++i) {
        uint32_t t = (uint32_t)(x * o[i] % Q);
        a[i] = (e[i] + t) % Q;
        a[i + n / 2] = (e[i] + Q - t) % Q;
        x = x * w % Q;
    }
}
static unsigned rev10(unsigned i) { unsigned r = 0; for (int k = 0; k < 10; ++k) if (i >> k & 1) r |= 512u >> k; return r; }
// forward: the coefficient vector is taken in bit-reversed order
static Poly ntt(const Poly &p) {
    Poly a(N);
    uint64_t x = 1;
    for (unsigned k = 0; k < N; ++k) { a[k] = (uint32_t)(x * p[rev10(k)] % Q); x = x * PSI % Q; }
    fft(a, OMEGA);
    return a;
}
static Poly intt(Poly a) {
    fft(a, powm(OMEGA, Q - 2));
    uint64_t x = powm(N, Q - 2), pi = powm(PSI, Q - 2);
    for (unsigned k = 0; k < N; ++k) { a[k] = (uint32_t)(x * a[k] % Q); x = x * pi % Q; }
    return a;
}
static Poly mul(const Poly &a, const Poly &b) { Poly r(N); for (unsigned i = 0; i < N; ++i) r[i] = (uint32_t)((uint64_t)a[i] * b[i] % Q); return r; }
static Poly add(const Poly &a, const Poly &b) { Poly r(N); for (unsigned i = 0; i < N; ++i) r[i] = (a[i] + b[i]) % Q; return r; }
// Batcher's odd-even merge network on 84 of 128 lines; a line holding a value
// that is not below 5q is exchanged with its partner
static void merge(std::vector<std::pair<int, int>> &net, int lo, int n, int r) {
    int m = r * 2;
    if (m < n) {
        merge(net, lo, n, m); merge(net, lo + r, n, m);
        for (int i = lo + r; i + r < lo + n; i += m) net.push_back({i, i + r});
    } else net.push_back({lo, lo + r});
}
static void sortnet(std::vector<std::pair<int, int>> &net, int lo, int n) {
    if (n <= 1) return;
    sortnet(net, lo, n / 2); sortnet(net, lo + n / 2, n / 2);
    merge(net, lo, n, 1);
}
static Poly gen_a(const Bytes &seed) {
    static std::vector<std::pair<int, int>> net;
    if (net.empty()) sortnet(net, 0, 128);
    for (size_t blocks = 16;; blocks += 16) {
        Bytes s = shake128(seed, blocks * 168);
        const uint8_t *p = s.data() + (blocks - 16) * 168;
        std::vector<uint16_t> x(16 * 84);
        for (size_t i = 0; i < x.size(); ++i) x[i] = (uint16_t)(p[2 * i] | p[2 * i + 1] << 8);
        for (int c = 0; c < 16; ++c)
            for (auto &e : net)
                if (e.first < 84 && e.second < 84 && x[16 * e.first + c] >= 5 * Q) std::swap(x[16 * e.first + c], x[16 * e.second + c]);
        bool ok = true;
        for (int c = 0; c < 16; ++c) if (x[1008 + c] >= 5 * Q) ok = false;
        if (!ok) continue;
        Poly a(N);
        for (unsigned i = 0; i < N; ++i) a[i] = x[i] % Q;
        return a;
    }
}
static Poly noise(const Bytes &seed, uint8_t nonce) {
    uint8_t n[8] = {nonce};
    Bytes s = chacha20(seed, n, 4 * N);
    Poly r(N);
    for (unsigned i = 0; i < N; ++i) {
        int a = __builtin_popcount(s[4 * i]) + __builtin_popcount(s[4 * i + 1]);
        int b = __builtin_popcount(s[4 * i + 2]) + __builtin_popcount(s[4 * i + 3]);
        r[i] = (uint32_t)(a + (int)Q - b) % Q;
    }
    return r;
}
static Bytes pack(const Poly &p) {
    Bytes r(1792, 0);
    for (unsigned i = 0; i < N; ++i)
        for (unsigned b = 0; b < 14; ++b)
            if (p[i] >> b & 1) r[(i * 14 + b) / 8] |= (uint8_t)(1u << ((i * 14 + b) % 8));
    return r;
}
static Poly unpack(const uint8_t *d) {
    Poly p(N, 0);
    for (unsigned i = 0; i < N; ++i) {
        uint32_t v = 0;
        for (unsigned b = 0; b < 14; ++b) v |= (uint32_t)(d[(i * 14 + b) / 8] >> ((i * 14 + b) % 8) & 1) << b;
        p[i] = v % Q;
    }
    return p;
}
static long iabs(long v) { return v < 0 ? -v : v; }
// distance of x to its rounding to a multiple of 2q, and the two candidates
static long cand(long x, long &v0, long &v1) {
    long t = x / Q;
    v0 = (t >> 1) + (t & 1);
    t -= 1;
    v1 = (t >> 1) + (t & 1);
    return iabs(x - v0 * 2 * (long)Q);
}
static Poly helprec(const Poly &v, const Bytes &seed) {
    uint8_t n[8] = {0, 0, 0, 0, 0, 0, 0, 3};
    Bytes rnd = chacha20(seed, n, 32);
    Poly c(N);
    for (unsigned i = 0; i < 256; ++i) {
        long bit = rnd[i / 8] >> (i % 8) & 1, v0[4], v1[4], k = 0;
        for (unsigned j = 0; j < 4; ++j) k += cand(8 * (long)v[256 * j + i] + 4 * bit, v0[j], v1[j]);
        bool far = k > 2 * (long)Q - 1;
        long *x = far ? v1 : v0;
        c[i] = (uint32_t)((x[0] - x[3]) & 3);
        c[256 + i] = (uint32_t)((x[1] - x[3]) & 3);
        c[512 + i] = (uint32_t)((x[2] - x[3]) & 3);
        c[768 + i] = (uint32_t)(((far ? 1 : 0) + 2 * x[3]) & 3);
    }
    return c;
}
static Bytes rec(const Poly &v, const Poly &c) {
    Bytes key(32, 0);
    for (unsigned i = 0; i < 256; ++i) {
        long sum = 0;
        for (unsigned j = 0; j < 4; ++j) {
            long m = j < 3 ? 2 * (long)c[256 * j + i] + (long)c[768 + i] : (long)c[768 + i];
            long x = 16 * (long)Q + 8 * (long)v[256 * j + i] - (long)Q * m;
            long t = x / (4 * (long)Q);
            long r = (t >> 1) + (t & 1);
            sum += iabs(r * 8 * (long)Q - x);
        }
        if (sum < 8 * (long)Q) key[i / 8] |= (uint8_t)(1u << (i % 8));
    }
    return sha3(key.data(), 32);
}
Bytes nh_keygen(const Bytes &r) {
    Bytes seed = sha3(r.data(), 32), ns(r.begin() + 32, r.begin() + 64);
    Poly a = gen_a(seed), s = ntt(noise(ns, 0)), e = ntt(noise(ns, 1));
    Bytes out = pack(add(mul(s, a), e));
    out.insert(out.end(), seed.begin(), seed.end());
    return out;
}
Bytes nh_sharedb(const Bytes &r, const Bytes &am, Bytes &shared) {
    Bytes ns(r.begin(), r.begin() + 32), seed(am.begin() + 1792, am.begin() + 1824);
    Poly pka = unpack(am.data()), a = gen_a(seed), s = ntt(noise(ns, 0)), e = ntt(noise(ns, 1));
    Poly bp = add(mul(a, s), e), v = add(intt(mul(pka, s)), noise(ns, 2)), c = helprec(v, ns);
    Bytes out = pack(bp);
    for (unsigned i = 0; i < 256; ++i)
        out.push_back((uint8_t)(c[4 * i] | c[4 * i + 1] << 2 | c[4 * i + 2] << 4 | c[4 * i + 3] << 6));
    shared = rec(v, c);
    return out;
}
Bytes nh_shareda(const Bytes &r, const Bytes &bm) {
    Bytes ns(r.begin() + 32, r.begin() + 64);
    Poly s = ntt(noise(ns, 0)), bp = unpack(bm.data()), c(N);
    for (unsigned i = 0; i < N; ++i) c[i] = bm[1792 + i / 4] >> (2 * (i % 4)) & 3;
    return rec(intt(mul(s, bp)), c);
}
