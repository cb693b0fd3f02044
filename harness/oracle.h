// Independent implementations to compare with: OpenSSL 3's EVP interface.
#ifndef ORACLE_H
#define ORACLE_H
#include "pbt.h"
#include <utility>
enum OHash { O_BLAKE2s, O_BLAKE2b, O_SHA256, O_SHA512 };
enum OCipher { O_CHACHAPOLY, O_AESGCM };
enum ODH { O_25519, O_448 };
size_t o_hashlen(OHash h);
size_t o_blocklen(OHash h);
Bytes o_hash(OHash h, const Bytes &d);
void *o_md_start(OHash h);
void o_md_update(void *md, const uint8_t *p, size_t n);
Bytes o_md_finish(void *md);
Bytes o_hmac(OHash h, const Bytes &k, const Bytes &d);
std::pair<Bytes, Bytes> o_hkdf2(OHash h, const Bytes &ck, const Bytes &ikm);
Bytes o_pbkdf2(OHash h, const Bytes &pass, const Bytes &salt, unsigned iter, size_t len);
Bytes o_encrypt(OCipher c, const Bytes &key, uint64_t n, const uint8_t *ad, size_t ad_len, const Bytes &pt);
Bytes o_encrypt(OCipher c, const Bytes &key, uint64_t n, const Bytes &ad, const Bytes &pt);
bool o_decrypt(OCipher c, const Bytes &key, uint64_t n, const Bytes &ad, const Bytes &ct, Bytes &pt);
size_t o_dhlen(ODH d);
Bytes o_dh_public(ODH d, const Bytes &priv);
Bytes o_dh(ODH d, const Bytes &priv, const Bytes &pub);   // all zeros when non-contributory
// the public key whose shared secret with priv is the u coordinate t; empty if there is none
Bytes o_dh_preimage(ODH d, const Bytes &priv, const Bytes &t);
// Replaces the 16-byte block at pt[16 * j] so that Poly1305's accumulator is t
// (17 bytes, little endian) after the first q blocks of what it authenticates
// (q = 0: after all of them).  False if no block does.
bool o_poly_target(const Bytes &key, uint64_t n, const Bytes &ad, Bytes &pt, size_t j, size_t q, const Bytes &t);
Bytes o_poly_rs(const Bytes &key, uint64_t n);             // Poly1305's one-time key
Bytes o_ed_public(const Bytes &seed);
Bytes o_ed_sign(const Bytes &seed, const Bytes &msg);
bool o_ed_verify(const Bytes &pub, const Bytes &msg, const Bytes &sig);
inline Bytes operator+(const Bytes &a, const Bytes &b) { Bytes r(a); r.insert(r.end(), b.begin(), b.end()); return r; }
inline Bytes sub(const Bytes &a, size_t off, size_t n) { return Bytes(a.begin() + off, a.begin() + off + n); }
inline Bytes str(const std::string &s) { return Bytes(s.begin(), s.end()); }
#endif
