// C13: names, identifiers and errors.  C21: the random number generator.
#include "nutil.h"
#include <noise/keys.h>
#include <stdio.h>
#include <stdlib.h>
#include <openssl/evp.h>

// ------------------------------------------------------------------ C13
struct Named { int cat, id; std::string name; };
static const std::vector<Named> &all_names() {
    static std::vector<Named> v;
    if (v.empty()) {
        auto add = [&](int c, int id, const std::string &n) { v.push_back({c, id, n}); };
        add('C', 0x4301, "ChaChaPoly"); add('C', 0x4302, "AESGCM");
        add('H', 0x4801, "BLAKE2s"); add('H', 0x4802, "BLAKE2b"); add('H', 0x4803, "SHA256"); add('H', 0x4804, "SHA512");
        add('D', 0x4401, "25519"); add('D', 0x4402, "448"); add('D', 0x4403, "NewHope");
        add('N', 0x4e01, "Noise"); add('N', 0x4e02, "NoisePSK");
        add('S', 0x5301, "Ed25519");
        for (auto &p : PATTERNS) add('P', p.id, p.name);
    }
    return v;
}
static const char CATS[] = {'C', 'H', 'D', 'N', 'S', 'P'};
static int want_id(int category, const std::string &n) {
    for (auto &x : all_names())
        if (x.name == n && (category == 0 || category == x.cat << 8)) return x.id;
    return 0;
}
static const char *want_name(int category, int id) {
    for (auto &x : all_names())
        if (x.id == id && (category == 0 || category == x.cat << 8)) return x.name.c_str();
    return nullptr;
}
static std::string mutate_name(Gen &g, std::string s) {
    static const char al[] = "_+ NoisePSKXhfs25519448AESGCMBLAKE2bsSHA?\0x80";
    switch (g.u(7)) {
    case 0: if (!s.empty()) { size_t i = g.u(s.size() - 1); s[i] ^= 0x20; break; }      // case
    case 1: s += al[g.u(sizeof(al) - 2)]; break;
    case 2: if (!s.empty()) { s.pop_back(); break; }
    case 3: if (!s.empty()) { s.erase(0, 1); break; }
    case 4: s.insert(g.u(s.size()), 1, al[g.u(sizeof(al) - 2)]); break;
    case 5: if (!s.empty()) { s[g.u(s.size() - 1)] = (char)g.u(255); break; }
    case 6: s += '\0'; break;
    default: if (s.size() >= 2) { size_t i = g.u(s.size() - 2); std::swap(s[i], s[i + 1]); }
    }
    return s;
}
static int gen_category(Gen &g, int cat) {
    switch (g.u(5)) {
    case 0: case 1: return cat << 8;
    case 2: return 0;
    case 3: case 4: return CATS[g.u(5)] << 8;
    default: return (int)g.u(0xffff);
    }
}
static bool judged_category(int c) {       // only the documented ones
    if (!c) return true;
    for (char x : CATS) if (c == x << 8) return true;
    return false;
}
TARGET(C13, single, 1, "single algorithm names (all of them, and near misses) and identifiers looked up in every category, both ways; distinct by category and name or identifier") {
    auto &all = all_names();
    const Named &x = all[g.en(all.size())];
    int cat = gen_category(g, x.cat);
    g.nontrivial();
    if (g.flip()) {
        std::string n = x.name;
        while (g.chance(2, 5)) n = mutate_name(g, n);
        if (g.chance(1, 40)) {
            CHECK_EQ(noise_name_to_id(cat, nullptr, n.size()), 0, "null name");
            return;
        }
        Buf b(str(n));
        g.note("name '%s' in category 0x%x", n.c_str(), cat);
        g.key(strf("n%x", cat) + n);
        int id = noise_name_to_id(cat, (const char *)b.p, b.n);
        if (!judged_category(cat)) return;
        CHECK_EQ(id, want_id(cat, n), "noise_name_to_id");
    } else {
        int id = g.flip() ? x.id : g.flip() ? (int)g.u(0xffff) : g.flip() ? x.id + (int)g.range(-3, 3) : (int)(uint32_t)g.u64();
        if (g.chance(1, 6)) id |= (int)(g.u(0xffff) << 16);
        g.note("id 0x%x in category 0x%x", id, cat);
        g.key(strf("i%x %x", cat, id));
        const char *n = noise_id_to_name(cat, id), *w = want_name(cat, id);
        if (!judged_category(cat)) return;
        CHECK(!n == !w, "noise_id_to_name(0x%x, 0x%x) is %s, expected %s", cat, id, n ? n : "null", w ? w : "null");
        CHECK(!n || !strcmp(n, w), "noise_id_to_name(0x%x, 0x%x) is %s, expected %s", cat, id, n, w);
    }
}
static bool parse_name(const std::string &s, NoiseProtocolId &id) {
    std::vector<std::string> f(1);
    for (char c : s) if (c == '_') f.emplace_back(); else f.back() += c;
    if (f.size() != 5) return false;
    memset(&id, 0, sizeof(id));
    id.prefix_id = want_id('N' << 8, f[0]);
    id.pattern_id = want_id('P' << 8, f[1]);
    size_t plus = f[2].find('+');
    if (plus != std::string::npos) {
        id.hybrid_id = want_id('D' << 8, f[2].substr(plus + 1));
        if (!id.hybrid_id) return false;
        f[2].resize(plus);
    }
    id.dh_id = want_id('D' << 8, f[2]);
    id.cipher_id = want_id('C' << 8, f[3]);
    id.hash_id = want_id('H' << 8, f[4]);
    return id.prefix_id && id.pattern_id && id.dh_id && id.cipher_id && id.hash_id;
}
static const Named &of_cat(Gen &g, char c) {
    auto &all = all_names();
    size_t n = 0;
    for (auto &x : all) n += x.cat == c;
    n = g.en(n);
    for (auto &x : all) if (x.cat == c && !n--) return x;
    return all[0];
}
TARGET(C13, parse, 1, "protocol names of every combination of known names, and damaged ones (fields missing, added, swapped, misspelt, wrong category, cut), parsed; accepted exactly when well-formed, and formatted back; distinct by name") {
    static const char order[] = "NPDCH";
    std::vector<std::string> f;
    for (int i = 0; i < 5; ++i) f.push_back(of_cat(g, order[i]).name);
    if (g.flip()) f[2] += "+" + of_cat(g, 'D').name;
    int dmg = g.chance(1, 2) ? 1 + (int)g.u(1) : 0;
    for (int i = 0; i < dmg; ++i) switch (g.u(7)) {
        case 0: case 1: { size_t k = g.u(f.size() - 1); f[k] = mutate_name(g, f[k]); break; }
        case 2: if (f.size() > 1) { f.erase(f.begin() + g.u(f.size() - 1)); break; }
        case 3: f.insert(f.begin() + g.u(f.size()), g.flip() ? "" : of_cat(g, order[g.u(4)]).name); break;
        case 4: { size_t a = g.u(f.size() - 1), b = g.u(f.size() - 1); std::swap(f[a], f[b]); break; }
        case 5: f[g.u(f.size() - 1)] = of_cat(g, CATS[g.u(5)]).name; break;
        case 6: { size_t k = g.u(f.size() - 1); f[k] += "+" + of_cat(g, CATS[g.u(5)]).name; break; }
        default: { size_t k = g.u(f.size() - 1); f[k] = ""; break; }
    }
    std::string s;
    for (size_t i = 0; i < f.size(); ++i) s += (i ? "_" : "") + f[i];
    if (g.chance(1, 8)) s = s.substr(0, g.u(s.size()));
    if (g.chance(1, 20)) s += "_";
    NoiseProtocolId id, want;
    memset(&id, 0x5a, sizeof(id));
    bool ok = parse_name(s, want);
    g.note("'%s'", s.c_str());
    g.key(s);
    g.nontrivial();
    g.label(ok ? "well-formed" : "malformed");
    Buf b(str(s));
    int err = noise_protocol_name_to_id(&id, (const char *)b.p, b.n);
    CHECK(err == (ok ? 0 : NOISE_ERROR_UNKNOWN_NAME), "parsing '%s' gave 0x%x, %s expected", s.c_str(), err, ok ? "success" : "UNKNOWN_NAME");
    if (!ok) {
        NoiseProtocolId z;
        memset(&z, 0, sizeof(z));
        CHECK(!memcmp(&z, &id, sizeof(id)), "identifiers left after a parse error");
        return;
    }
    CHECK(id.prefix_id == want.prefix_id && id.pattern_id == want.pattern_id && id.dh_id == want.dh_id && id.hybrid_id == want.hybrid_id &&
          id.cipher_id == want.cipher_id && id.hash_id == want.hash_id, "'%s' parsed to other identifiers", s.c_str());
    for (int r : id.reserved) CHECK_EQ(r, 0, "reserved field");
    char out[NOISE_MAX_PROTOCOL_NAME];
    CHECK_EQ(noise_protocol_id_to_name(out, sizeof(out), &id), 0, "formatting back");
    CHECK(s == out, "'%s' formats back as '%s'", s.c_str(), out);
}
TARGET(C13, format, 1, "random identifier sets (valid, foreign and unknown ones) formatted into buffers of every size; the exact name, or the documented error with nothing written beyond the buffer; distinct by identifiers and size") {
    static const char order[] = "NPDCHD";
    int v[6];
    bool unknown = false;
    for (int i = 0; i < 6; ++i) {
        v[i] = of_cat(g, order[i]).id;
        if (i == 5 && g.flip()) v[i] = 0;
        if (g.chance(1, 20)) v[i] = g.flip() ? (int)g.u(0xffff) : of_cat(g, CATS[g.u(5)]).id;
        if (!(i == 5 && !v[i]) && !want_name(order[i] << 8, v[i])) unknown = true;
    }
    NoiseProtocolId id;
    memset(&id, 0, sizeof(id));
    id.prefix_id = v[0]; id.pattern_id = v[1]; id.dh_id = v[2]; id.cipher_id = v[3]; id.hash_id = v[4]; id.hybrid_id = v[5];
    std::string want;
    if (!unknown) {
        for (int i = 0; i < 5; ++i) {
            want += (i ? "_" : "") + std::string(want_name(order[i] << 8, v[i]));
            if (i == 2 && v[5]) want += "+" + std::string(want_name('D' << 8, v[5]));
        }
    }
    size_t cap = g.flip() && !unknown ? want.size() + g.u(3) - (g.flip() ? 2 : 0) : g.u(130);
    Buf b(cap);
    g.note("%s into %zu bytes", unknown ? "unknown identifiers" : want.c_str(), cap);
    g.key(strf("%x %x %x %x %x %x %zu", v[0], v[1], v[2], v[3], v[4], v[5], cap));
    g.nontrivial();
    if (g.chance(1, 30)) {
        CHECK_EQ(noise_protocol_id_to_name((char *)b.p, b.n, nullptr), NOISE_ERROR_INVALID_PARAM, "null id");
        CHECK_EQ(noise_protocol_id_to_name(nullptr, b.n, &id), NOISE_ERROR_INVALID_PARAM, "null name");
        CHECK_EQ(noise_protocol_name_to_id(&id, nullptr, 3), NOISE_ERROR_INVALID_PARAM, "null name");
        CHECK_EQ(noise_protocol_name_to_id(nullptr, "Noise", 5), NOISE_ERROR_INVALID_PARAM, "null id");
        return;
    }
    bool reserved = !unknown && g.chance(1, 12);      // identifiers of a later version of the library
    if (reserved) id.reserved[g.u(3)] = g.flip() ? v[g.u(4)] : 1 << g.u(30);
    int err = noise_protocol_id_to_name((char *)b.p, b.n, &id);
    if (reserved) {
        CHECK(err != 0, "formatted although there are identifiers that cannot be part of a name");
        if (cap >= 128) CHECK_EQ(err, NOISE_ERROR_UNKNOWN_ID, "reserved identifiers");
    } else if (unknown) {
        CHECK(err == NOISE_ERROR_UNKNOWN_ID || err == NOISE_ERROR_INVALID_LENGTH, "unknown identifiers gave 0x%x", err);
        if (cap >= 128) CHECK_EQ(err, NOISE_ERROR_UNKNOWN_ID, "unknown identifiers");
    } else if (cap <= want.size()) {
        CHECK_EQ(err, NOISE_ERROR_INVALID_LENGTH, "a buffer that is too small");
    } else {
        CHECK_EQ(err, 0, "formatting");
        CHECK(memchr(b.p, 0, b.n), "not terminated");
        CHECK(want == (char *)b.p, "formatted as '%s', expected '%s'", (char *)b.p, want.c_str());
        for (size_t i = want.size() + 1; i < cap; ++i) CHECK(b.p[i] == 0xa5, "wrote past the terminator");
    }
}
static const char *ERRS[] = {"No error", "Out of memory", "Unknown identifier", "Unknown name", "MAC failure", "Not applicable", "System error",
    "Remote public key required", "Local keypair required", "Pre shared key required", "Invalid length", "Invalid parameter", "Invalid state",
    "Invalid nonce", "Invalid private key", "Invalid public key", "Invalid format", "Invalid signature"};
TARGET(C13, errors, 0.5, "error codes (known and unknown) described in buffers of every size, and printed; distinct by code and size") {
    int k = (int)g.en(18);
    int err = k ? 0x4500 + k : 0;
    if (g.chance(1, 4)) err = g.flip() ? 0x4500 + (int)g.u(40) : (int)(uint32_t)g.u64();
    std::string want = err == 0 ? ERRS[0] : err > 0x4500 && err <= 0x4511 ? ERRS[err - 0x4500] : strf("Unknown error 0x%x", err);
    size_t cap = g.flip() ? g.u(40) : want.size() + g.u(2);
    g.nontrivial();
    g.key(strf("%x %zu", err, cap));
    g.note("0x%x in %zu bytes", err, cap);
    if (g.chance(1, 6)) {          // noise_perror
        char *mem = nullptr; size_t n = 0;
        FILE *save = stderr, *f = open_memstream(&mem, &n);
        stderr = f;
        const char *pfx = g.chance(1, 5) ? nullptr : "some file %s";
        noise_perror(pfx, err);
        stderr = save;
        fclose(f);
        std::string got(mem, n);
        free(mem);
        CHECK(got == std::string(pfx ? pfx : "(null)") + ": " + want + "\n", "noise_perror printed '%s' for 0x%x", got.c_str(), err);
        return;
    }
    Buf b(cap);
    int r = noise_strerror(err, (char *)b.p, b.n);
    if (!cap) { CHECK_EQ(r, -1, "no space"); CHECK_EQ(noise_strerror(err, nullptr, 10), -1, "null buffer"); return; }
    CHECK_EQ(r, 0, "noise_strerror");
    CHECK(memchr(b.p, 0, b.n), "0x%x described in %zu bytes is not terminated", err, cap);
    CHECK(want.substr(0, cap - 1) == (char *)b.p, "0x%x described in %zu bytes as '%s'", err, cap, (char *)b.p);
}
TARGET(C13, objects, 1, "objects created by name and by identifier, known and unknown, report the identifier and the documented sizes; unknown ones are refused with a null object; distinct by kind and name") {
    auto &all = all_names();
    const Named &x = all[g.en(all.size())];
    char kind = CATS[g.u(4)];
    if (g.chance(3, 4) && x.cat != 'P' && x.cat != 'N') kind = (char)x.cat;
    if (kind == 'N') kind = 'H';
    std::string n = x.name;
    if (g.chance(1, 4)) n = mutate_name(g, n);
    n = n.c_str();                  // C strings here
    bool by_name = g.flip();
    int id = x.id;
    if (!by_name && g.chance(1, 4)) id = (int)g.u(0xffff);
    int w = by_name ? want_id(kind << 8, n) : want_name(kind << 8, id) ? id : 0;
    int err_want = w ? 0 : by_name ? NOISE_ERROR_UNKNOWN_NAME : NOISE_ERROR_UNKNOWN_ID;
    g.nontrivial();
    g.note("%c by %s: %s / 0x%x", kind, by_name ? "name" : "id", n.c_str(), id);
    g.key(strf("%c%d%x", kind, by_name, id) + n);
    void *o = (void *)1;
    int err;
#define MAKE(T, f) err = by_name ? f##_new_by_name((T **)&o, n.c_str()) : f##_new_by_id((T **)&o, id); \
    CHECK(err == err_want, #f "_new of %s (0x%x) gave 0x%x, expected 0x%x", n.c_str(), id, err, err_want); \
    if (err) { CHECK(!o, "an object with error 0x%x", err); return; } \
    T *t = (T *)o; struct Fin { T *t; ~Fin() { f##_free(t); } } fin{t};
    switch (kind) {
    case 'C': {
        MAKE(NoiseCipherState, noise_cipherstate)
        CHECK_EQ(noise_cipherstate_get_cipher_id(t), w, "cipher id");
        CHECK_EQ(noise_cipherstate_get_key_length(t), 32, "key length");
        CHECK_EQ(noise_cipherstate_get_mac_length(t), noise_cipherstate_has_key(t) ? 16 : noise_cipherstate_get_mac_length(t), "MAC length");
        CHECK_EQ(noise_cipherstate_has_key(t), 0, "has_key of a new cipher");
        Bytes k = g.rnd(32);
        CHECK_EQ(noise_cipherstate_init_key(t, k.data(), 32), 0, "init_key");
        CHECK_EQ(noise_cipherstate_get_mac_length(t), 16, "MAC length");
        break;
    }
    case 'H': {
        MAKE(NoiseHashState, noise_hashstate)
        CHECK_EQ(noise_hashstate_get_hash_id(t), w, "hash id");
        CHECK_EQ(noise_hashstate_get_hash_length(t), w == NOISE_HASH_BLAKE2s || w == NOISE_HASH_SHA256 ? 32 : 64, "hash length");
        CHECK_EQ(noise_hashstate_get_block_length(t), w == NOISE_HASH_BLAKE2s || w == NOISE_HASH_SHA256 ? 64 : 128, "block length");
        break;
    }
    case 'D': {
        MAKE(NoiseDHState, noise_dhstate)
        CHECK_EQ(noise_dhstate_get_dh_id(t), w, "DH id");
        CHECK_EQ(noise_dhstate_get_shared_key_length(t), w == NOISE_DH_CURVE448 ? 56 : 32, "shared key length");
        if (w != NOISE_DH_NEWHOPE) {
            CHECK_EQ(noise_dhstate_get_public_key_length(t), w == NOISE_DH_CURVE448 ? 56 : 32, "public key length");
            CHECK_EQ(noise_dhstate_get_private_key_length(t), w == NOISE_DH_CURVE448 ? 56 : 32, "private key length");
        }
        CHECK_EQ(noise_dhstate_is_ephemeral_only(t), w == NOISE_DH_NEWHOPE, "ephemeral only");
        CHECK(!noise_dhstate_has_keypair(t) && !noise_dhstate_has_public_key(t), "keys in a new object");
        break;
    }
    case 'S': {
        MAKE(NoiseSignState, noise_signstate)
        CHECK_EQ(noise_signstate_get_sign_id(t), w, "signature id");
        CHECK_EQ(noise_signstate_get_public_key_length(t), 32, "public key length");
        CHECK_EQ(noise_signstate_get_private_key_length(t), 32, "private key length");
        CHECK_EQ(noise_signstate_get_signature_length(t), 64, "signature length");
        CHECK(!noise_signstate_has_keypair(t) && !noise_signstate_has_public_key(t), "keys in a new object");
        break;
    }
    }
}

// ------------------------------------------------------------------ C21
// The generator as its documentation describes it: OpenBSD's arc4random.
static Bytes chacha(const Bytes &key, const Bytes &iv16, size_t n) {
    Bytes z(n), out(n + 64);
    int l = 0;
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
    if (!x || EVP_EncryptInit_ex(x, EVP_chacha20(), nullptr, key.data(), iv16.data()) != 1 ||
        (n && EVP_EncryptUpdate(x, out.data(), &l, z.data(), (int)n) != 1)) abort();
    EVP_CIPHER_CTX_free(x);
    out.resize(n);
    return out;
}
struct MRand {
    Bytes key, nonce;           // nonce: 8 bytes (ref), 12 (libsodium)
    uint64_t ctr = 0;           // ref: blocks used since the last rekey
    size_t left = 0;
    size_t seeds = 0, seed_bytes = 0;
    const Bytes *entropy = nullptr; size_t pos = 0;
    bool so = g_backend == "sodium";
    MRand() {
        static const uint8_t iv[32] = {0x6A, 0x09, 0xE6, 0x67, 0xBB, 0x67, 0xAE, 0x85, 0x3C, 0x6E, 0xF3, 0x72, 0xA5, 0x4F, 0xF5, 0x3A,
            0x51, 0x0E, 0x52, 0x7F, 0x9B, 0x05, 0x68, 0x8C, 0x1F, 0x83, 0xD9, 0xAB, 0x5B, 0xE0, 0xCD, 0x19};
        key.assign(iv, iv + 32);
        nonce.assign(so ? 12 : 8, 0);
    }
    Bytes stream(uint64_t c, size_t n) {
        Bytes iv;
        for (int i = 0; i < (so ? 4 : 8); ++i) iv.push_back((uint8_t)(c >> (8 * i)));
        iv.insert(iv.end(), nonce.begin(), nonce.end());
        return chacha(key, iv, n);
    }
    void set(const Bytes &d) { key = sub(d, 0, 32); nonce = sub(d, 32, d.size() - 32); ctr = 0; }
    size_t slen() { return so ? 44 : 40; }
    void rekey() { set(stream(so ? 0 : ctr, slen())); }
    void reseed() {
        Bytes d = stream(so ? 0 : ctr, slen());
        for (size_t i = 0; i < d.size(); ++i) {
            CHECK(pos < entropy->size(), "more seed material was due than was drawn (%zu bytes)", entropy->size());
            d[i] ^= (*entropy)[pos++];
        }
        set(d);
        ++seeds; seed_bytes += d.size();
        left = 1600000;
        rekey();
    }
    Bytes generate(size_t len) {
        Bytes out;
        if (left < len) reseed();
        size_t blocks = 0;
        while (len) {
            size_t k = len > 64 ? 64 : len;
            if (left >= 64) left -= 64;
            else { reseed(); blocks = 0; }
            if (blocks == 16) { rekey(); blocks = 0; }
            else ++blocks;
            Bytes s = stream(so ? blocks + 1 : ctr, k);
            if (!so) ++ctr;
            out.insert(out.end(), s.begin(), s.end());
            len -= k;
        }
        rekey();
        return out;
    }
};
static size_t gen_len(Gen &g, size_t &budget) {
    size_t n;
    switch (g.u(9)) {
    case 0: n = g.u(3); break;
    case 1: n = 62 + g.u(4); break;
    case 2: n = 1020 + g.u(140); break;
    case 3: n = g.u(5000); break;
    case 4: n = 2100 + g.u(140); break;
    case 5: case 6: {
        static const size_t big[] = {1599872, 1599936, 1599937, 1599990, 1600000, 1600001, 1600064, 1600128, 800000, 3200000, 3300000};
        n = big[g.u(10)] + g.u(2) - 1;
        if (!g.chance(1, 8)) n = g.u(70000);
        break;
    }
    default: n = g.u(130);
    }
    if (n > budget) n = g.u(100);
    budget -= n < budget ? n : budget;
    return n;
}
static void rand_history(Gen &g, bool big) {
    size_t budget = big ? 7000000 : 100000;
    Bytes drawn;
    env_rand_log = &drawn;
    struct Off { ~Off() { env_rand_log = nullptr; } } off;
    NoiseRandState *st[2] = {nullptr, nullptr};
    MRand m[2];
    Bytes ent[2];              // per object: the seed material it drew
    struct Fin { NoiseRandState **s; ~Fin() { for (int i = 0; i < 2; ++i) if (s[i]) noise_randstate_free(s[i]); } } fin{st};
    int objs = g.chance(1, 4) ? 2 : 1;
    auto take = [&](int i) { ent[i].insert(ent[i].end(), drawn.begin(), drawn.end()); drawn.clear(); };
    auto settle = [&](int i, const char *what) {
        CHECK(m[i].pos == ent[i].size(), "%s drew %zu bytes of seed material, %zu expected", what, ent[i].size(), m[i].pos);
    };
    for (int i = 0; i < objs; ++i) {
        m[i].entropy = &ent[i];
        CHECK_EQ(noise_randstate_new(&st[i]), 0, "new");
        take(i);
        m[i].reseed();
        settle(i, "a new object");
    }
    std::string key;
    int n = 1 + (int)g.u(big ? 5 : 14), kinds = 0;
    for (int k = 0; k < n; ++k) {
        int i = objs == 2 ? (int)g.u(1) : 0;
        switch (g.u(6)) {
        case 0: {
            CHECK_EQ(noise_randstate_reseed(st[i]), 0, "reseed");
            take(i);
            m[i].reseed();
            settle(i, "reseed");
            key += "r";
            break;
        }
        case 1: {               // padding
            size_t budget2 = 3000, orig = g.u(200), pad = g.flip() ? orig + gen_len(g, budget2) : g.u(400);
            int mode = g.flip() ? NOISE_PADDING_ZERO : g.flip() ? NOISE_PADDING_RANDOM : (int)g.u(0xffff);
            size_t total = pad > orig ? pad : orig;
            Bytes data = g.rnd(orig);
            Buf b(total);
            memcpy(b.p, data.data(), orig);
            key += strf("p%zu,%zu,%d", orig, pad, mode == NOISE_PADDING_ZERO);
            CHECK_EQ(noise_randstate_pad(st[i], b.p, orig, pad, mode), 0, "pad");
            take(i);
            CHECK(!orig || !memcmp(b.p, data.data(), orig), "padding changed the payload");
            if (pad > orig) {
                Bytes w(pad - orig);
                if (mode != NOISE_PADDING_ZERO) w = m[i].generate(pad - orig);
                CHECK(sub(b.bytes(), orig, pad - orig) == w, "%s padding of %zu bytes is %s, expected %s", mode == NOISE_PADDING_ZERO ? "zero" : "random", pad - orig,
                      hex(b.p + orig, pad - orig, 24).c_str(), hex(w, 24).c_str());
            }
            settle(i, "padding");
            break;
        }
        case 2: if (g.chance(1, 3)) {        // wrong arguments
            Buf b(40);
            CHECK_EQ(noise_randstate_generate(nullptr, b.p, 20), NOISE_ERROR_INVALID_PARAM, "null object");
            for (int q = 0; q < 40; ++q) CHECK(b.p[q] == (q < 20 ? 0 : 0xa5), "generate with a null object: the buffer is not zeroed as documented");
            CHECK_EQ(noise_randstate_generate(st[i], nullptr, 20), NOISE_ERROR_INVALID_PARAM, "null buffer");
            CHECK_EQ(noise_randstate_pad(nullptr, b.p, 25, 30, NOISE_PADDING_RANDOM), NOISE_ERROR_INVALID_PARAM, "null object");
            for (int q = 20; q < 40; ++q) CHECK(b.p[q] == (q >= 25 && q < 30 ? 0 : 0xa5), "pad with a null object: the padding is not zeroed");
            CHECK_EQ(noise_randstate_pad(st[i], nullptr, 0, 10, NOISE_PADDING_ZERO), NOISE_ERROR_INVALID_PARAM, "null payload");
            CHECK_EQ(noise_randstate_reseed(nullptr), NOISE_ERROR_INVALID_PARAM, "null object");
            CHECK_EQ(noise_randstate_new(nullptr), NOISE_ERROR_INVALID_PARAM, "null object");
            CHECK_EQ(noise_randstate_free(nullptr), NOISE_ERROR_INVALID_PARAM, "null object");
            CHECK_EQ(noise_randstate_generate_simple(nullptr, 5), NOISE_ERROR_INVALID_PARAM, "null buffer");
            CHECK(drawn.empty(), "entropy drawn by calls that fail");
            key += "x";
            break;
        } else {                // generate_simple: an object of its own
            size_t len = gen_len(g, budget);
            Buf b(len + 4);
            CHECK_EQ(noise_randstate_generate_simple(b.p, len), 0, "generate_simple");
            Bytes e = drawn;
            drawn.clear();
            MRand t;
            t.entropy = &e;
            t.reseed();
            Bytes w = t.generate(len);
            CHECK(b.bytes(len) == w, "generate_simple of %zu bytes is %s, expected %s", len, hex(b.p, len, 24).c_str(), hex(w, 24).c_str());
            for (int q = 0; q < 4; ++q) CHECK(b.p[len + q] == 0xa5, "wrote past the request");
            CHECK(t.pos == e.size(), "generate_simple drew %zu bytes of seed material, %zu expected", e.size(), t.pos);
            key += strf("s%zu", len);
            break;
        }
        default: {
            size_t len = gen_len(g, budget);
            Buf b(len + 4);
            CHECK_EQ(noise_randstate_generate(st[i], b.p, len), 0, "generate");
            take(i);
            Bytes w = m[i].generate(len);
            size_t d = 0;
            while (d < len && b.p[d] == w[d]) ++d;
            CHECK(d == len, "request %d of %zu bytes differs from the documented stream at byte %zu (%zu seeds so far)", k, len, d, m[i].seeds);
            for (int q = 0; q < 4; ++q) CHECK(b.p[len + q] == 0xa5, "wrote past the request");
            settle(i, "a request");
            key += strf("g%zu", len);
        }
        }
        ++kinds;
    }
    g.note("%d objects, %d calls: %s", objs, n, key.substr(0, 200).c_str());
    g.key(key);
    g.nontrivial(kinds >= 2);
    if (m[0].seeds > 1) g.label("reseeded");
    // a fresh object seeded with the same material is another one's equal only
    // in the model; the streams of two objects never agree
    if (objs == 2) {
        Buf a(32), b(32);
        noise_randstate_generate(st[0], a.p, 32);
        noise_randstate_generate(st[1], b.p, 32);
        CHECK(memcmp(a.p, b.p, 32), "two objects gave the same stream");
    }
}
TARGET(C21, history, 3, "sequences of generate (0 to 70000 bytes), reseed, padding and one-shot requests on one or two objects, compared byte for byte with a model of the documented ChaCha20 generator fed with the same entropy, entropy consumption included; non-trivial with at least two calls; distinct by sequence") { rand_history(g, false); }
// many small requests: every one counts a whole block towards the next reseed
TARGET(C21, bursts, 1, "thousands of requests of at most a few blocks each on one object, up to and across the reseed limit (sometimes after one long request that brings the limit near), each compared with the model, entropy consumption included; non-trivial when the limit is crossed; distinct by sizes") {
    Bytes drawn, ent;
    env_rand_log = &drawn;
    struct Off { ~Off() { env_rand_log = nullptr; } } off;
    MRand m;
    m.entropy = &ent;
    NoiseRandState *st = nullptr;
    struct Fin { NoiseRandState **s; ~Fin() { if (*s) noise_randstate_free(*s); } } fin{&st};
    CHECK_EQ(noise_randstate_new(&st), 0, "new");
    auto take = [&]() { ent.insert(ent.end(), drawn.begin(), drawn.end()); drawn.clear(); };
    take();
    m.reseed();
    size_t first = g.chance(2, 3) ? 1500000 + g.u(99999) : 0;
    if (first) {
        Buf b(first);
        CHECK_EQ(noise_randstate_generate(st, b.p, first), 0, "generate");
        take();
        Bytes w = m.generate(first);
        CHECK(b.bytes(first) == w, "a request of %zu bytes differs from the documented stream", first);
    }
    size_t top = g.flip() ? 1 + g.u(63) : 1 + g.u(200);
    bool same = g.flip();
    size_t upper = (1600000 - first) / 64 + 200, n = 0;
    uint64_t x = g.u(0xffffffff) | 1;
    g.note("%zu bytes, then up to %zu requests of %s%zu bytes", first, upper, same ? "" : "at most ", top);
    g.key(strf("%zu,%zu,%d", first, top, same));
    uint8_t buf[256];
    for (; n < upper && m.seeds < 3; ++n) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        size_t len = same ? top : 1 + (x >> 33) % top;
        CHECK_EQ(noise_randstate_generate(st, buf, len), 0, "generate");
        take();
        Bytes w = m.generate(len);
        CHECK(!memcmp(buf, w.data(), len), "request %zu of %zu bytes differs from the documented stream (%zu seeds so far)", n, len, m.seeds);
        CHECK(m.pos == ent.size(), "request %zu of %zu bytes: %zu bytes of seed material drawn so far, %zu expected", n, len, ent.size(), m.pos);
    }
    g.nontrivial(m.seeds >= 2);
    if (m.seeds >= 2) g.label("reseeded");
}
TARGET(C21, reseeding, 1, "the same around the 1,600,000-byte reseed limit (single requests beyond it, and its crossing at any offset); non-trivial with at least two calls; distinct by sequence") { rand_history(g, true); }
