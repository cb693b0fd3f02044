// C16: coverage-guided fuzzing of every parser (libFuzzer).  The oracle:
// sanitizers, no memory left behind, memory in proportion to the input,
// everything an accepted object points to is readable.
#include "nutil.h"
#include "oracle.h"
#include "keyobj.h"
#include <stdio.h>
#include <stdlib.h>
#include <unordered_set>

struct R {
    const uint8_t *p; size_t n;
    uint8_t b() { if (!n) return 0; --n; return *p++; }
    unsigned w() { unsigned x = b(); return x | b() << 8; }
    Bytes take(size_t k) { if (k > n) k = n; Bytes r(p, p + k); p += k; n -= k; return r; }
    Bytes rest() { return take(n); }
};
static bool accepted;                // the input got past the first structural check
static void bad(const char *what) { fprintf(stderr, "FUZZ-FAIL: %s\n", what); abort(); }
static volatile uint8_t sink;
static void touch(const void *p, size_t n) { const uint8_t *b = (const uint8_t *)p; uint8_t x = 0; for (size_t i = 0; i < n; ++i) x ^= b[i]; sink = x; }

static void touch_obj(const MD *md, const void *o) {
    for (auto &f : md->f) switch (f.t) {
    case U32: sink = (uint8_t)f.getu(o); break;
    case STR: case BYT: { const void *p = f.getp(o); if (p) touch(p, f.getsz(o) + (f.t == STR)); break; }
    case MSG: { const void *s = f.getm(o); if (s) touch_obj(f.sub, s); break; }
    case REP: for (size_t i = 0; i < f.count(o); ++i) { const void *s = f.at(o, i); if (!s) bad("an element of a list is null"); touch_obj(f.sub, s); } break;
    }
}
static void write_back(const MD *md, const void *o) {
    NoiseProtobuf p;
    size_t n = 0;
    noise_protobuf_prepare_measure(&p, 0x7fffffff);
    if (md->write(&p, 0, o) || noise_protobuf_finish_measure(&p, &n)) return;
    Buf b(n);
    noise_protobuf_prepare_output(&p, b.p, b.n);
    md->write(&p, 0, o);
    Buf c(n ? n - 1 : 0);
    noise_protobuf_prepare_output(&p, c.p, c.n);
    md->write(&p, 0, o);
}

static void f_certs(R r) {
    unsigned what = r.b() % 12;
    Buf in(r.rest());
    NoiseProtobuf p;
    noise_protobuf_prepare_input(&p, in.p, in.n);
    const MD *md = what < 10 ? ALLMD[what] : what == 10 ? &md_Certificate : &md_CertificateChain;
    void *o = (void *)1;
    int err = what < 10 ? md->read(&p, 0, &o) : what == 10 ? noise_load_certificate_from_buffer((Noise_Certificate **)&o, &p)
            : noise_load_certificate_chain_from_buffer((Noise_CertificateChain **)&o, &p);
    if (err) { if (o) bad("an object was returned with an error"); return; }
    if (!o) { if (what < 10) bad("success without an object"); return; }
    noise_protobuf_finish_input(&p);
    accepted = in.n > 0;
    touch_obj(md, o);
    write_back(md, o);
    md->destroy(o);
}
// first byte: how the rest is used
static void f_enckey(R r) {
    unsigned how = r.b();
    Bytes pass(1 + how % 7, 'p'), file;
    if (how & 0x80) {            // the rest is the plaintext
        int c = how & 1, h = (how >> 1) & 3;
        Bytes salt(how & 16 ? 16 : how & 15, 's'), key; uint64_t n;
        derive(h, pass, salt, 1, key, n);
        PObj e = mk(&md_EncryptedPrivateKey);
        e->v[0].u = 1;
        e->v[1].set = e->v[2].set = e->v[4].set = true;
        e->v[1].b = str(protect_name(c, h));
        e->v[2].b = salt;
        e->v[3].u = 1;
        e->v[4].b = o_encrypt((OCipher)c, key, n, Bytes(), r.rest());
        file = encode(*e);
    } else {
        file = r.rest();
        bool un = false;
        PObj e = decode(&md_EncryptedPrivateKey, file, &un);
        if (e && e->v[3].u > 200) return;           // takes too long
        if (un) return;
    }
    Buf in(file), pw(pass);
    NoiseProtobuf p;
    noise_protobuf_prepare_input(&p, in.p, in.n);
    void *o = (void *)1;
    int err = noise_load_private_key_from_buffer((Noise_PrivateKey **)&o, &p, pw.p, pw.n);
    accepted = err == 0 || err == NOISE_ERROR_MAC_FAILURE || (how & 0x80);
    if (err) { if (o) bad("an object was returned with an error"); return; }
    if (!o) bad("success without an object");
    touch_obj(&md_PrivateKey, o);
    write_back(&md_PrivateKey, o);
    md_PrivateKey.destroy(o);
}
static void f_pbuf(R r) {
    Bytes prog = r.take(r.b() % 24);
    Buf in(r.rest());
    NoiseProtobuf p;
    noise_protobuf_prepare_input(&p, in.p, in.n);
    std::vector<size_t> ends;
    int ok = 0;
    void **arr = nullptr; (void)arr;
    auto step = [&](unsigned op, int tag) {
        int32_t i32 = 0; uint32_t u32 = 0; int64_t i64 = 0; uint64_t u64 = 0; float f; double d; int b;
        int e = 0;
        switch (op % 24) {
        case 0: e = noise_protobuf_read_int32(&p, tag, &i32); break;
        case 1: e = noise_protobuf_read_uint32(&p, tag, &u32); break;
        case 2: e = noise_protobuf_read_int64(&p, tag, &i64); break;
        case 3: e = noise_protobuf_read_uint64(&p, tag, &u64); break;
        case 4: e = noise_protobuf_read_sint32(&p, tag, &i32); break;
        case 5: e = noise_protobuf_read_sint64(&p, tag, &i64); break;
        case 6: e = noise_protobuf_read_sfixed32(&p, tag, &i32); break;
        case 7: e = noise_protobuf_read_fixed32(&p, tag, &u32); break;
        case 8: e = noise_protobuf_read_sfixed64(&p, tag, &i64); break;
        case 9: e = noise_protobuf_read_fixed64(&p, tag, &u64); break;
        case 10: e = noise_protobuf_read_float(&p, tag, &f); break;
        case 11: e = noise_protobuf_read_double(&p, tag, &d); break;
        case 12: e = noise_protobuf_read_bool(&p, tag, &b); break;
        case 13: { size_t cap = op >= 128 ? 1 + (op & 15) : 300, n = 0; Buf s(cap); e = noise_protobuf_read_string(&p, tag, (char *)s.p, cap, &n); if (!e) { if (n >= cap) bad("string longer than its buffer"); touch(s.p, n + 1); } break; }
        case 14: { size_t n = 0; char *s = nullptr; e = noise_protobuf_read_alloc_string(&p, tag, &s, op >= 128 ? op & 15 : 0, &n); if (s) { touch(s, n + 1); noise_protobuf_free_memory(s, n + 1); } break; }
        case 15: { size_t cap = op >= 128 ? op & 15 : 300, n = 0; Buf s(cap); e = noise_protobuf_read_bytes(&p, tag, s.p, cap, &n); if (!e) { if (n > cap) bad("bytes longer than their buffer"); touch(s.p, n); } break; }
        case 16: { size_t n = 0; void *s = nullptr; e = noise_protobuf_read_alloc_bytes(&p, tag, &s, op >= 128 ? op & 15 : 0, &n); if (s) { touch(s, n); noise_protobuf_free_memory(s, n); } break; }
        case 17: { size_t end = 0; e = noise_protobuf_read_start_element(&p, tag, &end); if (!e) ends.push_back(end); break; }
        case 18: if (!ends.empty()) { e = noise_protobuf_read_end_element(&p, ends.back()); ends.pop_back(); } break;
        case 19: if (!ends.empty()) sink = noise_protobuf_read_at_end_element(&p, ends.back()); break;
        case 20: e = noise_protobuf_read_skip(&p); break;
        case 21: sink = noise_protobuf_peek_tag(&p); break;
        case 22: sink = (uint8_t)noise_protobuf_peek_size(&p); break;
        default: if (op >= 240) e = noise_protobuf_read_stop(&p); else sink = (uint8_t)noise_protobuf_peek_tag(&p);
        }
        if (p.posn > p.size) bad("position beyond the data");
        if (e == 0) ++ok;
    };
    // pairs of operation and tag; tag 0 means the one that is next
    for (size_t i = 0; i + 1 < prog.size(); i += 2) {
        int tag = prog[i + 1] == 0 ? noise_protobuf_peek_tag(&p) : prog[i + 1] == 255 ? 0 : prog[i + 1];
        if (tag < 0) tag = 0;
        step(prog[i], tag);
    }
    while (p.error == 0 && p.posn < p.size) {
        size_t before = p.posn;
        step(20, 0);
        if (p.posn == before) break;
    }
    noise_protobuf_finish_input(&p);
    accepted = ok > 1;
}
static void f_names(R r) {
    unsigned what = r.b();
    if (what % 4 == 0) {
        NoiseProtocolId id;
        memset(&id, 0, sizeof id);
        Bytes b = r.take(sizeof id);
        memcpy(&id, b.data(), b.size());
        Buf out(r.b());
        int err = noise_protocol_id_to_name((char *)out.p, out.n, &id);
        if (!err) { if (!memchr(out.p, 0, out.n)) bad("name without an end"); accepted = true; }
        return;
    }
    Bytes text = r.rest();
    Buf in(text);
    if (what % 4 == 1) {
        NoiseProtocolId id;
        if (noise_protocol_name_to_id(&id, (const char *)in.p, in.n) == 0) {
            accepted = true;
            Buf out(1 + text.size() * 2 + 64);
            noise_protocol_id_to_name((char *)out.p, out.n, &id);
        }
    } else if (what % 4 == 2) {
        static const int cats[] = {0, NOISE_CIPHER_CATEGORY, NOISE_HASH_CATEGORY, NOISE_DH_CATEGORY, NOISE_PATTERN_CATEGORY, NOISE_PREFIX_CATEGORY, NOISE_SIGN_CATEGORY, -1};
        accepted = noise_name_to_id(cats[(what >> 2) & 7], (const char *)in.p, in.n) != 0;
    } else {
        Buf z(text + Bytes(1, 0));
        const char *n = (const char *)z.p;
        int e = 1;
        switch ((what >> 2) % 6) {
        case 0: { NoiseHandshakeState *s = nullptr; e = noise_handshakestate_new_by_name(&s, n, what & 64 ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER); if (s) noise_handshakestate_free(s); break; }
        case 1: { NoiseSymmetricState *s = nullptr; e = noise_symmetricstate_new_by_name(&s, n); if (s) noise_symmetricstate_free(s); break; }
        case 2: { NoiseCipherState *s = nullptr; e = noise_cipherstate_new_by_name(&s, n); if (s) noise_cipherstate_free(s); break; }
        case 3: { NoiseHashState *s = nullptr; e = noise_hashstate_new_by_name(&s, n); if (s) noise_hashstate_free(s); break; }
        case 4: { NoiseDHState *s = nullptr; e = noise_dhstate_new_by_name(&s, n); if (s) noise_dhstate_free(s); break; }
        default: { NoiseSignState *s = nullptr; e = noise_signstate_new_by_name(&s, n); if (s) noise_signstate_free(s); break; }
        }
        accepted = e == 0;
    }
}
static void f_session(R r) {
    static const int hashes[] = {NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512};
    static const int dhs[] = {NOISE_DH_CURVE25519, NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE};
    Suite s;
    unsigned a = r.b(), b = r.b();
    s.pattern = PATTERNS[a % PATTERNS.size()].id;
    s.prefix = b & 1 ? NOISE_PREFIX_PSK : NOISE_PREFIX_STANDARD;
    s.cipher = b & 2 ? NOISE_CIPHER_AESGCM : NOISE_CIPHER_CHACHAPOLY;
    s.hash = hashes[(b >> 2) & 3];
    s.dh = dhs[(b >> 4) & 3];
    if (s.dh == NOISE_DH_NEWHOPE && s.pattern != NOISE_PATTERN_NN && s.pattern != NOISE_PATTERN_NN_HFS) s.dh = NOISE_DH_CURVE25519;
    if (s.hfs()) s.hybrid = dhs[(1 + (b >> 6)) & 3];
    NoiseProtocolId id = s.id();
    struct St { NoiseHandshakeState *h = nullptr; NoiseCipherState *c[2] = {0, 0}; ~St() { if (h) noise_handshakestate_free(h); for (auto x : c) if (x) noise_cipherstate_free(x); } } st[2];
    for (int i = 0; i < 2; ++i) {
        if (noise_handshakestate_new_by_id(&st[i].h, &id, i ? NOISE_ROLE_RESPONDER : NOISE_ROLE_INITIATOR)) return;
        NoiseDHState *d;
        uint8_t k[56] = {1, (uint8_t)i, 3};
        if ((d = noise_handshakestate_get_local_keypair_dh(st[i].h)) && noise_handshakestate_needs_local_keypair(st[i].h))
            noise_dhstate_set_keypair_private(d, k, noise_dhstate_get_private_key_length(d));
        if (s.psk()) noise_handshakestate_set_pre_shared_key(st[i].h, k, 32);
        if (noise_handshakestate_needs_remote_public_key(st[i].h) && (d = noise_handshakestate_get_remote_public_key_dh(st[i].h))) {
            k[1] = 1 - i;
            MKey m = mkey(s.dh, Bytes(k, k + noise_dhstate_get_private_key_length(d)));
            noise_dhstate_set_public_key(d, m.pub.data(), m.pub.size());
        }
        if (noise_handshakestate_start(st[i].h)) return;
    }
    Bytes last;
    for (int step = 0; step < 8; ++step) {
        int w = noise_handshakestate_get_action(st[0].h) == NOISE_ACTION_WRITE_MESSAGE ? 0 : 1;
        if (noise_handshakestate_get_action(st[w].h) != NOISE_ACTION_WRITE_MESSAGE) break;
        unsigned op = r.b();
        Bytes payload = r.take(r.b() % 70);
        Buf pin(payload), mout(4200);
        NoiseBuffer mb, pb;
        noise_buffer_set_output(mb, mout.p, mout.n);
        noise_buffer_set_input(pb, pin.p, pin.n);
        if (noise_handshakestate_write_message(st[w].h, &mb, op & 0x40 ? nullptr : &pb)) break;
        Bytes m(mb.data, mb.data + mb.size), now = m;
        switch (op & 15) {
        case 8: m = r.take(r.w() % 4000); break;
        case 9: if (!m.empty()) { m[r.w() % m.size()] ^= r.b() | 1; } break;
        case 10: m.resize(r.w() % (m.size() + 1)); break;
        case 11: m = m + r.take(r.b()); break;
        case 12: m = last; break;
        case 13: { size_t at = r.w() % (m.size() + 1); Bytes x = r.take(r.b() % 64); for (size_t i = 0; i < x.size() && at + i < m.size(); ++i) m[at + i] = x[i]; break; }
        case 14: if (!m.empty()) m.resize(m.size() - 1 - r.b() % m.size()); break;
        default: break;
        }
        last = now;
        Buf min(m), pout(op & 0x80 ? r.b() : 70);
        noise_buffer_set_input(mb, min.p, min.n);
        noise_buffer_set_output(pb, pout.p, pout.n);
        int err = noise_handshakestate_read_message(st[1 - w].h, &mb, op & 0x20 ? nullptr : &pb);
        if (!err && !(op & 0x20) && pb.size > pout.n) bad("payload larger than its buffer");
        if (!err) accepted = true;
        else if ((op & 0x10) && noise_handshakestate_fallback(st[1].h) == 0) {
            if (noise_handshakestate_fallback(st[0].h)) break;
            for (int i = 0; i < 2; ++i) {
                NoiseDHState *d = noise_handshakestate_get_local_keypair_dh(st[i].h);
                uint8_t k[56] = {1, (uint8_t)i, 3};
                if (d && noise_handshakestate_needs_local_keypair(st[i].h)) noise_dhstate_set_keypair_private(d, k, noise_dhstate_get_private_key_length(d));
                if (noise_handshakestate_start(st[i].h)) return;
            }
            continue;
        } else break;
    }
    for (int i = 0; i < 2; ++i) noise_handshakestate_split(st[i].h, &st[i].c[0], &st[i].c[1]);
    for (int step = 0; step < 6 && r.n; ++step) {
        unsigned op = r.b();
        int from = op & 1;
        if (!st[from].c[0] || !st[1 - from].c[1]) break;
        Bytes pt = r.take(r.b());
        size_t len = pt.size(), cap = op & 2 ? len + 16 : len + r.b() % 20;
        Bytes wide = pt; wide.resize(cap, 0);
        Buf b(wide);
        NoiseBuffer nb;
        noise_buffer_set_inout(nb, b.p, len, cap);
        bool raw = (op & 0x0c) == 0x0c;
        if (!raw && noise_cipherstate_encrypt(st[from].c[0], &nb)) { if (nb.size > cap) bad("size beyond the capacity"); continue; }
        Bytes ct(b.p, b.p + (nb.size < cap ? nb.size : cap));
        if ((op & 0x0c) == 4 && !ct.empty()) ct[r.b() % ct.size()] ^= 1 + r.b() % 255;
        if ((op & 0x0c) == 8) ct.resize(r.b() % (ct.size() + 1));
        Buf c(ct);
        noise_buffer_set_inout(nb, c.p, c.n, c.n);
        Buf ad(r.take(op & 0x10 ? r.b() % 40 : 0));
        int e = op & 0x20 ? noise_cipherstate_decrypt_with_ad(st[1 - from].c[1], ad.p, ad.n, &nb) : noise_cipherstate_decrypt(st[1 - from].c[1], &nb);
        if (nb.size > c.n) bad("plaintext larger than its buffer");
        if (!e) accepted = true;
    }
}

// ------------------------------------------------ generators of structured input
static Bytes pre(uint8_t b, const Bytes &x) { return Bytes(1, b) + x; }
static Bytes g_certs(Gen &g) {
    unsigned what = (unsigned)g.u(11);
    const MD *md = what < 10 ? ALLMD[what] : g.flip() ? &md_Certificate : &md_CertificateChain;
    PObj o = gen_obj(g, md, g.chance(1, 10), 1);
    Bytes d = g.flip() ? encode(*o) : scramble(g, *o);
    if (g.flip()) d = damage(g, d);
    return pre((uint8_t)what, d);
}
static Bytes g_enckey(Gen &g) {
    PObj k = gen_obj(g, &md_PrivateKey, false, 1);
    if (g.flip()) {
        Bytes d = g.flip() ? encode(*k) : scramble(g, *k);
        return pre(0x80 | (uint8_t)g.u(127), g.flip() ? damage(g, d) : d);
    }
    unsigned how = (unsigned)g.u(127);
    Bytes pass(1 + how % 7, 'p');
    Bytes d = enc_file(g, *k, (int)g.u(1), (int)g.u(3), pass, g.bytes(g.u(20)), 1 + (unsigned)g.u(2));
    return pre((uint8_t)how, g.flip() ? damage(g, d) : d);
}
static Bytes g_pbuf(Gen &g) {
    unsigned n = 2 * (unsigned)g.u(11);
    Bytes b = pre((uint8_t)n, Bytes());
    for (unsigned i = 0; i < n; ++i) b.push_back(i & 1 ? (g.flip() ? 0 : (uint8_t)g.u(16)) : (uint8_t)g.u(255));
    PObj o = gen_obj(g, ALLMD[g.u(9)], true, 1);
    Bytes d = g.flip() ? scramble(g, *o) : g.bytes(g.u(40));
    for (unsigned i = (unsigned)g.u(3); i; --i) { Bytes v; put_varint(v, g.u(20) << 3 | g.u(5)); put_varint(v, g.u64(), (int)g.u(12)); d = d + v; }
    return b + (g.flip() ? damage(g, d) : d);
}
static Bytes g_names(Gen &g) {
    Suite s = gen_suite(g, false, true);
    Bytes n = str(s.name());
    unsigned what = (unsigned)g.u(255);
    if (what % 4 == 0) { NoiseProtocolId id = s.id(); Bytes b((uint8_t *)&id, (uint8_t *)&id + sizeof id); b.push_back((uint8_t)g.u(255)); return pre((uint8_t)what, b); }
    if (what % 4 == 2 || (what % 4 == 3 && (what >> 2) % 6 >= 2)) n = str(g.pick(std::vector<std::string>{cipher_name(s.cipher), hash_name(s.hash), dh_name(s.dh), pattern_info(s.pattern).name, "NoisePSK", "Ed25519"}));
    if (g.flip()) n = damage(g, n);
    return pre((uint8_t)what, n);
}
static Bytes g_session(Gen &g) {
    Bytes b = {(uint8_t)g.u(255), (uint8_t)g.u(255)};
    for (int i = 0, n = 1 + (int)g.u(9); i < n; ++i) {
        b.push_back(g.chance(2, 3) ? (uint8_t)g.u(7) : (uint8_t)g.u(255));
        unsigned l = (unsigned)g.u(60);
        b.push_back((uint8_t)l);
        b = b + g.rnd(l) + g.rnd(g.u(4));
    }
    return b + g.rnd(g.u(100));
}
struct FT_ { const char *name; void (*fn)(R); Bytes (*gen)(Gen &); };
static const FT_ FTS[] = {{"certs", f_certs, g_certs}, {"enckey", f_enckey, g_enckey}, {"pbuf", f_pbuf, g_pbuf}, {"names", f_names, g_names}, {"session", f_session, g_session}};
static const FT_ *T = nullptr;
static uint64_t evals = 0, nontriv = 0;
static std::unordered_set<uint64_t> *seen;
static std::vector<std::string> samples;
static void stats() {
    const char *f = getenv("VERIF_FUZZ_STATS");
    FILE *o = f ? fopen(f, "w") : nullptr;
    if (!o) return;
    fprintf(o, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"distinct\": %zu, \"samples\": [", (unsigned long long)evals, (unsigned long long)nontriv, seen->size());
    for (size_t i = 0; i < samples.size(); ++i) fprintf(o, "%s\"%s\"", i ? ", " : "", samples[i].c_str());
    fprintf(o, "]}\n");
    fclose(o);
}
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    ossl_hook();
    const char *n = getenv("VERIF_FUZZ_TARGET");
    for (auto &t : FTS) if (n && !strcmp(n, t.name)) T = &t;
    if (!T) { fprintf(stderr, "VERIF_FUZZ_TARGET?\n"); exit(2); }
    seen = new std::unordered_set<uint64_t>;
    atexit(stats);
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    env_rand_seed(5);
    accepted = false;
    alloc_begin();
    T->fn(R{d, n});
    size_t live = alloc_live(), peak = alloc_peak();
    alloc_end();
    if (live) { fprintf(stderr, "FUZZ-FAIL: %zu blocks are still allocated: %s\n", live, alloc_live_report().c_str()); abort(); }
    // a message object is less than 200 bytes and takes at least two bytes of input
    if (peak > 65536 + 400 * n) { fprintf(stderr, "FUZZ-FAIL: %zu bytes of memory for %zu bytes of input\n", peak, n); abort(); }
    ++evals;
    if (accepted) {
        ++nontriv;
        uint64_t h = 14695981039346656037ull;
        for (size_t i = 0; i < n; ++i) h = (h ^ d[i]) * 0x100000001b3ull;
        if (seen->size() < (1u << 21) && seen->insert(h).second && samples.size() < 3 && (seen->size() & 255) == 1) samples.push_back(std::string(T->name) + ": " + hex(d, n, 60));
    }
    return 0;
}
extern "C" size_t LLVMFuzzerMutate(uint8_t *, size_t, size_t);
extern "C" size_t LLVMFuzzerCustomMutator(uint8_t *d, size_t n, size_t max, unsigned seed) {
    Prng r(seed);
    if (r.next() % 4) return LLVMFuzzerMutate(d, n, max);
    Gen g;
    g.prng.reseed(r.next());
    Bytes b = T->gen(g);
    if (b.size() > max) b.resize(max);
    if (!b.empty()) memcpy(d, b.data(), b.size());
    return b.size();
}
