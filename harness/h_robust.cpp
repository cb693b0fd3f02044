// C23: buffers.  C24: secrets wiped from freed memory.  C25: allocation failures.
#include "robust.h"
#include <noise/protobufs.h>
#include <map>
#include <memory>
#include <algorithm>
#include <set>

static void setup(Gen &g) { env_rand_seed(g.u(0xffffffffull)); }
static void teardown(Gen &, bool) { ossl_gate = false; alloc_end(); model_secret = nullptr; }
static struct Init { Init() { ossl_hook(); case_setup = setup; case_teardown = teardown; } } init_;


// ------------------------------------------------------------------ C23
TARGET(C23, handshake, 3, "a handshake whose messages are written into and whose payloads are read into buffers of exactly enough, more, or too little room, with guard bytes or exactly sized blocks around; distinct by protocol, message and capacities") {
    Suite s = gen_suite(g);
    Keys k = gen_keys(g, s);
    Lib lib[2]; MHandshake m[2];
    for (int i = 0; i < 2; ++i) {
        lib_new(g, lib[i], s, i == 0);
        lib_config(g, lib[i], s, i == 0, k, true);
        model_config(m[i], s, i == 0, k);
        CHECK_EQ(noise_handshakestate_start(lib[i].st), 0, "start");
        m[i].start();
    }
    g.note("%s", s.name().c_str());
    g.key(s.name());
    MPattern p = m[0].pat;
    for (size_t i = 0; i < p.msgs.size(); ++i) {
        int w = p.msgs[i].from_initiator ? 0 : 1, r = 1 - w;
        Bytes payload = g.bytes(gen_payload_len(g, 65535 - m[w].overhead()));
        Bytes want = m[w].write(payload);
        // earlier messages mostly have room, so that later ones are reached
        bool tight = i + 1 == p.msgs.size() || g.chance(1, 3);
        size_t cap = tight ? pick_cap(g, want.size()) : want.size() + g.u(3);
        g.note(" write %zu into %zu", want.size(), cap);
        g.key(strf("%zu/%zu:%zu", i, cap, want.size()));
        Out out(g, cap), in(g, payload);
        NoiseBuffer mb, pb;
        noise_buffer_set_output(mb, out.p, cap);
        if (g.chance(1, 4)) mb.size = g.u(cap);      // ignored: the whole capacity is there
        noise_buffer_set_input(pb, in.p, in.n);
        int err = noise_handshakestate_write_message(lib[w].st, &mb, &pb);
        in.check(0, "write_message (payload)");
        if (cap < want.size()) {
            CHECK_EQ(err, NOISE_ERROR_INVALID_LENGTH, "write_message with too little room");
            CHECK_EQ(mb.size, 0, "message size after the failure");
            out.check(cap, "write_message with too little room");
            CHECK_ACTION(lib[w].st, NOISE_ACTION_FAILED, "after running out of room");
            g.label("too-small"); g.nontrivial();
            return;
        }
        CHECK_EQ(err, 0, "write_message with enough room");
        CHECK_EQ(mb.size, want.size(), "message size");
        out.check(mb.size, "write_message");
        CHECK(out.bytes(mb.size) == want, "message differs from the specification");
        if (cap == want.size()) g.label("exact"), g.nontrivial();
        // reading
        size_t pcap = tight || g.flip() ? pick_cap(g, payload.size()) : payload.size();
        g.note(" read %zu into %zu", payload.size(), pcap);
        g.key(std::to_string(pcap));
        size_t spare = g.chance(1, 3) ? g.u(100) : 0;
        Bytes wide = want; wide.resize(want.size() + spare, 0x77);
        Out msg(g, wide), po(g, pcap);
        noise_buffer_set_inout(mb, msg.p, want.size(), wide.size());
        noise_buffer_set_output(pb, po.p, pcap);
        pb.size = g.u(pcap);            // only an output
        // a message cut short says nothing of what follows it in the buffer
        size_t cut = g.chance(1, 8) ? g.u(want.size()) : 0;
        if (cut) {
            mb.size -= cut;
            err = noise_handshakestate_read_message(lib[r].st, &mb, &pb);
            Bytes pl;                   // (a payload in the clear may be shorter)
            bool ok = m[r].read(sub(want, 0, want.size() - cut), pl) == M_OK && pl.size() <= pcap;
            CHECK(ok == (err == 0), "a message cut short from %zu to %zu bytes: 0x%x", want.size(), want.size() - cut, err);
            CHECK_EQ(pb.size, ok ? pl.size() : 0, "payload size of a message cut short");
            msg.check(want.size() - cut, "read_message (message cut short)");
            po.check(pb.size, "read_message (message cut short)");
            g.label("cut"); g.nontrivial();
            return;
        }
        err = noise_handshakestate_read_message(lib[r].st, &mb, &pb);
        msg.check(want.size(), "read_message (message)");
        if (pcap < payload.size()) {
            CHECK_EQ(err, NOISE_ERROR_INVALID_LENGTH, "read_message with too little room for the payload");
            CHECK_EQ(pb.size, 0, "payload size after the failure");
            po.check(0, "read_message with too little room");
            g.label("payload-too-small"); g.nontrivial();
            return;
        }
        CHECK_EQ(err, 0, "read_message with enough room");
        CHECK_EQ(pb.size, payload.size(), "payload size");
        po.check(pb.size, "read_message");
        CHECK(po.bytes(pb.size) == payload, "payload differs");
        Bytes pl;
        CHECK_EQ(m[r].read(want, pl), M_OK, "model");
    }
    // the handshake hash into any amount of space
    size_t n = g.size(200, {hash_len(s.hash)});
    Out h(g, n);
    CHECK_EQ(noise_handshakestate_get_handshake_hash(lib[0].st, h.p, n), 0, "get_handshake_hash");
    h.check(n, "get_handshake_hash");
    g.nontrivial();
}

TARGET(C23, cipher, 2, "encryption and decryption in buffers with every amount of spare room around the MAC, with and without a key, and through a SymmetricState; distinct by cipher, lengths and capacities") {
    int id = g.flip() ? NOISE_CIPHER_CHACHAPOLY : NOISE_CIPHER_AESGCM;
    bool sym = g.chance(1, 3), keyed = g.chance(7, 8);
    Bytes key = g.rnd(32);
    NoiseSymmetricState *ss[2] = {0, 0};
    Cipher c[2];
    struct F { NoiseSymmetricState **s; ~F() { for (int i = 0; i < 2; ++i) if (s[i]) noise_symmetricstate_free(s[i]); } } f{ss};
    for (int i = 0; i < 2; ++i) {
        if (sym) {
            CHECK_EQ(noise_symmetricstate_new_by_name(&ss[i], id == NOISE_CIPHER_AESGCM ? "Noise_XX_25519_AESGCM_SHA256" : "Noise_XX_25519_ChaChaPoly_SHA256"), 0, "new");
            if (keyed) CHECK_EQ(noise_symmetricstate_mix_key(ss[i], key.data(), 32), 0, "mix_key");
        } else {
            CHECK_EQ(noise_cipherstate_new_by_id(&c[i].c, id), 0, "new");
            if (keyed) CHECK_EQ(noise_cipherstate_init_key(c[i].c, key.data(), 32), 0, "init_key");
        }
    }
    size_t mac = keyed ? 16 : 0;
    size_t L = g.size(65535 - mac, {16, 63, 64, 65, 65519});
    if (g.chance(1, 30)) L = 65536 - mac + g.u(40);
    Bytes pt = g.bytes(L), ad = g.bytes(g.size(200));
    size_t cap = L + (g.chance(2, 3) ? g.u(20) : 16 + g.u(80));
    g.note("%s%s %s L=%zu cap=%zu ad=%zu", sym ? "symmetric " : "", cipher_name(id), keyed ? "key" : "no key", L, cap, ad.size());
    g.key(strf("%d%d%d %zu %zu", id, sym, keyed, L, cap));
    g.nontrivial(cap != L + mac);
    Bytes wide = pt; wide.resize(cap, 0x99);
    Out b(g, wide), a(g, ad);
    NoiseBuffer nb;
    noise_buffer_set_inout(nb, b.p, L, cap);
    int err = sym ? noise_symmetricstate_encrypt_and_hash(ss[0], &nb) : noise_cipherstate_encrypt_with_ad(c[0].c, a.p, a.n, &nb);
    a.check(0, "encrypt (associated data)");
    bool fits = L + mac <= cap && L + mac <= 65535;
    if (!fits) {
        CHECK_EQ(err, NOISE_ERROR_INVALID_LENGTH, "encrypt with too little room");
        CHECK_EQ(nb.size, L, "buffer size after the failure");
        b.check(0, "encrypt with too little room");
        g.label("encrypt-too-small");
        // and nothing was used up: the next message is the first
        Bytes w2 = Bytes(10, 1); w2.resize(26, 0);
        Out b2(g, w2);
        noise_buffer_set_inout(nb, b2.p, 10, 26);
        if (L > 65535) return;
        CHECK_EQ(sym ? noise_symmetricstate_encrypt_and_hash(ss[0], &nb) : noise_cipherstate_encrypt_with_ad(c[0].c, a.p, a.n, &nb), 0, "encrypt after the failure");
        CHECK_EQ(sym ? noise_symmetricstate_decrypt_and_hash(ss[1], &nb) : noise_cipherstate_decrypt_with_ad(c[1].c, a.p, a.n, &nb), 0, "decrypt of what followed a refused encryption");
        return;
    }
    CHECK_EQ(err, 0, "encrypt");
    CHECK_EQ(nb.size, L + mac, "ciphertext size");
    b.check(nb.size, "encrypt");
    Bytes ct = b.bytes(nb.size);
    // decrypt: sizes 0..15, a size beyond the capacity, or the message
    size_t mode = g.u(9);
    if (mode == 0 && keyed) {
        size_t k = g.u(15);
        Out d(g, sub(ct, 0, k < ct.size() ? k : ct.size()));
        noise_buffer_set_inout(nb, d.p, d.n, d.n);
        err = sym ? noise_symmetricstate_decrypt_and_hash(ss[1], &nb) : noise_cipherstate_decrypt_with_ad(c[1].c, a.p, a.n, &nb);
        CHECK_EQ(err, NOISE_ERROR_INVALID_LENGTH, "decrypt of less than a MAC");
        d.check(0, "decrypt of less than a MAC");
        g.label("decrypt-short");
        return;
    }
    if (mode == 1 && ct.size()) {
        size_t k = g.u(ct.size() - 1);
        Out d(g, sub(ct, 0, k));
        noise_buffer_set_inout(nb, d.p, ct.size(), k);
        err = sym ? noise_symmetricstate_decrypt_and_hash(ss[1], &nb) : noise_cipherstate_decrypt_with_ad(c[1].c, a.p, a.n, &nb);
        // the SymmetricState hashes the message before the cipher looks at it, so only the cipher's check of a wrong size is meaningful
        CHECK_EQ(err, NOISE_ERROR_INVALID_LENGTH, "decrypt of a buffer larger than its capacity");
        d.check(0, "decrypt");
        g.label("decrypt-inconsistent");
        return;
    }
    size_t spare = g.u(40);
    Bytes cw = ct; cw.resize(ct.size() + spare, 0x66);
    Out d(g, cw);
    noise_buffer_set_inout(nb, d.p, ct.size(), d.n);
    err = sym ? noise_symmetricstate_decrypt_and_hash(ss[1], &nb) : noise_cipherstate_decrypt_with_ad(c[1].c, a.p, a.n, &nb);
    CHECK_EQ(err, 0, "decrypt");
    CHECK_EQ(nb.size, L, "plaintext size");
    CHECK(d.bytes(L) == pt, "plaintext");
    d.check(ct.size(), "decrypt");
}

// functions with outputs of a fixed length: every other length is refused
TARGET(C23, lengths, 3, "keys, hashes, signatures, shared secrets, KDF outputs and random bytes requested in every length: the wrong ones refused without touching the buffer, the right ones filled exactly; distinct by function and length") {
    int what = (int)g.en(14);
    auto len = [&](size_t right) -> size_t {
        switch (g.u(5)) { case 0: case 1: return right; case 2: return right ? right - 1 : 0; case 3: return right + 1; case 4: return g.u(2 * right + 8); default: return 0; }
    };
    int hid = g.pick(std::vector<int>{NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512});
    int did = g.pick(std::vector<int>{NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE});
    struct Objs {
        NoiseHashState *h = 0; NoiseDHState *d = 0, *d2 = 0; NoiseSignState *s = 0; NoiseRandState *r = 0;
        ~Objs() { if (h) noise_hashstate_free(h); if (d) noise_dhstate_free(d); if (d2) noise_dhstate_free(d2); if (s) noise_signstate_free(s); if (r) noise_randstate_free(r); }
    } o;
    auto done = [&](const char *name, int err, const std::vector<Out *> &outs, bool right, size_t n) {
        g.note("%s %zu", name, n);
        g.key(strf("%s%d%d %zu", name, hid, did, n));
        if (!right) g.nontrivial();
        if (right) { CHECK(err == 0, "%s with the right lengths failed: 0x%x", name, err); for (Out *x : outs) x->check(x->n, name); }
        else {
            CHECK(err == NOISE_ERROR_INVALID_LENGTH, "%s with a wrong length (%zu): 0x%x", name, n, err);
            for (Out *x : outs) x->check(0, name);
            g.label("wrong-length");
        }
    };
    Bytes data = g.bytes(g.size(300)), data2 = g.bytes(g.size(300));
    Buf in(data), in2(data2);
    if (what <= 3) {
        CHECK_EQ(noise_hashstate_new_by_id(&o.h, hid), 0, "new");
        size_t hl = hash_len(hid);
        if (what == 3) {
            size_t n1 = g.flip() ? g.u(hl) : g.u(2 * hl), n2 = g.flip() ? g.u(hl) : g.u(2 * hl);
            Out a(g, n1), b(g, n2);
            int err = noise_hashstate_hkdf(o.h, in.p, in.n, in2.p, in2.n, a.p, n1, b.p, n2);
            done("hkdf", err, {&a, &b}, n1 <= hl && n2 <= hl, n1 * 1000 + n2);
            return;
        }
        size_t n = len(hl);
        Out a(g, n);
        int err;
        if (what == 0) err = noise_hashstate_hash_one(o.h, in.p, in.n, a.p, n);
        else if (what == 1) err = noise_hashstate_hash_two(o.h, in.p, in.n, in2.p, in2.n, a.p, n);
        else {
            CHECK_EQ(noise_hashstate_reset(o.h), 0, "reset");
            CHECK_EQ(noise_hashstate_update(o.h, in.p, in.n), 0, "update");
            err = noise_hashstate_finalize(o.h, a.p, n);
        }
        const char *nm[] = {"hash_one", "hash_two", "finalize"};
        done(nm[what], err, {&a}, n == hl, n);
    } else if (what == 4) {
        CHECK_EQ(noise_hashstate_new_by_id(&o.h, hid), 0, "new");
        size_t n = g.size(400, {hash_len(hid)});
        Out a(g, n);
        done("pbkdf2", noise_hashstate_pbkdf2(o.h, in.p, in.n, in2.p, in2.n, g.u(2), a.p, n), {&a}, true, n);
    } else if (what <= 8) {
        CHECK_EQ(noise_dhstate_new_by_id(&o.d, did), 0, "new");
        CHECK_EQ(noise_dhstate_new_by_id(&o.d2, did), 0, "new");
        CHECK_EQ(noise_dhstate_set_role(o.d2, NOISE_ROLE_RESPONDER), 0, "role");
        CHECK_EQ(noise_dhstate_set_role(o.d, NOISE_ROLE_INITIATOR), 0, "role");
        CHECK_EQ(noise_dhstate_generate_keypair(o.d), 0, "generate");
        CHECK_EQ(noise_dhstate_generate_dependent_keypair(o.d2, o.d), 0, "generate dependent");
        bool bob = g.flip();
        NoiseDHState *d = bob ? o.d2 : o.d;
        size_t pl = dh_pub_len(did, !bob), kl = dh_priv_len(did, !bob), sl = dh_shared_len(did);
        if (what == 5) {
            size_t n1 = g.flip() ? kl : len(kl), n2 = g.flip() ? pl : len(pl);
            Out a(g, n1), b(g, n2);
            done("dh get_keypair", noise_dhstate_get_keypair(d, a.p, n1, b.p, n2), {&a, &b}, n1 == kl && n2 == pl, n1 * 10000 + n2);
        } else if (what == 6) {
            size_t n = len(pl);
            Out a(g, n);
            done("dh get_public_key", noise_dhstate_get_public_key(d, a.p, n), {&a}, n == pl, n);
        } else if (what == 7) {
            size_t n = len(sl);
            Out a(g, n);
            done("dh calculate", noise_dhstate_calculate(d, bob ? o.d : o.d2, a.p, n), {&a}, n == sl, n);
        } else {
            // inputs of wrong lengths
            size_t n1 = g.flip() ? kl : len(kl), n2 = g.flip() ? pl : len(pl);
            Bytes priv(kl), pub(pl);
            CHECK_EQ(noise_dhstate_get_keypair(d, priv.data(), kl, pub.data(), pl), 0, "get_keypair");
            priv.resize(n1, 1); pub.resize(n2, 1);
            Out a(g, priv), b(g, pub);
            int err, way = (int)g.u(2); bool right;
            if (way == 0) { err = noise_dhstate_set_keypair(d, a.p, n1, b.p, n2); right = n1 == kl && n2 == pl; }
            else if (way == 1) { err = noise_dhstate_set_keypair_private(d, a.p, n1); right = n1 == kl; }
            else { err = noise_dhstate_set_public_key(d, b.p, n2); right = n2 == pl; }
            a.check(0, "dh set"); b.check(0, "dh set");
            if (right) CHECK(err == 0, "setting a key of the right length failed: 0x%x", err);
            else CHECK_EQ(err, NOISE_ERROR_INVALID_LENGTH, "setting a key of a wrong length");
            g.note("dh set way %d %zu %zu", way, n1, n2);
            g.key(strf("dhset%d%d %zu %zu", did, way, n1, n2));
            g.nontrivial(!right);
        }
    } else if (what <= 11) {
        CHECK_EQ(noise_signstate_new_by_id(&o.s, NOISE_SIGN_ED25519), 0, "new");
        CHECK_EQ(noise_signstate_generate_keypair(o.s), 0, "generate");
        if (what == 9) {
            size_t n1 = g.flip() ? 32 : len(32), n2 = g.flip() ? 32 : len(32);
            Out a(g, n1), b(g, n2);
            done("sign get_keypair", noise_signstate_get_keypair(o.s, a.p, n1, b.p, n2), {&a, &b}, n1 == 32 && n2 == 32, n1 * 1000 + n2);
        } else if (what == 10) {
            size_t n = len(64);
            Out a(g, n);
            done("sign", noise_signstate_sign(o.s, in.p, in.n, a.p, n), {&a}, n == 64, n);
        } else {
            size_t n = len(32);
            Out a(g, n);
            done("sign get_public_key", noise_signstate_get_public_key(o.s, a.p, n), {&a}, n == 32, n);
        }
    } else if (what == 12) {
        // the maxima that applications size their buffers by
        int mh = 0, mb = 0, mk = 0, mm = 0;
        for (int id : {NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512}) {
            NoiseHashState *h = 0;
            CHECK_EQ(noise_hashstate_new_by_id(&h, id), 0, "new");
            mh = std::max(mh, (int)noise_hashstate_get_hash_length(h)); mb = std::max(mb, (int)noise_hashstate_get_block_length(h));
            noise_hashstate_free(h);
        }
        for (int id : {NOISE_CIPHER_CHACHAPOLY, NOISE_CIPHER_AESGCM}) {
            NoiseCipherState *c = 0;
            CHECK_EQ(noise_cipherstate_new_by_id(&c, id), 0, "new");
            mk = std::max(mk, (int)noise_cipherstate_get_key_length(c)); mm = std::max(mm, (int)noise_cipherstate_get_mac_length(c));
            noise_cipherstate_free(c);
        }
        CHECK_EQ(noise_signstate_new_by_id(&o.s, NOISE_SIGN_ED25519), 0, "new");
        int sk = std::max((int)noise_signstate_get_private_key_length(o.s), (int)noise_signstate_get_public_key_length(o.s));
        CHECK_EQ(noise_hashstate_get_max_hash_length(), mh, "largest hash length");
        CHECK_EQ(noise_hashstate_get_max_block_length(), mb, "largest block length");
        CHECK_EQ(noise_cipherstate_get_max_key_length(), mk, "largest cipher key length");
        CHECK_EQ(noise_cipherstate_get_max_mac_length(), mm, "largest MAC length");
        CHECK_EQ(noise_signstate_get_max_key_length(), sk, "largest signing key length");
        CHECK_EQ(noise_signstate_get_max_signature_length(), (int)noise_signstate_get_signature_length(o.s), "largest signature length");
        g.note("maxima");
        g.key("maxima");
        g.label("maxima");
    } else {
        CHECK_EQ(noise_randstate_new(&o.r), 0, "new");
        size_t n = g.size(3000, {64}), orig = g.u(n);
        Out a(g, n);
        if (g.flip()) CHECK_EQ(noise_randstate_generate(o.r, a.p, n), 0, "generate");
        else {
            size_t pad = g.u(n);
            CHECK_EQ(noise_randstate_pad(o.r, a.p, orig, pad, g.flip() ? NOISE_PADDING_ZERO : NOISE_PADDING_RANDOM), 0, "pad");
            for (size_t i = 0; i < orig && i < n; ++i) CHECK(a.p[i] == 0xa5, "pad changed the payload");
            for (size_t i = pad > orig ? pad : orig; i < n; ++i) CHECK(a.p[i] == 0xa5, "pad wrote past the padded length");
        }
        a.check(n, "random bytes");
        g.note("random %zu", n);
        g.key(strf("rand %zu", n));
        g.nontrivial();
    }
}

TARGET(C23, text, 1, "fingerprints, protocol names and error texts into buffers of every size; distinct by function and size") {
    int what = (int)g.u(2);
    size_t n = g.size(130, {0, 1, 2, 48, 49, 96, 97});
    Out a(g, n);
    int err;
    std::string full;
    if (what == 0) {
        Bytes pk = g.bytes(g.size(200));
        bool is_full = g.flip();
        Buf b(pk);
        char tmp[200];
        int ty = is_full ? NOISE_FINGERPRINT_FULL : NOISE_FINGERPRINT_BASIC;
        CHECK_EQ(noise_format_fingerprint(ty, tmp, sizeof tmp, b.p, b.n), 0, "fingerprint");
        full = tmp;
        err = noise_format_fingerprint(ty, (char *)a.p, n, b.p, b.n);
    } else if (what == 1) {
        Suite s = gen_suite(g, false, true);
        NoiseProtocolId id = s.id();
        full = s.name();
        err = noise_protocol_id_to_name((char *)a.p, n, &id);
    } else {
        int e = 0x4500 + (int)g.u(20);
        if (g.chance(1, 8)) e = (int)g.u64();
        char tmp[200];
        noise_strerror(e, tmp, sizeof tmp);
        full = tmp;
        err = noise_strerror(e, (char *)a.p, n);
        a.check(n, "strerror");
        if (n) CHECK(memchr(a.p, 0, n), "strerror text has no terminator within the buffer");
        if (n) CHECK(!strncmp((char *)a.p, full.c_str(), strlen((char *)a.p)), "strerror text is not a prefix of the whole text");
        g.note("strerror %d into %zu", e, n); g.key(strf("s%d %zu", e, n)); g.nontrivial(n <= full.size());
        return;
    }
    g.note("%s into %zu", full.c_str(), n);
    g.key(strf("%d%s %zu", what, full.c_str(), n));
    g.nontrivial(n <= full.size());
    a.check(n, "text");
    if (n > full.size()) {
        CHECK_EQ(err, 0, "text with enough room");
        CHECK(!memcmp(a.p, full.c_str(), full.size() + 1), "text differs");
    } else CHECK_EQ(err, NOISE_ERROR_INVALID_LENGTH, "text with too little room");
}

// ------------------------------------------------------------------ C24
static Bytes swap32(const Bytes &b) {
    Bytes r(b);
    for (size_t i = 0; i + 4 <= r.size(); i += 4) { std::swap(r[i], r[i + 3]); std::swap(r[i + 1], r[i + 2]); }
    return r;
}
static Bytes swap64(const Bytes &b) {
    Bytes r(b);
    for (size_t i = 0; i + 8 <= r.size(); i += 8) std::reverse(r.begin() + i, r.begin() + i + 8);
    return r;
}
static void add_secret(const char *name, const Bytes &b) {
    secret_add(b, name);
    secret_add(swap32(b), name);        // as the round keys of a cipher may hold it
}
// what setting a key changed in an object, other than the public key
static std::vector<Bytes> runs(const Bytes &b0, const Bytes &b1, const Bytes &pub) {
    std::vector<Bytes> out;
    size_t n = std::min(b0.size(), b1.size());
    for (size_t i = 0; i + 12 <= n; i += 4) {
        size_t diff = 0; std::set<uint8_t> d;
        for (size_t j = i; j < i + 12; ++j) { if (b0[j] != b1[j]) ++diff; d.insert(b1[j]); }
        if (diff < 8 || d.size() < 8) continue;
        if (!pub.empty() && memmem(pub.data(), pub.size(), b1.data() + i + 2, 8)) continue;   // (part of) the public key
        bool pubpart = false;
        for (size_t k = 0; !pub.empty() && k + 6 <= 12; ++k) if (memmem(pub.data(), pub.size(), b1.data() + i + k, 6)) pubpart = true;
        if (pubpart) continue;
        out.push_back(sub(b1, i, 12));
    }
    return out;
}
static void no_leak(const char *when) {
    CHECK(secret_leak.empty(), "%s: %s", when, secret_leak.c_str());
}

TARGET(C24, handshake, 3, "a session (any protocol, with or without fallback, both sides the library) stopped at a random point - complete, split, failed, half way - and freed in random order; no freed block may hold a private key, shared secret, chaining or cipher key; distinct by protocol, stop point and order") {
    Suite s = gen_suite(g);
    bool fall = g.chance(1, 8);
    if (fall) {
        s.pattern = g.pick(std::vector<int>{NOISE_PATTERN_NK, NOISE_PATTERN_XK, NOISE_PATTERN_KK, NOISE_PATTERN_IK});
        s.hybrid = 0;
        if (s.dh == NOISE_DH_NEWHOPE) s.dh = NOISE_DH_CURVE25519;
    }
    Keys k = gen_keys(g, s);
    for (int i = 0; i < 2; ++i) { k.s[i] = g.rnd(k.s[i].size()); }
    if (s.psk()) k.psk = g.rnd(32);
    MPattern p = parse_pattern(s.pattern);
    int stop = (int)g.u(p.msgs.size() + 3), transport = (int)g.u(3);
    bool tamper = g.chance(1, 4);
    if (fall) { stop = 1; tamper = true; }
    Bytes prologue = k.prologue;
    g.note("%s stop=%d%s", s.name().c_str(), stop, tamper ? " tamper" : "");
    g.key(strf("%s %d %d", s.name().c_str(), stop, tamper));
    secrets_clear();
    model_secret = add_secret;
    alloc_begin();
    for (int i = 0; i < 2; ++i) {
        add_secret("static private key", k.s[i]);
        add_secret("ephemeral private key", k.e[i]);
        if (s.hybrid) add_secret("hybrid private key", k.f[i]);
    }
    if (s.psk()) add_secret("pre-shared key", k.psk);
    std::unique_ptr<Lib> lib[2] = {std::make_unique<Lib>(), std::make_unique<Lib>()};
    Cipher c[4];
    MHandshake m[2];
    auto session = [&]() {
        for (int i = 0; i < 2; ++i) {
            lib_new(g, *lib[i], s, i == 0);
            if (stop == 0) { if (g.flip()) return; }
            lib_config(g, *lib[i], s, i == 0, k, true);
            model_config(m[i], s, i == 0, k);
            if (stop == 0 && g.flip()) return;
            CHECK_EQ(noise_handshakestate_start(lib[i]->st), 0, "start");
            m[i].start();
        }
        for (size_t i = 0; i < p.msgs.size(); ++i) {
            if (stop == (int)i) return;
            int w = p.msgs[i].from_initiator ? 0 : 1, r = 1 - w;
            size_t oh = m[w].overhead();
            Bytes payload = g.rnd(g.u(40)), pl;
            Bytes want = m[w].write(payload);
            Bytes msg = lib_write(g, *lib[w], payload, oh);
            if (tamper && stop == (int)i + 1) {
                msg[g.u(msg.size() - 1)] ^= 1 << g.u(7);
                Buf in(msg), out(msg.size());
                NoiseBuffer mb, pb;
                noise_buffer_set_input(mb, in.p, in.n);
                noise_buffer_set_output(pb, out.p, out.n);
                noise_handshakestate_read_message(lib[r]->st, &mb, &pb);
                g.label("tampered");
                // fall back, where that is possible
                if (i == 0 && !s.hfs() && (fall || g.flip()) && noise_handshakestate_fallback(lib[1]->st) == 0) {
                    g.label("fallback");
                    if (noise_handshakestate_needs_local_keypair(lib[1]->st))
                        CHECK_EQ(noise_dhstate_set_keypair_private(noise_handshakestate_get_local_keypair_dh(lib[1]->st), k.s[1].data(), k.s[1].size()), 0, "set");
                    noise_handshakestate_start(lib[1]->st);
                }
                return;
            }
            lib_read(g, *lib[r], msg, payload);
            CHECK_EQ(m[r].read(msg, pl), M_OK, "model");
        }
        if (stop == (int)p.msgs.size()) return;
        for (int i = 0; i < 2; ++i) {
            m[i].split();
            bool one = p.one_way && g.flip();
            NoiseCipherState **snd = &c[2 * i].c, **rcv = &c[2 * i + 1].c;
            if (one) (i == 0 ? rcv : snd) = nullptr;
            CHECK_EQ(noise_handshakestate_split(lib[i]->st, snd, rcv), 0, "split");
        }
        for (int i = 0; i < transport; ++i) {
            Buf b(g.rnd(40) + Bytes(16, 0));
            NoiseBuffer nb;
            noise_buffer_set_inout(nb, b.p, 40, 56);
            CHECK_EQ(noise_cipherstate_encrypt(c[0].c, &nb), 0, "encrypt");
            CHECK_EQ(noise_cipherstate_decrypt(c[3].c, &nb), 0, "decrypt");
        }
        g.label("complete");
    };
    session();
    // free everything in some order
    std::vector<int> order = {0, 1, 2, 3, 4, 5};
    for (int i = 5; i > 0; --i) std::swap(order[i], order[g.u(i)]);
    for (int i : order) {
        if (i < 2) lib[i].reset();
        else if (c[i - 2].c) { noise_cipherstate_free(c[i - 2].c); c[i - 2].c = nullptr; }
    }
    alloc_end();
    CHECK(secret_frees > 0, "nothing was freed");
    no_leak("after freeing the session");
    g.nontrivial();
}

// What read_message decrypted in the caller's message buffer is gone when it
// returns, whatever it returned.
TARGET(C24, messages, 2, "a handshake (any protocol) in which one message is damaged, cut short, extended, read into too small a payload buffer, or read as sent: afterwards every byte of the message buffer is zero; non-trivial when the read failed; distinct by protocol, message and damage") {
    Suite s = gen_suite(g);
    Keys k = gen_keys(g, s);
    for (int i = 0; i < 2; ++i) k.s[i] = g.rnd(k.s[i].size());
    MPattern p = parse_pattern(s.pattern);
    size_t stop = g.u(p.msgs.size() - 1);
    Lib lib[2];
    MHandshake m[2];
    for (int i = 0; i < 2; ++i) {
        lib_new(g, lib[i], s, i == 0);
        lib_config(g, lib[i], s, i == 0, k, true);
        model_config(m[i], s, i == 0, k);
        CHECK_EQ(noise_handshakestate_start(lib[i].st), 0, "start");
        m[i].start();
    }
    for (size_t i = 0; i <= stop; ++i) {
        int w = p.msgs[i].from_initiator ? 0 : 1, r = 1 - w;
        size_t oh = m[w].overhead();
        Bytes payload = g.rnd(g.chance(1, 4) ? 0 : 1 + g.u(100)), pl;
        m[w].write(payload);
        Bytes msg = lib_write(g, lib[w], payload, oh);
        if (i < stop) {
            lib_read(g, lib[r], msg, payload);
            CHECK_EQ(m[r].read(msg, pl), M_OK, "model");
            continue;
        }
        int how = (int)g.u(4);
        size_t room = payload.size() + g.u(20);
        if (how == 0 && !msg.empty()) { size_t at = g.flip() ? g.u(msg.size() - 1) : msg.size() - 1 - g.u(std::min<size_t>(msg.size() - 1, 20)); msg[at] ^= 1 << g.u(7); }
        else if (how == 1) msg.resize(g.flip() ? g.u(msg.size()) : msg.size() - std::min(msg.size(), (size_t)g.u(17)));
        else if (how == 2) { Bytes x = g.rnd(1 + g.u(20)); msg.insert(msg.end(), x.begin(), x.end()); }
        else if (how == 3) room = payload.empty() ? 0 : g.u(payload.size() - 1);
        size_t len = msg.size();
        if (g.flip()) msg.resize(len + g.u(2000), 0x3c);        // in a larger buffer
        Buf in(msg), out(room + (how == 2 ? 20 : 0));
        NoiseBuffer mb, pb;
        noise_buffer_set_inout(mb, in.p, len, in.n);
        noise_buffer_set_output(pb, out.p, out.n);
        bool none = how != 3 && g.chance(1, 4);
        int err = noise_handshakestate_read_message(lib[r].st, &mb, none ? nullptr : &pb);
        for (size_t j = 0; j < len; ++j)
            CHECK(in.p[j] == 0, "read_message (result 0x%x) left byte %zu of %zu of the message as 0x%02x; it is documented to clear the message", err, j, len, in.p[j]);
        g.note("%s message %zu how %d -> 0x%x", s.name().c_str(), i, how, err);
        g.key(strf("%s %zu %d", s.name().c_str(), i, how));
        g.nontrivial(err != 0);
        g.label(err ? "failed" : "read");
    }
}

TARGET(C24, objects, 3, "cipher, hash, symmetric, DH, signing and random objects given random secrets, used, replaced and freed: freed blocks may hold neither the secrets nor anything the object derived from them; distinct by object and operations") {
    int what = (int)g.en(7);
    secrets_clear();
    alloc_begin();
    ossl_gate = true;
    g.nontrivial();
    auto gate_off = [&]() { ossl_gate = false; alloc_end(); no_leak("after freeing the object"); };
    if (what == 0) {
        int id = g.flip() ? NOISE_CIPHER_CHACHAPOLY : NOISE_CIPHER_AESGCM;
        Bytes key = g.rnd(32);
        NoiseCipherState *c;
        CHECK_EQ(noise_cipherstate_new_by_id(&c, id), 0, "new");
        Bytes b0 = block_bytes(c);
        CHECK_EQ(noise_cipherstate_init_key(c, key.data(), 32), 0, "init_key");
        add_secret("cipher key", key);
        for (auto &r : runs(b0, block_bytes(c), Bytes())) secret_add(r, "bytes derived from the cipher key");
        int ops = (int)g.u(4);
        for (int i = 0; i < ops; ++i) {
            Buf b(g.rnd(30 + g.u(80)));
            NoiseBuffer nb;
            noise_buffer_set_inout(nb, b.p, b.n - 16, b.n);
            if (g.chance(1, 4)) { noise_cipherstate_decrypt(c, &nb); continue; }
            Bytes stream = b.bytes(nb.size);
            CHECK_EQ(noise_cipherstate_encrypt(c, &nb), 0, "encrypt");
            for (size_t j = 0; j < stream.size(); ++j) stream[j] ^= b.p[j];
            secret_keep(stream, "key stream");
        }
        bool re = g.chance(1, 3);
        if (re) {
            Bytes k2 = g.rnd(32);
            CHECK_EQ(noise_cipherstate_init_key(c, k2.data(), 32), 0, "init_key");
            add_secret("second cipher key", k2);
        }
        noise_cipherstate_free(c);
        gate_off();
        g.note("cipher 0x%x ops=%d rekey=%d", id, ops, re);
        g.key(strf("c%d%d%d", id, ops, re));
        g.key(hex(key.data(), 2));
    } else if (what == 1 || what == 2) {
        int id = g.pick(std::vector<int>{NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512});
        size_t hl = hash_len(id);
        NoiseHashState *h;
        CHECK_EQ(noise_hashstate_new_by_id(&h, id), 0, "new");
        Bytes key = g.rnd(hl), data = g.rnd(32), o1(hl), o2(hl);
        int way = (int)g.u(3);
        size_t block = id == NOISE_HASH_BLAKE2b || id == NOISE_HASH_SHA512 ? 128 : 64;
        auto pads = [&](const Bytes &k, const char *n) {
            Bytes a(k), b(k);
            for (auto &x : a) x ^= 0x36;
            for (auto &x : b) x ^= 0x5c;
            for (const Bytes &v : {k, a, b}) { secret_add(v, n); secret_add(swap32(v), n); secret_add(swap64(v), n); }
        };
        if (way == 0) {
            auto both = o_hkdf2(ohash(id), key, data);
            size_t l1 = g.flip() ? hl : g.u(hl), l2 = g.flip() ? hl : g.u(hl);
            CHECK_EQ(noise_hashstate_hkdf(h, key.data(), hl, data.data(), 32, o1.data(), l1, o2.data(), l2), 0, "hkdf");
            pads(key, "HKDF key"); pads(data, "HKDF input"); pads(both.first, "HKDF output"); pads(both.second, "HKDF output");
            pads(o_hmac(ohash(id), key, data), "HKDF temporary key");
        } else if (way == 1) {
            size_t ol = g.flip() ? hl : 1 + g.u(2 * hl), iter = 1 + g.u(3);
            Bytes whole = o_pbkdf2(ohash(id), key, data, iter, 3 * hl), o3(ol);
            CHECK_EQ(noise_hashstate_pbkdf2(h, key.data(), hl, data.data(), 32, iter, o3.data(), ol), 0, "pbkdf2");
            pads(key, "passphrase");
            for (size_t k = 0; k < 3; ++k) pads(sub(whole, k * hl, hl), "PBKDF2 output");
        } else {
            // a secret fed in, perhaps not finalized
            Bytes sec = g.rnd(12 + g.u(2 * block));
            CHECK_EQ(noise_hashstate_reset(h), 0, "reset");
            CHECK_EQ(noise_hashstate_update(h, sec.data(), sec.size()), 0, "update");
            if (g.flip()) { CHECK_EQ(noise_hashstate_finalize(h, o1.data(), hl), 0, "finalize"); pads(o1, "hash of a secret"); }
            pads(sec, "hashed secret");
        }
        noise_hashstate_free(h);
        gate_off();
        g.note("hash %s way=%d", hash_name(id), way);
        g.key(strf("h%d%d", id, way)); g.key(hex(key.data(), 2));
    } else if (what == 3) {
        Suite s = gen_suite(g, false);
        s.prefix = NOISE_PREFIX_STANDARD;
        NoiseSymmetricState *st;
        CHECK_EQ(noise_symmetricstate_new_by_name(&st, s.name().c_str()), 0, "new");
        MSym m; ossl_gate = false;
        m.init(s);
        model_secret = add_secret;
        int ops = 1 + (int)g.u(5);
        for (int i = 0; i < ops; ++i) {
            if (i == 0 || g.chance(2, 3)) {
                Bytes ikm = g.rnd(g.pick(std::vector<size_t>{32, 56}));
                add_secret("input key material", ikm);
                m.mix_key(ikm);
                CHECK_EQ(noise_symmetricstate_mix_key(st, ikm.data(), ikm.size()), 0, "mix_key");
            } else {
                Bytes pt = g.rnd(g.u(60)), ct;
                Buf b(pt + Bytes(16, 0));
                NoiseBuffer nb;
                noise_buffer_set_inout(nb, b.p, pt.size(), b.n);
                ct = m.enc_and_hash(pt);
                ossl_gate = true;
                CHECK_EQ(noise_symmetricstate_encrypt_and_hash(st, &nb), 0, "encrypt_and_hash");
                ossl_gate = false;
                CHECK(b.bytes(nb.size) == ct, "ciphertext");
            }
        }
        NoiseCipherState *c1 = 0, *c2 = 0;
        int split = (int)g.u(3);
        if (split) {
            m.split();
            CHECK_EQ(noise_symmetricstate_split(st, split == 2 ? nullptr : &c1, split == 1 ? nullptr : &c2), 0, "split");
        }
        bool first = g.flip();
        ossl_gate = true;
        if (first) noise_symmetricstate_free(st);
        if (c1) noise_cipherstate_free(c1);
        if (c2) noise_cipherstate_free(c2);
        if (!first) noise_symmetricstate_free(st);
        gate_off();
        g.note("symmetric %s ops=%d split=%d", s.name().c_str(), ops, split);
        g.key(strf("%s%d%d", s.name().c_str(), ops, split));
    } else if (what == 4) {
        int id = g.pick(std::vector<int>{NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE});
        bool bob = id == NOISE_DH_NEWHOPE && g.flip(), given = g.flip();
        NoiseDHState *d, *o;
        CHECK_EQ(noise_dhstate_new_by_id(&d, id), 0, "new");
        CHECK_EQ(noise_dhstate_new_by_id(&o, id), 0, "new");
        noise_dhstate_set_role(d, bob ? NOISE_ROLE_RESPONDER : NOISE_ROLE_INITIATOR);
        noise_dhstate_set_role(o, bob ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER);
        size_t kl = dh_priv_len(id, !bob), pl = dh_pub_len(id, !bob), sl = dh_shared_len(id);
        Bytes priv = g.rnd(kl), pub(pl), b0, sh(sl);
        if (bob || id != NOISE_DH_NEWHOPE) CHECK_EQ(noise_dhstate_generate_keypair(o), 0, "generate (peer)");
        b0 = block_bytes(d);
        if (given) CHECK_EQ(noise_dhstate_set_keypair_private(d, priv.data(), kl), 0, "set");
        if (given && id != NOISE_DH_NEWHOPE && g.flip()) {
            CHECK_EQ(noise_dhstate_get_public_key(d, pub.data(), pl), 0, "get_public_key");
            secret_add(priv, "private key");
            Bytes wrong = pub;
            wrong[g.u(20)] ^= 1 << g.u(7);
            if (g.flip()) CHECK(noise_dhstate_set_keypair(d, priv.data(), kl, wrong.data(), pl) != 0, "a pair that does not match is taken");
            CHECK_EQ(noise_dhstate_set_keypair(d, priv.data(), kl, pub.data(), pl), 0, "set the pair");
        }
        if (given) ;
        else CHECK_EQ(noise_dhstate_generate_dependent_keypair(d, o), 0, "generate");
        CHECK_EQ(noise_dhstate_get_keypair(d, priv.data(), kl, pub.data(), pl), 0, "get_keypair");
        secret_add(priv, "private key");
        for (auto &r : runs(b0, block_bytes(d), pub)) secret_add(r, "bytes derived from the private key");
        if (id == NOISE_DH_NEWHOPE && !bob) CHECK_EQ(noise_dhstate_generate_dependent_keypair(o, d), 0, "generate (peer)");
        if (g.flip()) {
            CHECK_EQ(noise_dhstate_calculate(d, o, sh.data(), sl), 0, "calculate");
            secret_add(sh, "shared secret");
        }
        int after = (int)g.u(3);
        NoiseDHState *d2 = 0;
        if (after == 1) noise_dhstate_clear_key(d);
        if (after == 2) noise_dhstate_generate_dependent_keypair(d, o);
        if (after == 3 && id != NOISE_DH_NEWHOPE) {
            CHECK_EQ(noise_dhstate_new_by_id(&d2, id), 0, "new");
            CHECK_EQ(noise_dhstate_copy(d2, d), 0, "copy");
        }
        noise_dhstate_free(d);
        noise_dhstate_free(o);
        if (d2) noise_dhstate_free(d2);
        gate_off();
        g.note("dh %s%s %s after=%d", dh_name(id), bob ? "(Bob)" : "", given ? "set" : "generated", after);
        g.key(strf("d%d%d%d%d", id, bob, given, after)); g.key(hex(pub.data(), 2));
    } else if (what == 5) {
        NoiseSignState *s, *s2 = 0;
        CHECK_EQ(noise_signstate_new_by_id(&s, NOISE_SIGN_ED25519), 0, "new");
        Bytes priv = g.rnd(32), pub(32), b0 = block_bytes(s), sig(64), msg = g.rnd(g.u(100) + 1);
        bool given = g.flip();
        if (given && g.flip()) {
            CHECK_EQ(noise_signstate_set_keypair_private(s, priv.data(), 32), 0, "set");
            CHECK_EQ(noise_signstate_get_public_key(s, pub.data(), 32), 0, "get_public_key");
            secret_add(priv, "signing key");
            bool bad = g.flip();
            Bytes wrong = pub;
            wrong[g.u(31)] ^= 1 << g.u(7);
            if (bad) CHECK(noise_signstate_set_keypair(s, priv.data(), 32, wrong.data(), 32) != 0, "a pair that does not match is taken");
            CHECK_EQ(noise_signstate_set_keypair(s, priv.data(), 32, pub.data(), 32), 0, "set the pair");
        } else if (given) CHECK_EQ(noise_signstate_set_keypair_private(s, priv.data(), 32), 0, "set");
        else CHECK_EQ(noise_signstate_generate_keypair(s), 0, "generate");
        CHECK_EQ(noise_signstate_get_keypair(s, priv.data(), 32, pub.data(), 32), 0, "get_keypair");
        secret_add(priv, "signing key");
        for (auto &r : runs(b0, block_bytes(s), pub)) secret_add(r, "bytes derived from the signing key");
        if (g.flip()) CHECK_EQ(noise_signstate_sign(s, msg.data(), msg.size(), sig.data(), 64), 0, "sign");
        int after = (int)g.u(3);
        if (after == 1) noise_signstate_clear_key(s);
        if (after == 2) noise_signstate_generate_keypair(s);
        if (after == 3) { CHECK_EQ(noise_signstate_new_by_id(&s2, NOISE_SIGN_ED25519), 0, "new"); CHECK_EQ(noise_signstate_copy(s2, s), 0, "copy"); }
        noise_signstate_free(s);
        if (s2) noise_signstate_free(s2);
        gate_off();
        g.note("sign %s after=%d", given ? "set" : "generated", after);
        g.key(strf("s%d%d", given, after)); g.key(hex(pub.data(), 2));
    } else {
        NoiseRandState *r;
        CHECK_EQ(noise_randstate_new(&r), 0, "new");
        Bytes b0 = block_bytes(r);
        int ops = 1 + (int)g.u(3);
        for (int i = 0; i < ops; ++i) {
            Bytes out(1 + g.u(1500));
            if (g.chance(1, 4)) noise_randstate_reseed(r);
            else CHECK_EQ(noise_randstate_generate(r, out.data(), out.size()), 0, "generate");
            for (auto &x : runs(b0, block_bytes(r), Bytes())) secret_add(x, "generator key");
        }
        noise_randstate_free(r);
        // the same for the generator that lives on the stack
        uint64_t sd = g.u(1 << 20);
        Bytes one(1 + g.u(100));
        env_rand_seed(sd);
        CHECK_EQ(noise_randstate_new(&r), 0, "new");
        CHECK_EQ(noise_randstate_generate(r, one.data(), one.size()), 0, "generate");
        for (auto &x : runs(b0, block_bytes(r), Bytes())) secret_keep(x, "key of the one-shot generator");
        noise_randstate_free(r);
        env_rand_seed(sd);
        CHECK_EQ(noise_randstate_generate_simple(one.data(), one.size()), 0, "generate_simple");
        gate_off();
        g.note("rand ops=%d", ops);
        g.key(strf("r%d %llu", ops, (unsigned long long)g.u(1 << 16)));
    }
    CHECK(secret_frees > 0, "nothing was freed");
}

// Cleared and replaced keys leave nothing behind in the object itself.
TARGET(C24, cleared, 2, "DH and signing objects whose key pair is cleared, or replaced by a public key, a null key or another pair: the object may keep no byte run that came from the old private key; distinct by algorithm, way of setting and clearing, and key") {
    int alg = (int)g.en(5);          // 25519, 448, New Hope Alice, New Hope Bob, Ed25519
    bool given = g.flip();
    secrets_clear();
    alloc_begin();
    g.nontrivial();
    auto left = [&](const std::vector<Bytes> &rs, const Bytes &now, const Bytes &exclude, const char *how) {
        for (auto &r : rs) {
            if (!exclude.empty() && memmem(exclude.data(), exclude.size(), r.data(), r.size())) continue;
            CHECK(!memmem(now.data(), now.size(), r.data(), r.size()), "%s: the object still holds %s, derived from the old private key", how, hex(r).c_str());
        }
    };
    if (alg == 4) {
        NoiseSignState *s;
        CHECK_EQ(noise_signstate_new_by_id(&s, NOISE_SIGN_ED25519), 0, "new");
        Bytes priv = g.rnd(32), pub(32), b0 = block_bytes(s);
        if (given) CHECK_EQ(noise_signstate_set_keypair_private(s, priv.data(), 32), 0, "set");
        else CHECK_EQ(noise_signstate_generate_keypair(s), 0, "generate");
        CHECK_EQ(noise_signstate_get_keypair(s, priv.data(), 32, pub.data(), 32), 0, "get");
        auto rs = runs(b0, block_bytes(s), pub);
        CHECK(!rs.empty(), "the object does not hold its key?");
        int how = (int)g.u(3);
        Bytes npub = o_ed_public(g.rnd(32));
        int err = 0;
        if (how == 0) err = noise_signstate_clear_key(s);
        else if (how == 1) err = noise_signstate_set_public_key(s, npub.data(), 32);
        else if (how == 2) { Bytes k2 = g.rnd(32); err = noise_signstate_set_keypair_private(s, k2.data(), 32); }
        else err = noise_signstate_generate_keypair(s);
        CHECK_EQ(err, 0, "clear or replace");
        Bytes now = block_bytes(s);
        noise_signstate_free(s);
        alloc_end();
        static const char *n[] = {"clear_key", "set_public_key", "set_keypair_private", "generate_keypair"};
        left(rs, now, npub, n[how]);
        g.note("Ed25519 %s", n[how]); g.key(strf("e%d%d", given, how)); g.key(hex(pub.data(), 2));
        return;
    }
    int id = alg == 0 ? NOISE_DH_CURVE25519 : alg == 1 ? NOISE_DH_CURVE448 : NOISE_DH_NEWHOPE;
    bool bob = alg == 3;
    NoiseDHState *d, *o;
    CHECK_EQ(noise_dhstate_new_by_id(&d, id), 0, "new");
    CHECK_EQ(noise_dhstate_new_by_id(&o, id), 0, "new");
    noise_dhstate_set_role(d, bob ? NOISE_ROLE_RESPONDER : NOISE_ROLE_INITIATOR);
    CHECK_EQ(noise_dhstate_generate_keypair(o), 0, "generate (peer)");
    size_t kl = dh_priv_len(id, !bob), pl = dh_pub_len(id, !bob);
    Bytes priv = g.rnd(kl), pub(pl), b0 = block_bytes(d);
    if (given) CHECK_EQ(noise_dhstate_set_keypair_private(d, priv.data(), kl), 0, "set");
    else CHECK_EQ(noise_dhstate_generate_dependent_keypair(d, o), 0, "generate");
    CHECK_EQ(noise_dhstate_get_keypair(d, priv.data(), kl, pub.data(), pl), 0, "get");
    auto rs = runs(b0, block_bytes(d), pub);
    CHECK(!rs.empty(), "the object does not hold its key?");
    int how = (int)g.u(4), err = 0;
    Bytes npub = id == NOISE_DH_NEWHOPE ? g.rnd(pl) : mkey(id, g.rnd(kl)).pub;
    if (how == 0) err = noise_dhstate_clear_key(d);
    else if (how == 1) err = noise_dhstate_set_public_key(d, npub.data(), pl);
    else if (how == 2) { err = noise_dhstate_set_null_public_key(d); if (id == NOISE_DH_NEWHOPE) err = noise_dhstate_clear_key(d), how = 0; }
    else if (how == 3) { Bytes k2 = g.rnd(kl); err = noise_dhstate_set_keypair_private(d, k2.data(), kl); }
    else err = noise_dhstate_generate_dependent_keypair(d, o);
    CHECK_EQ(err, 0, "clear or replace");
    Bytes now = block_bytes(d);
    noise_dhstate_free(d);
    noise_dhstate_free(o);
    alloc_end();
    static const char *n[] = {"clear_key", "set_public_key", "set_null_public_key", "set_keypair_private", "generate_keypair"};
    left(rs, now, npub, n[how]);
    g.note("%s%s %s %s", dh_name(id), bob ? "(Bob)" : "", given ? "set" : "generated", n[how]);
    g.key(strf("d%d%d%d", alg, given, how)); g.key(hex(pub.data(), 2));
}

// ------------------------------------------------------------------ C25
TARGET(C25, objects, 2, "creation of every kind of object by name and identifier (and one-shot random bytes), each allocation failing in turn: the call fails with no memory, gives no object and keeps nothing; distinct by object and allocation") {
    int what = (int)g.en(7);
    bool byname = g.flip();
    Suite s = gen_suite(g, false);
    int cid = g.flip() ? NOISE_CIPHER_CHACHAPOLY : NOISE_CIPHER_AESGCM;
    int hid = g.pick(std::vector<int>{NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512});
    int did = g.pick(std::vector<int>{NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE});
    int role = g.flip() ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER;
    bool ossl = g_backend == "openssl" && g.flip();
    static const char *n[] = {"cipher", "hash", "dh", "sign", "rand", "symmetric", "handshake", "handshake"};
    g.note("%s %s", n[what], what >= 5 ? s.name().c_str() : "");
    g.key(strf("%d%d%d%d%d%s", what, byname, cid, hid, did, what >= 5 ? s.name().c_str() : ""));
    Script script = [&](Oom &o) {
        NoiseProtocolId id = s.id();
#define MAKE(T, var, byid, bynm, fr) { T *var = (T *)0x10; \
            o.call("new", [&]() { var = (T *)0x10; int e = byname ? (bynm) : (byid); CHECK(e ? !var : var && var != (T *)0x10, "error 0x%x but the object is %p", e, (void *)var); return e; }); \
            o.frees.push_back([=]() { fr(var); }); }
        switch (what) {
        case 0: MAKE(NoiseCipherState, x, noise_cipherstate_new_by_id(&x, cid), noise_cipherstate_new_by_name(&x, cipher_name(cid)), noise_cipherstate_free) break;
        case 1: MAKE(NoiseHashState, x, noise_hashstate_new_by_id(&x, hid), noise_hashstate_new_by_name(&x, hash_name(hid)), noise_hashstate_free) break;
        case 2: MAKE(NoiseDHState, x, noise_dhstate_new_by_id(&x, did), noise_dhstate_new_by_name(&x, dh_name(did)), noise_dhstate_free) break;
        case 3: MAKE(NoiseSignState, x, noise_signstate_new_by_id(&x, NOISE_SIGN_ED25519), noise_signstate_new_by_name(&x, "Ed25519"), noise_signstate_free) break;
        case 4: MAKE(NoiseRandState, x, noise_randstate_new(&x), noise_randstate_new(&x), noise_randstate_free) break;
        case 5: MAKE(NoiseSymmetricState, x, noise_symmetricstate_new_by_id(&x, &id), noise_symmetricstate_new_by_name(&x, s.name().c_str()), noise_symmetricstate_free) break;
        default: MAKE(NoiseHandshakeState, x, noise_handshakestate_new_by_id(&x, &id, role), noise_handshakestate_new_by_name(&x, s.name().c_str(), role), noise_handshakestate_free) break;
        }
    };
    oom_runs(g, script, 60, ossl);
}

TARGET(C25, session, 2, "a whole session of two library peers with fixed keys (any protocol, with fallback where possible, split, transport), some allocation - once, or all from there on - failing: the call reports it and can be repeated, the session then runs exactly as without the failure, everything can be freed and nothing leaks; distinct by protocol and allocation") {
    Suite s = gen_suite(g);
    Keys k = gen_keys(g, s);
    if (s.hfs() && s.hybrid == 0) return;
    MPattern p = parse_pattern(s.pattern);
    bool fb = (s.pattern == NOISE_PATTERN_IK) && g.flip();
    bool ossl = g_backend == "openssl" && g.flip();
    uint64_t choices = g.u(0xffffffff);
    Bytes payload = g.bytes(g.size(100));
    g.note("%s%s", s.name().c_str(), fb ? " then XXfallback" : "");
    g.key(strf("%s%d", s.name().c_str(), fb));
    if (fb) g.label("fallback");
    Script script = [&](Oom &o) {
        Prng ch(choices);
        NoiseHandshakeState *st[2] = {0, 0};
        NoiseProtocolId id = s.id();
        env_rand_seed(77);
        for (int i = 0; i < 2; ++i) {
            bool byname = ch.next() & 1;
            int role = i == 0 ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER;
            o.call("handshakestate_new", [&]() { int e = byname ? noise_handshakestate_new_by_name(&st[i], s.name().c_str(), role) : noise_handshakestate_new_by_id(&st[i], &id, role); CHECK(!e == !!st[i], "object %p with error 0x%x", (void *)st[i], e); return e; });
            o.frees.push_back([x = st[i]]() { noise_handshakestate_free(x); });
            if (ch.next() & 1) o.call("set_prologue", [&]() { uint8_t c[9] = {1}; return noise_handshakestate_set_prologue(st[i], c, 9); });
            if (!k.prologue.empty()) o.call("set_prologue", [&]() { return noise_handshakestate_set_prologue(st[i], k.prologue.data(), k.prologue.size()); });
            else { uint8_t c = 0; o.call("set_prologue", [&]() { return noise_handshakestate_set_prologue(st[i], &c, 0); }); }
            if (s.psk()) o.call("set_psk", [&]() { return noise_handshakestate_set_pre_shared_key(st[i], k.psk.data(), 32); });
            if (p.needs_s(i == 0)) o.call("set_keypair", [&]() { return noise_dhstate_set_keypair_private(noise_handshakestate_get_local_keypair_dh(st[i]), k.s[i].data(), k.s[i].size()); });
            Bytes pub;
            if (p.needs_rs(i == 0)) { Bytes priv = k.s[1 - i]; if (fb) priv[10] ^= 0x10; pub = mkey(s.dh, priv).pub; o.call("set_public_key", [&]() { return noise_dhstate_set_public_key(noise_handshakestate_get_remote_public_key_dh(st[i]), pub.data(), pub.size()); }); }
            bool se = false;
            for (auto &m : p.msgs) if (m.from_initiator == (i == 0)) for (MTok t : m.toks) if (t == T_E) se = true;
            if (se) o.call("fixed ephemeral", [&]() {
                NoiseDHState *d = noise_handshakestate_get_fixed_ephemeral_dh(st[i]);
                return d ? noise_dhstate_set_keypair_private(d, k.e[i].data(), noise_dhstate_get_private_key_length(d)) : NOISE_ERROR_NO_MEMORY;
            });
            if (se && s.hybrid) o.call("fixed hybrid", [&]() {
                NoiseDHState *d = noise_handshakestate_get_fixed_hybrid_dh(st[i]);
                return d ? noise_dhstate_set_keypair_private(d, k.f[i].data(), noise_dhstate_get_private_key_length(d)) : NOISE_ERROR_NO_MEMORY;
            });
            o.call("start", [&]() { return noise_handshakestate_start(st[i]); });
        }
        Buf msg(20000), pl(400);
        NoiseBuffer mb, pb;
        int w = 0, guard = 0;
        bool fell = !fb;
        while (noise_handshakestate_get_action(st[0]) != NOISE_ACTION_SPLIT || noise_handshakestate_get_action(st[1]) != NOISE_ACTION_SPLIT) {
            CHECK(++guard < 10, "the handshake does not end");
            w = noise_handshakestate_get_action(st[0]) == NOISE_ACTION_WRITE_MESSAGE ? 0 : 1;
            Buf in(payload);
            noise_buffer_set_input(pb, in.p, in.n);
            noise_buffer_set_output(mb, msg.p, msg.n);
            o.call("write_message", [&]() { return noise_handshakestate_write_message(st[w], &mb, &pb); }, false);
            o.add(mb.data, mb.size);
            noise_buffer_set_output(pb, pl.p, pl.n);
            if (!fell) {
                // the initiator knew a wrong key: the responder cannot read this
                ossl_gate = ossl;
                int e = noise_handshakestate_read_message(st[1 - w], &mb, &pb);
                ossl_gate = false;
                CHECK(e != 0, "read_message under a wrong key succeeded");
                if (e != NOISE_ERROR_MAC_FAILURE && alloc_failed()) { ++o.injected_in; throw Stop(); }
                for (int i = 1; i >= 0; --i) {
                    o.call("fallback", [&]() { return noise_handshakestate_fallback(st[i]); });
                    if (!k.prologue.empty()) o.call("set_prologue", [&]() { return noise_handshakestate_set_prologue(st[i], k.prologue.data(), k.prologue.size()); });
                    o.call("start after fallback", [&]() { return noise_handshakestate_start(st[i]); });
                }
                fell = true;
                continue;
            }
            o.call("read_message", [&]() { return noise_handshakestate_read_message(st[1 - w], &mb, &pb); }, false);
            o.add(pb.data, pb.size);
        }
        Bytes h(hash_len(s.hash));
        NoiseCipherState *c[4] = {0, 0, 0, 0};
        for (int i = 0; i < 2; ++i) {
            bool one = p.one_way && (ch.next() & 1);
            o.call("get_handshake_hash", [&]() { return noise_handshakestate_get_handshake_hash(st[i], h.data(), h.size()); });
            o.add(h.data(), h.size());
            o.call("split", [&]() {
                c[2 * i] = c[2 * i + 1] = (NoiseCipherState *)0x10;
                NoiseCipherState **a = one && i == 1 ? nullptr : &c[2 * i], **b = one && i == 0 ? nullptr : &c[2 * i + 1];
                int e = noise_handshakestate_split(st[i], a, b);
                if (!a) c[2 * i] = 0;
                if (!b) c[2 * i + 1] = 0;
                for (int j = 0; j < 2; ++j) {
                    NoiseCipherState *x = c[2 * i + j];
                    bool wanted = j == 0 ? a : b;
                    CHECK(x != (NoiseCipherState *)0x10 && (e ? !x : !!x == wanted), "split error 0x%x, cipher %p", e, (void *)x);
                }
                return e;
            });
            for (int j = 0; j < 2; ++j) if (c[2 * i + j]) o.frees.push_back([x = c[2 * i + j]]() { noise_cipherstate_free(x); });
        }
        for (int i = 0; i < 3; ++i) {
            int from = i == 1 && !p.one_way ? 1 : 0;
            bool fbdir = fb;      // roles swap after the fallback, send and receive do not
            (void)fbdir;
            Buf b(Bytes(30, (uint8_t)i) + Bytes(16, 0));
            NoiseBuffer nb;
            noise_buffer_set_inout(nb, b.p, 30, 46);
            o.call("encrypt", [&]() { return noise_cipherstate_encrypt(c[2 * from], &nb); }, false);
            o.add(nb.data, nb.size);
            o.call("decrypt", [&]() { return noise_cipherstate_decrypt(c[2 * (1 - from) + 1], &nb); }, false);
            o.add(nb.data, nb.size);
        }
    };
    oom_runs(g, script, 8, ossl);
}
