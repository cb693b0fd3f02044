#include "nutil.h"

static int cat_pick(Gen &g, std::initializer_list<int> l, bool en) {
    size_t i = en ? g.en(l.size()) : g.u(l.size() - 1);
    return *(l.begin() + i);
}
Suite gen_suite(Gen &g, bool en, bool fallback) {
    std::vector<int> pats;
    for (auto &p : PATTERNS) {
        bool fb = p.id == NOISE_PATTERN_XX_FALLBACK || p.id == NOISE_PATTERN_XX_FALLBACK_HFS;
        if (!fb || fallback) pats.push_back(p.id);
    }
    Suite s;
    // NN and NNhfs also come with New Hope as the main DH: two extra entries
    size_t n = pats.size() + 2;
    size_t i = en ? g.en(n) : g.u(n - 1);
    bool nh = i >= pats.size();
    s.pattern = nh ? (i == pats.size() ? NOISE_PATTERN_NN : NOISE_PATTERN_NN_HFS) : pats[i];
    s.prefix = cat_pick(g, {NOISE_PREFIX_STANDARD, NOISE_PREFIX_PSK}, en);
    s.hash = cat_pick(g, {NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512}, en);
    s.cipher = cat_pick(g, {NOISE_CIPHER_CHACHAPOLY, NOISE_CIPHER_AESGCM}, en);
    s.dh = nh ? NOISE_DH_NEWHOPE : g.chance(1, 3) ? NOISE_DH_CURVE448 : NOISE_DH_CURVE25519;
    if (s.hfs()) s.hybrid = g.chance(2, 3) ? NOISE_DH_NEWHOPE : g.flip() ? NOISE_DH_CURVE448 : NOISE_DH_CURVE25519;
    return s;
}
Keys gen_keys(Gen &g, const Suite &s) {
    Keys k;
    for (int i = 0; i < 2; ++i) {
        k.s[i] = g.bytes(dh_priv_len(s.dh, true));
        k.e[i] = g.rnd(dh_priv_len(s.dh, true));
        if (s.hybrid) k.f[i] = g.rnd(dh_priv_len(s.hybrid, true));
    }
    k.prologue = g.chance(1, 4) ? Bytes() : g.chance(1, 40) ? g.rnd(65000 + g.u(70000)) : g.bytes(g.size(3000, {32, 64, 128}));
    if (s.psk()) k.psk = g.bytes(32);
    return k;
}
void lib_new(Gen &g, Lib &l, const Suite &s, bool initiator) {
    int role = initiator ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER, err;
    if (g.flip()) {
        NoiseProtocolId id = s.id();
        err = noise_handshakestate_new_by_id(&l.st, &id, role);
    } else err = noise_handshakestate_new_by_name(&l.st, s.name().c_str(), role);
    CHECK(err == NOISE_ERROR_NONE && l.st, "cannot create %s: error 0x%x", s.name().c_str(), err);
    CHECK_EQ(noise_handshakestate_get_role(l.st), role, "role");
    NoiseProtocolId got, want = s.id();
    CHECK_EQ(noise_handshakestate_get_protocol_id(l.st, &got), 0, "get_protocol_id");
    CHECK(!memcmp(&got, &want, sizeof got), "protocol id of %s reads back differently", s.name().c_str());
}
static void set_fixed(NoiseDHState *d, const Bytes &priv, const char *what) {
    CHECK(d, "no DHState for the %s key", what);
    size_t n = noise_dhstate_get_private_key_length(d);
    CHECK(n <= priv.size(), "private key length %zu for %s", n, what);
    CHECK_EQ(noise_dhstate_set_keypair_private(d, priv.data(), n), 0, what);
}
void lib_config(Gen &g, Lib &l, const Suite &s, bool init, const Keys &k, bool with_e) {
    MPattern p = parse_pattern(s.pattern);
    int me = init ? 0 : 1, other = 1 - me;
    CHECK_EQ(!!noise_handshakestate_needs_local_keypair(l.st), p.needs_s(init), "needs_local_keypair before");
    CHECK_EQ(!!noise_handshakestate_needs_remote_public_key(l.st), p.needs_rs(init), "needs_remote_public_key before");
    CHECK_EQ(!!noise_handshakestate_needs_pre_shared_key(l.st), s.psk(), "needs_pre_shared_key before");
    CHECK_EQ(!!noise_handshakestate_has_local_keypair(l.st), 0, "has_local_keypair before");
    CHECK_EQ(!!noise_handshakestate_has_remote_public_key(l.st), 0, "has_remote_public_key before");
    if (p.needs_s(init)) {
        NoiseDHState *d = noise_handshakestate_get_local_keypair_dh(l.st);
        CHECK(d, "no local static DHState");
        // a later key replaces an earlier one
        if (g.chance(1, 6)) { Bytes t = g.rnd(k.s[me].size()); CHECK_EQ(noise_dhstate_set_keypair_private(d, t.data(), t.size()), 0, "set static private (first)"); }
        if (g.flip()) CHECK_EQ(noise_dhstate_set_keypair_private(d, k.s[me].data(), k.s[me].size()), 0, "set static private");
        else {
            MKey kp = mkey(s.dh, k.s[me]);
            CHECK_EQ(noise_dhstate_set_keypair(d, k.s[me].data(), k.s[me].size(), kp.pub.data(), kp.pub.size()), 0, "set static keypair");
        }
        CHECK_EQ(!!noise_handshakestate_has_local_keypair(l.st), 1, "has_local_keypair after");
        CHECK_EQ(!!noise_handshakestate_needs_local_keypair(l.st), 0, "needs_local_keypair after");
    }
    if (p.needs_rs(init)) {
        NoiseDHState *d = noise_handshakestate_get_remote_public_key_dh(l.st);
        CHECK(d, "no remote static DHState");
        MKey kp = mkey(s.dh, k.s[other]);
        if (g.chance(1, 6)) { MKey t = mkey(s.dh, g.rnd(k.s[other].size())); CHECK_EQ(noise_dhstate_set_public_key(d, t.pub.data(), t.pub.size()), 0, "set remote public key (first)"); }
        CHECK_EQ(noise_dhstate_set_public_key(d, kp.pub.data(), kp.pub.size()), 0, "set remote public key");
        CHECK_EQ(!!noise_handshakestate_has_remote_public_key(l.st), 1, "has_remote_public_key after");
        CHECK_EQ(!!noise_handshakestate_needs_remote_public_key(l.st), 0, "needs_remote_public_key after");
    }
    if (s.psk()) {
        if (g.chance(1, 4)) { Bytes t = g.rnd(k.psk.size()); CHECK_EQ(noise_handshakestate_set_pre_shared_key(l.st, t.data(), t.size()), 0, "set_pre_shared_key (first)"); }
        CHECK_EQ(noise_handshakestate_set_pre_shared_key(l.st, k.psk.data(), k.psk.size()), 0, "set_pre_shared_key");
        CHECK_EQ(!!noise_handshakestate_has_pre_shared_key(l.st), 1, "has_pre_shared_key");
        CHECK_EQ(!!noise_handshakestate_needs_pre_shared_key(l.st), 0, "needs_pre_shared_key after");
    }
    if (!k.prologue.empty() || g.flip()) {
        if (g.chance(1, 4)) {       // a later prologue replaces an earlier one
            Bytes tmp = g.bytes(g.flip() ? k.prologue.size() : g.size(100));
            uint8_t z = 0;
            CHECK_EQ(noise_handshakestate_set_prologue(l.st, tmp.empty() ? &z : tmp.data(), tmp.size()), 0, "set_prologue (first)");
        }
        Buf b(k.prologue);
        CHECK_EQ(noise_handshakestate_set_prologue(l.st, b.p, b.n), 0, "set_prologue");
        memset(b.p, 0x5a, b.n);     // it is copied
    }
    if (with_e) {
        bool sends_e = false;
        for (auto &m : p.msgs) if (m.from_initiator == init) for (MTok t : m.toks) if (t == T_E) sends_e = true;
        if (sends_e) set_fixed(noise_handshakestate_get_fixed_ephemeral_dh(l.st), k.e[me], "fixed ephemeral");
        if (sends_e && s.hybrid) set_fixed(noise_handshakestate_get_fixed_hybrid_dh(l.st), k.f[me], "fixed hybrid");
    }
}
void model_config(MHandshake &m, const Suite &s, bool init, const Keys &k) {
    m.init(s, init);
    int me = init ? 0 : 1, other = 1 - me;
    if (m.pat.needs_s(init)) m.s = mkey(s.dh, k.s[me]);
    if (m.pat.needs_rs(init)) { MKey o = mkey(s.dh, k.s[other]); m.rs = mpub(s.dh, o.pub); }
    m.fixed_e = k.e[me];
    m.fixed_f = k.f[me];
    m.prologue = k.prologue;
    m.psk = k.psk;
}
size_t gen_payload_len(Gen &g, size_t max) {
    switch (g.u(9)) {
    case 0: case 1: return 0;
    case 2: return max;
    case 3: return max - g.u(20);
    case 4: return g.u(max);
    case 5: return g.u(2000);
    default: return g.u(100);
    }
}
Bytes lib_write(Gen &g, Lib &l, const Bytes &payload, size_t overhead) {
    size_t want = overhead + payload.size();
    size_t slack = g.chance(1, 3) ? g.u(64) : 0;
    Buf out(want + slack), in(payload);
    NoiseBuffer mb, pb;
    noise_buffer_set_output(mb, out.p, out.n);
    noise_buffer_set_input(pb, in.p, in.n);
    bool none = payload.empty() && g.flip();
    int err = noise_handshakestate_write_message(l.st, &mb, none ? nullptr : &pb);
    CHECK(err == 0, "write_message failed with 0x%x (overhead %zu, payload %zu, buffer %zu)", err, overhead, payload.size(), out.n);
    CHECK_EQ(mb.size, want, "size of the message written");
    CHECK(in.bytes() == payload, "write_message changed the caller's payload buffer");
    for (size_t i = mb.size; i < out.n; ++i) CHECK(out.p[i] == 0xa5, "write_message wrote past the message it reports");
    return out.bytes(mb.size);
}
Bytes lib_read(Gen &g, Lib &l, const Bytes &msg, const Bytes &expect) {
    Bytes wide = msg;           // the message may lie in a larger buffer
    if (g.chance(1, 3)) wide.resize(msg.size() + g.u(3000), 0x3c);
    Buf in(wide);
    NoiseBuffer mb, pb;
    if (in.n == msg.size() && g.flip()) noise_buffer_set_input(mb, in.p, in.n);
    else noise_buffer_set_inout(mb, in.p, msg.size(), in.n);
    bool none = g.chance(1, 8);
    Buf out(expect.size() + (g.flip() ? g.u(40) : 0));
    noise_buffer_set_output(pb, out.p, out.n);
    int err = noise_handshakestate_read_message(l.st, &mb, none ? nullptr : &pb);
    CHECK(err == 0, "read_message of an honest message failed with 0x%x", err);
    for (size_t i = 0; i < msg.size(); ++i) CHECK(in.p[i] == 0, "read_message left message bytes behind (documented to clear them)");
    for (size_t i = msg.size(); i < in.n; ++i) CHECK(in.p[i] == 0x3c, "read_message changed the buffer past the message");
    if (none) return expect;
    CHECK(out.bytes(pb.size) == expect, "payload read is %zu bytes %s, expected %zu bytes %s", pb.size,
          hex(out.p, pb.size).c_str(), expect.size(), hex(expect).c_str());
    for (size_t i = pb.size; i < out.n; ++i) CHECK(out.p[i] == 0xa5, "read_message wrote past the payload it reports");
    return out.bytes(pb.size);
}
Bytes handshake_hash(NoiseHandshakeState *st, size_t n) {
    Buf b(n);
    CHECK_EQ(noise_handshakestate_get_handshake_hash(st, b.p, n), 0, "get_handshake_hash");
    return b.bytes();
}
void check_transport(Gen &g, NoiseCipherState *send, NoiseCipherState *recv, MCipher ms, MCipher mr, int msgs) {
    for (int i = 0; i < msgs; ++i) {
        bool out = recv == nullptr ? true : send == nullptr ? false : g.flip();
        Bytes pt = g.bytes(g.chance(1, 20) ? 65519 - g.u(2) : g.size(600)), ad = g.chance(1, 3) ? g.bytes(g.size(100)) : Bytes();
        Buf a(ad);
        NoiseBuffer nb;
        if (out) {
            Buf b(pt + Bytes(16, 0));
            noise_buffer_set_inout(nb, b.p, pt.size(), b.n);
            int err = ad.empty() && g.flip() ? noise_cipherstate_encrypt(send, &nb)
                                             : noise_cipherstate_encrypt_with_ad(send, a.p, a.n, &nb);
            CHECK_EQ(err, 0, "transport encrypt");
            Bytes want = ms.enc(ad, pt);
            CHECK(b.bytes(nb.size) == want, "transport message %d (%zu bytes) differs from the model's: %s, expected %s", i, pt.size(), hex(b.p, nb.size).c_str(), hex(want).c_str());
        } else {
            Bytes ct = mr.enc(ad, pt);
            Buf b(ct);
            noise_buffer_set_inout(nb, b.p, b.n, b.n);
            int err = ad.empty() && g.flip() ? noise_cipherstate_decrypt(recv, &nb)
                                             : noise_cipherstate_decrypt_with_ad(recv, a.p, a.n, &nb);
            CHECK_EQ(err, 0, "transport decrypt of the peer's message");
            CHECK(b.bytes(nb.size) == pt, "transport plaintext differs");
        }
    }
}
void check_finish(Gen &g, Lib &l, MHandshake &m, bool one_way) {
    CHECK_ACTION(l.st, NOISE_ACTION_SPLIT, "after the last message");
    size_t hl = hash_len(m.suite.hash);
    size_t n = g.chance(1, 2) ? hl : g.size(100, {hl});
    Bytes want = m.sym.h;
    want.resize(n, 0);
    CHECK(handshake_hash(l.st, n) == want, "handshake hash %s differs from the model's %s", hex(handshake_hash(l.st, n), 80).c_str(), hex(want, 80).c_str());
    auto mc = m.split();
    Cipher s, r;
    bool skip_r = one_way && m.initiator && g.flip(), skip_s = one_way && !m.initiator && g.flip();
    int err = noise_handshakestate_split(l.st, skip_s ? nullptr : &s.c, skip_r ? nullptr : &r.c);
    CHECK_EQ(err, 0, "split");
    CHECK((skip_s || s.c) && (skip_r || r.c), "split gave no cipher");
    CHECK_ACTION(l.st, NOISE_ACTION_COMPLETE, "after split");
    CHECK(handshake_hash(l.st, n) == want, "handshake hash changed after split");
    Cipher x, y;
    CHECK_EQ(noise_handshakestate_split(l.st, &x.c, &y.c), NOISE_ERROR_INVALID_STATE, "second split");
    NoiseCipherState *us = one_way && !m.initiator ? nullptr : s.c, *ur = one_way && m.initiator ? nullptr : r.c;
    for (NoiseCipherState *c : {s.c, r.c}) if (c) {
        CHECK_EQ(noise_cipherstate_get_cipher_id(c), m.suite.cipher, "cipher id of the transport cipher");
        CHECK_EQ(!!noise_cipherstate_has_key(c), 1, "transport cipher has a key");
    }
    check_transport(g, us, ur, mc.first, mc.second, 1 + (int)g.u(4));
}
