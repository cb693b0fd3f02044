// Handshake properties: C01-C05, C31.
#include "nutil.h"

static void setup(Gen &g) { env_rand_seed(g.u(0xffffffffull)); }
static struct Init { Init() { case_setup = setup; } } init_;

static void start(Lib &l, bool init) {
    CHECK_EQ(noise_handshakestate_start(l.st), 0, "start");
    CHECK_ACTION(l.st, init ? NOISE_ACTION_WRITE_MESSAGE : NOISE_ACTION_READ_MESSAGE, "after start");
}

static void describe(Gen &g, const Suite &s, const Keys &k, const char *mode) {
    g.note("%s %s prologue=%zu bytes", s.name().c_str(), mode, k.prologue.size());
    g.key(s.name() + mode);
}

// Both parties are the library, ephemerals are fixed: every byte is compared.
TARGET(C01, bytes, 3, "complete handshake of two library peers with fixed keys, every message, payload, handshake hash and transport message compared byte for byte with the specification model; distinct by protocol name, message count and payload sizes") {
    Suite s = gen_suite(g);
    Keys k = gen_keys(g, s);
    Lib lib[2]; MHandshake m[2];
    for (int i = 0; i < 2; ++i) {
        lib_new(g, lib[i], s, i == 0);
        lib_config(g, lib[i], s, i == 0, k, true);
        model_config(m[i], s, i == 0, k);
        start(lib[i], i == 0);
        m[i].start();
    }
    describe(g, s, k, "fixed-ephemerals");
    MPattern p = m[0].pat;
    for (size_t i = 0; i < p.msgs.size(); ++i) {
        int w = p.msgs[i].from_initiator ? 0 : 1, r = 1 - w;
        CHECK_ACTION(lib[w].st, NOISE_ACTION_WRITE_MESSAGE, "writer");
        CHECK_ACTION(lib[r].st, NOISE_ACTION_READ_MESSAGE, "reader");
        size_t oh = m[w].overhead();
        Bytes payload = g.bytes(gen_payload_len(g, 65535 - oh));
        g.note(" msg%zu:%zu+%zu", i, oh, payload.size());
        g.key(std::to_string(payload.size()));
        Bytes want = m[w].write(payload);
        CHECK_EQ(want.size(), oh + payload.size(), "model overhead");
        Bytes msg = lib_write(g, lib[w], payload, oh);
        if (msg != want) {
            size_t d = 0;
            while (msg[d] == want[d]) ++d;
            FAILF("%s message %zu differs from the specification at byte %zu of %zu: %s, expected %s", s.name().c_str(), i, d, msg.size(),
                  hex(msg.data() + d, msg.size() - d, 24).c_str(), hex(want.data() + d, want.size() - d, 24).c_str());
        }
        lib_read(g, lib[r], msg, payload);
        Bytes pl;
        CHECK_EQ(m[r].read(msg, pl), M_OK, "model read");
    }
    for (int i = 0; i < 2; ++i) check_finish(g, lib[i], m[i], p.one_way);
    // the remote static key learnt in the handshake is the peer's
    for (int i = 0; i < 2; ++i)
        if (p.has_s(i != 0)) {
            NoiseDHState *d = noise_handshakestate_get_remote_public_key_dh(lib[i].st);
            CHECK(d && noise_handshakestate_has_remote_public_key(lib[i].st), "remote static key missing at the end");
            Bytes got(dh_pub_len(s.dh, true));
            CHECK_EQ(noise_dhstate_get_public_key(d, got.data(), got.size()), 0, "get remote static");
            CHECK(got == mkey(s.dh, k.s[1 - i]).pub, "remote static key after the handshake is not the peer's");
        }
    g.nontrivial();
}

// One library peer with its own random ephemerals against the model.
TARGET(C01, interop, 2, "complete handshake of one library peer (random ephemerals) with the specification model as its peer; distinct by protocol name, role and payload sizes") {
    Suite s = gen_suite(g);
    bool init = g.en(2);
    Keys k = gen_keys(g, s);
    Lib l; MHandshake m;
    lib_new(g, l, s, init);
    lib_config(g, l, s, init, k, false);
    model_config(m, s, !init, k);
    start(l, init);
    m.start();
    describe(g, s, k, init ? "library-initiates" : "library-responds");
    MPattern p = m.pat;
    while (!m.done()) {
        size_t oh = m.overhead();
        Bytes payload = g.bytes(gen_payload_len(g, 65535 - oh)), pl;
        g.note(" %zu+%zu", oh, payload.size());
        g.key(std::to_string(payload.size()));
        if (m.my_turn()) lib_read(g, l, m.write(payload), payload);
        else {
            Bytes msg = lib_write(g, l, payload, oh);
            MErr e = m.read(msg, pl);
            CHECK(e == M_OK, "the specification model rejects the library's message (%d)", e);
            CHECK(pl == payload, "the specification model reads another payload");
        }
    }
    // the model is the other side: compare with its view mirrored
    m.initiator = init;
    check_finish(g, l, m, p.one_way);
    g.nontrivial();
}

// Fresh ephemerals every time.
TARGET(C01, fresh, 0.3, "two handshakes with the same configuration must use different ephemerals and keys; distinct by protocol name") {
    Suite s = gen_suite(g);
    Keys k = gen_keys(g, s);
    Bytes first[2];
    for (int i = 0; i < 2; ++i) {
        Lib l;
        lib_new(g, l, s, true);
        lib_config(g, l, s, true, k, false);
        start(l, true);
        MHandshake m;
        model_config(m, s, true, k);
        first[i] = lib_write(g, l, Bytes(), m.overhead());
    }
    size_t n = dh_pub_len(s.dh, true);
    CHECK(sub(first[0], 0, n) != sub(first[1], 0, n), "two sessions used the same ephemeral key");
    g.key(s.name());
    g.note("%s", s.name().c_str());
    g.nontrivial();
}

// ------------------------------------------------------------------ C02
// A session in which something was changed in transit or configured
// differently: the library must accept and reject exactly what the
// specification does, and may never complete as if nothing had happened.
static void expect_reject(Lib &l, const Bytes &msg, int want, size_t cap, bool unreduced = false) {
    // the message may lie in a larger buffer, and the payload's size is only an output
    size_t spare = msg.size() % 3 == 0 ? 0 : 64 + msg.size() % 5 * 500;
    Bytes wide = msg; wide.resize(msg.size() + spare, 0x3c);
    Buf in(wide), out(cap);
    NoiseBuffer mb, pb;
    noise_buffer_set_inout(mb, in.p, msg.size(), in.n);
    noise_buffer_set_output(pb, out.p, out.n);
    pb.size = cap;
    int err = noise_handshakestate_read_message(l.st, &mb, &pb);
    CHECK(err != 0, "a message the specification rejects was accepted (expected error 0x%x)", want);
    CHECK(err == want || (unreduced && err == NOISE_ERROR_INVALID_PUBLIC_KEY), "rejected with 0x%x, expected 0x%x", err, want);
    CHECK_EQ(pb.size, 0, "payload size after a rejected message");
    for (size_t i = 0; i < out.n; ++i) CHECK(out.p[i] == 0xa5, "payload bytes were released from a rejected message");
    for (size_t i = 0; i < msg.size(); ++i) CHECK(in.p[i] == 0, "message bytes left behind after a rejected message");
    for (size_t i = msg.size(); i < in.n; ++i) CHECK(in.p[i] == 0x3c, "read_message changed the buffer past the message");
    CHECK_ACTION(l.st, NOISE_ACTION_FAILED, "after a rejected message");
    // and the session stays failed
    Bytes h(32);
    CHECK_EQ(noise_handshakestate_get_handshake_hash(l.st, h.data(), 32), NOISE_ERROR_INVALID_STATE, "handshake hash of a failed session");
    Cipher a, b;
    CHECK_EQ(noise_handshakestate_split(l.st, &a.c, &b.c), NOISE_ERROR_INVALID_STATE, "split of a failed session");
    CHECK(!a.c && !b.c, "a failed session handed out transport ciphers");
    Buf again(msg);
    noise_buffer_set_input(mb, again.p, again.n);
    CHECK_EQ(noise_handshakestate_read_message(l.st, &mb, &pb), NOISE_ERROR_INVALID_STATE, "read after failure");
    noise_buffer_set_output(mb, again.p, again.n);
    CHECK_EQ(noise_handshakestate_write_message(l.st, &mb, nullptr), NOISE_ERROR_INVALID_STATE, "write after failure");
}
static int lib_err(MErr e) { return e == M_LENGTH ? NOISE_ERROR_INVALID_LENGTH : e == M_MAC ? NOISE_ERROR_MAC_FAILURE : NOISE_ERROR_INVALID_PUBLIC_KEY; }

static Bytes mutate(Gen &g, const Bytes &m, const std::vector<Bytes> &earlier, const std::vector<size_t> &cuts, std::string &how) {
    Bytes r(m);
    switch (g.u(7)) {
    case 0: case 1: case 2: {      // flip a bit, preferably near a boundary
        if (r.empty()) { r.push_back(1); how = "append to empty"; break; }
        size_t i;
        if (g.flip() && !cuts.empty()) {
            size_t c = g.pick(cuts);
            size_t off = g.u(40);
            i = c + off < 20 ? 0 : c + off - 20;
            if (i >= r.size()) i = r.size() - 1;
        } else i = g.u(r.size() - 1);
        r[i] ^= (uint8_t)(1u << g.u(7));
        how = strf("flip a bit of byte %zu", i);
        break;
    }
    case 3: {
        if (r.empty()) { r.push_back(1); how = "append"; break; }
        size_t n = g.flip() ? 1 + g.u(r.size() - 1 > 20 ? 20 : r.size() - 1) : 1 + g.u(r.size() - 1);
        r.resize(r.size() - n);
        how = strf("drop the last %zu bytes", n);
        break;
    }
    case 4: { Bytes x = g.bytes(1 + g.u(40)); r = r + x; how = strf("append %zu bytes", x.size()); break; }
    case 5: {
        size_t at = g.u(r.size());
        Bytes x = g.bytes(1 + g.u(40));
        r.insert(r.begin() + at, x.begin(), x.end());
        how = strf("insert %zu bytes at %zu", x.size(), at);
        break;
    }
    case 6: {
        if (earlier.empty()) { if (r.empty()) r.push_back(1); else r[0] ^= 1; how = "flip first bit"; break; }
        size_t i = g.u(earlier.size() - 1);
        r = earlier[i];
        how = strf("replay message %zu", i);
        break;
    }
    default: {
        if (r.empty()) { r.push_back(7); how = "append"; break; }
        size_t at = g.u(r.size() - 1), n = 1 + g.u(r.size() - at - 1 > 63 ? 63 : r.size() - at - 1);
        Bytes x = g.bytes(n);
        std::copy(x.begin(), x.end(), r.begin() + at);
        how = strf("overwrite %zu bytes at %zu", n, at);
    }
    }
    if (r.size() > 65535) r.resize(65535);
    return r;
}

TARGET(C02, tamper, 3, "handshake in which one message is changed in transit; accept/reject, error and later failure compared with the specification model; non-trivial when the change altered the bytes; distinct by protocol, message and change") {
    Suite s = gen_suite(g);
    Keys k = gen_keys(g, s);
    Lib lib[2]; MHandshake m[2];
    for (int i = 0; i < 2; ++i) {
        lib_new(g, lib[i], s, i == 0);
        lib_config(g, lib[i], s, i == 0, k, true);
        model_config(m[i], s, i == 0, k);
        start(lib[i], i == 0);
        m[i].start();
    }
    MPattern p = m[0].pat;
    size_t victim = g.u(p.msgs.size() - 1);
    std::vector<Bytes> seen;
    bool changed = false;
    std::string how;
    for (size_t i = 0; i < p.msgs.size(); ++i) {
        int w = p.msgs[i].from_initiator ? 0 : 1, r = 1 - w;
        size_t oh = m[w].overhead();
        Bytes payload = g.bytes(g.u(3) ? g.u(60) : gen_payload_len(g, 65535 - oh)), pl;
        std::vector<size_t> cuts;
        m[w].write(payload, &cuts);
        Bytes msg = lib_write(g, lib[w], payload, oh), rx = msg;
        if (i == victim) {
            rx = mutate(g, msg, seen, cuts, how);
            changed = rx != msg;
            g.note("%s message %zu (%zu bytes): %s", s.name().c_str(), i, msg.size(), how.c_str());
            g.key(s.name() + how + std::to_string(i));
        }
        seen.push_back(msg);
        MErr e = m[r].read(rx, pl);
        if (e != M_OK) {
            CHECK(changed, "model rejects an honest message");
            expect_reject(lib[r], rx, lib_err(e), rx.size(), m[r].unreduced);
            g.label("rejected at once or later by the receiver");
            g.nontrivial();
            return;
        }
        if (m[r].unreduced) { g.label("unreduced X448 value: may be refused"); return; }
        lib_read(g, lib[r], rx, pl);
    }
    for (int i = 0; i < 2; ++i) CHECK_ACTION(lib[i].st, NOISE_ACTION_SPLIT, "end");
    Bytes h0 = handshake_hash(lib[0].st, 64), h1 = handshake_hash(lib[1].st, 64);
    if (!changed) { CHECK(h0 == h1, "unchanged session, different handshake hashes"); return; }
    CHECK(h0 != h1, "a message was changed in transit (%s) and both sides still agree on the handshake hash", how.c_str());
    g.label("completed with different handshake hashes");
    g.nontrivial();
}

TARGET(C02, mismatch, 2, "the two sides are configured differently (prologue, PSK, a static key, the protocol name); errors and outcome compared with the model; distinct by protocol and kind of mismatch") {
    Suite s = gen_suite(g);
    Keys k[2];
    k[0] = gen_keys(g, s);
    k[1] = k[0];
    Suite su[2] = {s, s};
    MPattern p = parse_pattern(s.pattern);
    std::string how;
    int who = (int)g.u(1);
    unsigned kind = (unsigned)g.u(4);
    bool rs_known = p.needs_rs(true) || p.needs_rs(false);
    if (kind == 1 && !s.psk()) kind = 0;
    if ((kind == 2 || kind == 3) && !rs_known) kind = 0;
    switch (kind) {
    case 0: {
        Bytes &q = k[who].prologue;
        if (q.empty() || g.u(2) == 0) q.push_back((uint8_t)g.u(255));
        else if (g.flip()) q.pop_back();
        else q[g.u(q.size() - 1)] ^= (uint8_t)(1 << g.u(7));
        how = "prologue";
        break;
    }
    case 1: k[who].psk[g.u(31)] ^= (uint8_t)(1 << g.u(7)); how = "psk"; break;
    case 2: case 3: {
        // one side believes in another static key of its peer
        bool i_knows = p.needs_rs(true) && (!p.needs_rs(false) || g.flip());
        int believer = i_knows ? 0 : 1, owner = 1 - believer;
        Bytes other = g.rnd(k[0].s[owner].size());
        if (mkey(s.dh, other).pub == mkey(s.dh, k[0].s[owner]).pub) return;
        k[believer].s[owner] = other;
        how = i_knows ? "responder static" : "initiator static";
        break;
    }
    default:
        if (g.flip()) su[who].cipher = su[who].cipher == NOISE_CIPHER_AESGCM ? NOISE_CIPHER_CHACHAPOLY : NOISE_CIPHER_AESGCM;
        else su[who].hash = su[who].hash == NOISE_HASH_BLAKE2s ? NOISE_HASH_SHA256 : su[who].hash == NOISE_HASH_SHA256 ? NOISE_HASH_BLAKE2s :
            su[who].hash == NOISE_HASH_BLAKE2b ? NOISE_HASH_SHA512 : NOISE_HASH_BLAKE2b;
        how = "protocol name";
    }
    g.note("%s: different %s", s.name().c_str(), how.c_str());
    g.key(s.name() + how);
    Lib lib[2]; MHandshake m[2];
    for (int i = 0; i < 2; ++i) {
        lib_new(g, lib[i], su[i], i == 0);
        lib_config(g, lib[i], su[i], i == 0, k[i], true);
        model_config(m[i], su[i], i == 0, k[i]);
        start(lib[i], i == 0);
        m[i].start();
    }
    for (size_t i = 0; i < p.msgs.size(); ++i) {
        int w = p.msgs[i].from_initiator ? 0 : 1, r = 1 - w;
        size_t oh = m[w].overhead();
        bool enc = m[w].payload_encrypted();
        Bytes payload = g.bytes(g.u(60)), pl;
        Bytes want = m[w].write(payload), msg = lib_write(g, lib[w], payload, oh);
        CHECK(msg == want, "message %zu differs from the model's", i);
        MErr e = m[r].read(msg, pl);
        CHECK(!(enc && e == M_OK), "model accepted an encrypted message in spite of the mismatch");
        if (e != M_OK) {
            expect_reject(lib[r], msg, lib_err(e), msg.size());
            g.label("rejected");
            g.nontrivial();
            return;
        }
        lib_read(g, lib[r], msg, pl);
    }
    FAILF("the handshake completed in spite of different %s", how.c_str());
}

// ------------------------------------------------------------------ C03
// Random calls on one handshake object, in and out of order.
struct Tracker {
    int action = NOISE_ACTION_NONE;
    bool s = false, rs = false, psk = false;
};
TARGET(C03, calls, 1, "a random sequence of API calls (configure, start, write, read, split, query) on one handshake object in any order, results and get_action() compared with a state machine; non-trivial when at least one call came out of order and the handshake started; distinct by protocol and call sequence") {
    Suite s = gen_suite(g);
    bool init = g.en(2);
    Keys k = gen_keys(g, s);
    Lib l; MHandshake peer;
    lib_new(g, l, s, init);
    model_config(peer, s, !init, k);
    peer.start();
    MPattern p = peer.pat;
    Tracker t;
    size_t hl = hash_len(s.hash);
    int n = 6 + (int)g.u(30), out_of_order = 0;
    bool started = false;
    Cipher c1, c2;
    std::string seq;
    g.note("%s %s:", s.name().c_str(), init ? "initiator" : "responder");
    auto cfg_err = [&](int normal) { return t.action != NOISE_ACTION_NONE ? NOISE_ERROR_INVALID_STATE : normal; };
    NoiseDHState *ls = noise_handshakestate_get_local_keypair_dh(l.st), *rs = noise_handshakestate_get_remote_public_key_dh(l.st);
    if (p.has_s(init)) CHECK(ls, "%s uses a local static key but there is no DHState for it", s.name().c_str());
    if (p.has_s(!init)) CHECK(rs, "%s uses a remote static key but there is no DHState for it", s.name().c_str());
    // mostly in order: the natural next call is favoured
    for (int i = 0; i < n; ++i) {
        int op;
        if (g.chance(3, 5)) {
            if (t.action == NOISE_ACTION_NONE) op = p.needs_s(init) && !t.s ? 2 : p.needs_rs(init) && !t.rs ? 3 : s.psk() && !t.psk ? 0 : 4;
            else if (t.action == NOISE_ACTION_WRITE_MESSAGE) op = 5;
            else if (t.action == NOISE_ACTION_READ_MESSAGE) op = 6;
            else if (t.action == NOISE_ACTION_SPLIT) op = g.flip() ? 7 : 8;
            else op = (int)g.u(11);
        } else op = (int)g.u(11);
        seq += (char)('a' + op);
        switch (op) {
        case 0: {
            size_t len = g.chance(1, 6) ? g.u(64) : 32;
            Bytes b = s.psk() && len == 32 ? k.psk : g.bytes(len);
            uint8_t z = 0;
            int want = len != 32 ? NOISE_ERROR_INVALID_LENGTH : !s.psk() ? NOISE_ERROR_NOT_APPLICABLE : cfg_err(0);
            if (len != 32 && (!s.psk() || t.action != NOISE_ACTION_NONE)) break;   // two faults: order unspecified
            if (!s.psk() && t.action != NOISE_ACTION_NONE) break;
            CHECK_EQ(noise_handshakestate_set_pre_shared_key(l.st, b.empty() ? &z : b.data(), len), want, "set_pre_shared_key");
            if (want == 0) t.psk = true; else ++out_of_order;
            break;
        }
        case 1: {
            uint8_t z = 0;
            int want = cfg_err(0);
            CHECK_EQ(noise_handshakestate_set_prologue(l.st, k.prologue.empty() ? &z : k.prologue.data(), k.prologue.size()), want, "set_prologue");
            if (want) ++out_of_order;
            break;
        }
        case 2:
            if (!ls || t.action != NOISE_ACTION_NONE) break;
            if (g.chance(1, 5)) {           // the keys go again, wholly or but for the public one
                if (g.flip()) CHECK_EQ(noise_dhstate_clear_key(ls), 0, "clear");
                else {
                    MKey o = mkey(s.dh, k.s[init ? 0 : 1]);
                    CHECK_EQ(noise_dhstate_set_public_key(ls, o.pub.data(), o.pub.size()), 0, "public key alone");
                }
                seq += t.s ? "-" : "~";
                t.s = false;
                break;
            }
            CHECK_EQ(noise_dhstate_set_keypair_private(ls, k.s[init ? 0 : 1].data(), k.s[init ? 0 : 1].size()), 0, "static");
            t.s = true;
            break;
        case 3: {
            if (!rs || t.action != NOISE_ACTION_NONE) break;
            if (!p.needs_rs(init)) break;
            if (g.chance(1, 6)) {
                CHECK_EQ(noise_dhstate_clear_key(rs), 0, "clear");
                seq += t.rs ? "-" : "~";
                t.rs = false;
                break;
            }
            MKey o = mkey(s.dh, k.s[init ? 1 : 0]);
            CHECK_EQ(noise_dhstate_set_public_key(rs, o.pub.data(), o.pub.size()), 0, "remote static");
            t.rs = true;
            break;
        }
        case 4: {
            bool ms = p.needs_s(init) && !t.s, mr = p.needs_rs(init) && !t.rs, mp = s.psk() && !t.psk;
            CHECK_EQ(!!noise_handshakestate_needs_local_keypair(l.st), ms, "needs_local_keypair");
            if (t.action == NOISE_ACTION_NONE) CHECK_EQ(!!noise_handshakestate_needs_remote_public_key(l.st), mr, "needs_remote_public_key");
            CHECK_EQ(!!noise_handshakestate_needs_pre_shared_key(l.st), mp, "needs_pre_shared_key");
            int err = noise_handshakestate_start(l.st);
            if (t.action != NOISE_ACTION_NONE) { CHECK_EQ(err, NOISE_ERROR_INVALID_STATE, "start twice"); ++out_of_order; break; }
            if (!ms && !mr && !mp) {
                // the prologue has to match the peer's for the rest to work:
                // the peer gets ours if it was never set
                CHECK_EQ(err, 0, "start with everything set");
                t.action = init ? NOISE_ACTION_WRITE_MESSAGE : NOISE_ACTION_READ_MESSAGE;
                if (seq.find('b') == std::string::npos) { peer.prologue.clear(); peer.start(); }
                started = true;
            } else {
                ++out_of_order;
                bool ok = (ms && err == NOISE_ERROR_LOCAL_KEY_REQUIRED) || (mr && err == NOISE_ERROR_REMOTE_KEY_REQUIRED) || (mp && err == NOISE_ERROR_PSK_REQUIRED);
                CHECK(ok, "start without a required key returned 0x%x (missing: %s%s%s)", err, ms ? "local " : "", mr ? "remote " : "", mp ? "psk" : "");
            }
            break;
        }
        case 5: {
            Bytes payload = g.bytes(g.u(40)), pl;
            Buf out(8000), in(payload);
            NoiseBuffer mb, pb;
            noise_buffer_set_input(pb, in.p, in.n);
            if (t.action == NOISE_ACTION_WRITE_MESSAGE) {
                size_t need = peer.overhead() + payload.size();
                bool small = g.chance(1, 12) && need > 0;
                size_t cap = small ? (g.flip() ? need - 1 : g.u(need - 1)) : out.n;
                noise_buffer_set_output(mb, out.p, cap);
                int err = noise_handshakestate_write_message(l.st, &mb, &pb);
                if (small) {
                    CHECK_EQ(err, NOISE_ERROR_INVALID_LENGTH, "write into a small buffer");
                    CHECK_EQ(mb.size, 0, "size after a failed write");
                    for (size_t q = cap; q < out.n; ++q) CHECK(out.p[q] == 0xa5, "write past the buffer");
                    t.action = NOISE_ACTION_FAILED;
                    ++out_of_order;
                } else {
                    CHECK_EQ(err, 0, "write in order");
                    CHECK(peer.read(out.bytes(mb.size), pl) == M_OK && pl == payload, "the peer rejects the message");
                    t.action = peer.done() ? NOISE_ACTION_SPLIT : NOISE_ACTION_READ_MESSAGE;
                }
            } else {
                noise_buffer_set_output(mb, out.p, out.n);
                CHECK_EQ(noise_handshakestate_write_message(l.st, &mb, &pb), NOISE_ERROR_INVALID_STATE, "write out of order");
                CHECK_EQ(mb.size, 0, "size after a refused write");
                ++out_of_order;
            }
            break;
        }
        case 6: {
            Buf out(200);
            NoiseBuffer mb, pb;
            noise_buffer_set_output(pb, out.p, out.n);
            if (t.action == NOISE_ACTION_READ_MESSAGE) {
                Bytes payload = g.bytes(g.u(40));
                Bytes msg = peer.write(payload);
                Buf in(msg);
                noise_buffer_set_input(mb, in.p, in.n);
                bool small = !payload.empty() && g.chance(1, 12);
                if (small) noise_buffer_set_output(pb, out.p, payload.size() - 1 - g.u(payload.size() - 1));
                int err = noise_handshakestate_read_message(l.st, &mb, &pb);
                if (small) {
                    CHECK_EQ(err, NOISE_ERROR_INVALID_LENGTH, "read with a small payload buffer");
                    t.action = NOISE_ACTION_FAILED;
                    ++out_of_order;
                } else {
                    CHECK_EQ(err, 0, "read in order");
                    CHECK(out.bytes(pb.size) == payload, "payload");
                    t.action = peer.done() ? NOISE_ACTION_SPLIT : NOISE_ACTION_WRITE_MESSAGE;
                }
            } else {
                Buf in(g.bytes(g.u(100)));
                noise_buffer_set_input(mb, in.p, in.n);
                pb.size = g.u(pb.max_size);
                CHECK_EQ(noise_handshakestate_read_message(l.st, &mb, &pb), NOISE_ERROR_INVALID_STATE, "read out of order");
                CHECK_EQ(pb.size, 0, "payload size after a refused read");
                ++out_of_order;
            }
            break;
        }
        case 7: {
            Bytes h(hl);
            int err = noise_handshakestate_get_handshake_hash(l.st, h.data(), h.size());
            if (t.action == NOISE_ACTION_SPLIT || t.action == NOISE_ACTION_COMPLETE) {
                CHECK_EQ(err, 0, "handshake hash at the end");
                CHECK(h == peer.sym.h, "handshake hash differs");
            } else { CHECK_EQ(err, NOISE_ERROR_INVALID_STATE, "handshake hash too early"); ++out_of_order; }
            break;
        }
        case 8: {
            Cipher a, b;
            if (t.action == NOISE_ACTION_SPLIT && g.chance(1, 4)) {
                CHECK_EQ(noise_handshakestate_split(l.st, nullptr, nullptr), NOISE_ERROR_INVALID_PARAM, "split into nothing");
                break;
            }
            // the direction that is not needed may be left out
            int half = (int)g.u(5);
            int err = noise_handshakestate_split(l.st, half == 1 ? nullptr : &a.c, half == 2 ? nullptr : &b.c);
            if (t.action == NOISE_ACTION_SPLIT) {
                CHECK_EQ(err, 0, "split");
                auto mc = peer.split();
                CHECK(!a.c == (half == 1) && !b.c == (half == 2), "split gave other ciphers than asked for");
                if (half != 1 && half != 2) check_transport(g, a.c, b.c, mc.second, mc.first, 2);
                t.action = NOISE_ACTION_COMPLETE;
            } else {
                CHECK_EQ(err, NOISE_ERROR_INVALID_STATE, "split at the wrong time");
                CHECK(!a.c && !b.c, "refused split gave out a cipher");
                ++out_of_order;
            }
            break;
        }
        case 9:
            // fallback outside its window
            if (t.action == NOISE_ACTION_NONE || t.action == NOISE_ACTION_SPLIT || t.action == NOISE_ACTION_COMPLETE) {
                int err = noise_handshakestate_fallback(l.st);
                CHECK(err == NOISE_ERROR_INVALID_STATE || err == NOISE_ERROR_NOT_APPLICABLE, "fallback at the wrong time returned 0x%x", err);
                ++out_of_order;
            }
            break;
        case 10: {
            CHECK_EQ(noise_handshakestate_start(nullptr), NOISE_ERROR_INVALID_PARAM, "start(NULL)");
            NoiseBuffer mb;
            noise_buffer_init(mb);
            CHECK_EQ(noise_handshakestate_write_message(l.st, nullptr, nullptr), NOISE_ERROR_INVALID_PARAM, "write(NULL)");
            CHECK_EQ(noise_handshakestate_write_message(l.st, &mb, nullptr), NOISE_ERROR_INVALID_PARAM, "write into no buffer");
            CHECK_EQ(noise_handshakestate_read_message(l.st, nullptr, nullptr), NOISE_ERROR_INVALID_PARAM, "read(NULL)");
            break;
        }
        }
        CHECK_ACTION(l.st, t.action, strf("after call %d (%s)", i, seq.c_str()).c_str());
    }
    g.note("%s", seq.c_str());
    g.key(s.name() + seq);
    g.label(strf("ends in %s", action_name(t.action)).c_str());
    g.nontrivial(started && out_of_order > 0);
}

// Creating objects from arbitrary identifiers.
TARGET(C03, create, 0.5, "noise_handshakestate_new_by_id with arbitrary combinations of identifiers: accepted exactly when the combination is a protocol the library documents, object usable afterwards, NULL otherwise; distinct by the identifiers") {
    auto any = [&](std::vector<int> good, int cat) -> int {
        if (g.chance(9, 10)) return g.pick(good);
        switch (g.u(3)) { case 0: return 0; case 1: return NOISE_ID(cat, g.u(100)); case 2: return (int)g.u(0xffff); default: return NOISE_ID('C' + g.u(20), g.u(6)); }
    };
    NoiseProtocolId id;
    memset(&id, 0, sizeof id);
    std::vector<int> pats;
    for (auto &p : PATTERNS) pats.push_back(p.id);
    id.prefix_id = any({NOISE_PREFIX_STANDARD, NOISE_PREFIX_PSK}, 'N');
    id.pattern_id = any(pats, 'P');
    id.dh_id = any({NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE}, 'D');
    id.cipher_id = any({NOISE_CIPHER_CHACHAPOLY, NOISE_CIPHER_AESGCM}, 'C');
    id.hash_id = any({NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512}, 'H');
    id.hybrid_id = g.flip() ? 0 : any({NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE}, 'D');
    auto is = [](int v, std::vector<int> l) { for (int x : l) if (x == v) return true; return false; };
    bool known = is(id.prefix_id, {NOISE_PREFIX_STANDARD, NOISE_PREFIX_PSK}) && is(id.pattern_id, pats) &&
        is(id.dh_id, {NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE}) && is(id.cipher_id, {NOISE_CIPHER_CHACHAPOLY, NOISE_CIPHER_AESGCM}) &&
        is(id.hash_id, {NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512}) &&
        (id.hybrid_id == 0 || is(id.hybrid_id, {NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE}));
    bool ok = known;
    if (known) {
        MPattern p = parse_pattern(id.pattern_id);
        if (p.hfs() != (id.hybrid_id != 0)) ok = false;
        // an ephemeral-only algorithm only works where no static keys are used
        if (id.dh_id == NOISE_DH_NEWHOPE && (p.needs_s(true) || p.needs_s(false))) ok = false;
    }
    bool init = g.flip();
    Lib l;
    NoiseHandshakeState *st = (NoiseHandshakeState *)&l;
    int err = noise_handshakestate_new_by_id(&st, &id, init ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER);
    std::string d = strf("prefix %x pattern %x dh %x cipher %x hash %x hybrid %x", id.prefix_id, id.pattern_id, id.dh_id, id.cipher_id, id.hash_id, id.hybrid_id);
    g.key(d);
    g.note("%s -> 0x%x", d.c_str(), err);
    if (ok) {
        CHECK(err == 0 && st, "%s refused with 0x%x", d.c_str(), err);
        l.st = st;
        NoiseProtocolId back;
        noise_handshakestate_get_protocol_id(st, &back);
        CHECK(!memcmp(&back, &id, sizeof id), "protocol id changed");
        if (id.pattern_id == NOISE_PATTERN_XX_FALLBACK || id.pattern_id == NOISE_PATTERN_XX_FALLBACK_HFS)
            CHECK_EQ(noise_handshakestate_start(st), NOISE_ERROR_NOT_APPLICABLE, "starting a fallback pattern without a previous handshake");
        CHECK_ACTION(st, NOISE_ACTION_NONE, "new object");
        g.label("accepted");
    } else {
        CHECK(err != 0, "%s is not a valid protocol but was accepted", d.c_str());
        if (known) CHECK_EQ(err, NOISE_ERROR_NOT_APPLICABLE, "error for a combination that is not permitted");
        else CHECK(err == NOISE_ERROR_UNKNOWN_ID || err == NOISE_ERROR_NOT_APPLICABLE || err == NOISE_ERROR_INVALID_LENGTH, "error 0x%x for unknown ids", err);
        CHECK(!st, "the object pointer is not NULL after a failed creation (dangling)");
        g.label(known ? "not permitted" : "unknown id");
    }
    g.nontrivial(known);
}

// ------------------------------------------------------------------ C04
TARGET(C04, null_keys, 1, "a peer sends an all-zero ephemeral (or hybrid) public key at each place the pattern allows: the receiver must report INVALID_PUBLIC_KEY, fail, and release nothing; distinct by protocol, message, token") {
    Suite s = gen_suite(g);
    bool init = g.en(2);
    Keys k = gen_keys(g, s);
    Lib l; MHandshake m;
    lib_new(g, l, s, init);
    lib_config(g, l, s, init, k, false);
    model_config(m, s, !init, k);
    // (the null value is a notion of the two curves, not of New Hope)
    if (s.dh == NOISE_DH_NEWHOPE) return;
    bool null_f = s.hybrid && s.hybrid != NOISE_DH_NEWHOPE && g.flip();
    (null_f ? m.send_null_f : m.send_null_e) = true;
    start(l, init);
    m.start();
    g.note("%s library %s null %s", s.name().c_str(), init ? "initiates" : "responds", null_f ? "f" : "e");
    g.key(s.name() + (init ? "i" : "r") + (null_f ? "f" : "e"));
    while (!m.done()) {
        Bytes payload = g.bytes(g.u(50)), pl;
        size_t oh = m.overhead();
        if (!m.my_turn()) {
            Bytes msg = lib_write(g, l, payload, oh);
            CHECK_EQ(m.read(msg, pl), M_OK, "model read");
            continue;
        }
        bool has = false;
        for (MTok t : m.pat.msgs[m.next].toks) if (t == (null_f ? T_F : T_E)) has = true;
        Bytes msg = m.write(payload);
        if (!has) { lib_read(g, l, msg, payload); continue; }
        expect_reject(l, msg, NOISE_ERROR_INVALID_PUBLIC_KEY, msg.size() + 10);
        g.nontrivial();
        return;
    }
    // patterns in which the peer never sends that token
    CHECK(m.pat.one_way && !m.initiator, "no message carried the key");
}

// ------------------------------------------------------------------ C05
TARGET(C05, pipes, 3, "Noise Pipes: a handshake whose first message is rejected (wrong key, tampering) or accepted, both sides fall back to XXfallback (or its hfs variant), every byte compared with the model; distinct by protocol, reason and payload sizes") {
    Suite s = gen_suite(g, false);
    static const int from[] = {NOISE_PATTERN_IK, NOISE_PATTERN_XK, NOISE_PATTERN_KK, NOISE_PATTERN_IK_NOIDH,
                               NOISE_PATTERN_IK_HFS, NOISE_PATTERN_XK_HFS, NOISE_PATTERN_KK_HFS, NOISE_PATTERN_IK_NOIDH_HFS};
    s.pattern = from[g.en(8)];
    if (s.dh == NOISE_DH_NEWHOPE) s.dh = NOISE_DH_CURVE25519;
    s.hybrid = s.hfs() ? (s.hybrid ? s.hybrid : NOISE_DH_NEWHOPE) : 0;
    Keys k = gen_keys(g, s);
    unsigned reason = (unsigned)g.u(3);
    g.note("%s reason %u", s.name().c_str(), reason);
    g.key(s.name() + std::to_string(reason));
    Keys ki = k;
    if (reason == 0) ki.s[1] = g.rnd(k.s[1].size());       // the initiator has an outdated responder key
    Lib lib[2]; MHandshake m[2];
    for (int i = 0; i < 2; ++i) {
        const Keys &kk = i == 0 ? ki : k;
        lib_new(g, lib[i], s, i == 0);
        lib_config(g, lib[i], s, i == 0, kk, true);
        model_config(m[i], s, i == 0, kk);
        start(lib[i], i == 0);
        m[i].start();
    }
    Bytes payload = g.bytes(g.u(80)), pl;
    size_t oh = m[0].overhead();
    Bytes want = m[0].write(payload);
    Bytes msg = lib_write(g, lib[0], payload, oh);
    CHECK(msg == want, "first message differs");
    Bytes rx = msg;
    // damage something after the public keys sent in the clear
    size_t clear = dh_pub_len(s.dh, true);
    if (s.hybrid) clear += dh_pub_len(s.hybrid, true) + (s.psk() ? 16 : 0);
    if (reason == 1) rx[clear + g.u(rx.size() - clear - 1)] ^= 1;
    if (reason == 2 && rx.size() > clear) rx.resize(clear + g.u(rx.size() - clear - 1));
    // (with a NewHope hybrid and reason 2, nothing before `clear` is cut)
    MErr e = m[1].read(rx, pl);
    if (reason == 3) {
        CHECK_EQ(e, M_OK, "model read");
        lib_read(g, lib[1], rx, payload);       // falls back all the same
    } else if (e == M_OK) {
        CHECK(reason == 1 && (s.pattern == NOISE_PATTERN_IK_NOIDH || s.pattern == NOISE_PATTERN_IK_NOIDH_HFS), "damage not noticed");
        return;      // IKnoidh sends s in the clear: the change shows only in the hash
    } else expect_reject(lib[1], rx, lib_err(e), rx.size(), m[1].unreduced);
    // both sides change over
    int fb = s.hfs() ? NOISE_PATTERN_XX_FALLBACK_HFS : NOISE_PATTERN_XX_FALLBACK;
    // a pre-shared key encrypts the hybrid key: a responder that could not
    // decrypt it has nothing to fall back with
    if (s.psk() && s.hybrid && reason == 0) {
        CHECK_EQ(noise_handshakestate_fallback_to(lib[1].st, fb), NOISE_ERROR_INVALID_STATE, "responder's fallback without the initiator's hybrid key");
        CHECK_ACTION(lib[1].st, NOISE_ACTION_FAILED, "after a refused fallback");
        return;
    }
    Suite fs = s;
    fs.pattern = fb;
    Keys fk = k;
    bool new_prologue = g.flip();
    if (new_prologue) fk.prologue = g.bytes(g.size(200));
    for (int i = 0; i < 2; ++i) {
        int err = !s.hfs() && g.flip() ? noise_handshakestate_fallback(lib[i].st) : noise_handshakestate_fallback_to(lib[i].st, fb);
        CHECK_EQ(err, 0, i ? "responder's fallback" : "initiator's fallback");
        CHECK_ACTION(lib[i].st, NOISE_ACTION_NONE, "after fallback");
        CHECK_EQ(noise_handshakestate_get_role(lib[i].st), i ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER, "role after fallback");
        NoiseProtocolId id, wid = fs.id();
        noise_handshakestate_get_protocol_id(lib[i].st, &id);
        CHECK(!memcmp(&id, &wid, sizeof id), "protocol id after fallback");
        if (new_prologue) {
            uint8_t z = 0;
            CHECK_EQ(noise_handshakestate_set_prologue(lib[i].st, fk.prologue.empty() ? &z : fk.prologue.data(), fk.prologue.size()), 0, "new prologue");
        }
        if (i == 0 && s.psk() && g.flip()) {
            // a new PSK, for both
            fk.psk = g.rnd(32);
            for (int j = 0; j < 1; ++j) CHECK_EQ(noise_handshakestate_set_pre_shared_key(lib[0].st, fk.psk.data(), 32), 0, "new psk");
        }
        if (i == 1 && fk.psk != k.psk) CHECK_EQ(noise_handshakestate_set_pre_shared_key(lib[1].st, fk.psk.data(), 32), 0, "new psk");
        CHECK_EQ(!!noise_handshakestate_has_remote_public_key(lib[i].st), 0, "the remote static key is still set after falling back to XX");
    }
    MHandshake f[2];
    for (int i = 0; i < 2; ++i) {
        // the roles are reversed: the old responder (1) initiates
        f[i].init(fs, i == 1);
        f[i].s = mkey(s.dh, i == 0 ? ki.s[0] : k.s[1]);
        f[i].fixed_e = k.e[i]; f[i].fixed_f = k.f[i];
        f[i].prologue = fk.prologue; f[i].psk = fk.psk;
        if (i == 0) { f[i].e = m[0].e; f[i].f = m[0].f; }
        else { f[i].re = mpub(s.dh, m[0].e.pub); if (s.hybrid) f[i].rf = mpub(s.hybrid, m[0].f.pub); }
        f[i].start();
        CHECK_EQ(noise_handshakestate_start(lib[i].st), 0, "start of the fallback");
        CHECK_ACTION(lib[i].st, i == 1 ? NOISE_ACTION_WRITE_MESSAGE : NOISE_ACTION_READ_MESSAGE, "after the fallback's start");
    }
    MPattern p = f[0].pat;
    for (size_t i = 0; i < p.msgs.size(); ++i) {
        int w = p.msgs[i].from_initiator ? 1 : 0, r = 1 - w;
        oh = f[w].overhead();
        payload = g.bytes(gen_payload_len(g, 65535 - oh));
        g.key(std::to_string(payload.size()));
        want = f[w].write(payload);
        msg = lib_write(g, lib[w], payload, oh);
        CHECK(msg == want, "%s message %zu differs from the specification", fs.name().c_str(), i);
        lib_read(g, lib[r], msg, payload);
        CHECK_EQ(f[r].read(msg, pl), M_OK, "model read");
    }
    for (int i = 0; i < 2; ++i) {
        // a second fallback is impossible
        CHECK(noise_handshakestate_fallback_to(lib[i].st, fb) != 0, "fallback at the end of a fallback");
        check_finish(g, lib[i], f[i], false);
    }
    g.nontrivial();
}
TARGET(C05, window, 1, "noise_handshakestate_fallback_to at every point of a session, for every pattern and target: allowed exactly for two-message-or-more patterns whose responder key is known in advance, towards a fallback pattern with the same hybrid setting, once the initiator's ephemeral was sent/received; distinct by protocol, point and target") {
    Suite s = gen_suite(g);
    if (g.flip()) {      // mostly patterns that can be fallen back from
        static const int from[] = {NOISE_PATTERN_IK, NOISE_PATTERN_XK, NOISE_PATTERN_KK, NOISE_PATTERN_IK_NOIDH,
                                   NOISE_PATTERN_IK_HFS, NOISE_PATTERN_XK_HFS, NOISE_PATTERN_KK_HFS, NOISE_PATTERN_IK_NOIDH_HFS};
        s.pattern = from[g.u(7)];
        if (s.dh == NOISE_DH_NEWHOPE) s.dh = NOISE_DH_CURVE25519;
        s.hybrid = s.hfs() ? (s.hybrid ? s.hybrid : NOISE_DH_NEWHOPE) : 0;
    }
    Keys k = gen_keys(g, s);
    Lib lib[2];
    MHandshake m[2];
    for (int i = 0; i < 2; ++i) {
        lib_new(g, lib[i], s, i == 0);
        lib_config(g, lib[i], s, i == 0, k, true);
        model_config(m[i], s, i == 0, k);
        m[i].start();
    }
    MPattern p = m[0].pat;
    std::vector<int> pats;
    for (auto &q : PATTERNS) pats.push_back(q.id);
    int target = g.chance(1, 8) ? (int)g.u(0xffff) : g.chance(3, 4) ? (g.flip() ? NOISE_PATTERN_XX_FALLBACK : NOISE_PATTERN_XX_FALLBACK_HFS) : g.pick(pats);
    bool is_fb = target == NOISE_PATTERN_XX_FALLBACK || target == NOISE_PATTERN_XX_FALLBACK_HFS;
    bool known_target = false;
    for (int x : pats) if (x == target) known_target = true;
    // point: 0 = before start, 1 = after start, 2.. = after message point-2
    int points = 2 + (int)p.msgs.size();
    int point = (int)g.en(points);
    int who = (int)g.en(2);
    if (point >= 1) for (int i = 0; i < 2; ++i) start(lib[i], i == 0);
    for (int i = 0; i + 2 <= point; ++i) {
        int w = p.msgs[i].from_initiator ? 0 : 1;
        size_t oh = m[w].overhead();
        Bytes pl, msg = lib_write(g, lib[w], Bytes(), oh);
        m[w].write(Bytes());
        m[1 - w].read(msg, pl);
        lib_read(g, lib[1 - w], msg, Bytes());
    }
    bool compatible = !p.one_way && p.needs_rs(true) && !p.fallback && is_fb && (target != NOISE_PATTERN_XX_FALLBACK_HFS || s.hfs());
    // (falling back from an hfs pattern to plain XXfallback is not judged)
    if (target == NOISE_PATTERN_XX_FALLBACK && s.hfs()) return;
    int act = noise_handshakestate_get_action(lib[who].st);
    bool timely = who == 0 ? act == NOISE_ACTION_READ_MESSAGE : act == NOISE_ACTION_WRITE_MESSAGE;
    int err = noise_handshakestate_fallback_to(lib[who].st, target);
    g.note("%s point %d %s -> target %x: 0x%x", s.name().c_str(), point, who ? "responder" : "initiator", target, err);
    g.key(s.name() + strf("%d %d %x", point, who, target));
    if (compatible && timely) {
        CHECK_EQ(err, 0, "fallback in its window");
        CHECK_ACTION(lib[who].st, NOISE_ACTION_NONE, "after fallback");
        g.label("allowed");
    } else {
        CHECK(err != 0, "fallback accepted although it is not applicable (%s, target 0x%x, action %s)", s.name().c_str(), target, action_name(act));
        if (!compatible && timely) CHECK_EQ(err, NOISE_ERROR_NOT_APPLICABLE, "error of an incompatible fallback");
        if (compatible && !timely) CHECK_EQ(err, NOISE_ERROR_INVALID_STATE, "error of an untimely fallback");
        CHECK_ACTION(lib[who].st, act, "after a refused fallback");
        g.label("refused");
        // and the session is undisturbed: finish it
        if (act != NOISE_ACTION_NONE && point >= 1) {
            for (int i = point - 1; i < (int)p.msgs.size(); ++i) {
                int w = p.msgs[i].from_initiator ? 0 : 1;
                size_t oh = m[w].overhead();
                Bytes pl, msg = lib_write(g, lib[w], Bytes(), oh);
                CHECK(m[w].write(Bytes()) == msg, "a refused fallback disturbed the session");
                m[1 - w].read(msg, pl);
                lib_read(g, lib[1 - w], msg, Bytes());
            }
        }
    }
    g.nontrivial(known_target);
}

// ------------------------------------------------------------------ C31
TARGET(C31, symmetric, 1, "a random sequence of mix_key / mix_hash / encrypt_and_hash / decrypt_and_hash (honest, damaged, short, oversized) / split on a SymmetricState compared with the model; non-trivial with at least one encryption under a key; distinct by protocol and operations") {
    Suite s = gen_suite(g);
    NoiseSymmetricState *st = nullptr;
    int err;
    if (g.flip()) { NoiseProtocolId id = s.id(); err = noise_symmetricstate_new_by_id(&st, &id); }
    else err = noise_symmetricstate_new_by_name(&st, s.name().c_str());
    CHECK(err == 0 && st, "new failed 0x%x", err);
    struct F { NoiseSymmetricState *s; ~F() { noise_symmetricstate_free(s); } } fr{st};
    MSym m;
    m.init(s);
    std::string ops;
    int n = 1 + (int)g.u(14);
    bool enc = false;
    for (int i = 0; i < n; ++i) {
        CHECK_EQ(noise_symmetricstate_get_mac_length(st), m.has_k ? 16 : 0, "get_mac_length");
        unsigned op = (unsigned)g.u(5);
        ops += (char)('a' + op);
        switch (op) {
        case 0: { Bytes d = g.bytes(g.size(200, {32, 56, 64, 128})); Buf b(d); CHECK_EQ(noise_symmetricstate_mix_key(st, b.p, b.n), 0, "mix_key"); m.mix_key(d); break; }
        case 1: { Bytes d = g.bytes(g.size(70000)); Buf b(d); CHECK_EQ(noise_symmetricstate_mix_hash(st, b.p, b.n), 0, "mix_hash"); m.mix_hash(d); break; }
        case 2: {
            size_t mac = m.has_k ? 16 : 0;
            bool big = g.chance(1, 10);
            size_t len = big ? 65535 - mac + 1 + g.u(5) : g.chance(1, 10) ? 65535 - mac : g.size(400);
            Bytes d = g.bytes(len);
            bool tight = mac && g.chance(1, 10);
            Buf b(d + Bytes(tight ? g.u(mac - 1) : mac, 0));
            NoiseBuffer nb;
            noise_buffer_set_inout(nb, b.p, d.size(), b.n);
            err = noise_symmetricstate_encrypt_and_hash(st, &nb);
            if ((big || tight) && m.has_k) { CHECK_EQ(err, NOISE_ERROR_INVALID_LENGTH, "encrypt_and_hash with a bad length"); break; }
            if (big) { CHECK(err == 0 || err == NOISE_ERROR_INVALID_LENGTH, "encrypt_and_hash 0x%x", err); if (err) break; }
            CHECK_EQ(err, 0, "encrypt_and_hash");
            enc |= m.has_k;
            CHECK(b.bytes(nb.size) == m.enc_and_hash(d), "encrypt_and_hash output differs");
            break;
        }
        case 3: case 4: {
            Bytes pt = g.bytes(g.size(400));
            MSym sender = m;
            Bytes ct = sender.enc_and_hash(pt);
            unsigned dmg = m.has_k ? (unsigned)g.u(3) : 0;
            if (dmg == 1) ct[g.u(ct.size() - 1)] ^= (uint8_t)(1 << g.u(7));
            if (dmg == 2) ct.resize(g.u(15));
            Buf b(ct);
            NoiseBuffer nb;
            noise_buffer_set_inout(nb, b.p, b.n, b.n);
            err = noise_symmetricstate_decrypt_and_hash(st, &nb);
            if (dmg == 1) CHECK_EQ(err, NOISE_ERROR_MAC_FAILURE, "damaged ciphertext");
            else if (dmg == 2) CHECK_EQ(err, NOISE_ERROR_INVALID_LENGTH, "short ciphertext");
            else {
                CHECK_EQ(err, 0, "decrypt_and_hash");
                Bytes got;
                m.dec_and_hash(ct, got);
                CHECK(b.bytes(nb.size) == got, "plaintext differs");
                enc |= m.has_k;
            }
            break;      // a failed decryption must leave h, n untouched: later operations show it
        }
        case 5: {
            if (i + 1 < n && g.chance(2, 3)) break;
            Cipher a, b;
            unsigned which = (unsigned)g.u(3);
            err = noise_symmetricstate_split(st, which == 2 ? nullptr : &a.c, which == 1 ? nullptr : &b.c);
            CHECK_EQ(err, 0, "split");
            auto mc = m.split();
            check_transport(g, a.c, nullptr, mc.first, mc.second, a.c ? 2 : 0);
            check_transport(g, b.c, nullptr, mc.second, mc.first, b.c ? 2 : 0);
            uint8_t z[32] = {0};
            NoiseBuffer nb;
            noise_buffer_set_inout(nb, z, 4, 32);
            CHECK_EQ(noise_symmetricstate_mix_key(st, z, 4), NOISE_ERROR_INVALID_STATE, "mix_key after split");
            CHECK_EQ(noise_symmetricstate_mix_hash(st, z, 4), NOISE_ERROR_INVALID_STATE, "mix_hash after split");
            CHECK_EQ(noise_symmetricstate_encrypt_and_hash(st, &nb), NOISE_ERROR_INVALID_STATE, "encrypt after split");
            CHECK_EQ(noise_symmetricstate_decrypt_and_hash(st, &nb), NOISE_ERROR_INVALID_STATE, "decrypt after split");
            Cipher c, d;
            CHECK_EQ(noise_symmetricstate_split(st, &c.c, &d.c), NOISE_ERROR_INVALID_STATE, "second split");
            CHECK_EQ(noise_symmetricstate_get_mac_length(st), 0, "mac length after split");
            i = n;
            break;
        }
        }
    }
    g.note("%s ops %s", s.name().c_str(), ops.c_str());
    g.key(s.name() + ops);
    g.nontrivial(enc);
}
