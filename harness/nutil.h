// Helpers shared by the handshake harnesses.
#ifndef NUTIL_H
#define NUTIL_H
#include "model.h"
#include "env.h"
#include <string.h>

// exactly-sized heap copy, so that ASan sees any access outside it
struct Buf {
    uint8_t *p; size_t n;
    explicit Buf(size_t n_, int fill = 0xa5) : p((uint8_t *)::operator new(n_ ? n_ : 1)), n(n_) { memset(p, fill, n_ ? n_ : 1); }
    explicit Buf(const Bytes &b) : Buf(b.size()) { if (n) memcpy(p, b.data(), n); }
    ~Buf() { ::operator delete(p); }
    Buf(const Buf &) = delete;
    Buf &operator=(const Buf &) = delete;
    Bytes bytes(size_t k) const { return Bytes(p, p + k); }
    Bytes bytes() const { return Bytes(p, p + n); }
};

struct Cipher {
    NoiseCipherState *c = nullptr;
    ~Cipher() { if (c) noise_cipherstate_free(c); }
};

struct Keys {            // what both parties of a session are configured with
    Bytes s[2], e[2], f[2];      // [0] initiator, [1] responder: private keys
    Bytes prologue, psk;
};

struct Lib {
    NoiseHandshakeState *st = nullptr;
    ~Lib() { if (st) noise_handshakestate_free(st); }
    Lib() {}
    Lib(const Lib &) = delete;
};

inline const char *action_name(int a) {
    switch (a) {
    case NOISE_ACTION_NONE: return "NONE"; case NOISE_ACTION_WRITE_MESSAGE: return "WRITE";
    case NOISE_ACTION_READ_MESSAGE: return "READ"; case NOISE_ACTION_FAILED: return "FAILED";
    case NOISE_ACTION_SPLIT: return "SPLIT"; case NOISE_ACTION_COMPLETE: return "COMPLETE";
    }
    return "?";
}
#define CHECK_ACTION(st, want, when) do { int _a = noise_handshakestate_get_action(st); \
    CHECK(_a == (want), "%s: action is %s, expected %s", when, action_name(_a), action_name(want)); } while (0)

Suite gen_suite(Gen &g, bool enumerate = true, bool fallback_patterns = false);
Keys gen_keys(Gen &g, const Suite &s);
void lib_new(Gen &g, Lib &l, const Suite &s, bool initiator);
// static keys, PSK and prologue; with_e: fixed ephemerals too
void lib_config(Gen &g, Lib &l, const Suite &s, bool initiator, const Keys &k, bool with_e);
void model_config(MHandshake &m, const Suite &s, bool initiator, const Keys &k);
Bytes lib_write(Gen &g, Lib &l, const Bytes &payload, size_t overhead);
Bytes lib_read(Gen &g, Lib &l, const Bytes &msg, const Bytes &expect);
size_t gen_payload_len(Gen &g, size_t max);
Bytes handshake_hash(NoiseHandshakeState *st, size_t n);
// checks the end state and the transport ciphers against the model's
void check_finish(Gen &g, Lib &l, MHandshake &m, bool one_way);
void check_transport(Gen &g, NoiseCipherState *send, NoiseCipherState *recv, MCipher ms, MCipher mr, int msgs);
#endif
