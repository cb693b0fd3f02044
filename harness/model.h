// An executable reading of the Noise specification (rev 32-ish, as documented
// in noise-c), independent of the library's code: patterns are parsed from the
// specification's text notation, primitives come from OpenSSL.  New Hope is
// the model's own implementation (newhope.cpp).
#ifndef MODEL_H
#define MODEL_H
#include "oracle.h"
#include <noise/protocol.h>

struct PatternInfo {
    int id;
    const char *name;
    const char *text;      // "<- s ... -> e, es; <- e, ee"
};
extern const std::vector<PatternInfo> PATTERNS;
const PatternInfo &pattern_info(int id);

struct Suite {
    int prefix = NOISE_PREFIX_STANDARD, pattern = NOISE_PATTERN_NN, dh = NOISE_DH_CURVE25519,
        cipher = NOISE_CIPHER_CHACHAPOLY, hash = NOISE_HASH_BLAKE2s, hybrid = 0;
    bool psk() const { return prefix == NOISE_PREFIX_PSK; }
    std::string name() const;
    NoiseProtocolId id() const;
    bool hfs() const;
};
const char *dh_name(int id);
const char *cipher_name(int id);
const char *hash_name(int id);
OHash ohash(int id);
OCipher ocipher(int id);
size_t hash_len(int id);
size_t dh_priv_len(int id, bool alice);
size_t dh_pub_len(int id, bool alice);
size_t dh_shared_len(int id);

// A key of one party
struct MKey {
    int dh = 0;
    bool alice = true;            // New Hope: which side of the exchange
    Bytes priv, pub;              // priv empty: public key only
    Bytes nh_shared;              // New Hope, Bob's side
    bool has() const { return !pub.empty(); }
    bool pair() const { return !priv.empty(); }
};
// key pair for a private key (New Hope Bob needs Alice's public key)
MKey mkey(int dh, const Bytes &priv, bool alice = true, const Bytes &other_pub = Bytes());
MKey mpub(int dh, const Bytes &pub, bool alice = true);
Bytes mdh(const MKey &priv, const MKey &pub);

struct MCipher {
    OCipher c = O_CHACHAPOLY;
    Bytes k; uint64_t n = 0;
    Bytes enc(const Bytes &ad, const Bytes &pt);
    bool dec(const Bytes &ad, const Bytes &ct, Bytes &pt);
};
struct MSym {
    OHash hash; OCipher cipher;
    Bytes ck, h; MCipher cs; bool has_k = false;
    void init(const Suite &s);
    void mix_key(const Bytes &ikm);
    void mix_hash(const Bytes &d);
    Bytes enc_and_hash(const Bytes &pt);
    bool dec_and_hash(const Bytes &ct, Bytes &pt);
    std::pair<MCipher, MCipher> split();
};

enum MTok { T_E, T_S, T_EE, T_ES, T_SE, T_SS, T_F, T_FF };
struct MMsg { bool from_initiator; std::vector<MTok> toks; };
struct MPattern {
    bool one_way = false, fallback = false;
    std::vector<MTok> pre_i, pre_r;      // pre-messages
    std::vector<MMsg> msgs;
    // static keys each role must have before the handshake starts
    bool needs_s(bool initiator) const;      // sends it, or it is a pre-message
    bool needs_rs(bool initiator) const;     // the other side's static is a pre-message
    bool has_s(bool initiator) const;        // this role has a static key at all
    bool hfs() const;
};
MPattern parse_pattern(int id);

// told every chaining key, cipher key and shared secret the model computes
extern void (*model_secret)(const char *name, const Bytes &value);
bool x448_out_of_range(const Bytes &p);
enum MErr { M_OK, M_LENGTH, M_MAC, M_NULLKEY };
struct MHandshake {
    Suite suite; MPattern pat; bool initiator; MSym sym;
    MKey s, e, f, rs, re, rf;
    Bytes fixed_e, fixed_f;              // private keys to use for the e / f tokens
    Bytes prologue, psk;
    size_t next = 0;
    bool started = false;
    bool unreduced = false;              // has read an X448 value >= p: a back end may refuse it (RFC 7748 masks, Goldilocks rejects)
    // payload length limit of the message just read, for diagnostics
    MHandshake() {}
    void init(const Suite &s, bool initiator);
    void start();
    bool done() const { return next >= pat.msgs.size(); }
    bool my_turn() const { return !done() && pat.msgs[next].from_initiator == initiator; }
    size_t overhead() const;             // bytes the next message needs besides the payload
    Bytes write(const Bytes &payload, std::vector<size_t> *cuts = nullptr);
    MErr read(const Bytes &msg, Bytes &payload);
    // true if the next message's payload is encrypted
    bool payload_encrypted() const;
    std::pair<MCipher, MCipher> split(); // send, receive
    bool send_null_e = false, send_null_f = false;   // misbehave
private:
    void do_dh(MTok t);
};
#endif
