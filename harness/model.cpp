#include "model.h"
#include "newhope_model.h"
#include <string.h>
#include <stdlib.h>
#include <sstream>

const std::vector<PatternInfo> PATTERNS = {
    {NOISE_PATTERN_N, "N", "<- s ... -> e, es"},
    {NOISE_PATTERN_K, "K", "-> s ; <- s ... -> e, es, ss"},
    {NOISE_PATTERN_X, "X", "<- s ... -> e, es, s, ss"},
    {NOISE_PATTERN_NN, "NN", "-> e ; <- e, ee"},
    {NOISE_PATTERN_NK, "NK", "<- s ... -> e, es ; <- e, ee"},
    {NOISE_PATTERN_NX, "NX", "-> e ; <- e, ee, s, es"},
    {NOISE_PATTERN_XN, "XN", "-> e ; <- e, ee ; -> s, se"},
    {NOISE_PATTERN_XK, "XK", "<- s ... -> e, es ; <- e, ee ; -> s, se"},
    {NOISE_PATTERN_XX, "XX", "-> e ; <- e, ee, s, es ; -> s, se"},
    {NOISE_PATTERN_KN, "KN", "-> s ... -> e ; <- e, ee, se"},
    {NOISE_PATTERN_KK, "KK", "-> s ; <- s ... -> e, es, ss ; <- e, ee, se"},
    {NOISE_PATTERN_KX, "KX", "-> s ... -> e ; <- e, ee, se, s, es"},
    {NOISE_PATTERN_IN, "IN", "-> e, s ; <- e, ee, se"},
    {NOISE_PATTERN_IK, "IK", "<- s ... -> e, es, s, ss ; <- e, ee, se"},
    {NOISE_PATTERN_IX, "IX", "-> e, s ; <- e, ee, se, s, es"},
    {NOISE_PATTERN_XX_FALLBACK, "XXfallback", "<- e ... -> e, ee, s, se ; <- s, es"},
    {NOISE_PATTERN_X_NOIDH, "Xnoidh", "<- s ... -> e, s, es, ss"},
    {NOISE_PATTERN_NX_NOIDH, "NXnoidh", "-> e ; <- e, s, ee, es"},
    {NOISE_PATTERN_XX_NOIDH, "XXnoidh", "-> e ; <- e, s, ee, es ; -> s, se"},
    {NOISE_PATTERN_KX_NOIDH, "KXnoidh", "-> s ... -> e ; <- e, s, ee, se, es"},
    {NOISE_PATTERN_IK_NOIDH, "IKnoidh", "<- s ... -> e, s, es, ss ; <- e, ee, se"},
    {NOISE_PATTERN_IX_NOIDH, "IXnoidh", "-> e, s ; <- e, s, ee, se, es"},
    {NOISE_PATTERN_NN_HFS, "NNhfs", "-> e, f ; <- e, f, ee, ff"},
    {NOISE_PATTERN_NK_HFS, "NKhfs", "<- s ... -> e, f, es ; <- e, f, ee, ff"},
    {NOISE_PATTERN_NX_HFS, "NXhfs", "-> e, f ; <- e, f, ee, ff, s, es"},
    {NOISE_PATTERN_XN_HFS, "XNhfs", "-> e, f ; <- e, f, ee, ff ; -> s, se"},
    {NOISE_PATTERN_XK_HFS, "XKhfs", "<- s ... -> e, f, es ; <- e, f, ee, ff ; -> s, se"},
    {NOISE_PATTERN_XX_HFS, "XXhfs", "-> e, f ; <- e, f, ee, ff, s, es ; -> s, se"},
    {NOISE_PATTERN_KN_HFS, "KNhfs", "-> s ... -> e, f ; <- e, f, ee, ff, se"},
    {NOISE_PATTERN_KK_HFS, "KKhfs", "-> s ; <- s ... -> e, f, es, ss ; <- e, f, ee, ff, se"},
    {NOISE_PATTERN_KX_HFS, "KXhfs", "-> s ... -> e, f ; <- e, f, ee, ff, se, s, es"},
    {NOISE_PATTERN_IN_HFS, "INhfs", "-> e, f, s ; <- e, f, ee, ff, se"},
    {NOISE_PATTERN_IK_HFS, "IKhfs", "<- s ... -> e, f, es, s, ss ; <- e, f, ee, ff, se"},
    {NOISE_PATTERN_IX_HFS, "IXhfs", "-> e, f, s ; <- e, f, ee, ff, se, s, es"},
    {NOISE_PATTERN_XX_FALLBACK_HFS, "XXfallback+hfs", "<- e, f ... -> e, f, ee, ff, s, se ; <- s, es"},
    {NOISE_PATTERN_NX_NOIDH_HFS, "NXnoidh+hfs", "-> e, f ; <- e, f, s, ee, ff, es"},
    {NOISE_PATTERN_XX_NOIDH_HFS, "XXnoidh+hfs", "-> e, f ; <- e, f, s, ee, ff, es ; -> s, se"},
    {NOISE_PATTERN_KX_NOIDH_HFS, "KXnoidh+hfs", "-> s ... -> e, f ; <- e, f, s, ee, ff, se, es"},
    {NOISE_PATTERN_IK_NOIDH_HFS, "IKnoidh+hfs", "<- s ... -> e, f, s, es, ss ; <- e, f, ee, ff, se"},
    {NOISE_PATTERN_IX_NOIDH_HFS, "IXnoidh+hfs", "-> e, f, s ; <- e, f, s, ee, ff, se, es"},
};
const PatternInfo &pattern_info(int id) {
    for (auto &p : PATTERNS) if (p.id == id) return p;
    abort();
}
const char *dh_name(int id) { return id == NOISE_DH_CURVE25519 ? "25519" : id == NOISE_DH_CURVE448 ? "448" : "NewHope"; }
const char *cipher_name(int id) { return id == NOISE_CIPHER_CHACHAPOLY ? "ChaChaPoly" : "AESGCM"; }
const char *hash_name(int id) {
    return id == NOISE_HASH_BLAKE2s ? "BLAKE2s" : id == NOISE_HASH_BLAKE2b ? "BLAKE2b" : id == NOISE_HASH_SHA256 ? "SHA256" : "SHA512";
}
OHash ohash(int id) {
    return id == NOISE_HASH_BLAKE2s ? O_BLAKE2s : id == NOISE_HASH_BLAKE2b ? O_BLAKE2b : id == NOISE_HASH_SHA256 ? O_SHA256 : O_SHA512;
}
OCipher ocipher(int id) { return id == NOISE_CIPHER_CHACHAPOLY ? O_CHACHAPOLY : O_AESGCM; }
size_t hash_len(int id) { return o_hashlen(ohash(id)); }
std::string Suite::name() const {
    std::string s = psk() ? "NoisePSK_" : "Noise_";
    s += pattern_info(pattern).name;
    s += "_"; s += dh_name(dh);
    if (hybrid) { s += "+"; s += dh_name(hybrid); }
    s += "_"; s += cipher_name(cipher);
    s += "_"; s += hash_name(hash);
    return s;
}
NoiseProtocolId Suite::id() const {
    NoiseProtocolId i;
    memset(&i, 0, sizeof i);
    i.prefix_id = prefix; i.pattern_id = pattern; i.dh_id = dh;
    i.cipher_id = cipher; i.hash_id = hash; i.hybrid_id = hybrid;
    return i;
}
bool Suite::hfs() const { return strstr(pattern_info(pattern).text, "f") != nullptr; }

static const Bytes *raw(const Bytes &b) { return &b; }
size_t dh_priv_len(int id, bool alice) { return id == NOISE_DH_CURVE25519 ? 32 : id == NOISE_DH_CURVE448 ? 56 : alice ? 64 : 32; }
size_t dh_pub_len(int id, bool alice) { return id == NOISE_DH_CURVE25519 ? 32 : id == NOISE_DH_CURVE448 ? 56 : alice ? NH_SENDA : NH_SENDB; }
size_t dh_shared_len(int id) { return id == NOISE_DH_CURVE448 ? 56 : 32; }
static ODH odh(int id) { return id == NOISE_DH_CURVE25519 ? O_25519 : O_448; }
MKey mkey(int dh, const Bytes &priv, bool alice, const Bytes &other) {
    MKey k;
    k.dh = dh; k.alice = alice; k.priv = priv;
    if (dh == NOISE_DH_NEWHOPE) {
        if (alice) k.pub = nh_keygen(priv);
        else if (other.size() == NH_SENDA) k.pub = nh_sharedb(priv, other, k.nh_shared);
        else abort();
    } else k.pub = o_dh_public(odh(dh), priv);
    return k;
}
MKey mpub(int dh, const Bytes &pub, bool alice) {
    MKey k; k.dh = dh; k.alice = alice; k.pub = pub;
    return k;
}
Bytes mdh(const MKey &a, const MKey &b) {
    if (a.dh == NOISE_DH_NEWHOPE) return a.alice ? nh_shareda(a.priv, b.pub) : a.nh_shared;
    return o_dh(odh(a.dh), a.priv, b.pub);
}

Bytes MCipher::enc(const Bytes &ad, const Bytes &pt) { return o_encrypt(c, k, n++, ad, pt); }
bool MCipher::dec(const Bytes &ad, const Bytes &ct, Bytes &pt) {
    if (!o_decrypt(c, k, n, ad, ct, pt)) return false;
    ++n;
    return true;
}
void (*model_secret)(const char *, const Bytes &) = nullptr;
static void tell(const char *n, const Bytes &b) { if (model_secret) model_secret(n, b); }
static std::pair<Bytes, Bytes> hkdf2(OHash h, const Bytes &ck, const Bytes &ikm) {
    auto r = o_hkdf2(h, ck, ikm);
    if (model_secret) { tell("HKDF temporary key", o_hmac(h, ck, ikm)); tell("HKDF output", r.first); tell("HKDF output", r.second); }
    return r;
}
void MSym::init(const Suite &s) {
    hash = ohash(s.hash); cipher = ocipher(s.cipher);
    Bytes name = str(s.name());
    if (name.size() <= o_hashlen(hash)) { h = name; h.resize(o_hashlen(hash), 0); }
    else h = o_hash(hash, name);
    ck = h;
    has_k = false;
    cs = MCipher(); cs.c = cipher;
}
void MSym::mix_key(const Bytes &ikm) {
    auto r = hkdf2(hash, ck, ikm);
    ck = r.first;
    cs.k = sub(r.second, 0, 32); cs.n = 0;
    has_k = true;
    tell("chaining key", ck); tell("handshake key", cs.k);
}
void MSym::mix_hash(const Bytes &d) { h = o_hash(hash, h + d); }
Bytes MSym::enc_and_hash(const Bytes &pt) {
    Bytes c = has_k ? cs.enc(h, pt) : pt;
    mix_hash(c);
    return c;
}
bool MSym::dec_and_hash(const Bytes &ct, Bytes &pt) {
    if (has_k) { if (!cs.dec(h, ct, pt)) return false; }
    else pt = ct;
    mix_hash(ct);
    return true;
}
std::pair<MCipher, MCipher> MSym::split() {
    auto r = hkdf2(hash, ck, Bytes());
    MCipher a, b;
    a.c = b.c = cipher;
    a.k = sub(r.first, 0, 32); b.k = sub(r.second, 0, 32);
    tell("transport key", a.k); tell("transport key", b.k);
    return {a, b};
}

static MTok tok(const std::string &s) {
    static const char *n[] = {"e", "s", "ee", "es", "se", "ss", "f", "ff"};
    for (int i = 0; i < 8; ++i) if (s == n[i]) return (MTok)i;
    abort();
}
MPattern parse_pattern(int id) {
    MPattern p;
    std::string text = pattern_info(id).text;
    size_t d = text.find("...");
    bool pre = d != std::string::npos;
    std::istringstream in(text);
    std::string w;
    MMsg m; bool have = false;
    auto flush = [&]() {
        if (!have) return;
        if (pre) { auto &v = m.from_initiator ? p.pre_i : p.pre_r; v = m.toks; }
        else p.msgs.push_back(m);
        have = false;
    };
    while (in >> w) {
        if (w == "...") { flush(); pre = false; }
        else if (w == ";") flush();
        else if (w == "->" || w == "<-") { m.from_initiator = w == "->"; m.toks.clear(); have = true; }
        else {
            if (w.back() == ',') w.pop_back();
            m.toks.push_back(tok(w));
        }
    }
    flush();
    p.one_way = p.msgs.size() == 1;
    for (MTok t : p.pre_r) if (t == T_E) p.fallback = true;
    return p;
}
static bool in(const std::vector<MTok> &v, MTok t) { for (MTok x : v) if (x == t) return true; return false; }
bool MPattern::needs_s(bool i) const {
    if (in(i ? pre_i : pre_r, T_S)) return true;
    for (auto &m : msgs) if (m.from_initiator == i && in(m.toks, T_S)) return true;
    return false;
}
bool MPattern::has_s(bool i) const { return needs_s(i); }
bool MPattern::needs_rs(bool i) const { return in(i ? pre_r : pre_i, T_S); }
bool MPattern::hfs() const { for (auto &m : msgs) if (in(m.toks, T_F)) return true; return false; }

void MHandshake::init(const Suite &su, bool init) {
    suite = su; pat = parse_pattern(su.pattern); initiator = init;
    next = 0; started = false;
}
void MHandshake::start() {
    sym.init(suite);
    sym.mix_hash(prologue);
    if (suite.psk()) {
        auto r = hkdf2(sym.hash, sym.ck, psk);
        sym.ck = r.first;
        tell("chaining key", sym.ck); tell("value mixed in for the pre-shared key", r.second);
        sym.mix_hash(r.second);
    }
    for (int side = 0; side < 2; ++side) {
        bool mine = (side == 0) == initiator;
        for (MTok t : side == 0 ? pat.pre_i : pat.pre_r) {
            const MKey &k = t == T_S ? (mine ? s : rs) : t == T_E ? (mine ? e : re) : (mine ? f : rf);
            sym.mix_hash(k.pub);
        }
        // PSK handshakes mix every ephemeral public key into ck as well
        if (suite.psk() && in(side == 0 ? pat.pre_i : pat.pre_r, T_E)) sym.mix_key((mine ? e : re).pub);
    }
    started = true;
}
void MHandshake::do_dh(MTok t) {
    Bytes z;
    switch (t) {
    case T_EE: z = mdh(e, re); break;
    case T_ES: z = initiator ? mdh(e, rs) : mdh(s, re); break;
    case T_SE: z = initiator ? mdh(s, re) : mdh(e, rs); break;
    case T_SS: z = mdh(s, rs); break;
    case T_FF: z = mdh(f, rf); break;
    default: abort();
    }
    tell("shared secret", z);
    sym.mix_key(z);
}
bool MHandshake::payload_encrypted() const {
    if (sym.has_k) return true;
    for (MTok t : pat.msgs[next].toks) {
        if (t == T_EE || t == T_ES || t == T_SE || t == T_SS || t == T_FF) return true;
        if (t == T_E && suite.psk()) return true;
    }
    return false;
}
// who plays Alice in a New Hope exchange: the party whose key came first
static bool alice_side(const MKey &remote) { return !remote.has(); }
size_t MHandshake::overhead() const {
    bool k = sym.has_k;
    size_t n = 0;
    bool mine = pat.msgs[next].from_initiator == initiator;
    for (MTok t : pat.msgs[next].toks) switch (t) {
        case T_E:
            n += dh_pub_len(suite.dh, alice_side(mine ? re : e));
            if (suite.psk()) k = true;
            break;
        case T_S: n += dh_pub_len(suite.dh, true) + (k ? 16 : 0); break;
        case T_F: n += dh_pub_len(suite.hybrid, alice_side(mine ? rf : f)) + (k ? 16 : 0); break;
        default: k = true;
    }
    return n + (k ? 16 : 0);
}
Bytes MHandshake::write(const Bytes &payload, std::vector<size_t> *cuts) {
    Bytes out;
    auto cut = [&]() { if (cuts) cuts->push_back(out.size()); };
    for (MTok t : pat.msgs[next].toks) {
        switch (t) {
        case T_E: {
            bool alice = alice_side(re);
            e = mkey(suite.dh, sub(fixed_e, 0, dh_priv_len(suite.dh, alice)), alice, re.pub);
            if (send_null_e) e.pub.assign(e.pub.size(), 0);
            out = out + e.pub;
            sym.mix_hash(e.pub);
            if (suite.psk()) sym.mix_key(e.pub);
            cut();
            break;
        }
        case T_F: {
            bool alice = alice_side(rf);
            f = mkey(suite.hybrid, sub(fixed_f, 0, dh_priv_len(suite.hybrid, alice)), alice, rf.pub);
            if (send_null_f) f.pub.assign(f.pub.size(), 0);
            out = out + sym.enc_and_hash(f.pub);
            cut();
            break;
        }
        case T_S: out = out + sym.enc_and_hash(s.pub); cut(); break;
        default: do_dh(t);
        }
    }
    out = out + sym.enc_and_hash(payload);
    ++next;
    return out;
}
// little-endian value >= p = 2^448 - 2^224 - 1
bool x448_out_of_range(const Bytes &p) {
    if (p.size() != 56) return false;
    for (int i = 55; i >= 0; --i) {
        uint8_t q = i == 28 ? 0xfe : 0xff;
        if (p[i] != q) return p[i] > q;
    }
    return true;
}
MErr MHandshake::read(const Bytes &msg, Bytes &payload) {
    size_t p = 0;
    for (MTok t : pat.msgs[next].toks) {
        switch (t) {
        case T_E: {
            bool alice = alice_side(e);
            size_t n = dh_pub_len(suite.dh, alice);
            if (msg.size() - p < n) return M_LENGTH;
            re = mpub(suite.dh, sub(msg, p, n), alice);
            if (suite.dh == NOISE_DH_CURVE448 && x448_out_of_range(re.pub)) unreduced = true;
            p += n;
            bool z = true;
            for (uint8_t c : re.pub) if (c) z = false;
            if (z) return M_NULLKEY;
            sym.mix_hash(re.pub);
            if (suite.psk()) sym.mix_key(re.pub);
            break;
        }
        case T_F: case T_S: {
            bool alice = t == T_F ? alice_side(f) : true;
            int dh = t == T_F ? suite.hybrid : suite.dh;
            size_t n = dh_pub_len(dh, alice) + (sym.has_k ? 16 : 0);
            if (msg.size() - p < n) return M_LENGTH;
            Bytes pt;
            if (!sym.dec_and_hash(sub(msg, p, n), pt)) return M_MAC;
            p += n;
            (t == T_F ? rf : rs) = mpub(dh, pt, alice);
            if (dh == NOISE_DH_CURVE448 && x448_out_of_range(pt)) unreduced = true;
            if (t == T_F) {
                bool z = true;
                for (uint8_t c : pt) if (c) z = false;
                if (z) return M_NULLKEY;
            }
            break;
        }
        default: do_dh(t);
        }
    }
    Bytes rest = sub(msg, p, msg.size() - p);
    if (sym.has_k && rest.size() < 16) return M_LENGTH;
    if (!sym.dec_and_hash(rest, payload)) return M_MAC;
    ++next;
    return M_OK;
}
std::pair<MCipher, MCipher> MHandshake::split() {
    auto r = sym.split();
    if (initiator) return r;
    return {r.second, r.first};
}
