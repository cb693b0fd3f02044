// Key and certificate objects: schema, model, independent codec.
#ifndef KEYOBJ_H
#define KEYOBJ_H
#include "nutil.h"
#include "oracle.h"
#include "pbutil.h"
extern "C" {
#include <noise/protobufs.h>
#include <noise/keys.h>
}
#include <memory>
#include <set>
#include <algorithm>

// ------------------------------------------------ the documented schema
enum FT { U32, STR, BYT, MSG, REP };
struct MD;
struct FD {
    const char *name; int tag; FT t; const MD *sub;
    std::function<int(void *)> clear; std::function<int(const void *)> has;
    std::function<uint32_t(const void *)> getu; std::function<int(void *, uint32_t)> setu;
    std::function<const void *(const void *)> getp; std::function<size_t(const void *)> getsz;
    std::function<int(void *, const void *, size_t)> setp;
    std::function<void *(const void *)> getm; std::function<int(void *, void **)> newm;
    std::function<size_t(const void *)> count; std::function<void *(const void *, size_t)> at;
    std::function<int(void *, void **)> add; std::function<int(void *, size_t, void *)> insert;
};
struct MD {
    const char *name;
    std::function<int(void **)> make; std::function<int(void *)> destroy;
    std::function<int(NoiseProtobuf *, int, const void *)> write; std::function<int(NoiseProtobuf *, int, void **)> read;
    std::vector<FD> f;
};
#define COMMONF(M, F) r.clear = [](void *o) { return Noise_##M##_clear_##F((Noise_##M *)o); }; \
    r.has = [](const void *o) { return Noise_##M##_has_##F((const Noise_##M *)o); }
#define FU(M, F, T) [] { FD r; r.name = #F; r.tag = T; r.t = U32; r.sub = nullptr; COMMONF(M, F); \
    r.getu = [](const void *o) { return Noise_##M##_get_##F((const Noise_##M *)o); }; \
    r.setu = [](void *o, uint32_t v) { return Noise_##M##_set_##F((Noise_##M *)o, v); }; return r; }()
#define FSB(M, F, T, K, C) [] { FD r; r.name = #F; r.tag = T; r.t = K; r.sub = nullptr; COMMONF(M, F); \
    r.getp = [](const void *o) { return (const void *)Noise_##M##_get_##F((const Noise_##M *)o); }; \
    r.getsz = [](const void *o) { return Noise_##M##_get_size_##F((const Noise_##M *)o); }; \
    r.setp = [](void *o, const void *p, size_t n) { return Noise_##M##_set_##F((Noise_##M *)o, (C)p, n); }; return r; }()
#define FS(M, F, T) FSB(M, F, T, STR, const char *)
#define FB(M, F, T) FSB(M, F, T, BYT, const void *)
#define FM(M, F, T, S) [] { FD r; r.name = #F; r.tag = T; r.t = MSG; r.sub = &md_##S; COMMONF(M, F); \
    r.getm = [](const void *o) { return (void *)Noise_##M##_get_##F((const Noise_##M *)o); }; \
    r.newm = [](void *o, void **v) { return Noise_##M##_get_new_##F((Noise_##M *)o, (Noise_##S **)v); }; return r; }()
#define FR(M, F, T, S) [] { FD r; r.name = #F; r.tag = T; r.t = REP; r.sub = &md_##S; COMMONF(M, F); \
    r.count = [](const void *o) { return Noise_##M##_count_##F((const Noise_##M *)o); }; \
    r.at = [](const void *o, size_t i) { return (void *)Noise_##M##_get_at_##F((const Noise_##M *)o, i); }; \
    r.add = [](void *o, void **v) { return Noise_##M##_add_##F((Noise_##M *)o, (Noise_##S **)v); }; \
    r.insert = [](void *o, size_t i, void *v) { return Noise_##M##_insert_##F((Noise_##M *)o, i, (Noise_##S *)v); }; return r; }()
#define MSGDEF(M, ...) static const MD md_##M = { #M, [](void **o) { return Noise_##M##_new((Noise_##M **)o); }, \
    [](void *o) { return Noise_##M##_free((Noise_##M *)o); }, \
    [](NoiseProtobuf *p, int t, const void *o) { return Noise_##M##_write(p, t, (const Noise_##M *)o); }, \
    [](NoiseProtobuf *p, int t, void **o) { return Noise_##M##_read(p, t, (Noise_##M **)o); }, { __VA_ARGS__ } }
MSGDEF(MetaInfo, FS(MetaInfo, name, 1), FS(MetaInfo, value, 2));
MSGDEF(PublicKeyInfo, FS(PublicKeyInfo, algorithm, 1), FB(PublicKeyInfo, key, 2));
MSGDEF(PrivateKeyInfo, FS(PrivateKeyInfo, algorithm, 1), FB(PrivateKeyInfo, key, 2));
MSGDEF(ExtraSignedInfo, FB(ExtraSignedInfo, nonce, 1), FS(ExtraSignedInfo, valid_from, 2), FS(ExtraSignedInfo, valid_to, 3), FR(ExtraSignedInfo, meta, 4, MetaInfo));
MSGDEF(Signature, FS(Signature, id, 1), FS(Signature, name, 2), FM(Signature, signing_key, 3, PublicKeyInfo), FS(Signature, hash_algorithm, 4), FM(Signature, extra_signed_info, 5, ExtraSignedInfo), FB(Signature, signature, 15));
MSGDEF(SubjectInfo, FS(SubjectInfo, id, 1), FS(SubjectInfo, name, 2), FS(SubjectInfo, role, 3), FR(SubjectInfo, keys, 4, PublicKeyInfo), FR(SubjectInfo, meta, 5, MetaInfo));
MSGDEF(Certificate, FU(Certificate, version, 1), FM(Certificate, subject, 2, SubjectInfo), FR(Certificate, signatures, 3, Signature));
MSGDEF(CertificateChain, FR(CertificateChain, certs, 8, Certificate));
MSGDEF(EncryptedPrivateKey, FU(EncryptedPrivateKey, version, 10), FS(EncryptedPrivateKey, algorithm, 11), FB(EncryptedPrivateKey, salt, 12), FU(EncryptedPrivateKey, iterations, 13), FB(EncryptedPrivateKey, encrypted_data, 15));
MSGDEF(PrivateKey, FS(PrivateKey, id, 1), FS(PrivateKey, name, 2), FS(PrivateKey, role, 3), FR(PrivateKey, keys, 4, PrivateKeyInfo), FR(PrivateKey, meta, 5, MetaInfo));
static const MD *const ALLMD[] = {&md_Certificate, &md_PrivateKey, &md_CertificateChain, &md_SubjectInfo, &md_Signature, &md_PublicKeyInfo, &md_PrivateKeyInfo, &md_MetaInfo, &md_ExtraSignedInfo, &md_EncryptedPrivateKey};

// ------------------------------------------------ model objects
struct Obj;
typedef std::shared_ptr<Obj> PObj;
struct Val { uint32_t u = 0; bool set = false; Bytes b; PObj m; std::vector<PObj> r; };
struct Obj {
    const MD *md;
    std::vector<Val> v;
    explicit Obj(const MD *m) : md(m), v(m->f.size()) {}
};
static PObj mk(const MD *md) { return std::make_shared<Obj>(md); }
static PObj clone(const Obj &o) {
    PObj r = mk(o.md);
    for (size_t i = 0; i < o.v.size(); ++i) {
        r->v[i] = o.v[i];
        if (o.v[i].m) r->v[i].m = clone(*o.v[i].m);
        for (auto &x : r->v[i].r) x = clone(*x);
    }
    return r;
}
static bool equal(const Obj &a, const Obj &b) {
    if (a.md != b.md) return false;
    for (size_t i = 0; i < a.v.size(); ++i) {
        const Val &x = a.v[i], &y = b.v[i];
        if (x.u != y.u || x.set != y.set || x.b != y.b || !x.m != !y.m || x.r.size() != y.r.size()) return false;
        if (x.m && !equal(*x.m, *y.m)) return false;
        for (size_t k = 0; k < x.r.size(); ++k) if (!equal(*x.r[k], *y.r[k])) return false;
    }
    return true;
}
// canonical encoding; *ok = all strings are valid UTF-8
static Bytes encode(const Obj &o, bool *ok = nullptr) {
    Bytes out;
    auto delim = [&](int tag, const Bytes &b) { put_varint(out, tag << 3 | 2); put_varint(out, b.size()); out.insert(out.end(), b.begin(), b.end()); };
    for (size_t i = 0; i < o.v.size(); ++i) {
        const FD &f = o.md->f[i];
        const Val &v = o.v[i];
        switch (f.t) {
        case U32: if (v.u) { put_varint(out, f.tag << 3); put_varint(out, v.u); } break;
        case STR: if (v.set && ok && !ref_utf8(v.b)) *ok = false; // fall through
        case BYT: if (v.set) delim(f.tag, v.b); break;
        case MSG: if (v.m) delim(f.tag, encode(*v.m, ok)); break;
        case REP: for (auto &x : v.r) delim(f.tag, encode(*x, ok)); break;
        }
    }
    return out;
}
// an encoding of the same object with fields in any order (repeated ones in
// their order), repeated scalars, unknown fields and over-long varints
static Bytes scramble(Gen &g, const Obj &o, bool top_chain = false) {
    std::vector<std::pair<int, Bytes>> parts;      // field index, encoding
    auto vi = [&](Bytes &b, uint64_t v) { put_varint(b, v, g.chance(1, 8) ? 1 + (int)g.u(9) : 0); };
    auto delim = [&](int tag, const Bytes &b) { Bytes r; vi(r, tag << 3 | 2); vi(r, b.size()); return r + b; };
    for (size_t i = 0; i < o.v.size(); ++i) {
        const FD &f = o.md->f[i];
        const Val &v = o.v[i];
        Bytes b;
        switch (f.t) {
        case U32:
            if (g.chance(1, 8) && v.u) { vi(b, f.tag << 3); vi(b, g.u64()); }
            if (v.u || g.chance(1, 8)) { vi(b, f.tag << 3); vi(b, v.u | (g.chance(1, 8) ? g.u64() << 32 : 0)); }
            break;
        case STR: case BYT:
            if (v.set && g.chance(1, 8)) b = delim(f.tag, gen_text(g, 12));
            if (v.set) b = b + delim(f.tag, v.b);
            break;
        case MSG: if (v.m) b = delim(f.tag, scramble(g, *v.m)); break;
        case REP: for (auto &x : v.r) parts.push_back({(int)i, delim(f.tag, scramble(g, *x, f.sub == &md_Certificate))}); break;
        }
        if (!b.empty()) parts.push_back({(int)i, b});
    }
    if (!top_chain && o.md != &md_CertificateChain)
        for (unsigned n = g.chance(1, 3) ? (unsigned)g.u(3) : 0; n; --n) {
            static const int unk[] = {0, 1, 2, 5};
            int w = unk[g.u(3)];
            uint64_t tag = g.flip() ? 16 + g.u(300) : 1 + g.u(536870910);
            for (auto &f : o.md->f) if ((uint64_t)f.tag == tag || tag == 8) tag = 77;
            Bytes b;
            vi(b, tag << 3 | w);
            if (w == 0) vi(b, g.u64());
            else if (w == 1) b = b + g.bytes(8);
            else if (w == 5) b = b + g.bytes(4);
            else { Bytes x = g.bytes(g.u(20)); vi(b, x.size()); b = b + x; }
            parts.push_back({1000 + (int)n, b});
        }
    if (g.flip())
        for (size_t i = parts.size(); i > 1; --i) {     // shuffle, keeping equal indices in order
            size_t k = g.u(i - 1);
            bool clash = false;
            for (size_t q = k; q < i; ++q) for (size_t w = k; w < q; ++w) if (parts[q].first == parts[w].first) clash = true;
            if (!clash) std::swap(parts[i - 1], parts[k]);
        }
    Bytes out;
    for (auto &p : parts) out = out + p.second;
    return out;
}
// independent decoder.  unjudged: tag 0 or beyond 2^29-1 was skipped, varint
// bits beyond 64, or a singular message given twice
struct Dec {
    const Bytes &d; size_t p, end; bool bad = false; bool *unjudged;
    Dec(const Bytes &b, size_t from, size_t to, bool *u) : d(b), p(from), end(to), unjudged(u) {}
    uint64_t varint() {
        uint64_t v = 0;
        for (int i = 0; i < 10; ++i) {
            if (p >= end) { bad = true; return 0; }
            uint8_t c = d[p++];
            if (i == 9 && (c & 0x7e)) *unjudged = true;
            v |= i < 9 || 1 ? (uint64_t)(c & 0x7f) << (7 * i) : 0;
            if (!(c & 0x80)) return v;
        }
        bad = true;
        return 0;
    }
};
static PObj decode(const MD *md, const Bytes &d, size_t from, size_t to, bool *unjudged) {
    Dec c(d, from, to, unjudged);
    PObj o = mk(md);
    while (c.p < c.end) {
        uint64_t key = c.varint();
        if (c.bad) return nullptr;
        uint64_t tag = key >> 3;
        int w = (int)(key & 7);
        if (!tag || tag > 536870911) *unjudged = true;
        size_t fi = 0;
        while (fi < md->f.size() && (uint64_t)md->f[fi].tag != tag) ++fi;
        const FD *f = fi < md->f.size() ? &md->f[fi] : nullptr;
        if (f && w != (f->t == U32 ? 0 : 2)) return nullptr;
        uint64_t v = 0, len = 0;
        switch (w) {
        case 0: v = c.varint(); break;
        case 1: len = 8; break;
        case 5: len = 4; break;
        case 2: len = c.varint(); break;
        default: return nullptr;
        }
        if (c.bad || len > c.end - c.p) return nullptr;
        if (f) {
            Val &x = o->v[fi];
            switch (f->t) {
            case U32: x.u = (uint32_t)v; break;
            case STR: case BYT:
                x.b = sub(d, c.p, len);
                x.set = true;
                if (f->t == STR && !ref_utf8(x.b)) return nullptr;
                break;
            case MSG:
                if (x.m) *unjudged = true;
                if (!(x.m = decode(f->sub, d, c.p, c.p + len, unjudged))) return nullptr;
                break;
            case REP: {
                PObj e = decode(f->sub, d, c.p, c.p + len, unjudged);
                if (!e) return nullptr;
                x.r.push_back(e);
            }
            }
        }
        c.p += len;
    }
    return o;
}
static PObj decode(const MD *md, const Bytes &d, bool *unjudged) { return decode(md, d, 0, d.size(), unjudged); }

// ------------------------------------------------ library objects
struct LObj {
    const MD *md; void *o = nullptr;
    explicit LObj(const MD *m) : md(m) {}
    ~LObj() { if (o) md->destroy(o); }
    LObj(const LObj &) = delete;
    void *take() { void *r = o; o = nullptr; return r; }
};
static void compare(const MD *md, const void *o, const Obj &m, const std::string &path) {
    for (size_t i = 0; i < md->f.size(); ++i) {
        const FD &f = md->f[i];
        const Val &v = m.v[i];
        std::string p = path + "." + f.name;
        bool has = f.t == U32 ? v.u != 0 : f.t == MSG ? v.m != nullptr : f.t == REP ? !v.r.empty() : v.set;
        CHECK((f.has(o) != 0) == has, "has_%s says %d", p.c_str(), f.has(o));
        switch (f.t) {
        case U32: CHECK(f.getu(o) == v.u, "%s is %u, expected %u", p.c_str(), f.getu(o), v.u); break;
        case STR: case BYT: {
            CHECK(f.getsz(o) == v.b.size(), "%s has size %zu, expected %zu", p.c_str(), f.getsz(o), v.b.size());
            const uint8_t *d = (const uint8_t *)f.getp(o);
            CHECK((d != nullptr) == v.set, "%s: pointer %p", p.c_str(), (const void *)d);
            if (d) CHECK(v.b.empty() || !memcmp(d, v.b.data(), v.b.size()), "%s has the wrong value", p.c_str());
            if (d && f.t == STR) CHECK(d[v.b.size()] == 0, "%s is not terminated", p.c_str());
            break;
        }
        case MSG: {
            void *s = f.getm(o);
            CHECK((s != nullptr) == has, "%s: pointer %p", p.c_str(), s);
            if (s) compare(f.sub, s, *v.m, p);
            break;
        }
        case REP:
            CHECK(f.count(o) == v.r.size(), "%s has %zu elements, expected %zu", p.c_str(), f.count(o), v.r.size());
            CHECK(!f.at(o, v.r.size()) && !f.at(o, ~(size_t)0), "%s: element past the end", p.c_str());
            for (size_t k = 0; k < v.r.size(); ++k) {
                void *s = f.at(o, k);
                CHECK(s, "%s[%zu] is null", p.c_str(), k);
                compare(f.sub, s, *v.r[k], p + strf("[%zu]", k));
            }
        }
    }
}
// builds a library object from a model object
static void build(void *o, const Obj &m) {
    for (size_t i = 0; i < m.v.size(); ++i) {
        const FD &f = m.md->f[i];
        const Val &v = m.v[i];
        switch (f.t) {
        case U32: if (v.u) CHECK_EQ(f.setu(o, v.u), 0, "set"); break;
        case STR: case BYT: if (v.set) { Buf b(v.b); CHECK_EQ(f.setp(o, b.p, b.n), 0, "set"); } break;
        case MSG: if (v.m) { void *s = nullptr; CHECK_EQ(f.newm(o, &s), 0, "get_new"); build(s, *v.m); } break;
        case REP: for (auto &x : v.r) { void *s = nullptr; CHECK_EQ(f.add(o, &s), 0, "add"); build(s, *x); }
        }
    }
}
static Bytes gen_str(Gen &g, bool allow_bad) {
    if (allow_bad && g.chance(1, 60)) return g.bytes(1 + g.u(10));
    if (g.chance(1, 80)) return gen_text(g, 700);
    return gen_text(g, 16);
}
static Bytes gen_blob(Gen &g) { return g.bytes(g.chance(1, 40) ? g.size(3000) : g.size(70)); }
static PObj gen_obj(Gen &g, const MD *md, bool bad, int depth = 0) {
    PObj o = mk(md);
    for (size_t i = 0; i < o->v.size(); ++i) {
        const FD &f = md->f[i];
        Val &v = o->v[i];
        bool present = g.chance(3, 4);
        if (!present) continue;
        switch (f.t) {
        case U32: v.u = g.flip() ? 1 : (uint32_t)g.u64(); break;
        case STR: v.set = true; v.b = gen_str(g, bad); break;
        case BYT: v.set = true; v.b = gen_blob(g); break;
        case MSG: v.m = gen_obj(g, f.sub, bad, depth + 1); break;
        case REP: for (size_t n = g.chance(1, 30) ? g.u(depth ? 20 : 140) : g.u(3); n; --n) v.r.push_back(gen_obj(g, f.sub, bad, depth + 1));
        }
    }
    return o;
}
static Bytes lib_encode(const MD *md, const void *o, bool ok, size_t want) {
    NoiseProtobuf p;
    CHECK_EQ(noise_protobuf_prepare_measure(&p, 0x7fffffff), 0, "prepare_measure");
    int err = md->write(&p, 0, o);
    if (!ok) { CHECK_EQ(err, NOISE_ERROR_INVALID_FORMAT, "measuring an object with an invalid string"); }
    else {
        CHECK_EQ(err, 0, "measuring");
        size_t n = 0;
        CHECK_EQ(noise_protobuf_finish_measure(&p, &n), 0, "finish_measure");
        CHECK_EQ(n, want, "measured size");
    }
    Buf b(want);
    noise_protobuf_prepare_output(&p, b.p, b.n);
    err = md->write(&p, 0, o);
    CHECK_EQ(err, ok ? 0 : NOISE_ERROR_INVALID_FORMAT, "writing");
    if (!ok) return Bytes();
    uint8_t *d = nullptr; size_t n = 0;
    CHECK_EQ(noise_protobuf_finish_output(&p, &d, &n), 0, "finish_output");
    CHECK(d == b.p && n == b.n, "output is not the whole buffer");
    return b.bytes();
}
// reads `d` and compares with the model's reading
static void check_read(Gen &g, const MD *md, const Bytes &d, const Obj *m, const char *what) {
    Buf in(d);
    NoiseProtobuf p;
    noise_protobuf_prepare_input(&p, in.p, in.n);
    LObj l(md);
    l.o = (void *)1;
    int err = md->read(&p, 0, &l.o);
    if (!m) {
        CHECK(err != 0, "%s: accepted", what);
        CHECK(!l.o, "%s: refused, but an object was returned", what);
        CHECK_EQ(err, NOISE_ERROR_INVALID_FORMAT, what);
        return;
    }
    if (err) l.o = nullptr;
    CHECK_EQ(err, 0, what);
    CHECK(l.o, "%s: no object", what);
    CHECK_EQ(noise_protobuf_finish_input(&p), 0, "finish_input");
    compare(md, l.o, *m, md->name);
    Bytes want = encode(*m);
    Bytes again = lib_encode(md, l.o, true, want.size());
    CHECK(again == want, "%s: written again, the bytes differ", what);
}

// ------------------------------------------------ encrypted keys
static const char *HN[] = {"BLAKE2s", "BLAKE2b", "SHA256", "SHA512"};
static const char *CN[] = {"ChaChaPoly", "AESGCM"};
static std::string protect_name(int c, int h) { return std::string(CN[c]) + "_" + HN[h] + "_PBKDF2"; }
static bool parse_name(const Bytes &b, int &c, int &h) {
    std::string s(b.begin(), b.end());
    for (c = 0; c < 2; ++c) for (h = 0; h < 4; ++h) if (protect_name(c, h) == s) return true;
    return false;
}
// key and nonce for an encrypted private key
static void derive(int h, const Bytes &pass, const Bytes &salt, unsigned iter, Bytes &key, uint64_t &n) {
    Bytes k = o_pbkdf2((OHash)h, pass, salt, iter, 40);
    key = sub(k, 0, 32);
    n = 0;
    for (int i = 0; i < 8; ++i) n = n << 8 | k[32 + i];
}
static Bytes damage(Gen &g, Bytes d) {
    for (int n = 1 + (int)g.u(2); n > 0; --n) switch (g.u(5)) {
        case 0: if (!d.empty()) d[g.u(d.size() - 1)] ^= 1 << g.u(7); break;
        case 1: if (!d.empty()) d.resize(g.u(d.size() - 1)); break;
        case 2: if (!d.empty()) d[g.u(d.size() - 1)] = (uint8_t)g.u(255); break;
        case 3: { Bytes x = g.bytes(1 + g.u(6)); d.insert(d.begin() + g.u(d.size()), x.begin(), x.end()); break; }
        case 4: if (!d.empty()) { size_t a = g.u(d.size() - 1); size_t k = 1 + g.u(std::min<size_t>(8, d.size() - a) - 1); d.erase(d.begin() + a, d.begin() + a + k); } break;
        default: d = d + g.bytes(1 + g.u(3));
    }
    return d;
}
static Bytes enc_file(Gen &g, const Obj &priv, int c, int h, const Bytes &pass, const Bytes &salt, unsigned iter, const Bytes *plain = nullptr) {
    Bytes key; uint64_t n;
    derive(h, pass, salt, iter, key, n);
    PObj e = mk(&md_EncryptedPrivateKey);
    e->v[0].u = 1;
    e->v[1].set = e->v[2].set = e->v[4].set = true;
    e->v[1].b = str(protect_name(c, h));
    e->v[2].b = salt;
    e->v[3].u = iter;
    e->v[4].b = o_encrypt((OCipher)c, key, n, Bytes(), plain ? *plain : g.flip() ? encode(priv) : scramble(g, priv));
    return g.flip() ? encode(*e) : scramble(g, *e);
}
#endif
