// Certificates, chains and key objects (C18), encrypted private keys (C19),
// files (C20).
#include "robust.h"
#include "keyobj.h"
#include "pbutil.h"
extern "C" {
#include <set>
#include <noise/protobufs.h>
#include <noise/keys.h>
}
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>

// ------------------------------------------------------------------ C18
struct Node { const MD *md; void *o; Obj *m; };
static void collect(const MD *md, void *o, Obj *m, std::vector<Node> &out) {
    out.push_back({md, o, m});
    for (size_t i = 0; i < md->f.size(); ++i) {
        const FD &f = md->f[i];
        if (f.t == MSG && m->v[i].m) collect(f.sub, f.getm(o), m->v[i].m.get(), out);
        if (f.t == REP) for (size_t k = 0; k < m->v[i].r.size(); ++k) collect(f.sub, f.at(o, k), m->v[i].r[k].get(), out);
    }
}
TARGET(C18, history, 2, "a random sequence of set / clear / get_new / add / insert calls on an object tree of one of the ten message types, compared with a model object after every call, then written, read back and written again; non-trivial when the final encoding is not empty; distinct by encoding") {
    const MD *md = ALLMD[g.en(10)];
    LObj l(md);
    PObj m = mk(md);
    CHECK_EQ(md->make(&l.o), 0, "new");
    int steps = (int)g.u(40);
    std::string ops;
    for (int s = 0; s < steps; ++s) {
        std::vector<Node> nodes;
        collect(md, l.o, m.get(), nodes);
        Node n = g.flip() ? nodes[0] : nodes[g.u(nodes.size() - 1)];
        size_t i = g.u(n.md->f.size() - 1);
        const FD &f = n.md->f[i];
        Val &v = n.m->v[i];
        if (g.chance(1, 9)) {
            CHECK_EQ(f.clear(n.o), 0, "clear");
            v = Val();
            ops += strf(" clear %s", f.name);
        } else switch (f.t) {
        case U32: v.u = g.chance(1, 5) ? 0 : (uint32_t)g.u64(); CHECK_EQ(f.setu(n.o, v.u), 0, "set"); ops += strf(" %s=%u", f.name, v.u); break;
        case STR: case BYT: {
            v.set = true;
            v.b = f.t == STR ? gen_str(g, true) : gen_blob(g);
            Buf b(v.b);
            CHECK_EQ(f.setp(n.o, b.p, b.n), 0, "set");
            ops += strf(" %s=%zub", f.name, v.b.size());
            break;
        }
        case MSG: {
            void *x = nullptr;
            CHECK_EQ(f.newm(n.o, &x), 0, "get_new");
            CHECK(x && x == f.getm(n.o), "get_new returned another object");
            v.m = mk(f.sub);
            ops += strf(" new %s", f.name);
            break;
        }
        case REP: {
            int times = g.chance(1, 12) ? 60 + (int)g.u(80) : 1;
            for (; times > 0; --times) {
                void *x = nullptr;
                if (g.flip()) {
                    CHECK_EQ(f.add(n.o, &x), 0, "add");
                    CHECK(x && x == f.at(n.o, v.r.size()), "add returned another object");
                    v.r.push_back(mk(f.sub));
                    ops += strf(" add %s", f.name);
                } else {
                    LObj e(f.sub);
                    CHECK_EQ(f.sub->make(&e.o), 0, "new");
                    PObj em = gen_obj(g, f.sub, false, 2);
                    build(e.o, *em);
                    size_t at = g.flip() ? g.u(v.r.size() + 1) : g.flip() ? 0 : v.r.size();
                    CHECK_EQ(f.insert(n.o, at, e.o), 0, "insert");
                    e.take();
                    if (at > v.r.size()) at = v.r.size();
                    v.r.insert(v.r.begin() + at, em);
                    ops += strf(" insert %s@%zu", f.name, at);
                }
            }
            break;
        }
        }
        compare(md, l.o, *m, md->name);
    }
    bool ok = true;
    Bytes want = encode(*m, &ok);
    Bytes got = lib_encode(md, l.o, ok, want.size());
    g.note("%s:%s -> %zu bytes", md->name, ops.substr(0, 160).c_str(), want.size());
    g.key(std::string(want.begin(), want.end()) + md->name);
    g.nontrivial(!want.empty());
    if (!ok) { g.label("invalid string refused"); return; }
    CHECK(got == want, "encoding differs from the documented layout");
    check_read(g, md, want, m.get(), "reading back");
    // a buffer that is too small
    if (!want.empty()) {
        size_t room = g.flip() ? want.size() - 1 : g.u(want.size() - 1);
        Buf b(room);
        NoiseProtobuf p;
        noise_protobuf_prepare_output(&p, b.p, b.n);
        CHECK_EQ(md->write(&p, 0, l.o), NOISE_ERROR_INVALID_LENGTH, "writing to a buffer that is too small");
    }
    // and as an element of something else, by tag
    int tag = 1 + (int)g.u(40);
    Bytes wrapped;
    put_varint(wrapped, tag << 3 | 2);
    put_varint(wrapped, want.size());
    wrapped = wrapped + want;
    Buf b(wrapped.size());
    NoiseProtobuf p;
    noise_protobuf_prepare_output(&p, b.p, b.n);
    CHECK_EQ(md->write(&p, tag, l.o), 0, "write with a tag");
    CHECK(b.bytes() == wrapped, "encoding as a tagged element");
    noise_protobuf_prepare_input(&p, b.p, b.n);
    LObj r(md);
    CHECK_EQ(md->read(&p, tag, &r.o), 0, "read with a tag");
    CHECK_EQ(noise_protobuf_finish_input(&p), 0, "finish");
    compare(md, r.o, *m, md->name);
}

TARGET(C18, layout, 2, "objects encoded by an independent encoder with fields in any order, scalars given twice, unknown fields and over-long varints read back as the object meant; non-trivial when not the canonical encoding; distinct by bytes") {
    const MD *md = ALLMD[g.en(10)];
    PObj m = gen_obj(g, md, false);
    Bytes d = scramble(g, *m);
    g.note("%s, %zu bytes: %s", md->name, d.size(), hex(d, 40).c_str());
    g.key(std::string(d.begin(), d.end()) + md->name);
    g.nontrivial(d != encode(*m));
    bool un = false;
    PObj check = decode(md, d, &un);
    CHECK(check && equal(*check, *m), "harness: decoder and encoder disagree");
    check_read(g, md, d, m.get(), "reading a permuted encoding");
}
TARGET(C18, damaged, 2, "damaged encodings: the reader accepts exactly what an independent decoder accepts, with the same result, and returns no object otherwise; non-trivial when refused or read as another object; distinct by bytes") {
    const MD *md = ALLMD[g.en(10)];
    PObj m = gen_obj(g, md, false);
    Bytes d = damage(g, g.flip() ? encode(*m) : scramble(g, *m));
    bool un = false;
    PObj r = decode(md, d, &un);
    g.note("%s, %zu bytes, %s", md->name, d.size(), r ? "still readable" : "malformed");
    g.key(std::string(d.begin(), d.end()) + md->name);
    if (un) { g.label("not judged"); return; }
    g.label(r ? "still readable" : "malformed");
    g.nontrivial(!r || !equal(*r, *m));
    check_read(g, md, d, r.get(), r ? "damaged but readable" : "malformed");
}
TARGET(C18, loader, 2, "certificates and chains through the loader's buffer functions: a certificate, the first certificate of a chain, a chain, a chain made of a single certificate; damaged input; distinct by bytes") {
    bool is_chain = g.en(2), want_chain = g.en(2);
    PObj cert = gen_obj(g, &md_Certificate, false), chain = mk(&md_CertificateChain);
    if (is_chain) for (size_t n = 1 + g.u(4); n; --n) chain->v[0].r.push_back(gen_obj(g, &md_Certificate, false));
    else if (encode(*cert).empty()) cert->v[0].u = 1;
    Obj &src = is_chain ? *chain : *cert;
    Bytes d = encode(src);
    // saving
    {
        LObj l(src.md);
        CHECK_EQ(src.md->make(&l.o), 0, "new");
        build(l.o, src);
        Buf b(d.size());
        NoiseProtobuf p;
        noise_protobuf_prepare_output(&p, b.p, b.n);
        CHECK_EQ(is_chain ? noise_save_certificate_chain_to_buffer((Noise_CertificateChain *)l.o, &p)
                          : noise_save_certificate_to_buffer((Noise_Certificate *)l.o, &p), 0, "save to buffer");
        CHECK(b.bytes() == d, "saved bytes");
    }
    bool broken = g.chance(1, 3), un = false;
    if (broken) d = damage(g, d); else if (g.flip()) d = scramble(g, src);
    if (d.empty()) return;
    g.note("%s%s loaded as %s, %zu bytes", broken ? "damaged " : "", is_chain ? "chain" : "certificate", want_chain ? "chain" : "certificate", d.size());
    g.key(std::string(d.begin(), d.end()) + (want_chain ? "C" : "c"));
    // what should come out
    Dec first(d, 0, d.size(), &un);
    uint64_t key = first.varint();
    bool looks_chain = !first.bad && key >> 3 == 8;
    PObj want;
    if (looks_chain) {
        PObj c = decode(&md_CertificateChain, d, &un);
        if (c) {
            if (c->v[0].r.empty()) un = true;
            else want = want_chain ? c : c->v[0].r[0];
            if (encode(*c).size() != d.size()) un = un || broken;    // unknown fields next to the certificates
        }
    } else {
        PObj c = decode(&md_Certificate, d, &un);
        if (c && want_chain) { want = mk(&md_CertificateChain); want->v[0].r.push_back(c); }
        else want = c;
    }
    if (un) { g.label("not judged"); return; }
    g.label(!want ? "malformed" : looks_chain ? (want_chain ? "chain" : "first of chain") : want_chain ? "chain of one" : "certificate");
    Buf in(d);
    NoiseProtobuf p;
    noise_protobuf_prepare_input(&p, in.p, in.n);
    LObj r(want_chain ? &md_CertificateChain : &md_Certificate);
    r.o = (void *)1;
    int err = want_chain ? noise_load_certificate_chain_from_buffer((Noise_CertificateChain **)&r.o, &p)
                         : noise_load_certificate_from_buffer((Noise_Certificate **)&r.o, &p);
    if (err) { void *x = r.o; r.o = nullptr; CHECK(!x, "an object was returned with error 0x%x", err); }
    g.nontrivial();
    if (!want) { CHECK_EQ(err, NOISE_ERROR_INVALID_FORMAT, "malformed input"); return; }
    CHECK_EQ(err, 0, "load");
    compare(r.md, r.o, *want, "loaded");
}
// ------------------------------------------------- arrays of generated code
// The helpers that noise-protoc's output keeps its repeated fields with,
// against a plain list.
struct Arrays {
    int kind;                      // 0: elements of a fixed size, 1: strings, 2: byte strings
    size_t esize;
    void *array = nullptr;
    size_t *lens = nullptr;
    size_t count = 0, max = 0;
    std::vector<Bytes> model;
    Arrays(int k, size_t e) : kind(k), esize(e) {}
    Arrays(const Arrays &) = delete;
    ~Arrays() { release(); }
    void release() {
        if (kind) {
            for (size_t i = 0; i < count; ++i) noise_protobuf_free_memory(((void **)array)[i], lens[i]);
            noise_protobuf_free_memory(lens, max * sizeof(size_t));
            noise_protobuf_free_memory(array, max * sizeof(void *));
        } else {
            noise_protobuf_free_memory(array, max * esize);
        }
        array = nullptr; lens = nullptr; count = max = 0;
    }
    int op(size_t at, const Bytes &v, bool insert) {
        int e;
        Buf b(v);                  // exactly the value: nothing beyond it may be read
        const void *p = b.p;
        if (kind == 0) {
            e = insert ? noise_protobuf_insert_into_array(&array, &count, &max, at, p, esize)
                       : noise_protobuf_add_to_array(&array, &count, &max, p, esize);
        } else {
            if (v.empty() && at % 2) p = nullptr;
            e = kind == 1 ? noise_protobuf_add_to_string_array((char ***)&array, &lens, &count, &max, (const char *)p, v.size())
                          : noise_protobuf_add_to_bytes_array((void ***)&array, &lens, &count, &max, p, v.size());
        }
        if (!e) model.insert(insert && at < model.size() ? model.begin() + at : model.end(), v);
        return e;
    }
    void check(bool all) {
        CHECK_EQ(count, model.size(), "elements in the array");
        CHECK(max >= count, "room for %zu elements, %zu in use", max, count);
        for (size_t i = all || count < 3 ? 0 : count - 3; i < count; ++i) {
            if (kind == 0) {
                CHECK(!memcmp((uint8_t *)array + i * esize, model[i].data(), esize), "element %zu of %zu (size %zu) is not the one added", i, count, esize);
            } else {
                CHECK(lens[i] == model[i].size(), "length of element %zu of %zu is %zu", i, count, lens[i]);
                uint8_t *d = ((uint8_t **)array)[i];
                CHECK(d != nullptr, "element %zu is null", i);
                CHECK(!memcmp(d, model[i].data(), lens[i]), "element %zu of %zu is not the one added", i, count);
                if (kind == 1) CHECK(d[lens[i]] == 0, "string %zu ends in another byte", i);
            }
        }
    }
};
TARGET(C18, arrays, 1.5, "the helpers of generated code that add to and insert into arrays of elements, strings and byte strings, from empty to a thousand elements, compared with a list after every call; distinct by kind, size and operations") {
    Arrays a((int)g.u(2), 0);
    static const std::vector<size_t> sizes = {sizeof(void *), 1, 3, 4, 16, 40};
    a.esize = g.pick(sizes);
    size_t n = 1 + g.size(g.chance(1, 5) ? 1000 : 80, {3, 4, 8, 16, 31, 32, 33, 64, 65, 128});
    std::string key = strf("%d %zu %zu ", a.kind, a.esize, n);
    size_t big = 0;
    for (size_t i = 0; i < n; ++i) {
        Bytes v = g.bytes(a.kind ? g.size(n > 100 ? 20 : 400, {0, 1}) : a.esize);
        bool ins = !a.kind && g.chance(1, 2);
        size_t at = ins ? g.u(a.count + 2) : g.u(1);
        if (g.chance(1, 40) && a.kind) {
            size_t c = a.count, m = a.max; void *p = a.array;
            int e = a.kind == 1 ? noise_protobuf_add_to_string_array((char ***)&a.array, &a.lens, &a.count, &a.max, nullptr, 1 + g.u(9))
                                : noise_protobuf_add_to_bytes_array((void ***)&a.array, &a.lens, &a.count, &a.max, nullptr, 1 + g.u(9));
            CHECK_EQ(e, NOISE_ERROR_INVALID_PARAM, "adding a null value with a size");
            CHECK(a.count == c && a.max == m && a.array == p, "a refused call changed the array");
        }
        if (g.chance(1, 20) && at > a.count && ins) at = (size_t)-1;
        { int e = a.op(at, v, ins); CHECK(e == 0, "adding element %zu: 0x%x", i, e); }
        a.check(n < 100 || i % 16 == 0 || i + 1 == n);
        if (ins) key += strf("%zu,", at);
        big = std::max(big, v.size());
    }
    a.check(true);
    g.note("%zu elements, kind %d, size %zu", n, a.kind, a.kind ? big : a.esize);
    g.label(a.kind == 0 ? "elements" : a.kind == 1 ? "strings" : "byte strings");
    g.key(key);
    g.nontrivial();
}
TARGET(C18, arguments, 0.1, "null objects, protobufs and outputs are refused with the parameter error or read as absent; distinct by call") {
    const MD *md = ALLMD[g.en(10)];
    NoiseProtobuf p;
    uint8_t b[4];
    LObj l(md);
    CHECK_EQ(md->make(nullptr), NOISE_ERROR_INVALID_PARAM, "new(NULL)");
    CHECK_EQ(md->destroy(nullptr), NOISE_ERROR_INVALID_PARAM, "free(NULL)");
    noise_protobuf_prepare_output(&p, b, 4);
    CHECK_EQ(md->write(&p, 0, nullptr), NOISE_ERROR_INVALID_PARAM, "write of NULL");
    CHECK_EQ(md->make(&l.o), 0, "new");
    CHECK_EQ(md->write(nullptr, 0, l.o), NOISE_ERROR_INVALID_PARAM, "write to NULL");
    CHECK_EQ(md->read(&p, 0, nullptr), NOISE_ERROR_INVALID_PARAM, "read to NULL");
    void *o = (void *)1;
    CHECK_EQ(md->read(nullptr, 0, &o), NOISE_ERROR_INVALID_PARAM, "read from NULL");
    CHECK(!o, "read from NULL returned an object");
    for (auto &f : md->f) {
        CHECK_EQ(f.clear(nullptr), NOISE_ERROR_INVALID_PARAM, "clear(NULL)");
        CHECK_EQ(f.has(nullptr), 0, "has(NULL)");
        switch (f.t) {
        case U32: CHECK_EQ(f.getu(nullptr), 0, "get(NULL)"); CHECK_EQ(f.setu(nullptr, 1), NOISE_ERROR_INVALID_PARAM, "set(NULL)"); break;
        case STR: case BYT: CHECK(!f.getp(nullptr) && !f.getsz(nullptr), "get(NULL)"); CHECK_EQ(f.setp(nullptr, "x", 1), NOISE_ERROR_INVALID_PARAM, "set(NULL)"); break;
        case MSG:
            CHECK(!f.getm(nullptr), "get(NULL)");
            CHECK_EQ(f.newm(l.o, nullptr), NOISE_ERROR_INVALID_PARAM, "get_new(NULL)");
            o = (void *)1;
            CHECK_EQ(f.newm(nullptr, &o), NOISE_ERROR_INVALID_PARAM, "get_new on NULL");
            CHECK(!o, "get_new on NULL returned an object");
            break;
        case REP:
            CHECK(!f.count(nullptr) && !f.at(nullptr, 0), "count/get_at(NULL)");
            CHECK_EQ(f.add(l.o, nullptr), NOISE_ERROR_INVALID_PARAM, "add(NULL)");
            o = (void *)1;
            CHECK_EQ(f.add(nullptr, &o), NOISE_ERROR_INVALID_PARAM, "add on NULL");
            CHECK(!o, "add on NULL returned an object");
            CHECK_EQ(f.insert(l.o, 0, nullptr), NOISE_ERROR_INVALID_PARAM, "insert(NULL)");
            CHECK_EQ(f.insert(nullptr, 0, l.o), NOISE_ERROR_INVALID_PARAM, "insert on NULL");
        }
    }
    Noise_Certificate *c = (Noise_Certificate *)1; Noise_CertificateChain *cc = (Noise_CertificateChain *)1; Noise_PrivateKey *k = (Noise_PrivateKey *)1;
    CHECK(noise_load_certificate_from_buffer(&c, nullptr) == NOISE_ERROR_INVALID_PARAM && !c, "load(NULL)");
    CHECK(noise_load_certificate_chain_from_buffer(&cc, nullptr) == NOISE_ERROR_INVALID_PARAM && !cc, "load(NULL)");
    CHECK(noise_load_private_key_from_buffer(&k, nullptr, "x", 1) == NOISE_ERROR_INVALID_PARAM && !k, "load(NULL)");
    CHECK_EQ(noise_load_certificate_from_buffer(nullptr, &p), NOISE_ERROR_INVALID_PARAM, "load to NULL");
    CHECK_EQ(noise_load_certificate_chain_from_buffer(nullptr, &p), NOISE_ERROR_INVALID_PARAM, "load to NULL");
    CHECK_EQ(noise_load_private_key_from_buffer(nullptr, &p, "x", 1), NOISE_ERROR_INVALID_PARAM, "load to NULL");
    k = (Noise_PrivateKey *)1;
    CHECK(noise_load_private_key_from_buffer(&k, &p, nullptr, 0) == NOISE_ERROR_INVALID_PARAM && !k, "load without a passphrase");
    g.key(md->name);
    g.note("%s", md->name);
    g.nontrivial();
}

// ------------------------------------------------------------------ C19
static PObj gen_private(Gen &g) {
    PObj k = gen_obj(g, &md_PrivateKey, false);
    if (g.chance(3, 4)) {       // something like a real key
        PObj i = mk(&md_PrivateKeyInfo);
        i->v[0].set = i->v[1].set = true;
        i->v[0].b = str("25519");
        i->v[1].b = g.rnd(32);
        k->v[3].r.push_back(i);
    }
    return k;
}
static Bytes gen_pass(Gen &g, size_t longest = 0) {
    if (longest && g.chance(1, 10)) return g.bytes(g.size(g.flip() ? longest / 10 : longest, {255, 256, 257, 1023, 1024, 1025, 2048}));
    switch (g.u(4)) {
    case 0: return gen_text(g, 12);
    case 1: return g.bytes(g.size(300, {55, 56, 63, 64, 65, 111, 112, 127, 128, 129}));
    default: return g.rnd(8 + g.u(8));
    }
}
static Bytes other_pass(Gen &g, const Bytes &p) {
    Bytes q(p);
    switch (g.u(5)) {
    case 0: if (!q.empty()) { q[g.chance(1, 3) ? q.size() - 1 : g.u(q.size() - 1)] ^= 1 << g.u(7); break; } // fall through
    case 1: q.push_back((uint8_t)(1 + g.u(254))); break;
    case 2: if (!q.empty()) { q.pop_back(); break; } // fall through
    case 3: q.insert(q.begin(), (uint8_t)(1 + g.u(254))); break;
    case 4: if (!q.empty()) { q.clear(); break; } // fall through
    default: q = g.rnd(1 + g.u(20));
    }
    return q;
}
static const unsigned ITER_LIMIT = 3000;       // beyond this, altered files are not loaded (time)
// What loading `file` with `pass` gives.  *err: 0 or the documented error, -1 if not judged
static PObj expect_load(const Bytes &file, const Bytes &pass, int *err, std::string &why) {
    bool un = false;
    PObj e = decode(&md_EncryptedPrivateKey, file, &un);
    *err = -1;
    if (un) { why = "not judged"; return nullptr; }
    *err = NOISE_ERROR_INVALID_FORMAT;
    if (!e) { why = "malformed"; return nullptr; }
    if (e->v[0].u != 1 || !e->v[1].set || !e->v[2].set || !e->v[3].u || !e->v[4].set) { why = "missing field or wrong version"; return nullptr; }
    int c, h;
    if (!parse_name(e->v[1].b, c, h)) { *err = NOISE_ERROR_UNKNOWN_NAME; why = "unknown name"; return nullptr; }
    if (e->v[3].u > ITER_LIMIT) { *err = -1; why = "too many iterations to try"; return nullptr; }
    Bytes key, pt; uint64_t n;
    derive(h, pass, e->v[2].b, e->v[3].u, key, n);
    *err = NOISE_ERROR_MAC_FAILURE;
    if (e->v[4].b.size() < 16 || e->v[4].b.size() > 65535) { *err = -2; why = "bad data length"; return nullptr; }
    if (!o_decrypt((OCipher)c, key, n, Bytes(), e->v[4].b, pt)) { why = "does not decrypt"; return nullptr; }
    PObj k = decode(&md_PrivateKey, pt, &un);
    if (un) { *err = -1; why = "not judged"; return nullptr; }
    *err = k ? 0 : NOISE_ERROR_INVALID_FORMAT;
    why = k ? "opens" : "decrypts to something malformed";
    return k;
}
static void check_load(Gen &g, const Bytes &file, const Bytes &pass) {
    int want; std::string why;
    PObj k = expect_load(file, pass, &want, why);
    g.label(why.c_str());
    g.note(" -> %s", why.c_str());
    if (want == -1) return;
    Buf in(file), pw(pass);
    NoiseProtobuf p;
    noise_protobuf_prepare_input(&p, in.p, in.n);
    LObj l(&md_PrivateKey);
    l.o = (void *)1;
    int err = noise_load_private_key_from_buffer((Noise_PrivateKey **)&l.o, &p, pw.p, pw.n);
    if (err) { void *x = l.o; l.o = nullptr; CHECK(!x, "an object was returned with error 0x%x", err); }
    if (want == -2) { CHECK(err == NOISE_ERROR_MAC_FAILURE || err == NOISE_ERROR_INVALID_LENGTH || err == NOISE_ERROR_INVALID_FORMAT, "%s: result 0x%x", why.c_str(), err); return; }
    CHECK(err == want, "%s: loading gave 0x%x, expected 0x%x", why.c_str(), err, want);
    if (!want) compare(&md_PrivateKey, l.o, *k, "loaded");
}
static bool contains(const uint8_t *p, size_t n, const Bytes &x) {
    // (not constant bytes, which wiped or never written memory holds too)
    if (std::set<uint8_t>(x.begin(), x.end()).size() < 6) return false;
    return x.size() >= 12 && n >= x.size() && memmem(p, n, x.data(), x.size());
}
TARGET(C19, save, 1, "a random private key saved under a passphrase and algorithm, decrypted by an independent implementation, loaded back with the passphrase and refused with another; the key does not appear in the output; salts differ; distinct by key, passphrase and algorithm") {
    int c = (int)g.en(2), h = (int)g.en(4);
    PObj k = gen_private(g);
    Bytes pass = gen_pass(g, 2500), plain = encode(*k);
    LObj l(&md_PrivateKey);
    CHECK_EQ(md_PrivateKey.make(&l.o), 0, "new");
    build(l.o, *k);
    std::string name = protect_name(c, h);
    Bytes pl;
    put_varint(pl, plain.size() + 16);
    size_t total = 2 + 1 + 1 + name.size() + 1 + 1 + 16 + 1 + 3 + 1 + pl.size() + plain.size() + 16;
    size_t room = g.flip() ? total : total + g.u(200);
    Buf out(room), pw(pass);
    NoiseProtobuf p;
    noise_protobuf_prepare_output(&p, out.p, out.n);
    g.note("%s, passphrase of %zu bytes, key of %zu bytes, room %zu of %zu", name.c_str(), pass.size(), plain.size(), room, total);
    g.key(name + std::string(pass.begin(), pass.end()) + std::string(plain.begin(), plain.end()));
    g.nontrivial();
    CHECK_EQ(noise_save_private_key_to_buffer((Noise_PrivateKey *)l.o, &p, pw.p, pw.n, name.c_str()), 0, "save");
    uint8_t *d = nullptr; size_t n = 0;
    CHECK_EQ(noise_protobuf_finish_output(&p, &d, &n), 0, "finish_output");
    CHECK_EQ(n, total, "size of the encrypted key");
    Bytes file(d, d + n);
    for (auto &i : k->v[3].r) CHECK(!contains(out.p, out.n, i->v[1].b), "key bytes in the clear in the output buffer");
    bool un = false;
    PObj e = decode(&md_EncryptedPrivateKey, file, &un);
    CHECK(e && !un, "output is not an EncryptedPrivateKey");
    CHECK(encode(*e) == file, "output is not canonical");
    CHECK_EQ(e->v[0].u, 1, "version");
    CHECK(e->v[1].b == str(name), "algorithm name");
    CHECK_EQ(e->v[2].b.size(), 16, "salt size");
    CHECK_EQ(e->v[3].u, 20000, "iterations");
    Bytes key, pt; uint64_t nn;
    derive(h, pass, e->v[2].b, e->v[3].u, key, nn);
    CHECK(o_decrypt((OCipher)c, key, nn, Bytes(), e->v[4].b, pt), "an independent implementation cannot decrypt the key");
    CHECK(pt == plain, "the decrypted key differs");
    // and back
    bool right = g.chance(1, 2);
    Bytes pass2 = right ? pass : other_pass(g, pass);
    if (!right) {
        Bytes key2; uint64_t n2;
        derive(h, pass2, e->v[2].b, e->v[3].u, key2, n2);
        right = key2 == key && nn == n2;      // equal after HMAC's padding
    }
    Buf in(file), pw2(pass2);
    noise_protobuf_prepare_input(&p, in.p, in.n);
    LObj r(&md_PrivateKey);
    r.o = (void *)1;
    int err = noise_load_private_key_from_buffer((Noise_PrivateKey **)&r.o, &p, pw2.p, pw2.n);
    if (err) { void *x = r.o; r.o = nullptr; CHECK(!x, "an object was returned with error 0x%x", err); }
    g.label(right ? "right passphrase" : "wrong passphrase");
    if (right) { CHECK_EQ(err, 0, "load"); compare(&md_PrivateKey, r.o, *k, "loaded"); }
    else CHECK_EQ(err, NOISE_ERROR_MAC_FAILURE, "load with another passphrase");
    if (g.chance(1, 6)) {      // salts of two saves
        Buf out2(total);
        noise_protobuf_prepare_output(&p, out2.p, out2.n);
        CHECK_EQ(noise_save_private_key_to_buffer((Noise_PrivateKey *)l.o, &p, pw.p, pw.n, name.c_str()), 0, "second save");
        bool un2 = false;
        PObj e2 = decode(&md_EncryptedPrivateKey, out2.bytes(), &un2);
        CHECK(e2 && e2->v[2].b != e->v[2].b, "two saves used the same salt");
        CHECK(e2->v[4].b != e->v[4].b, "two saves gave the same ciphertext");
    }
}
TARGET(C19, load, 12, "independently made encrypted keys (any salt length and small iteration counts, right or wrong passphrase, other versions, missing fields, altered bytes, malformed plaintext): the outcome is the one an independent implementation computes; distinct by file and passphrase") {
    int c = (int)g.en(2), h = (int)g.en(4);
    PObj k = gen_private(g);
    Bytes pass = gen_pass(g, 30000), salt = g.bytes(g.flip() ? 16 : g.u(100)), plain;
    unsigned iter = 1 + (unsigned)(g.chance(1, 10) && pass.size() < 1000 ? g.u(1500) : g.u(12));
    int kind = (int)g.u(9);
    Bytes file;
    if (kind == 0) {            // a plaintext that is not a private key
        plain = damage(g, encode(*k));
        file = enc_file(g, *k, c, h, pass, salt, iter, &plain);
    } else file = enc_file(g, *k, c, h, pass, salt, iter);
    static const char *kinds[] = {"malformed plaintext", "honest", "honest", "other passphrase", "altered bytes", "altered bytes", "altered data", "field removed or changed", "field removed or changed", "short data"};
    Bytes use = pass;
    bool un = false;
    PObj e = decode(&md_EncryptedPrivateKey, file, &un);
    switch (kind) {
    case 3: use = other_pass(g, pass); break;
    case 4: case 5: file = damage(g, file); break;
    case 6: if (!e->v[4].b.empty()) e->v[4].b[g.u(e->v[4].b.size() - 1)] ^= 1 << g.u(7); file = encode(*e); break;
    case 7: case 8: {
        int f = (int)g.u(4);
        Val &v = e->v[f];
        if (g.flip()) v = Val();
        else switch (f) {
        case 0: v.u = (uint32_t)g.u(3); break;
        case 1: {
            static const char *bad[] = {"", "_", "__", "ChaChaPoly", "ChaChaPoly_BLAKE2b", "ChaChaPoly_BLAKE2b_", "ChaChaPoly_BLAKE2b_PBKDF2_", "ChaChaPoly_BLAKE2b_PBKDF", "AESGCM_SHA256_pbkdf2", "_BLAKE2b_PBKDF2", "ChaChaPoly__PBKDF2",
                "NoCipher_BLAKE2b_PBKDF2", "ChaChaPoly_NoHash_PBKDF2", "SHA256_AESGCM_PBKDF2", "AESGCM_SHA512_SCRYPT"};
            if (g.flip()) v.b = str(protect_name((int)g.u(1), (int)g.u(3)));
            else if (g.flip()) v.b = str(bad[g.u(14)]);
            else { v.b[g.u(v.b.size() - 1)] = (uint8_t)(0x20 + g.u(0x5e)); }
            break;
        }
        case 2: v.b = g.flip() ? g.rnd(16) : sub(v.b, 0, v.b.size() ? v.b.size() - 1 : 0); break;
        case 3: v.u = 1 + (uint32_t)g.u(30); break;
        default: v.b = g.bytes(g.u(60));
        }
        file = encode(*e);
        break;
    }
    case 9: e->v[4].b.resize(std::min<size_t>(e->v[4].b.size(), g.u(17))); file = encode(*e); break;
    }
    g.note("%s, %u iterations, %zu bytes: %s", protect_name(c, h).c_str(), iter, file.size(), kinds[kind]);
    g.key(std::string(file.begin(), file.end()) + std::string(use.begin(), use.end()));
    g.nontrivial();
    check_load(g, file, use);
}
TARGET(C19, limits, 0.8, "saving with too little room, keys around the largest that one packet can hold, unknown algorithm names and null arguments; nothing is left in the clear; distinct by sizes") {
    NoiseProtobuf p;
    LObj l(&md_PrivateKey);
    CHECK_EQ(md_PrivateKey.make(&l.o), 0, "new");
    PObj k = gen_private(g);
    Bytes pass = gen_pass(g);
    Buf pw(pass);
    std::string name = protect_name((int)g.u(1), (int)g.u(3));
    int kind = (int)g.u(4);
    size_t target = 0;
    if (kind <= 1) {            // around 65519 bytes of plaintext
        target = 65519 + (g.flip() ? g.u(30) : g.u(8)) - (g.flip() ? 4 : 0);
        if (g.chance(1, 6)) target = 65536 + g.u(40);
        k = mk(&md_PrivateKey);
        PObj i = mk(&md_PrivateKeyInfo);
        i->v[1].set = true;
        k->v[3].r.push_back(i);
        size_t sz = 65500;
        for (int t = 0; t < 4; ++t) { i->v[1].b = Bytes(sz, 0x5c); sz += target - encode(*k).size(); }
        i->v[1].b = g.rnd(sz);
    }
    build(l.o, *k);
    Bytes plain = encode(*k), pl;
    put_varint(pl, plain.size() + 16);
    size_t total = 2 + 1 + 1 + name.size() + 1 + 1 + 16 + 1 + 3 + 1 + pl.size() + plain.size() + 16;
    size_t room = total;
    int want = 0;
    if (kind == 2) { room = g.flip() ? total - 1 - g.u(20) : g.u(total - 1); want = NOISE_ERROR_INVALID_LENGTH; }
    if (kind == 1) room = total + g.u(2000);
    if (kind <= 1 && plain.size() > 65519) want = NOISE_ERROR_INVALID_LENGTH;
    if (kind == 3) {
        static const char *bad[] = {"", "_", "__", "ChaChaPoly", "ChaChaPoly_BLAKE2b", "ChaChaPoly_BLAKE2b_", "ChaChaPoly_BLAKE2b_PBKDF2_", "ChaChaPoly_BLAKE2b_PBKDF", "AESGCM_SHA256_pbkdf2", "_BLAKE2b_PBKDF2", "ChaChaPoly__PBKDF2", "Noise_25519_PBKDF2"};
        name = bad[g.u(11)];
        want = NOISE_ERROR_UNKNOWN_NAME;
    }
    Buf out(room);
    noise_protobuf_prepare_output(&p, out.p, out.n);
    const char *nm = name.c_str();
    const void *pp = pw.p;
    NoiseProtobuf *pb = &p;
    const void *obj = l.o;
    if (kind == 4) {
        switch (g.u(3)) { case 0: nm = nullptr; break; case 1: pp = nullptr; break; case 2: pb = nullptr; break; default: obj = nullptr; }
        want = NOISE_ERROR_INVALID_PARAM;
    }
    g.note("kind %d, %s, key of %zu bytes, room %zu of %zu", kind, name.c_str(), plain.size(), room, total);
    g.key(strf("%d %s %zu %zu", kind, name.c_str(), plain.size(), room));
    g.nontrivial();
    int err = noise_save_private_key_to_buffer((const Noise_PrivateKey *)obj, pb, pp, pw.n, nm);
    CHECK(err == want, "saving gave 0x%x, expected 0x%x", err, want);
    for (auto &i : k->v[3].r) CHECK(!contains(out.p, out.n, i->v[1].b), "key bytes in the clear in the output buffer");
}

// ------------------------------------------------------------------ C20
// Files the library opens go through a stdio stream over functions that can
// fail, so every operation that reaches the system can be made to.
struct Plan {
    std::string path;            // intercepted path; empty = none
    int open_errno = 0;          // opening fails
    bool no_seek = false;        // the file cannot seek (a pipe)
    int seek_fail_at = -1;       // nth seek fails with EIO
    long read_fail_at = -1;      // reading fails after this many bytes
    size_t max_read = 0;         // short reads
    long write_fail_at = -1;     // disk full after this many bytes
    bool close_fail = false;
    // what happened
    bool fired = false;
    int opened = 0, closed = 0, seeks = 0;
    long nread = 0, nwritten = 0;
};
static Plan plan;
struct Cookie { int fd; };
static ssize_t ck_read(void *c, char *b, size_t n) {
    if (plan.read_fail_at >= 0 && plan.nread + (long)n > plan.read_fail_at) {
        size_t left = plan.read_fail_at - plan.nread;
        if (!left) { plan.fired = true; errno = EIO; return -1; }
        n = left;
    }
    if (plan.max_read && n > plan.max_read) n = plan.max_read;
    ssize_t r = read(((Cookie *)c)->fd, b, n);
    if (r > 0) plan.nread += r;
    return r;
}
static ssize_t ck_write(void *c, const char *b, size_t n) {
    if (plan.write_fail_at >= 0 && plan.nwritten + (long)n > plan.write_fail_at) {
        // (stdio takes a short count for an error)
        size_t left = plan.write_fail_at - plan.nwritten;
        plan.fired = true;
        errno = ENOSPC;
        if (!left) return 0;
        n = left;
    }
    ssize_t r = write(((Cookie *)c)->fd, b, n);
    if (r > 0) plan.nwritten += r;
    return r < 0 ? 0 : r;
}
static int ck_seek(void *c, off64_t *off, int whence) {
    if (plan.no_seek) { plan.fired = true; errno = ESPIPE; return -1; }
    if (plan.seeks++ == plan.seek_fail_at) { plan.fired = true; errno = EIO; return -1; }
    off64_t r = lseek64(((Cookie *)c)->fd, *off, whence);
    if (r < 0) return -1;
    *off = r;
    return 0;
}
static int ck_close(void *c) {
    close(((Cookie *)c)->fd);
    delete (Cookie *)c;
    ++plan.closed;
    if (plan.close_fail) { plan.fired = true; errno = EIO; return -1; }
    return 0;
}
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" FILE *__wrap_fopen(const char *path, const char *mode) {
    if (plan.path.empty() || !path || plan.path != path) return __real_fopen(path, mode);
    if (plan.open_errno) { plan.fired = true; errno = plan.open_errno; return nullptr; }
    int fl = strchr(mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY;
    if (mode[0] == 'w') fl |= O_CREAT | O_TRUNC;
    if (mode[0] == 'a') fl |= O_CREAT | O_APPEND;
    int fd = open(path, fl | O_CLOEXEC, 0600);
    if (fd < 0) return nullptr;
    cookie_io_functions_t f = {ck_read, ck_write, ck_seek, ck_close};
    FILE *r = fopencookie(new Cookie{fd}, mode, f);
    ++plan.opened;
    return r;
}
static std::string scratch() {
    static std::string d;
    if (d.empty()) {
        const char *e = getenv("VERIF_SCRATCH");
        d = std::string(e && *e ? e : "/tmp") + "/vkeys-" + std::to_string(getpid());
    }
    return d;
}
struct TempFile {
    std::string path;
    explicit TempFile(const Bytes *content) : path(scratch()) {
        unlink(path.c_str());
        if (content) {
            int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            if (fd < 0 || write(fd, content->data(), content->size()) != (ssize_t)content->size()) abort();
            close(fd);
        }
    }
    ~TempFile() { unlink(path.c_str()); plan = Plan(); }
    bool read_all(Bytes &b) const {
        b.clear();
        int fd = open(path.c_str(), O_RDONLY);
        if (fd < 0) return false;
        uint8_t t[65536];
        ssize_t n;
        while ((n = read(fd, t, sizeof t)) > 0) b.insert(b.end(), t, t + n);
        close(fd);
        return true;
    }
};
static const MD *FILEMD[] = {&md_Certificate, &md_CertificateChain, &md_PrivateKey};
static int save_file(int kind, const void *o, const char *path, const Bytes &pass, const char *name) {
    switch (kind) {
    case 0: return noise_save_certificate_to_file((const Noise_Certificate *)o, path);
    case 1: return noise_save_certificate_chain_to_file((const Noise_CertificateChain *)o, path);
    default: { Buf pw(pass); return noise_save_private_key_to_file((const Noise_PrivateKey *)o, path, pw.p, pw.n, name); }
    }
}
static int load_file(int kind, void **o, const char *path, const Bytes &pass) {
    switch (kind) {
    case 0: return noise_load_certificate_from_file((Noise_Certificate **)o, path);
    case 1: return noise_load_certificate_chain_from_file((Noise_CertificateChain **)o, path);
    default: { Buf pw(pass); return noise_load_private_key_from_file((Noise_PrivateKey **)o, path, pw.p, pw.n); }
    }
}
static PObj gen_file_obj(Gen &g, int kind) {
    if (kind == 2) return gen_private(g);
    PObj o = mk(FILEMD[kind]);
    if (kind == 0) { o = gen_obj(g, &md_Certificate, false); if (encode(*o).empty()) o->v[0].u = 1; }
    else for (size_t n = 1 + g.u(4); n; --n) o->v[0].r.push_back(gen_obj(g, &md_Certificate, false));
    return o;
}
// pads a certificate, chain or key with metadata to exactly `size` bytes
static PObj sized_obj(Gen &g, int kind, size_t size) {
    PObj o = mk(FILEMD[kind]);
    Val *pad;
    if (kind == 2) { o->v[0].set = true; pad = &o->v[0]; }
    else {
        PObj c = o;
        if (kind == 1) { c = mk(&md_Certificate); o->v[0].r.push_back(c); }
        c->v[0].u = 1;
        c->v[1].m = mk(&md_SubjectInfo);
        c->v[1].m->v[1].set = true;
        pad = &c->v[1].m->v[1];
    }
    for (int t = 0; t < 5; ++t) {
        size_t have = encode(*o).size(), cur = pad->b.size();
        if (have == size) break;
        pad->b = Bytes(cur + size - have, 'a' + (uint8_t)g.u(25));
    }
    return o;
}
// the content of a saved file is the object
static void check_saved(Gen &g, int kind, const Obj &m, const Bytes &content, const Bytes &pass) {
    if (kind < 2) { CHECK(content == encode(m), "the saved file (%zu bytes) is not the object's encoding (%zu bytes)", content.size(), encode(m).size()); return; }
    bool un = false;
    PObj e = decode(&md_EncryptedPrivateKey, content, &un);
    int c, h;
    CHECK(e && !un && parse_name(e->v[1].b, c, h), "the saved file (%zu bytes) is not an encrypted private key", content.size());
    Bytes key, pt; uint64_t n;
    derive(h, pass, e->v[2].b, e->v[3].u, key, n);
    CHECK(o_decrypt((OCipher)c, key, n, Bytes(), e->v[4].b, pt) && pt == encode(m), "the saved file does not contain the key");
}
static std::string gen_write_fault(Gen &g, size_t size) {
    switch (g.u(4)) {
    case 0: plan.open_errno = g.flip() ? EACCES : ENOSPC; return "opening fails";
    case 1: plan.write_fail_at = 0; return "disk full at once";
    case 2: plan.write_fail_at = (long)g.u(size ? size - 1 : 0); return strf("disk full after %ld bytes", plan.write_fail_at);
    case 3: plan.close_fail = true; return "closing fails";
    default: plan.write_fail_at = (long)g.u(size + 50); plan.close_fail = g.flip(); return strf("disk full after %ld bytes", plan.write_fail_at);
    }
}
TARGET(C20, save, 2, "an object saved to a file while opening, writing or closing may fail: success only if the file holds exactly the object, otherwise the system error; non-trivial when a fault fired or the file was saved; distinct by object and fault") {
    int kind = g.chance(1, 20) ? 2 : (int)g.en(2);
    PObj m = gen_file_obj(g, kind);
    if (kind < 2 && g.chance(1, 6)) m = sized_obj(g, kind, 3000 + g.u(62000));
    Bytes old = g.bytes(g.size(400)), pass = gen_pass(g), now;
    bool existed = g.flip();
    TempFile t(existed ? &old : nullptr);
    LObj l(m->md);
    CHECK_EQ(m->md->make(&l.o), 0, "new");
    build(l.o, *m);
    size_t size = encode(*m).size() + (kind == 2 ? 80 : 0);
    std::string fault = "no fault";
    plan = Plan();
    plan.path = t.path;
    if (g.chance(4, 5)) fault = gen_write_fault(g, size);
    std::string name = protect_name((int)g.u(1), (int)g.u(3));
    g.note("%s, about %zu bytes, %s", m->md->name, size, fault.c_str());
    g.key(fault + std::to_string(size) + hex(encode(*m), 64));
    g.nontrivial();
    int err = save_file(kind, l.o, t.path.c_str(), pass, name.c_str());
    CHECK_EQ(plan.opened, plan.closed, "streams left open");
    g.label(plan.fired ? "fault fired" : "no fault");
    if (err) {
        CHECK(plan.fired, "saving failed with 0x%x although nothing went wrong", err);
        CHECK_EQ(err, NOISE_ERROR_SYSTEM, "error of a failed save");
        return;
    }
    CHECK(t.read_all(now), "saved, but there is no file");
    check_saved(g, kind, *m, now, pass);
    CHECK(!plan.fired || plan.close_fail == false, "closing the file failed and the save was reported as successful");
}
TARGET(C20, load, 2, "a file loaded while opening, seeking or reading may fail, deliver little at a time or be a pipe: success only with the complete contents, otherwise an error and no object; distinct by contents and fault") {
    int kind = g.chance(1, 8) ? 2 : (int)g.en(2);
    PObj m = gen_file_obj(g, kind);
    if (kind < 2 && g.chance(1, 6)) m = sized_obj(g, kind, 3000 + g.u(62535));
    if (kind == 1 && g.chance(1, 3)) while (encode(*m).size() < 6000) m->v[0].r.push_back(gen_obj(g, &md_Certificate, false));
    Bytes pass = gen_pass(g), d = encode(*m);
    if (kind == 2) d = enc_file(g, *m, (int)g.u(1), (int)g.u(3), pass, g.rnd(16), 1 + (unsigned)g.u(5));
    if (d.size() > 65535 || d.empty()) return;
    TempFile t(&d);
    plan = Plan();
    plan.path = t.path;
    std::string fault;
    switch (g.u(7)) {
    case 0: plan.open_errno = g.flip() ? EACCES : ENOENT; fault = "opening fails"; break;
    case 1: plan.no_seek = true; plan.max_read = g.flip() ? 1 + g.u(100) : 0; fault = "pipe"; break;
    case 2: plan.seek_fail_at = (int)g.u(2); fault = strf("seek %d fails", plan.seek_fail_at); break;
    case 3: plan.read_fail_at = 0; fault = "reading fails at once"; break;
    case 4: plan.read_fail_at = (long)g.u(d.size() - 1); fault = strf("reading fails after %ld bytes", plan.read_fail_at); break;
    case 5: {       // exactly at the end of an element
        size_t p = 0;
        std::vector<size_t> ends;
        if (kind == 1) for (auto &c : m->v[0].r) { PObj one = mk(&md_CertificateChain); one->v[0].r.push_back(c); p += encode(*one).size(); ends.push_back(p); }
        plan.read_fail_at = ends.size() > 1 ? (long)ends[g.u(ends.size() - 2)] : (long)g.u(d.size() - 1);
        plan.max_read = g.flip() ? 1 + g.u(300) : 0;
        fault = strf("reading fails after %ld bytes", plan.read_fail_at);
        break;
    }
    case 6: plan.max_read = 1 + g.u(200); fault = strf("reads of at most %zu bytes", plan.max_read); break;
    default: fault = "no fault";
    }
    g.note("%s, %zu bytes, %s", m->md->name, d.size(), fault.c_str());
    g.key(fault + hex(d, 400));
    g.nontrivial();
    LObj l(m->md);
    l.o = (void *)1;
    int err = load_file(kind, &l.o, t.path.c_str(), pass);
    if (err) { void *x = l.o; l.o = nullptr; CHECK(!x, "an object was returned with error 0x%x", err); }
    CHECK_EQ(plan.opened, plan.closed, "streams left open");
    g.label(plan.fired ? err ? "fault fired, refused" : "fault fired, loaded all the same" : "no fault");
    if (err) {
        CHECK(plan.fired, "loading failed with 0x%x although nothing went wrong", err);
        if (plan.open_errno || plan.read_fail_at >= 0) CHECK_EQ(err, NOISE_ERROR_SYSTEM, "error of a failed load");
        return;
    }
    compare(l.md, l.o, *m, "loaded");
}
TARGET(C20, sizes, 0.6, "files and objects of exactly, just below and just above 65535 bytes, empty files, longer files and pipes; an object that is too large leaves an existing file alone; distinct by size and operation") {
    int kind = (int)g.en(3), op = (int)g.en(3);
    long delta = (long)g.u(8) - 4;
    size_t size = 65535 + delta;
    if (g.chance(1, 4)) size = g.flip() ? 70000 + g.u(100000) : 65536 + g.u(4000);
    Bytes pass = gen_pass(g), now;
    if (op == 0) {           // save
        Bytes old = g.rnd(40);
        TempFile t(&old);
        std::string name = protect_name((int)g.u(1), (int)g.u(3));
        size_t over = 0;
        if (kind == 2) {     // the plaintext size for the wanted total
            size_t want = size;
            over = 2 + 1 + 1 + name.size() + 1 + 1 + 16 + 1 + 3 + 1 + 3 + 16;
            size = want > 70000 ? want : want - over;
        }
        PObj m = sized_obj(g, kind, size);
        size = encode(*m).size();
        LObj l(m->md);
        CHECK_EQ(m->md->make(&l.o), 0, "new");
        build(l.o, *m);
        size_t total = size + over;
        if (kind == 2) { Bytes v; put_varint(v, size + 16); total = size + over - 3 + v.size(); }
        g.note("saving %s whose file would have %zu bytes", m->md->name, total);
        g.key(strf("s%d %zu", kind, total));
        g.nontrivial();
        int err = save_file(kind, l.o, t.path.c_str(), pass, name.c_str());
        CHECK(t.read_all(now), "no file");
        if (total > 65535) {
            CHECK_EQ(err, NOISE_ERROR_INVALID_LENGTH, "saving an object that is too large");
            CHECK(now == old, "a save that was refused changed the existing file");
        } else {
            CHECK_EQ(err, 0, "saving");
            check_saved(g, kind, *m, now, pass);
        }
        return;
    }
    // load: a valid chain of many certificates, cut from a longer one for pipes
    bool pipe = op == 2;
    PObj m = sized_obj(g, kind == 0 ? 0 : 1, size);
    if (kind == 2 && size > 65535) {       // readable even when cut at 65535
        m = sized_obj(g, 1, 65535);
        PObj extra = sized_obj(g, 0, size - 65535 > 40 ? size - 65535 : 40);
        m->v[0].r.push_back(extra);
    }
    Bytes d = encode(*m);
    if (g.chance(1, 12)) d.clear();
    TempFile t(&d);
    plan = Plan();
    plan.path = t.path;
    plan.no_seek = pipe;
    g.note("loading %s of %zu bytes%s", m->md->name, d.size(), pipe ? " from a pipe" : "");
    g.key(strf("l%d %zu %d", kind, d.size(), pipe));
    g.nontrivial();
    LObj l(m->md);
    l.o = (void *)1;
    int err = load_file(kind == 0 ? 0 : 1, &l.o, t.path.c_str(), pass);
    if (err) { void *x = l.o; l.o = nullptr; CHECK(!x, "an object was returned with error 0x%x", err); }
    CHECK_EQ(plan.opened, plan.closed, "streams left open");
    if (d.empty() && pipe) { g.label("not judged"); return; }
    if (d.empty() || d.size() > 65535) CHECK_EQ(err, NOISE_ERROR_INVALID_FORMAT, "loading an empty or overlong file");
    else { CHECK_EQ(err, 0, "loading"); compare(l.md, l.o, *m, "loaded"); }
}
TARGET(C20, paths, 0.3, "missing files, directories, full devices, null names and arguments; contents that are damaged; no object is ever returned with an error; distinct by case") {
    int kind = (int)g.en(3), what = (int)g.en(9);
    PObj m = gen_file_obj(g, kind);
    Bytes pass = gen_pass(g), d = encode(*m), now;
    if (kind == 2) d = enc_file(g, *m, 0, 0, pass, g.rnd(16), 2);
    LObj src(m->md);
    CHECK_EQ(m->md->make(&src.o), 0, "new");
    build(src.o, *m);
    g.note("%s, case %d", m->md->name, what);
    g.key(strf("%d %d", kind, what));
    g.nontrivial();
    LObj l(m->md);
    l.o = (void *)1;
    auto refused = [&](int err, int want, const char *w) {
        void *x = l.o; l.o = nullptr;
        if (!err) { l.o = x; FAILF("%s: reported as a success", w); }
        CHECK(!x, "%s: an object was returned with error 0x%x", w, err);
        if (want) CHECK(err == want, "%s: 0x%x, expected 0x%x", w, err, want);
    };
    TempFile t(&d);
    switch (what) {
    case 0: refused(load_file(kind, &l.o, (t.path + ".missing").c_str(), pass), NOISE_ERROR_SYSTEM, "missing file"); break;
    case 1: refused(load_file(kind, &l.o, "/", pass), 0, "loading a directory"); break;
    case 2: l.o = nullptr; CHECK_EQ(save_file(kind, src.o, (t.path + ".no/file").c_str(), pass, "AESGCM_SHA256_PBKDF2"), NOISE_ERROR_SYSTEM, "saving into a missing directory"); break;
    case 3:
        l.o = nullptr;
        if (access("/dev/full", W_OK) == 0 && (kind != 2 || g.chance(1, 4)))
            CHECK_EQ(save_file(kind, src.o, "/dev/full", pass, "AESGCM_SHA256_PBKDF2"), NOISE_ERROR_SYSTEM, "saving to a full device");
        break;
    case 4: refused(load_file(kind, &l.o, nullptr, pass), NOISE_ERROR_INVALID_PARAM, "null file name"); break;
    case 5:
        l.o = nullptr;
        CHECK_EQ(load_file(kind, nullptr, t.path.c_str(), pass), NOISE_ERROR_INVALID_PARAM, "nowhere to return the object");
        CHECK_EQ(load_file(kind, nullptr, (t.path + ".missing").c_str(), pass), NOISE_ERROR_INVALID_PARAM, "nowhere to return the object");
        break;
    case 6:
        l.o = nullptr;
        CHECK_EQ(save_file(kind, src.o, nullptr, pass, "AESGCM_SHA256_PBKDF2"), NOISE_ERROR_INVALID_PARAM, "null file name");
        CHECK_EQ(save_file(kind, nullptr, t.path.c_str(), pass, "AESGCM_SHA256_PBKDF2"), NOISE_ERROR_INVALID_PARAM, "null object");
        CHECK(t.read_all(now) && now == d, "a refused save changed the file");
        break;
    case 7:
        if (kind == 2) {
            refused(noise_load_private_key_from_file((Noise_PrivateKey **)&l.o, t.path.c_str(), nullptr, 0), NOISE_ERROR_INVALID_PARAM, "null passphrase");
            CHECK_EQ(noise_save_private_key_to_file((Noise_PrivateKey *)src.o, t.path.c_str(), nullptr, 0, "AESGCM_SHA256_PBKDF2"), NOISE_ERROR_INVALID_PARAM, "null passphrase");
            CHECK_EQ(noise_save_private_key_to_file((Noise_PrivateKey *)src.o, t.path.c_str(), "x", 1, nullptr), NOISE_ERROR_INVALID_PARAM, "null algorithm");
            CHECK_EQ(noise_save_private_key_to_file((Noise_PrivateKey *)src.o, t.path.c_str(), "x", 1, "AESGCM_SHA256_PBKDF3"), NOISE_ERROR_UNKNOWN_NAME, "unknown algorithm");
            CHECK(t.read_all(now) && now == d, "a refused save changed the file");
        } else l.o = nullptr;
        break;
    default: {
        Bytes bad = damage(g, d);
        int want = -1; std::string why; PObj r;
        if (kind == 2) r = expect_load(bad, pass, &want, why);
        else {
            bool un = false;
            r = decode(m->md, bad, &un);
            Dec f(bad, 0, bad.size(), &un);
            uint64_t key = f.varint();
            if (!un && (f.bad || (key >> 3 == 8) == (kind == 1))) want = r ? 0 : NOISE_ERROR_INVALID_FORMAT;
            if (r && encode(*r).size() != bad.size()) want = -1;
            if (bad.empty() ) want = NOISE_ERROR_INVALID_FORMAT;
        }
        l.o = nullptr;
        if (want < 0) { g.label("not judged"); break; }
        TempFile tb(&bad);
        l.o = (void *)1;
        int err = load_file(kind, &l.o, tb.path.c_str(), pass);
        if (want) refused(err, want, "damaged file");
        else { if (err) l.o = nullptr; CHECK_EQ(err, 0, "altered but valid file"); compare(l.md, l.o, *r, "loaded"); }
    }
    }
}

// ------------------------------------------------------------------ C23
TARGET(C23, objects, 2, "objects of every message type, certificates, chains and encrypted keys written into buffers of exactly enough, more, or too little room, with guard bytes or exactly sized blocks around; distinct by object and capacity") {
    int what = g.chance(1, 40) ? 2 : (int)g.en(2);
    const MD *md = what == 2 ? &md_PrivateKey : what == 1 ? (g.flip() ? &md_Certificate : &md_CertificateChain) : ALLMD[g.u(9)];
    PObj m = gen_obj(g, md, false);
    LObj l(md);
    CHECK_EQ(md->make(&l.o), 0, "new");
    build(l.o, *m);
    Bytes want = encode(*m), pass = g.rnd(12);
    int tag = what == 0 && g.flip() ? 1 + (int)g.u(3000) : 0;
    size_t need = want.size();
    std::string name = protect_name((int)g.u(1), (int)g.u(3));
    if (tag) { Bytes b; put_varint(b, (uint64_t)tag << 3 | 2); put_varint(b, want.size()); want = b + want; need = want.size(); }
    if (what == 2) {
        Bytes pl;
        put_varint(pl, want.size() + 16);
        need = 2 + 1 + 1 + name.size() + 1 + 1 + 16 + 1 + 3 + 1 + pl.size() + want.size() + 16;
    }
    size_t cap = pick_cap(g, need);
    g.note("%s of %zu bytes into %zu%s", md->name, need, cap, what == 2 ? ", encrypted" : tag ? ", tagged" : "");
    g.key(strf("%d %s %zu %zu", what, md->name, need, cap));
    g.nontrivial(cap != need);
    Out out(g, cap);
    NoiseProtobuf p;
    noise_protobuf_prepare_output(&p, out.p, cap);
    int err;
    if (what == 0) err = md->write(&p, tag, l.o);
    else if (what == 2) err = noise_save_private_key_to_buffer((const Noise_PrivateKey *)l.o, &p, pass.data(), pass.size(), name.c_str());
    else err = md == &md_Certificate ? noise_save_certificate_to_buffer((const Noise_Certificate *)l.o, &p) : noise_save_certificate_chain_to_buffer((const Noise_CertificateChain *)l.o, &p);
    out.check(cap, "writing an object");
    if (cap < need) { CHECK_EQ(err, NOISE_ERROR_INVALID_LENGTH, "writing an object with too little room"); g.label("too-small"); return; }
    CHECK_EQ(err, 0, "writing an object with enough room");
    uint8_t *d = nullptr; size_t n = 0;
    CHECK_EQ(noise_protobuf_finish_output(&p, &d, &n), 0, "finish_output");
    CHECK_EQ(n, need, "bytes written");
    CHECK(d >= out.p && d + n <= out.p + cap, "the data reported is outside the buffer");
    if (what < 2) CHECK(!n || !memcmp(d, want.data(), n), "bytes differ");
}

// ------------------------------------------------------------------ C24
static void secret_keys(const Obj &k) {
    for (auto &i : k.v[3].r) secret_add(i->v[1].b, "private key");
}
static void no_leak(const char *when) { CHECK(secret_leak.empty(), "%s: %s", when, secret_leak.c_str()); }
static PObj gen_secret_key(Gen &g) {
    PObj k = gen_obj(g, &md_PrivateKey, false);
    k->v[3].r.clear();
    for (size_t n = 1 + g.u(g.chance(1, 8) ? 20 : 2); n; --n) {
        PObj i = mk(&md_PrivateKeyInfo);
        i->v[0].set = i->v[1].set = true;
        i->v[0].b = str("25519");
        i->v[1].b = g.rnd(g.pick(std::vector<size_t>{32, 32, 56, 16, 300}));
        k->v[3].r.push_back(i);
    }
    return k;
}
static void guard_end(Gen &, bool) { alloc_end(); }
static struct InitK { InitK() { case_teardown = guard_end; } } initk_;
TARGET(C24, keyobjects, 2, "private key objects built, keys set, replaced, cleared, inserted and freed in random order, written and read back, with an allocation failing now and then: no freed block may hold any of the keys; distinct by operations") {
    secrets_clear();
    alloc_begin();
    std::string ops;
    {
        LObj l(&md_PrivateKey);
        CHECK_EQ(md_PrivateKey.make(&l.o), 0, "new");
        int n = 1 + (int)g.u(14);
        auto newkey = [&]() { Bytes b = g.rnd(g.pick(std::vector<size_t>{32, 32, 56, 12, 300})); secret_add(b, "private key"); return b; };
        auto infos = [&]() { return Noise_PrivateKey_count_keys((Noise_PrivateKey *)l.o); };
        for (int i = 0; i < n; ++i) {
            if (g.chance(1, 10)) alloc_fail_at(g.u(3));
            switch (g.u(7)) {
            case 0: case 1: {
                Noise_PrivateKeyInfo *k = nullptr;
                if (Noise_PrivateKey_add_keys((Noise_PrivateKey *)l.o, &k) == 0) { Bytes b = newkey(); Noise_PrivateKeyInfo_set_key(k, b.data(), b.size()); }
                ops += "a";
                break;
            }
            case 2: if (infos()) { Bytes b = newkey(); Noise_PrivateKeyInfo_set_key(Noise_PrivateKey_get_at_keys((Noise_PrivateKey *)l.o, g.u(infos() - 1)), b.data(), b.size()); ops += "s"; } break;
            case 3: if (infos()) { Noise_PrivateKeyInfo_clear_key(Noise_PrivateKey_get_at_keys((Noise_PrivateKey *)l.o, g.u(infos() - 1))); ops += "c"; } break;
            case 4: if (g.chance(1, 3)) { Noise_PrivateKey_clear_keys((Noise_PrivateKey *)l.o); ops += "C"; } break;
            case 5: {
                Noise_PrivateKeyInfo *k = nullptr;
                if (Noise_PrivateKeyInfo_new(&k) == 0) {
                    Bytes b = newkey();
                    Noise_PrivateKeyInfo_set_key(k, b.data(), b.size());
                    if (Noise_PrivateKey_insert_keys((Noise_PrivateKey *)l.o, g.u(infos() + 1), k) != 0) Noise_PrivateKeyInfo_free(k);
                }
                ops += "i";
                break;
            }
            case 6: {       // replaced by its copy
                size_t sz = 0;
                NoiseProtobuf p;
                noise_protobuf_prepare_measure(&p, 0x7fffffff);
                if (md_PrivateKey.write(&p, 0, l.o) || noise_protobuf_finish_measure(&p, &sz)) break;
                Buf b(sz);
                noise_protobuf_prepare_output(&p, b.p, b.n);
                if (md_PrivateKey.write(&p, 0, l.o)) break;
                noise_protobuf_prepare_input(&p, b.p, g.chance(1, 4) && sz ? g.u(sz - 1) : sz);
                void *o = nullptr;
                if (md_PrivateKey.read(&p, 0, &o) == 0) { md_PrivateKey.destroy(l.o); l.o = o; }
                ops += "r";
                break;
            }
            default: {
                Bytes t = gen_text(g, 10);
                Noise_PrivateKey_set_name((Noise_PrivateKey *)l.o, (const char *)t.data(), t.size());
                ops += "n";
            }
            }
            alloc_fail_at(~0ull);
        }
    }
    size_t live = alloc_live();
    alloc_end();
    no_leak("after freeing the private key");
    CHECK(live == 0, "blocks left after freeing the private key");
    g.note("%s", ops.c_str());
    g.key(ops);
    g.nontrivial(ops.size() > 1);
}
TARGET(C24, keyfiles, 3, "encrypted private keys loaded from buffers and files (right or wrong passphrase, altered, malformed inside, cut short, read errors, memory running out) and saved (to buffers and, rarely, files with faults): no freed block may hold the keys, the passphrase, the derived key or the decrypted file; distinct by case") {
    int c = (int)g.en(2), h = (int)g.en(4);
    bool save = g.chance(1, secrets_keeping() ? 6 : 20), file = g.flip();
    PObj k = gen_secret_key(g);
    Bytes pass = g.rnd(16 + g.u(30));
    secrets_clear();
    secret_keys(*k);
    secret_add(pass, "passphrase");
    std::string how;
    if (save) {
        LObj l(&md_PrivateKey);
        alloc_begin();
        CHECK_EQ(md_PrivateKey.make(&l.o), 0, "new");
        build(l.o, *k);
        PObj saved;
        std::string name = protect_name(c, h);
        size_t sz = encode(*k).size() + 200;
        bool oom = g.chance(1, 3);
        if (oom) alloc_fail_at(g.u(6));
        int err;
        if (file) {
            TempFile t(nullptr);
            plan = Plan();
            plan.path = t.path;
            how = g.chance(1, 3) ? gen_write_fault(g, sz) : std::string("to a file");
            err = noise_save_private_key_to_file((Noise_PrivateKey *)l.o, t.path.c_str(), pass.data(), pass.size(), name.c_str());
            Bytes now;
            if (!err && t.read_all(now)) {
                bool un = false;
                saved = decode(&md_EncryptedPrivateKey, now, &un);
            }
        } else {
            Buf out(g.flip() ? sz : g.u(sz));
            NoiseProtobuf p;
            noise_protobuf_prepare_output(&p, out.p, out.n);
            err = noise_save_private_key_to_buffer((Noise_PrivateKey *)l.o, &p, pass.data(), pass.size(), name.c_str());
            how = strf("to a buffer of %zu", out.n);
            uint8_t *at; size_t len;
            bool un = false;
            if (!err && noise_protobuf_finish_output(&p, &at, &len) == 0) saved = decode(&md_EncryptedPrivateKey, Bytes(at, at + len), &un);
        }
        if (saved && saved->v[3].u <= 100000) {
            Bytes key; uint64_t nn;
            derive(h, pass, saved->v[2].b, (unsigned)saved->v[3].u, key, nn);
            secret_keep(key, "key derived from the passphrase");
        }
        alloc_fail_at(~0ull);
        md_PrivateKey.destroy(l.take());
        alloc_end();
        no_leak("after saving and freeing a private key");
        g.note("save %s, %s%s: 0x%x", name.c_str(), how.c_str(), oom ? ", memory short" : "", err);
        g.label(err ? "save failed" : "saved");
    } else {
        Bytes salt = g.rnd(g.flip() ? 16 : g.u(100)), key;
        unsigned iter = 1 + (unsigned)g.u(4);
        uint64_t nn;
        Bytes plain = encode(*k);
        int kind = (int)g.u(5);
        if (kind == 1) plain = damage(g, plain);
        Bytes f = enc_file(g, *k, c, h, pass, salt, iter, &plain), use = pass;
        if (kind == 2) use = other_pass(g, pass);
        if (kind == 3) f = damage(g, f);
        derive(h, use, salt, iter, key, nn);
        secret_add(key, "key derived from the passphrase");
        bool oom = g.chance(1, 3);
        static const char *kinds[] = {"honest", "malformed inside", "other passphrase", "altered", "honest", "honest"};
        bool un = false;
        PObj dec = decode(&md_EncryptedPrivateKey, f, &un);
        if (f.empty() || f.size() > 60000 || (kind == 3 && dec && dec->v[3].u > ITER_LIMIT)) return;
        void *o = nullptr;
        int err;
        if (file) {
            TempFile t(&f);
            plan = Plan();
            plan.path = t.path;
            if (g.chance(1, 4)) plan.read_fail_at = (long)g.u(f.size() - 1);
            if (g.chance(1, 4)) plan.no_seek = true;
            alloc_begin();
            if (oom) alloc_fail_at(g.u(14));
            err = noise_load_private_key_from_file((Noise_PrivateKey **)&o, t.path.c_str(), use.data(), use.size());
        } else {
            Buf in(f);
            NoiseProtobuf p;
            noise_protobuf_prepare_input(&p, in.p, in.n);
            alloc_begin();
            if (oom) alloc_fail_at(g.u(14));
            err = noise_load_private_key_from_buffer((Noise_PrivateKey **)&o, &p, use.data(), use.size());
        }
        alloc_fail_at(~0ull);
        if (!err) md_PrivateKey.destroy(o);
        alloc_end();
        CHECK(secret_frees > 0 || err, "nothing was freed");
        no_leak("after loading and freeing a private key");
        g.note("load from %s, %s%s: 0x%x", file ? "a file" : "a buffer", kinds[kind], oom ? ", memory short" : "", err);
        g.label(err ? "load failed" : "loaded");
    }
    g.key(hex(pass, 20));
    g.nontrivial();
}

// ------------------------------------------------------------------ C25
static void build_oom(Oom &o, void *obj, const Obj &m) {
    for (size_t i = 0; i < m.v.size(); ++i) {
        const FD &f = m.md->f[i];
        const Val &v = m.v[i];
        switch (f.t) {
        case U32: if (v.u) CHECK_EQ(f.setu(obj, v.u), 0, "set"); break;
        case STR: case BYT:
            if (v.set) o.call("set", [&]() {
                int e = f.setp(obj, v.b.data(), v.b.size());
                if (e) CHECK(!f.getp(obj) == !f.has(obj) && (f.has(obj) || f.getsz(obj) == 0), "after a failed set, has %d, pointer %p, size %zu", f.has(obj), f.getp(obj), f.getsz(obj));
                return e;
            });
            break;
        case MSG: if (v.m) {
            void *s = nullptr;
            o.call("get_new", [&]() { s = (void *)0x10; int e = f.newm(obj, &s); CHECK(e ? !s : s == f.getm(obj), "get_new: error 0x%x, object %p", e, s); return e; });
            build_oom(o, s, *v.m);
            break;
        }
        case REP: {
            size_t n = 0;
            for (auto &x : v.r) {
                void *s = nullptr;
                CHECK_EQ(f.count(obj), n, "elements");
                if (n % 2) {
                    o.call("add", [&]() { s = (void *)0x10; int e = f.add(obj, &s); CHECK(e ? !s : s == f.at(obj, n), "add: error 0x%x, object %p", e, s); CHECK_EQ(f.count(obj), n + !e, "elements after add"); return e; });
                    build_oom(o, s, *x);
                } else {
                    struct Tmp { const MD *md; void *p = nullptr; ~Tmp() { if (p) md->destroy(p); } } t{f.sub};
                    o.call("new", [&]() { t.p = (void *)0x10; int e = f.sub->make(&t.p); CHECK(e ? !t.p : t.p && t.p != (void *)0x10, "new: error 0x%x, object %p", e, t.p); return e; });
                    build_oom(o, t.p, *x);
                    o.call("insert", [&]() { int e = f.insert(obj, n, t.p); CHECK_EQ(f.count(obj), n + !e, "elements after insert"); return e; });
                    t.p = nullptr;
                }
                ++n;
            }
        }
        }
    }
}
TARGET(C25, trees, 2, "an object of each message type built by setters, get_new, add and insert, written and read back, with each allocation - once, or all from there on - failing; a failed read gives no object, a failed call can be repeated, the outcome is the same; distinct by object and allocation") {
    const MD *md = ALLMD[g.en(10)];
    PObj m = gen_obj(g, md, false);
    bool many = g.chance(1, 6);
    if (many) for (size_t i = 0; i < m->v.size(); ++i) if (md->f[i].t == REP) while (m->v[i].r.size() < 20) m->v[i].r.push_back(gen_obj(g, md->f[i].sub, false, 2));
    Bytes want = encode(*m);
    g.note("%s of %zu bytes", md->name, want.size());
    g.key(strf("%s %zu", md->name, want.size()));
    oom_runs(g, [&](Oom &o) {
        void *x = nullptr;
        o.call("new", [&]() { x = (void *)0x10; int e = md->make(&x); CHECK(e ? !x : x && x != (void *)0x10, "new: error 0x%x, object %p", e, x); return e; });
        o.frees.push_back([=]() { md->destroy(x); });
        build_oom(o, x, *m);
        compare(md, x, *m, md->name);
        Buf b(want.size());
        o.call("write", [&]() { NoiseProtobuf p; noise_protobuf_prepare_output(&p, b.p, b.n); return md->write(&p, 0, x); });
        CHECK(b.bytes() == want, "encoding differs");
        void *y = nullptr;
        o.call("read", [&]() {
            NoiseProtobuf p;
            noise_protobuf_prepare_input(&p, b.p, b.n);
            y = (void *)0x10;
            int e = md->read(&p, 0, &y);
            CHECK(e ? !y : y && y != (void *)0x10, "read: error 0x%x, object %p", e, y);
            return e;
        });
        o.frees.push_back([=]() { md->destroy(y); });
        compare(md, y, *m, md->name);
    }, many ? 30 : 16, false);
}
TARGET(C25, arrays, 0.7, "the helpers of generated code that add to and insert into arrays with each allocation - once, or all from there on - failing: the error is reported, the array is as before, nothing leaks, and repeating the call works; distinct by kind, size and allocation") {
    int kind = (int)g.u(2);
    static const std::vector<size_t> sizes = {sizeof(void *), 1, 40};
    size_t esize = g.pick(sizes);
    size_t n = 1 + g.size(40, {4, 5, 9, 17, 33});
    std::vector<Bytes> vals; std::vector<size_t> at; std::vector<bool> ins;
    for (size_t i = 0; i < n; ++i) {
        vals.push_back(g.bytes(kind ? g.size(30, {0, 1}) : esize));
        ins.push_back(!kind && g.chance(1, 2));
        at.push_back(g.u(i + 1));
    }
    g.note("kind %d, %zu elements", kind, n);
    g.key(strf("%d %zu %zu", kind, esize, n));
    oom_runs(g, [&](Oom &o) {
        Arrays *a = new Arrays(kind, esize);
        struct Del { Arrays *a; ~Del() { delete a; } } del{a};
        for (size_t i = 0; i < n; ++i) {
            o.call("add", [&]() {
                void *p = a->array; size_t m = a->max; (void)p;
                int e = a->op(at[i], vals[i], ins[i]);
                if (e) CHECK(a->array == p && a->max == m, "a failed call changed the array");
                a->check(true);
                return e;
            });
        }
    }, 24, false);
    g.nontrivial();
}
TARGET(C25, files, 2, "certificates, chains and encrypted keys loaded from and saved to buffers and files with each allocation - once, or all from there on - failing: the error is reported, no object is given, nothing leaks, streams are closed, and repeating the call works; distinct by object, operation and allocation") {
    int kind = (int)g.en(3);
    bool file = g.flip(), save = kind == 2 ? g.chance(1, 60) : g.chance(1, 3);
    PObj m = gen_file_obj(g, kind);
    if (kind == 1 && g.chance(1, 4)) while (m->v[0].r.size() < 18) m->v[0].r.push_back(gen_obj(g, &md_Certificate, false, 2));
    bool asother = kind < 2 && g.chance(1, 3);        // a chain read as a certificate, or the reverse
    Bytes pass = gen_pass(g), d = encode(*m);
    std::string name = protect_name((int)g.u(1), (int)g.u(3));
    if (kind == 2 && !save) d = enc_file(g, *m, (int)g.u(1), (int)g.u(3), pass, g.rnd(16), 1 + (unsigned)g.u(2));
    if (d.empty() || d.size() > 60000) return;
    bool nopipe = g.flip();
    g.note("%s %s %s, %zu bytes", save ? "save" : "load", m->md->name, file ? "file" : "buffer", d.size());
    g.key(strf("%d%d%d %zu", kind, file, save, d.size()));
    TempFile t(&d);
    plan = Plan();
    plan.path = t.path;
    plan.no_seek = !nopipe && !save;
    const MD *md = asother && !save ? FILEMD[1 - kind] : m->md;
    oom_runs(g, [&](Oom &o) {
        if (save) {
            void *x = nullptr;
            o.call("new", [&]() { return m->md->make(&x); });
            o.frees.push_back([=]() { m->md->destroy(x); });
            build_oom(o, x, *m);
            if (file) {
                o.call("save to file", [&]() { int e = save_file(kind, x, t.path.c_str(), pass, name.c_str()); CHECK_EQ(plan.opened, plan.closed, "streams left open"); return e; });
                Bytes now;
                CHECK(t.read_all(now), "no file");
                check_saved(g, kind, *m, now, pass);
            } else {
                Buf b(d.size() + 200), pw(pass);
                size_t n = 0; uint8_t *q = nullptr;
                o.call("save to buffer", [&]() {
                    NoiseProtobuf p;
                    noise_protobuf_prepare_output(&p, b.p, b.n);
                    int e = kind == 0 ? noise_save_certificate_to_buffer((Noise_Certificate *)x, &p) : kind == 1 ? noise_save_certificate_chain_to_buffer((Noise_CertificateChain *)x, &p)
                          : noise_save_private_key_to_buffer((Noise_PrivateKey *)x, &p, pw.p, pw.n, name.c_str());
                    if (!e) CHECK_EQ(noise_protobuf_finish_output(&p, &q, &n), 0, "finish");
                    return e;
                });
                check_saved(g, kind, *m, Bytes(q, q + n), pass);
            }
            return;
        }
        void *y = nullptr;
        Buf in(d), pw(pass);
        o.call("load", [&]() {
            y = (void *)0x10;
            int e;
            NoiseProtobuf p;
            noise_protobuf_prepare_input(&p, in.p, in.n);
            int k = md == &md_Certificate ? 0 : md == &md_CertificateChain ? 1 : 2;
            if (file) { e = load_file(k, &y, t.path.c_str(), pass); CHECK_EQ(plan.opened, plan.closed, "streams left open"); }
            else e = k == 0 ? noise_load_certificate_from_buffer((Noise_Certificate **)&y, &p) : k == 1 ? noise_load_certificate_chain_from_buffer((Noise_CertificateChain **)&y, &p)
                   : noise_load_private_key_from_buffer((Noise_PrivateKey **)&y, &p, pw.p, pw.n);
            CHECK(e ? !y : y && y != (void *)0x10, "load: error 0x%x, object %p", e, y);
            return e;
        });
        o.frees.push_back([=]() { md->destroy(y); });
        if (md == m->md) compare(md, y, *m, "loaded");
        else if (md == &md_Certificate) compare(md, y, *m->v[0].r[0], "loaded");
        else { PObj c = mk(&md_CertificateChain); c->v[0].r.push_back(m); compare(md, y, *c, "loaded"); }
    }, save && kind == 2 ? 2 : 16, false);
}
