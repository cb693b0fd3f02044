// Code made by noise-protoc for random schemas (C29), against a model and an
// independent codec.
#include "robust.h"
#include "oracle.h"
#include "pbutil.h"
#include "schema.h"
extern "C" {
#include <noise/protobufs.h>
}
#include <stdlib.h>
#include <math.h>
#include <memory>

static const SSchema *S;
static int wire_of(int k) {
    switch (k) {
    case Z_SF32: case Z_F32: case Z_FLT: return 5;
    case Z_SF64: case Z_F64: case Z_DBL: return 1;
    case Z_STR: case Z_BYTES: case Z_MSG: return 2;
    default: return 0;
    }
}
static bool numeric(int k) { return k != Z_STR && k != Z_BYTES && k != Z_MSG; }

// ------------------------------------------------ typed calls
template <class R, class... A> static R fn(SFn f, A... a) { return ((R(*)(A...))f)(a...); }
static void *cv(const void *p) { return const_cast<void *>(p); }
static uint64_t norm(int k, uint64_t v) {
    switch (k) {
    case Z_I32: case Z_S32: case Z_SF32: case Z_ENUM: return (uint64_t)(int64_t)(int32_t)v;
    case Z_U32: case Z_F32: case Z_FLT: return (uint32_t)v;
    case Z_BOOL: return v & 1;
    default: return v;
    }
}
static int num_put(SFn f, int k, void *o, uint64_t v) {       // set_ or add_
    switch (k) {
    case Z_I32: case Z_S32: case Z_SF32: case Z_ENUM: return fn<int, void *, int32_t>(f, o, (int32_t)v);
    case Z_U32: case Z_F32: return fn<int, void *, uint32_t>(f, o, (uint32_t)v);
    case Z_I64: case Z_S64: case Z_SF64: return fn<int, void *, int64_t>(f, o, (int64_t)v);
    case Z_U64: case Z_F64: return fn<int, void *, uint64_t>(f, o, v);
    case Z_BOOL: return fn<int, void *, int>(f, o, (int)v);
    case Z_FLT: { float x; uint32_t w = (uint32_t)v; memcpy(&x, &w, 4); return fn<int, void *, float>(f, o, x); }
    default: { double x; memcpy(&x, &v, 8); return fn<int, void *, double>(f, o, x); }
    }
}
template <class... I> static uint64_t num_get(SFn f, int k, const void *o, I... i) {   // get_ or get_at_
    switch (k) {
    case Z_I32: case Z_S32: case Z_SF32: case Z_ENUM: return (uint64_t)(int64_t)fn<int32_t, const void *, I...>(f, o, i...);
    case Z_U32: case Z_F32: return fn<uint32_t, const void *, I...>(f, o, i...);
    case Z_I64: case Z_S64: case Z_SF64: return (uint64_t)fn<int64_t, const void *, I...>(f, o, i...);
    case Z_U64: case Z_F64: return fn<uint64_t, const void *, I...>(f, o, i...);
    case Z_BOOL: return (uint64_t)(int64_t)fn<int, const void *, I...>(f, o, i...);
    case Z_FLT: { float x = fn<float, const void *, I...>(f, o, i...); uint32_t w; memcpy(&w, &x, 4); return w; }
    default: { double x = fn<double, const void *, I...>(f, o, i...); uint64_t w; memcpy(&w, &x, 8); return w; }
    }
}

// ------------------------------------------------ model
struct O; typedef std::shared_ptr<O> PO;
struct V { bool set = false; uint64_t u = 0; Bytes b; PO m; std::vector<uint64_t> ru; std::vector<Bytes> rb; std::vector<PO> rm; };
struct O { const SMsg *md; std::vector<V> v; explicit O(const SMsg *m) : md(m), v(m->n) {} };
static PO mk(const SMsg *m) { return std::make_shared<O>(m); }
static bool eq(const O &a, const O &b) {
    for (int i = 0; i < a.md->n; ++i) {
        const V &x = a.v[i], &y = b.v[i];
        if (x.set != y.set || x.u != y.u || x.b != y.b || !x.m != !y.m || x.ru != y.ru || x.rb != y.rb || x.rm.size() != y.rm.size()) return false;
        if (x.m && !eq(*x.m, *y.m)) return false;
        for (size_t k = 0; k < x.rm.size(); ++k) if (!eq(*x.rm[k], *y.rm[k])) return false;
    }
    return true;
}
static std::string fname(const O &o, int i) { return std::string(S->name) + ": " + o.md->name + "." + o.md->f[i].name; }

static uint64_t gen_num(Gen &g, int k) {
    uint64_t v;
    switch (g.u(3)) {
    case 0: v = g.u(200); break;
    case 1: v = ~g.u(200); break;
    case 2: { static const uint64_t e[] = {0, 0x7f, 0x80, 0x3fff, 0x4000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull}; v = e[g.u(11)]; break; }
    default: v = g.u64();
    }
    v = norm(k, v);
    if (k == Z_FLT) { float x; uint32_t w = (uint32_t)v; memcpy(&x, &w, 4); if (isnan(x)) v = 0x7fc00000; }
    if (k == Z_DBL) { double x; memcpy(&x, &v, 8); if (isnan(x)) v = 0x7ff8000000000000ull; }
    return v;
}
static Bytes gen_blob(Gen &g, int k) {
    if (k == Z_STR) return gen_text(g, g.chance(1, 20) ? 200 : 12);
    return g.bytes(g.chance(1, 25) ? g.size(20000, {16383, 16384}) : g.size(140, {0, 1, 126, 127, 128}));
}

// ------------------------------------------------ independent codec
static uint64_t wire_value(int k, uint64_t v) {
    switch (k) {
    case Z_U32: return (uint32_t)v;
    case Z_S32: { int32_t s = (int32_t)v; return s < 0 ? (uint32_t)(2u * (uint32_t)(-(int64_t)s) - 1u) : (uint32_t)(2u * (uint32_t)s); }
    case Z_S64: { int64_t s = (int64_t)v; return s < 0 ? 2 * (~(uint64_t)s) + 1 : 2 * (uint64_t)s; }
    default: return v;
    }
}
typedef std::function<void(Bytes &, uint64_t)> VI;
static void put_num(Bytes &o, int k, uint64_t v, const VI &vi) {
    switch (wire_of(k)) { case 0: vi(o, wire_value(k, v)); break; case 1: put_le(o, v, 8); break; default: put_le(o, v, 4); }
}
// any valid encoding: with a generator, fields in any order, over-long
// varints, unknown fields, explicit zeros, overridden scalars
static Bytes encode(const O &o, Gen *g, bool &utf8) {
    VI vi = [&](Bytes &b, uint64_t v) { put_varint(b, v, g && g->chance(1, 8) ? 1 + (int)g->u(9) : 0); };
    struct Part { int i; Bytes b; };
    std::vector<Part> parts;
    for (int i = 0; i < o.md->n; ++i) {
        const SField &f = o.md->f[i];
        const V &v = o.v[i];
        auto delim = [&](const Bytes &x) { Bytes b; vi(b, (uint64_t)f.tag << 3 | 2); vi(b, x.size()); b.insert(b.end(), x.begin(), x.end()); return b; };
        auto num = [&](uint64_t x) { Bytes b; vi(b, (uint64_t)f.tag << 3 | wire_of(f.kind)); put_num(b, f.kind, x, vi); return b; };
        if (f.qual == Q_PACKED) {
            Bytes b;
            for (uint64_t x : v.ru) put_num(b, f.kind, x, vi);
            // (a packed field may come in several pieces; only whole ones here and empty ones)
            if (!v.ru.empty() || (g && g->chance(1, 4))) parts.push_back({i, delim(b)});
        } else if (f.qual == Q_REP) {
            for (uint64_t x : v.ru) parts.push_back({i, num(x)});
            for (auto &x : v.rb) { if (f.kind == Z_STR && !ref_utf8(x)) utf8 = false; parts.push_back({i, delim(x)}); }
            for (auto &x : v.rm) parts.push_back({i, delim(encode(*x, g, utf8))});
        } else if (numeric(f.kind)) {
            if (g && g->chance(1, 10)) parts.push_back({i, num(gen_num(*g, f.kind)) + num(v.u)});
            else if (v.u || f.qual == Q_REQ || (g && g->chance(1, 4))) parts.push_back({i, num(v.u)});
        } else if (f.kind == Z_MSG) {
            if (v.m) parts.push_back({i, delim(encode(*v.m, g, utf8))});
        } else if (v.set) {
            if (f.kind == Z_STR && !ref_utf8(v.b)) utf8 = false;
            Bytes b = delim(v.b);
            parts.push_back({i, g && g->chance(1, 10) ? delim(gen_text(*g, 9)) + b : b});
        }
    }
    if (g) {
        // unknown fields of every wire type
        for (unsigned n = g->chance(1, 3) ? 1 + (unsigned)g->u(2) : 0; n; --n) {
            uint32_t tag;
            bool clash;
            do { tag = 1 + (uint32_t)g->u(g->flip() ? 40 : 536870910); clash = false; for (int i = 0; i < o.md->n; ++i) clash |= o.md->f[i].tag == (int)tag; } while (clash && g->gen_mode);
            if (clash) continue;
            static const int w[] = {0, 1, 2, 5};
            int wt = w[g->u(3)];
            Bytes b; vi(b, (uint64_t)tag << 3 | wt);
            if (wt == 0) vi(b, g->u64());
            else if (wt == 2) { Bytes x = g->rnd(g->u(20)); vi(b, x.size()); b = b + x; }
            else b = b + g->rnd(wt == 1 ? 8 : 4);
            parts.push_back({-1, b});
        }
        if (g->flip())      // any order, each field's own parts in theirs
            for (size_t k = parts.size(); k > 1; --k) {
                size_t j = g->u(k - 1);
                for (; j + 1 < k; ++j) { if (parts[j].i == parts[j + 1].i) break; std::swap(parts[j], parts[j + 1]); }
            }
    }
    Bytes out;
    for (auto &p : parts) out.insert(out.end(), p.b.begin(), p.b.end());
    return out;
}

struct Dec {
    Bytes d; size_t pos = 0;
    bool amb = false;        // the outcome is not judged
    bool strict = false;     // written by the code itself: canonical choices
    std::string why;
    bool fail(const char *w) { if (why.empty()) why = w; return false; }
    bool varint(uint64_t &v) {
        v = 0;
        for (int i = 0; i < 10; ++i) {
            if (pos >= d.size()) return fail("varint cut short");
            uint8_t b = d[pos++];
            v |= (uint64_t)(b & 0x7f) << (7 * i);
            if (!(b & 0x80)) { if (strict && i && !b) return fail("over-long varint"); return true; }
        }
        return fail("varint too long");
    }
    bool take(uint64_t n, size_t &at) { if (n > d.size() - pos) return fail("cut short"); at = pos; pos += n; return true; }
    bool num(int k, uint64_t &v) {
        int w = wire_of(k); size_t at;
        if (w == 0) {
            if (!varint(v)) return false;
            switch (k) {
            case Z_S32: if (v >> 32) amb = true; v = v & 1 ? ~(v >> 1) : v >> 1; break;
            case Z_S64: v = v & 1 ? ~(v >> 1) : v >> 1; break;
            case Z_BOOL: v = v != 0; break;
            }
        } else {
            if (!take(w == 5 ? 4 : 8, at)) return false;
            v = 0;
            for (int i = 0; i < (w == 5 ? 4 : 8); ++i) v |= (uint64_t)d[at + i] << (8 * i);
        }
        v = norm(k, v);
        return true;
    }
    bool msg(O &o, size_t end) {
        std::vector<int> seen(o.md->n);
        while (pos < end) {
            uint64_t key, len; size_t at;
            if (!varint(key)) return false;
            uint64_t tag = key >> 3; int wt = key & 7, i;
            if (tag < 1 || tag > 536870911) { amb = true; return false; }
            for (i = 0; i < o.md->n && o.md->f[i].tag != (int)tag; ++i) ;
            if (i == o.md->n) {
                if (strict) return fail("a field the schema does not have");
                uint64_t v;
                switch (wt) {
                case 0: if (!varint(v)) return false; break;
                case 1: if (!take(8, at)) return false; break;
                case 5: if (!take(4, at)) return false; break;
                case 2: if (!varint(len) || !take(len, at)) return false; break;
                default: return fail("wire type");
                }
                continue;
            }
            const SField &f = o.md->f[i];
            V &v = o.v[i];
            bool rep = f.qual == Q_REP || f.qual == Q_PACKED;
            if (strict && !(f.qual == Q_REP) && seen[i]) return fail("field written twice");
            seen[i]++;
            if (f.qual == Q_PACKED ? wt != 2 : wt != wire_of(f.kind)) {
                if (rep && numeric(f.kind) && (wt == 2 || wt == wire_of(f.kind))) amb = true;    // packed or not: see DESIGN.md
                return fail("wire type");
            }
            if (f.qual == Q_PACKED) {
                if (!varint(len)) return false;
                if (len > d.size() - pos) return fail("length");
                size_t e = pos + len;
                while (pos < e) { uint64_t x; if (!num(f.kind, x)) return false; v.ru.push_back(x); }
                if (pos != e) return fail("packed values overrun");
            } else if (numeric(f.kind)) {
                uint64_t x;
                if (!num(f.kind, x)) return false;
                if (rep) v.ru.push_back(x); else v.u = x;
            } else {
                if (!varint(len)) return false;
                if (f.kind == Z_MSG) {
                    if (len > d.size() - pos) return fail("length");
                    PO s = mk(&S->m[f.sub]);
                    if (!msg(*s, pos + len)) return false;
                    if (rep) v.rm.push_back(s); else { if (v.m) amb = true; v.m = s; }
                } else {
                    if (!take(len, at)) return false;
                    Bytes b(d.begin() + at, d.begin() + at + len);
                    if (f.kind == Z_STR && !ref_utf8(b)) return fail("not UTF-8");
                    if (rep) v.rb.push_back(b); else { v.b = b; v.set = true; }
                }
            }
        }
        if (pos != end) return fail("element overrun");
        if (strict) for (int i = 0; i < o.md->n; ++i) if (o.md->f[i].qual == Q_REQ && !seen[i]) return fail("required field not written");
        return true;
    }
};

// ------------------------------------------------ real object against model
static void compare(const void *p, const O &o, const char *when) {
    for (int i = 0; i < o.md->n; ++i) {
        const SField &f = o.md->f[i];
        const V &v = o.v[i];
        std::string at = fname(o, i) + " " + when;
        int has = fn<int, const void *>(f.has, p);
        if (f.qual == Q_REP || f.qual == Q_PACKED) {
            size_t n = numeric(f.kind) ? v.ru.size() : f.kind == Z_MSG ? v.rm.size() : v.rb.size();
            CHECK_EQ((fn<size_t, const void *>(f.count, p)), n, (at + " count").c_str());
            CHECK_EQ(has != 0, n != 0, (at + " has").c_str());
            for (size_t k = 0; k < n + 1; ++k) {
                std::string a = at + strf(" [%zu]", k);
                if (numeric(f.kind)) CHECK_EQ((num_get<size_t>(f.get_at, f.kind, p, k)), k < n ? v.ru[k] : 0, a.c_str());
                else if (f.kind == Z_MSG) {
                    void *s = fn<void *, const void *, size_t>(f.get_at, p, k);
                    CHECK((s != nullptr) == (k < n), "%s: message", a.c_str());
                    if (s) compare(s, *v.rm[k], when);
                } else {
                    const uint8_t *s = (const uint8_t *)fn<const void *, const void *, size_t>(f.get_at, p, k);
                    size_t z = fn<size_t, const void *, size_t>(f.get_size_at, p, k);
                    CHECK((s != nullptr) == (k < n), "%s: value", a.c_str());
                    CHECK_EQ(z, k < n ? v.rb[k].size() : 0, (a + " size").c_str());
                    if (s) { CHECK(Bytes(s, s + z) == v.rb[k], "%s: %s instead of %s", a.c_str(), hex(s, z).c_str(), hex(v.rb[k]).c_str()); if (f.kind == Z_STR) CHECK(s[z] == 0, "%s: not terminated", a.c_str()); }
                }
            }
        } else if (numeric(f.kind)) {
            CHECK_EQ(num_get(f.get, f.kind, p), v.u, at.c_str());
            bool negzero = (f.kind == Z_FLT && v.u == 0x80000000) || (f.kind == Z_DBL && v.u == 0x8000000000000000ull);
            if (!negzero) CHECK_EQ(has != 0, f.qual == Q_REQ || v.u != 0, (at + " has").c_str());
        } else if (f.kind == Z_MSG) {
            void *s = fn<void *, const void *>(f.get, p);
            CHECK((s != nullptr) == (v.m != nullptr), "%s: message", at.c_str());
            CHECK_EQ(has != 0, s != nullptr, (at + " has").c_str());
            if (s) compare(s, *v.m, when);
        } else {
            const uint8_t *s = (const uint8_t *)fn<const void *, const void *>(f.get, p);
            size_t z = fn<size_t, const void *>(f.get_size, p);
            CHECK_EQ(z, v.b.size(), (at + " size").c_str());
            CHECK_EQ(has != 0, v.set, (at + " has").c_str());
            CHECK((s != nullptr) == v.set, "%s: value", at.c_str());
            if (s) { CHECK(Bytes(s, s + z) == v.b, "%s: %s instead of %s", at.c_str(), hex(s, z).c_str(), hex(v.b).c_str()); if (f.kind == Z_STR) CHECK(s[z] == 0, "%s: not terminated", at.c_str()); }
        }
    }
}

// random operations on an object and its model
static int ops_left;
static void edit(Gen &g, void *p, O &o, int depth) {
    if (!o.md->n) return;
    int n = 1 + (int)g.u(depth ? 5 : 11);
    for (; n > 0 && ops_left > 0; --n, --ops_left) {
        int i = (int)g.u(o.md->n - 1);
        const SField &f = o.md->f[i];
        V &v = o.v[i];
        std::string at = fname(o, i);
        if (g.chance(1, 7)) {
            CHECK_EQ((fn<int, void *>(f.clear, p)), 0, (at + " clear").c_str());
            v = V();
            g.label("clear");
            continue;
        }
        if (f.qual == Q_REP || f.qual == Q_PACKED) {
            size_t k = g.chance(1, 12) ? 1 + g.u(40) : 1 + g.u(2);
            for (; k; --k) {
                if (numeric(f.kind)) {
                    uint64_t x = gen_num(g, f.kind);
                    CHECK_EQ(num_put(f.add, f.kind, p, x), 0, (at + " add").c_str());
                    v.ru.push_back(x);
                } else if (f.kind == Z_MSG) {
                    void *s = nullptr;
                    PO m = mk(&S->m[f.sub]);
                    if (g.chance(1, 4)) {
                        CHECK_EQ((fn<int, void **>(m->md->make, &s)), 0, "new");
                        size_t x = g.u(v.rm.size() + 1);
                        CHECK_EQ(((fn<int, void *, size_t, void *>(f.insert, p, x, s))), 0, (at + " insert").c_str());
                        v.rm.insert(v.rm.begin() + std::min(x, v.rm.size()), m);
                        g.label("insert");
                    } else {
                        CHECK_EQ(((fn<int, void *, void **>(f.add, p, &s))), 0, (at + " add").c_str());
                        v.rm.push_back(m);
                    }
                    CHECK(s != nullptr, "%s: add", at.c_str());
                    if (depth < 3 && g.chance(2, 3)) edit(g, s, *m, depth + 1);
                } else {
                    Bytes b = gen_blob(g, f.kind);
                    Buf in(b);
                    CHECK_EQ(((fn<int, void *, const void *, size_t>(f.add, p, in.p, in.n))), 0, (at + " add").c_str());
                    v.rb.push_back(b);
                }
            }
        } else if (numeric(f.kind)) {
            v.u = gen_num(g, f.kind);
            CHECK_EQ(num_put(f.set, f.kind, p, v.u), 0, (at + " set").c_str());
        } else if (f.kind == Z_MSG) {
            if (v.m && g.flip()) { edit(g, fn<void *, const void *>(f.get, p), *v.m, depth + 1); continue; }
            void *s = nullptr;
            CHECK_EQ(((fn<int, void *, void **>(f.get_new, p, &s))), 0, (at + " get_new").c_str());
            CHECK(s && s == ((fn<void *, const void *>(f.get, p))), "%s: get_new", at.c_str());
            v.m = mk(&S->m[f.sub]);
            if (depth < 3) edit(g, s, *v.m, depth + 1);
        } else {
            v.b = gen_blob(g, f.kind); v.set = true;
            Buf in(v.b);
            CHECK_EQ(((fn<int, void *, const void *, size_t>(f.set, p, in.p, in.n))), 0, (at + " set").c_str());
        }
    }
}

struct Obj {
    const SMsg *m; void *p = nullptr;
    explicit Obj(const SMsg *m_) : m(m_) {}
    ~Obj() { if (p) fn<int, void *>(m->destroy, p); }
};
// required messages that are absent are written as empty ones
static void required(O &o, int depth = 0) {
    for (int i = 0; i < o.md->n; ++i) {
        V &v = o.v[i];
        const SField &f = o.md->f[i];
        if (f.qual == Q_REQ) { if (f.kind == Z_MSG && !v.m) v.m = mk(&S->m[f.sub]); else if (f.kind == Z_MSG) required(*v.m, depth + 1); else v.set = !numeric(f.kind); }
        else { if (v.m) required(*v.m, depth + 1); for (auto &x : v.rm) required(*x, depth + 1); }
    }
}
static const SMsg *pick(Gen &g) {
    S = schema_list[g.u(schema_count - 1)];
    return &S->m[g.u(S->nmsgs - 1)];
}
static int write_obj(Gen &g, const Obj &x, int tag, size_t W, size_t cap, Bytes &out) {
    NoiseProtobuf pb;
    Out buf(g, cap);
    CHECK_EQ(noise_protobuf_prepare_output(&pb, buf.p, cap), 0, "prepare_output");
    int e = fn<int, NoiseProtobuf *, int, const void *>(x.m->write, &pb, tag, x.p);
    uint8_t *d = nullptr; size_t n = 0;
    int e2 = noise_protobuf_finish_output(&pb, &d, &n);
    CHECK_EQ(e2, e, "finish_output");
    if (!e) { out = Bytes(d, d + n); CHECK(W == (size_t)-1 || n == W, "%zu bytes written, %zu measured", n, W); }
    buf.check(cap, x.m->name);
    return e;
}
static bool blank_required(const O &o) {       // the decoder's strict rules do not hold for absent nested required fields
    for (int i = 0; i < o.md->n; ++i) {
        const SField &f = o.md->f[i]; const V &v = o.v[i];
        if (f.qual == Q_REQ && f.kind == Z_MSG && !v.m) return true;
        if (v.m && blank_required(*v.m)) return true;
        for (auto &x : v.rm) if (blank_required(*x)) return true;
    }
    return false;
}

TARGET(C29, values, 1, "random operations (set, clear, add, insert, new nested objects) on an object of a random message of a random schema, read back through every accessor, measured, written to buffers of any size, decoded by an independent decoder, and read again by the generated code from its own and from another valid encoding; non-trivial when the encoding has more than three bytes; distinct by schema, message and encoding") {
    const SMsg *md = pick(g);
    for (int i = 0; i < S->nconsts; ++i) CHECK_EQ(S->c[i].value, S->c[i].expect, S->c[i].name);
    Obj x(md);
    CHECK_EQ((fn<int, void **>(md->make, &x.p)), 0, "new");
    O model(md);
    ops_left = 60;
    for (int round = 0; round < 2; ++round) {
        edit(g, x.p, model, 0);
        compare(x.p, model, "after the operations");
        if (g.flip()) break;
    }
    bool utf8 = true;
    encode(model, nullptr, utf8);
    bool blank = blank_required(model);
    // measure, then write
    int tag = g.flip() ? 0 : 1 + (int)g.u(300);
    NoiseProtobuf pb;
    CHECK_EQ(noise_protobuf_prepare_measure(&pb, 1 << 24), 0, "prepare_measure");
    CHECK_EQ(((fn<int, NoiseProtobuf *, int, const void *>(md->write, &pb, tag, x.p))), 0, "write (measuring)");
    size_t W = 0;
    CHECK_EQ(noise_protobuf_finish_measure(&pb, &W), 0, "finish_measure");
    Bytes out;
    CHECK_EQ(write_obj(g, x, tag, W, W + (g.flip() ? 0 : g.u(30)), out), 0, "write");
    if (W && g.chance(1, 3)) { Bytes o2; CHECK(write_obj(g, x, tag, W, g.u(W - 1), o2) != 0, "written to a buffer that is too small"); g.label("too small"); }
    // independent decoder
    Dec d; d.d = out; d.strict = !blank;
    size_t end = out.size();
    bool framed = true;
    if (tag) { uint64_t key = 0, len = 0; framed = d.varint(key) && key == ((uint64_t)tag << 3 | 2) && d.varint(len) && len == out.size() - d.pos; }
    CHECK(framed, "%s: bad frame %s", md->name, hex(out, 20).c_str());
    O back(md), want = model;
    bool ok = d.msg(back, end);
    CHECK(ok, "%s of %s does not decode (%s): %s", md->name, S->name, d.why.c_str(), hex(out, 60).c_str());
    required(want);
    CHECK(eq(back, want), "%s of %s decodes to something else: %s", md->name, S->name, hex(out, 60).c_str());
    // the generated reader on its own output, and on another encoding
    for (int k = 0; k < 2; ++k) {
        Bytes e = out;
        bool u = true;
        if (k) {
            e = encode(model, &g, u);
            if (tag) { Bytes h; put_varint(h, (uint64_t)tag << 3 | 2); put_varint(h, e.size()); e = h + e; }
        }
        Buf in(e);
        CHECK_EQ(noise_protobuf_prepare_input(&pb, in.p, in.n), 0, "prepare_input");
        Obj y(md);
        int err = fn<int, NoiseProtobuf *, int, void **>(md->read, &pb, tag, &y.p);
        CHECK(err == 0 && y.p, "%s of %s: reading %s gives %d: %s", md->name, S->name, k ? "another encoding" : "what was written", err, hex(e, 60).c_str());
        CHECK_EQ(noise_protobuf_finish_input(&pb), 0, "finish_input");
        compare(y.p, k ? model : want, k ? "read from another encoding" : "read back");
    }
    g.key(strf("%s %s %s", S->name, md->name, hex(o_hash(O_SHA256, out)).c_str()));
    g.nontrivial(W > 3);
    g.note("%s.%s: %zu bytes %s", S->name, md->name, W, hex(out, 24).c_str());
}

TARGET(C29, hostile, 0.6, "an encoding of a random object, cut, altered, extended or with fields of another message, read by the generated code: the outcome and the object agree with an independent decoder; non-trivial when it is refused or holds at least one field; distinct by the bytes") {
    const SMsg *md = pick(g);
    Obj x(md);
    CHECK_EQ((fn<int, void **>(md->make, &x.p)), 0, "new");
    O model(md);
    ops_left = 30;
    edit(g, x.p, model, 0);
    bool u = true;
    Bytes e = encode(model, g.flip() ? &g : nullptr, u);
    unsigned mut = (unsigned)g.u(5);
    switch (mut) {
    case 0: if (!e.empty()) e.resize(g.u(e.size() - 1)); break;
    case 1: for (int k = 1 + (int)g.u(3); k > 0 && !e.empty(); --k) e[g.u(e.size() - 1)] ^= 1u << g.u(7); break;
    case 2: { size_t a = g.u(e.size()); Bytes r = g.rnd(1 + g.u(4)); e.insert(e.begin() + a, r.begin(), r.end()); break; }
    case 3: if (!e.empty()) { size_t a = g.u(e.size() - 1); e.erase(e.begin() + a, e.begin() + a + 1 + g.u(std::min<size_t>(e.size() - a, 4) - 1)); } break;
    case 4: { const SField &f = md->f[g.u(md->n - 1)]; Bytes r; put_varint(r, (uint64_t)f.tag << 3 | g.u(7)); r = r + g.rnd(g.u(12)); e = g.flip() ? e + r : r + e; break; }
    default: e = g.bytes(g.u(30));
    }
    static const char *ml[] = {"cut", "bits flipped", "inserted", "removed", "field of another wire type", "random"};
    g.label(ml[mut]);
    Dec d; d.d = e;
    O back(md);
    bool ok = d.msg(back, e.size());
    NoiseProtobuf pb;
    Buf in(e);
    CHECK_EQ(noise_protobuf_prepare_input(&pb, in.p, in.n), 0, "prepare_input");
    Obj y(md);
    void *yp = (void *)1;
    int err = fn<int, NoiseProtobuf *, int, void **>(md->read, &pb, 0, &yp);
    CHECK(yp != (void *)1, "%s of %s: the object pointer is not set", md->name, S->name);
    y.p = yp;
    if (err) CHECK(y.p == nullptr, "%s of %s: error %d with an object", md->name, S->name, err);
    else CHECK(y.p != nullptr, "%s of %s: success without an object", md->name, S->name);
    CHECK_EQ(noise_protobuf_finish_input(&pb), err, "finish_input");
    if (d.amb) { g.label("not judged"); g.note("not judged %s", hex(e, 20).c_str()); return; }
    CHECK_EQ(err, ok ? 0 : NOISE_ERROR_INVALID_FORMAT, strf("%s of %s: reading %s (%s)", md->name, S->name, hex(e, 60).c_str(), d.why.c_str()).c_str());
    if (ok) compare(y.p, back, "read from altered bytes");
    g.label(ok ? "accepted" : "refused");
    g.key(strf("%s %s %s", S->name, md->name, hex(o_hash(O_SHA256, e)).c_str()));
    g.nontrivial(!ok || e.size() > 1);
    g.note("%s.%s %s: %s %s", S->name, md->name, ml[mut], hex(e, 20).c_str(), ok ? "accepted" : d.why.c_str());
}
