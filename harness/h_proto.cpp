// Protocol buffers: the wire writer (C14), the wire reader (C15), UTF-8 (C17).
#include "nutil.h"
#include "oracle.h"
#include "pbutil.h"
extern "C" {
#include <noise/protobufs.h>
}
#include <stdlib.h>
#include <math.h>

// ------------------------------------------------ independent wire encoding
enum Kind { K_I32, K_U32, K_I64, K_U64, K_S32, K_S64, K_SF32, K_F32, K_SF64, K_F64, K_FLT, K_DBL, K_BOOL, K_STR, K_BYTES, K_ELEM, NKINDS };
static const char *KN[] = {"int32", "uint32", "int64", "uint64", "sint32", "sint64", "sfixed32", "fixed32", "sfixed64", "fixed64",
                           "float", "double", "bool", "string", "bytes", "element"};
static int wire_of(int k) {
    switch (k) {
    case K_SF32: case K_F32: case K_FLT: return 5;
    case K_SF64: case K_F64: case K_DBL: return 1;
    case K_STR: case K_BYTES: case K_ELEM: return 2;
    default: return 0;
    }
}
struct Field {
    int kind, tag;
    uint64_t v = 0;          // raw 64-bit value (sign-extended for signed kinds)
    Bytes b;
    std::vector<Field> sub;
};
static uint64_t wire_value(const Field &f) {
    switch (f.kind) {
    case K_I32: return (uint64_t)(int64_t)(int32_t)f.v;
    case K_U32: return (uint32_t)f.v;
    case K_S32: { int32_t s = (int32_t)f.v; return s < 0 ? (uint32_t)(2u * (uint32_t)(-(int64_t)s) - 1u) : (uint32_t)(2u * (uint32_t)s); }
    case K_S64: { int64_t s = (int64_t)f.v; return s < 0 ? 2 * (~(uint64_t)s) + 1 : 2 * (uint64_t)s; }
    case K_BOOL: return f.v != 0;
    default: return f.v;
    }
}
// pads: over-long varints where the format allows them
static void put_field(Bytes &o, const Field &f, Gen *g = nullptr) {
    auto vi = [&](uint64_t v) { put_varint(o, v, g && g->chance(1, 6) ? 1 + (int)g->u(9) : 0); };
    if (f.tag) vi(((uint64_t)f.tag << 3) | wire_of(f.kind));
    switch (wire_of(f.kind)) {
    case 0: vi(wire_value(f)); break;
    case 1: put_le(o, f.v, 8); break;
    case 5: put_le(o, f.v, 4); break;
    case 2:
        if (f.kind == K_ELEM) {
            Bytes in;
            for (auto &s : f.sub) put_field(in, s, g);
            if (f.tag) vi(in.size());
            o.insert(o.end(), in.begin(), in.end());
        } else {
            vi(f.b.size());
            o.insert(o.end(), f.b.begin(), f.b.end());
        }
    }
}

// ------------------------------------------------ generators
static int gen_tag(Gen &g) {
    static const int e[] = {1, 2, 15, 16, 17, 31, 127, 128, 2047, 2048, 32767, 32768, 262143, 262144, 33554431, 33554432, 536870911};
    switch (g.u(3)) { case 0: case 1: return 1 + (int)g.u(20); case 2: return e[g.u(16)]; default: return 1 + (int)g.u(536870910); }
}
static uint64_t gen_val(Gen &g) {
    switch (g.u(4)) {
    case 0: return g.u(300);
    case 1: { int s = (int)g.u(63); return (1ull << s) + g.u(2) - 1; }
    case 2: return ~g.u(300);
    case 3: return g.u64();
    default: { static const uint64_t e[] = {0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, 0xffffffff80000000ull}; return e[g.u(7)]; }
    }
}
static size_t gen_blob(Gen &g) {
    static const std::vector<size_t> e{0, 1, 126, 127, 128, 129, 255, 16381, 16383, 16384, 16387};
    return g.chance(1, 25) ? g.size(40000, e) : g.size(200, {0, 1, 126, 127, 128, 129});
}
static Field gen_field(Gen &g, int depth, bool anytag = true) {
    Field f;
    f.kind = (int)g.u(NKINDS - 1);
    if (f.kind == K_ELEM && depth <= 0) f.kind = K_BYTES;
    f.tag = gen_tag(g);
    f.v = gen_val(g);
    if (f.kind == K_STR) f.b = gen_text(g, g.chance(1, 20) ? 8000 : 80);
    else if (f.kind == K_BYTES) f.b = g.bytes(gen_blob(g));
    else if (f.kind == K_ELEM) { int n = (int)g.u(5); for (int i = 0; i < n; ++i) f.sub.push_back(gen_field(g, depth - 1)); }
    return f;
}
static std::string show(const Field &f) {
    std::string s = strf("%s %s:", f.tag ? std::to_string(f.tag).c_str() : "-", KN[f.kind]);
    if (f.kind == K_ELEM) { s += "{"; for (auto &x : f.sub) s += show(x) + " "; s += "}"; }
    else if (f.kind == K_STR || f.kind == K_BYTES) s += strf("[%zu]%s", f.b.size(), hex(f.b, 8).c_str());
    else s += strf("%llx", (unsigned long long)f.v);
    return s;
}

// write one field through the library; returns the first error seen in it
static int lib_field(NoiseProtobuf *p, const Field &f) {
    switch (f.kind) {
    case K_I32: return noise_protobuf_write_int32(p, f.tag, (int32_t)f.v);
    case K_U32: return noise_protobuf_write_uint32(p, f.tag, (uint32_t)f.v);
    case K_I64: return noise_protobuf_write_int64(p, f.tag, (int64_t)f.v);
    case K_U64: return noise_protobuf_write_uint64(p, f.tag, f.v);
    case K_S32: return noise_protobuf_write_sint32(p, f.tag, (int32_t)f.v);
    case K_S64: return noise_protobuf_write_sint64(p, f.tag, (int64_t)f.v);
    case K_SF32: return noise_protobuf_write_sfixed32(p, f.tag, (int32_t)f.v);
    case K_F32: return noise_protobuf_write_fixed32(p, f.tag, (uint32_t)f.v);
    case K_SF64: return noise_protobuf_write_sfixed64(p, f.tag, (int64_t)f.v);
    case K_F64: return noise_protobuf_write_fixed64(p, f.tag, f.v);
    case K_FLT: { float x; uint32_t v = (uint32_t)f.v; memcpy(&x, &v, 4); return noise_protobuf_write_float(p, f.tag, x); }
    case K_DBL: { double x; memcpy(&x, &f.v, 8); return noise_protobuf_write_double(p, f.tag, x); }
    case K_BOOL: return noise_protobuf_write_bool(p, f.tag, (int)(f.v & 0x7fffffff));
    case K_STR: { Buf b(f.b); return noise_protobuf_write_string(p, f.tag, f.b.empty() && f.tag % 2 ? nullptr : (char *)b.p, b.n); }
    case K_BYTES: { Buf b(f.b); return noise_protobuf_write_bytes(p, f.tag, f.b.empty() && f.tag % 2 ? nullptr : b.p, b.n); }
    default: {
        size_t end = 99;
        int err = noise_protobuf_write_end_element(p, &end), e2;
        for (size_t i = f.sub.size(); i > 0; --i) { e2 = lib_field(p, f.sub[i - 1]); if (!err) err = e2; }
        if (err) {      // an error sticks: the closing call must report it too
            e2 = noise_protobuf_write_start_element(p, f.tag, end);
            CHECK(e2 != 0, "start of element succeeded after an error");
            return err;
        }
        return noise_protobuf_write_start_element(p, f.tag, end);
    }
    }
}
static void fix_bool(Field &f) {
    if (f.kind == K_BOOL) f.v &= 0x7fffffff;
    if (f.kind == K_FLT) { uint32_t v = (uint32_t)f.v; float x; memcpy(&x, &v, 4); if (isnan(x)) f.v = 0x7fc00000; }
    for (auto &s : f.sub) fix_bool(s);
}

TARGET(C14, writer, 1, "a random tree of fields of every type (element nesting, tags 1..2^29-1, empty to 40 kB strings) measured, then written to a buffer that is too small, exact or larger, each compared with an independent encoder; distinct by the encoding") {
    std::vector<Field> fs;
    int n = (int)g.u(6);
    if (n == 0 && g.flip()) n = 1;
    for (int i = 0; i < n; ++i) { fs.push_back(gen_field(g, 3)); fix_bool(fs.back()); }
    Bytes want;
    for (auto &f : fs) { put_field(want, f); g.note("%s", show(f).substr(0, 200).c_str()); }
    g.key(hex(o_hash(O_SHA256, want)));
    g.nontrivial(want.size() > 2);
    size_t W = want.size();
    NoiseProtobuf p;
    auto run = [&](size_t cap) {
        int err = 0, e;
        for (size_t i = fs.size(); i > 0; --i) { e = lib_field(&p, fs[i - 1]); if (err) CHECK_EQ(e, err, "error after an error"); err = err ? err : e; }
        CHECK_EQ(err, cap < W ? NOISE_ERROR_INVALID_LENGTH : 0, "writing");
        return err;
    };
    // measure
    size_t cap = g.u(3) ? W + g.u(100) : W ? g.u(W) : 0;
    if (g.chance(1, 4)) cap = W;
    if (g.chance(1, 8)) cap = 0x7fffffff;
    CHECK_EQ(noise_protobuf_prepare_measure(&p, cap), 0, "prepare_measure");
    int err = run(cap);
    size_t got = 77;
    CHECK_EQ(noise_protobuf_finish_measure(&p, &got), err, "finish_measure");
    CHECK_EQ(got, err ? 0 : W, "measured size");
    // write
    cap = g.u(3) ? W + g.u(100) : W ? g.u(W) : 0;
    if (g.chance(1, 4)) cap = W;
    {
        Buf buf(cap, 0x5c);
        CHECK_EQ(noise_protobuf_prepare_output(&p, buf.p, cap), 0, "prepare_output");
        err = run(cap);
        uint8_t *d = (uint8_t *)1;
        bool shift = g.flip();
        got = 77;
        int e = shift ? noise_protobuf_finish_output_shift(&p, &d, &got) : noise_protobuf_finish_output(&p, &d, &got);
        CHECK_EQ(e, err, "finish_output");
        CHECK_EQ(got, err ? 0 : W, "output size");
        if (err) CHECK(d == nullptr, "output pointer after an error");
        else {
            CHECK(d == (shift ? buf.p : buf.p + cap - W), "output pointer");
            CHECK(Bytes(d, d + W) == want, "encoding: %s instead of %s", hex(d, W, 60).c_str(), hex(want, 60).c_str());
            if (!shift) for (size_t i = 0; i < cap - W; ++i) CHECK(buf.p[i] == 0x5c, "byte before the output written");
        }
        g.label(err ? "too small" : cap == W ? "exact" : "larger");
    }
}

// ------------------------------------------------------------------ C15
struct MReader {
    Bytes d; size_t pos = 0; bool err = false;
    bool varint(uint64_t &v) {
        v = 0;
        if (err) return false;
        for (int i = 0; i < 10; ++i) {
            if (pos >= d.size()) { err = true; return false; }
            uint8_t b = d[pos++];
            v |= (uint64_t)(b & 0x7f) << (7 * i);      // (bits beyond 64 are dropped)
            if (!(b & 0x80)) return true;
        }
        err = true;
        return false;
    }
    bool tag(int t, int wire) {
        if (err) return false;
        if (t == 0) return true;
        if (t < 0) { err = true; return false; }
        uint64_t v;
        if (!varint(v)) return false;
        if (v != (((uint64_t)t << 3) | (unsigned)wire)) { err = true; return false; }
        return true;
    }
    bool space(uint64_t n, size_t &at) {
        if (err) return false;
        if (n > d.size() - pos) { err = true; return false; }
        at = pos; pos += n;
        return true;
    }
};

TARGET(C15, reader, 1, "random reader calls (matching the data most of the time) on valid, non-canonical, truncated, mutated or random encodings, in lockstep with an independent decoder; non-trivial when at least two fields were delivered; distinct by data and calls") {
    Bytes data;
    std::vector<Field> flat;
    int n = 1 + (int)g.u(6);
    for (int i = 0; i < n; ++i) {
        Field f = gen_field(g, 2);
        if (f.kind == K_STR && g.chance(1, 8)) f.b = g.rnd(g.u(6));        // perhaps not UTF-8
        put_field(data, f, g.flip() ? &g : nullptr);
        flat.push_back(f);
    }
    unsigned mut = (unsigned)g.u(5);
    if (mut == 1 && !data.empty()) data.resize(g.u(data.size() - 1));
    else if (mut == 2 && !data.empty()) for (int k = 1 + (int)g.u(3); k > 0; --k) data[g.u(data.size() - 1)] ^= 1u << g.u(7);
    else if (mut == 3) data = g.bytes(g.u(40));
    else if (mut == 4 && !data.empty()) { size_t a = g.u(data.size()); Bytes x = g.rnd(1 + g.u(4)); data.insert(data.begin() + a, x.begin(), x.end()); }
    static const char *ml[] = {"valid", "truncated", "bits flipped", "random", "inserted", "valid"};
    g.label(ml[mut]);
    g.key(hex(o_hash(O_SHA256, data)));
    Buf in(data);
    NoiseProtobuf p;
    CHECK_EQ(noise_protobuf_prepare_input(&p, in.p, in.n), 0, "prepare_input");
    MReader m; m.d = data;
    std::vector<size_t> ends;
    int delivered = 0;
    std::string calls;
    const int FMT = NOISE_ERROR_INVALID_FORMAT;
    for (int step = 0; step < 24; ++step) {
        // what comes next, according to the model
        MReader look = m;
        uint64_t key = 0;
        bool ok = look.varint(key);
        uint64_t t = key >> 3;
        int wire = (int)(key & 7);
        int ntag = ok && t >= 1 && t <= 536870911 ? (int)t : 0;
        CHECK_EQ(noise_protobuf_peek_tag(&p), ntag, "peek_tag");
        {
            MReader l2 = look; uint64_t sz = 0;
            bool have = ok && wire == 2 && l2.varint(sz);
            CHECK(noise_protobuf_peek_size(&p) == (have ? sz : 0), "peek_size");
        }
        // pick a call
        int op, tag = ntag ? ntag : (int)g.u(3);
        if (g.chance(1, 12)) tag = gen_tag(g);
        if (g.chance(1, 30)) tag = 0;
        if (g.chance(1, 60)) tag = -(int)(1 + g.u(1000));
        if (ok && g.chance(7, 8)) {
            static const int w0[] = {K_I32, K_U32, K_I64, K_U64, K_S32, K_S64, K_BOOL, 40}, w1[] = {K_SF64, K_F64, K_DBL, 40},
                             w2[] = {K_STR, K_BYTES, 30, 31, K_ELEM, K_ELEM, 40, 32}, w5[] = {K_SF32, K_F32, K_FLT, 40};
            op = wire == 0 ? w0[g.u(7)] : wire == 1 ? w1[g.u(3)] : wire == 5 ? w5[g.u(3)] : wire == 2 ? w2[g.u(7)] : 40;
        } else {
            static const int any[] = {K_I32, K_U32, K_I64, K_U64, K_S32, K_S64, K_SF32, K_F32, K_SF64, K_F64, K_FLT, K_DBL, K_BOOL, K_STR, K_BYTES, K_ELEM, 30, 31, 40, 41, 42};
            op = any[g.u(20)];
        }
        if (!ends.empty() && m.pos >= ends.back() && g.chance(7, 8)) op = 41;
        calls += strf("%d/%d ", op, tag);
        bool was_err = m.err;
        switch (op) {
#define NUM(KIND, TYPE, FN, WIRE, EXPECT) case KIND: { TYPE v = (TYPE)42; \
            int e = FN(&p, tag, &v); uint64_t raw = 0; size_t at; \
            bool good = m.tag(tag, WIRE) && (WIRE == 0 ? m.varint(raw) : m.space(WIRE == 5 ? 4 : 8, at)); \
            if (good && WIRE != 0) for (int i = 0; i < (WIRE == 5 ? 4 : 8); ++i) raw |= (uint64_t)m.d[at + i] << (8 * i); \
            CHECK_EQ(e, good ? 0 : FMT, "read " #TYPE); \
            if (good) { ++delivered; TYPE w = (TYPE)(EXPECT); CHECK(memcmp(&v, &w, sizeof v) == 0, #FN " delivers another value for %llx", (unsigned long long)raw); } \
            else { TYPE z = 0; CHECK(memcmp(&v, &z, sizeof v) == 0, #FN " delivers a value with an error"); } \
            break; }
        NUM(K_I32, int32_t, noise_protobuf_read_int32, 0, (uint32_t)raw)
        NUM(K_U32, uint32_t, noise_protobuf_read_uint32, 0, raw)
        NUM(K_I64, int64_t, noise_protobuf_read_int64, 0, raw)
        NUM(K_U64, uint64_t, noise_protobuf_read_uint64, 0, raw)
        NUM(K_S32, int32_t, noise_protobuf_read_sint32, 0, raw >> 32 ? (uint64_t)(uint32_t)v : (raw & 1 ? ~(raw >> 1) : raw >> 1))
        NUM(K_S64, int64_t, noise_protobuf_read_sint64, 0, (raw & 1 ? ~(raw >> 1) : raw >> 1))
        NUM(K_SF32, int32_t, noise_protobuf_read_sfixed32, 5, (uint32_t)raw)
        NUM(K_F32, uint32_t, noise_protobuf_read_fixed32, 5, raw)
        NUM(K_SF64, int64_t, noise_protobuf_read_sfixed64, 1, raw)
        NUM(K_F64, uint64_t, noise_protobuf_read_fixed64, 1, raw)
        NUM(K_BOOL, int, noise_protobuf_read_bool, 0, raw != 0)
        case K_FLT: {
            float v = 42; uint32_t b = 0; size_t at;
            int e = noise_protobuf_read_float(&p, tag, &v);
            bool good = m.tag(tag, 5) && m.space(4, at);
            if (good) memcpy(&b, &m.d[at], 4);
            CHECK_EQ(e, good ? 0 : FMT, "read_float");
            CHECK(memcmp(&v, &b, 4) == 0, "float value");
            delivered += good;
            break;
        }
        case K_DBL: {
            double v = 42; uint64_t b = 0; size_t at;
            int e = noise_protobuf_read_double(&p, tag, &v);
            bool good = m.tag(tag, 1) && m.space(8, at);
            if (good) memcpy(&b, &m.d[at], 8);
            CHECK_EQ(e, good ? 0 : FMT, "read_double");
            CHECK(memcmp(&v, &b, 8) == 0, "double value");
            delivered += good;
            break;
        }
        case K_STR: case K_BYTES: case 30: case 31: {
            bool string = op == K_STR || op == 30, alloc = op >= 30;
            // a limit around the real size
            MReader l2 = look; uint64_t sz = 0;
            if (tag == 0) { l2 = m; }
            bool have = (tag == 0 || ok) && l2.varint(sz);
            if (!have || sz > 100000) sz = g.u(50);
            size_t max = 0;
            switch (g.u(4)) { case 0: max = sz + 1; break; case 1: max = sz; break; case 2: max = sz ? sz - 1 : 0; break; case 3: max = sz + g.u(100); break; default: max = alloc ? 0 : sz + 200; }
            if (!alloc && string && max == 0) max = 1;
            size_t size = 4242;
            uint64_t len = 0; size_t at = 0;
            Buf out(alloc ? 0 : max, 0x5c);
            void *ap = (void *)1;
            size_t *sp = string && g.chance(1, 4) ? nullptr : &size;
            int e = op == K_STR ? noise_protobuf_read_string(&p, tag, (char *)out.p, max, sp)
                  : op == K_BYTES ? noise_protobuf_read_bytes(&p, tag, out.p, max, sp)
                  : op == 30 ? noise_protobuf_read_alloc_string(&p, tag, (char **)&ap, max, sp)
                  : noise_protobuf_read_alloc_bytes(&p, tag, &ap, max, sp);
            bool good = m.tag(tag, 2) && m.varint(len);
            if (good && ((op == K_STR && len >= max) || (op == K_BYTES && len > max) || (alloc && max && len > max))) { good = false; m.err = true; }
            good = good && m.space(len, at);
            Bytes val;
            if (good) val = Bytes(m.d.begin() + at, m.d.begin() + at + len);
            if (good && string && !ref_utf8(val)) { good = false; m.err = true; g.label("not UTF-8"); }
            CHECK_EQ(e, good ? 0 : FMT, string ? "read string" : "read bytes");
            if (sp) CHECK_EQ(size, good ? len : 0, "size read");
            if (alloc) {
                CHECK((ap != nullptr) == good && ap != (void *)1, "allocated result");
                if (good) { CHECK(memcmp(ap, val.data(), len) == 0, "value read"); if (string) CHECK(((char *)ap)[len] == 0, "terminator"); free(ap); }
            } else if (good) {
                CHECK(memcmp(out.p, val.data(), len) == 0, "value read");
                if (string) CHECK(out.p[len] == 0, "terminator");
            } else if (string) CHECK(out.p[0] == 0, "string not empty after an error");
            delivered += good;
            break;
        }
        case K_ELEM: {
            size_t end = 4242; uint64_t len = 0;
            int e = noise_protobuf_read_start_element(&p, tag, &end);
            bool good = m.tag(tag, 2);
            size_t want = m.d.size();
            if (good && tag) {
                good = m.varint(len);
                if (good && len > m.d.size() - m.pos) { good = false; m.err = true; }
                want = m.pos + len;
            }
            CHECK_EQ(e, good ? 0 : FMT, "start_element");
            if (good) { ends.push_back(want); ++delivered; CHECK_EQ(end, want, "end of the element"); }
            break;
        }
        case 41: case 42: {
            size_t end = ends.empty() ? m.d.size() : ends.back();
            CHECK_EQ(noise_protobuf_read_at_end_element(&p, end), m.err || m.pos >= end, "at_end_element");
            if (op == 42) break;
            bool good = !m.err && m.pos == end;
            m.err = m.err || !good;
            CHECK_EQ(noise_protobuf_read_end_element(&p, end), good ? 0 : FMT, "end_element");
            if (!ends.empty()) ends.pop_back();
            break;
        }
        default: {
            if (!m.err && ok && !ntag) { g.label("skip of an invalid tag"); return; }    // not judged: tag 0 or > 2^29-1
            int e = noise_protobuf_read_skip(&p);
            uint64_t v; size_t at;
            bool good = m.varint(v);
            if (good) switch (v & 7) {
                case 0: good = m.varint(v); break;
                case 1: good = m.space(8, at); break;
                case 5: good = m.space(4, at); break;
                case 2: good = m.varint(v) && m.space(v, at); break;
                default: good = false; m.err = true;
            }
            CHECK_EQ(e, good ? 0 : FMT, "skip");
            delivered += good;
        }
        }
        if (m.err && !was_err) CHECK_EQ(noise_protobuf_peek_tag(&p), 0, "peek_tag after an error");
        if (was_err && g.flip()) break;
    }
    if (g.chance(1, 6)) { m.err = true; CHECK_EQ(noise_protobuf_read_stop(&p), FMT, "stop"); }
    bool good = !m.err && m.pos == m.d.size();
    CHECK_EQ(noise_protobuf_finish_input(&p), good ? 0 : FMT, "finish_input");
    if (good) g.label("read to the end");
    g.key(calls);
    g.note("%s data %s calls %s", ml[mut], hex(data, 24).c_str(), calls.c_str());
    g.nontrivial(delivered >= 2);
}

TARGET(C15, args, 0.05, "null arguments: the documented parameter error, nothing dereferenced; distinct by function and argument") {
    NoiseProtobuf p; uint8_t b[16] = {0x0a, 1, 'x'};
    noise_protobuf_prepare_input(&p, b, 3);
    unsigned f = (unsigned)g.en(24);
    int tag = (int)g.en(3) - 0;
    NoiseProtobuf *q = g.en(2) ? &p : nullptr;      // with &p, the result pointer is null
    const int BAD = NOISE_ERROR_INVALID_PARAM;
    int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; float fl; double db; int in; char s[8]; size_t sz; char *cp; void *vp;
#define N(x) (q ? nullptr : &x)
    int e = BAD;
    switch (f) {
    case 0: e = noise_protobuf_read_int32(q, tag, N(i32)); break;
    case 1: e = noise_protobuf_read_uint32(q, tag, N(u32)); break;
    case 2: e = noise_protobuf_read_int64(q, tag, N(i64)); break;
    case 3: e = noise_protobuf_read_uint64(q, tag, N(u64)); break;
    case 4: e = noise_protobuf_read_sint32(q, tag, N(i32)); break;
    case 5: e = noise_protobuf_read_sint64(q, tag, N(i64)); break;
    case 6: e = noise_protobuf_read_sfixed32(q, tag, N(i32)); break;
    case 7: e = noise_protobuf_read_fixed32(q, tag, N(u32)); break;
    case 8: e = noise_protobuf_read_sfixed64(q, tag, N(i64)); break;
    case 9: e = noise_protobuf_read_fixed64(q, tag, N(u64)); break;
    case 10: e = noise_protobuf_read_float(q, tag, N(fl)); break;
    case 11: e = noise_protobuf_read_double(q, tag, N(db)); break;
    case 12: e = noise_protobuf_read_bool(q, tag, N(in)); break;
    case 13: e = noise_protobuf_read_string(q, tag, q ? nullptr : s, sizeof s, &sz); break;
    case 14: e = noise_protobuf_read_bytes(q, tag, q ? nullptr : s, sizeof s, &sz); break;
    case 15: e = noise_protobuf_read_alloc_string(q, tag, N(cp), 0, &sz); break;
    case 16: e = noise_protobuf_read_alloc_bytes(q, tag, N(vp), 0, &sz); break;
    case 17: e = noise_protobuf_read_start_element(q, tag, N(sz)); break;
    case 18: e = noise_protobuf_write_end_element(q, N(sz)); break;
    case 19: e = q ? BAD : noise_protobuf_read_end_element(q, 0); break;
    case 20: e = q ? BAD : noise_protobuf_finish_input(q); break;
    case 21: e = q ? BAD : noise_protobuf_read_skip(q); break;
    case 22: e = q ? noise_protobuf_prepare_input(&p, nullptr, 3) : noise_protobuf_prepare_input(nullptr, b, 3); break;
    case 23: e = q ? noise_protobuf_write_bytes(q, tag, nullptr, 3) : noise_protobuf_write_bytes(q, tag, b, 3); break;
    }
    g.key(strf("%u %d %d", f, tag, q != nullptr));
    g.nontrivial();
    CHECK_EQ(e, BAD, "null argument");
    CHECK_EQ(noise_protobuf_peek_tag(nullptr), 0, "peek_tag of null");
}

// ------------------------------------------------------------------ C17
static void check_utf8(Gen &g, const Bytes &s) {
    bool ok = ref_utf8(s);
    int want = ok ? 0 : NOISE_ERROR_INVALID_FORMAT;
    NoiseProtobuf p;
    Buf in(s), out(s.size() + 20);
    noise_protobuf_prepare_output(&p, out.p, out.n);
    CHECK_EQ(noise_protobuf_write_string(&p, 1, (char *)in.p, in.n), want, ("write_string of " + hex(s, 40)).c_str());
    // read it back in both ways, the same bytes written without the check
    noise_protobuf_prepare_output(&p, out.p, out.n);
    CHECK_EQ(noise_protobuf_write_bytes(&p, 1, in.p, in.n), 0, "write_bytes");
    uint8_t *d; size_t n;
    noise_protobuf_finish_output(&p, &d, &n);
    Bytes enc(d, d + n);
    Buf e(enc);
    NoiseProtobuf r;
    noise_protobuf_prepare_input(&r, e.p, e.n);
    Buf str(s.size() + 1); size_t sz = 0;
    CHECK_EQ(noise_protobuf_read_string(&r, 1, (char *)str.p, str.n, &sz), want, ("read_string of " + hex(s, 40)).c_str());
    if (ok) CHECK(sz == s.size() && str.bytes(sz) == s, "string read back");
    noise_protobuf_prepare_input(&r, e.p, e.n);
    char *a = nullptr;
    CHECK_EQ(noise_protobuf_read_alloc_string(&r, 1, &a, 0, &sz), want, ("read_alloc_string of " + hex(s, 40)).c_str());
    if (ok) { CHECK(sz == s.size() && Bytes(a, a + sz) == s, "string read back"); }
    free(a);
    g.label(ok ? "valid" : "invalid");
}
TARGET(C17, codepoints, 1, "every code point 0..0x1fffff in blocks of 64 (exhaustive from the first cases on), in its shortest and in over-long forms and cut short, between random neighbours; distinct by block and context") {
    uint32_t block = (uint32_t)g.en(0x200000 / 64);
    Bytes pre, post;
    if (g.flip()) for (int i = (int)g.u(3); i > 0; --i) put_cp(pre, gen_cp(g));
    if (g.flip()) for (int i = (int)g.u(3); i > 0; --i) put_cp(post, gen_cp(g));
    g.key(strf("%x %s %s", block, hex(pre).c_str(), hex(post).c_str()));
    g.note("U+%x.. after %s before %s", block * 64, hex(pre).c_str(), hex(post).c_str());
    g.nontrivial();
    for (uint32_t i = 0; i < 64; ++i) {
        uint32_t cp = block * 64 + i;
        int len = cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4;
        Bytes s = pre;
        put_cp(s, cp);
        Bytes t = s + post;
        check_utf8(g, t);
        if (len > 1 && i == block % 64) {      // cut short
            Bytes c = pre; put_cp(c, cp);
            c.resize(c.size() - 1 - g.u(len - 2));
            check_utf8(g, c + post);
        }
        if (len < 4 && i % 8 == block % 8) { Bytes o = pre; put_cp(o, cp, len + 1 + (int)g.u(3 - len)); check_utf8(g, o + post); }
    }
}
TARGET(C17, strings, 1, "random strings: valid text with 0-3 byte mutations, cuts, insertions, or arbitrary bytes biased to UTF-8 boundaries; distinct by the string") {
    Bytes s;
    if (g.chance(1, 3)) {
        static const uint8_t e[] = {0, 1, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xff, 'a'};
        for (int i = (int)g.u(8); i >= 0; --i) s.push_back(e[g.u(sizeof e - 1)]);
    } else {
        s = gen_text(g, g.chance(1, 30) ? 5000 : 30);
        for (int k = (int)g.u(3); k > 0 && !s.empty(); --k)
            switch (g.u(3)) {
            case 0: s[g.u(s.size() - 1)] = (uint8_t)g.u(255); break;
            case 1: s.erase(s.begin() + g.u(s.size() - 1)); break;
            case 2: s.insert(s.begin() + g.u(s.size()), (uint8_t)g.u(255)); break;
            case 3: s.resize(g.u(s.size())); break;
            }
    }
    g.key(hex(s, 100000));
    g.note("%s", hex(s, 60).c_str());
    g.nontrivial(s.size() > 1);
    check_utf8(g, s);
}
