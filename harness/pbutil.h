// Independent protobuf wire and UTF-8 helpers.
#ifndef PBUTIL_H
#define PBUTIL_H
#include "pbt.h"
static inline void put_varint(Bytes &o, uint64_t v, int pad = 0) {
    int n = 0;
    do { uint8_t b = v & 0x7f; v >>= 7; ++n; o.push_back(b | (v || (n < pad) ? 0x80 : 0)); } while (v || n < pad);
}
static inline void put_le(Bytes &o, uint64_t v, int n) { for (int i = 0; i < n; ++i) o.push_back((uint8_t)(v >> (8 * i))); }

// ------------------------------------------------ independent UTF-8 check
// Table 3-7 of the Unicode standard, plus "no NUL".
static inline bool ref_utf8(const Bytes &s) {
    size_t i = 0, n = s.size();
    auto in = [&](size_t k, int lo, int hi) { return k < n && s[k] >= lo && s[k] <= hi; };
    while (i < n) {
        uint8_t c = s[i];
        if (c >= 1 && c <= 0x7f) i += 1;
        else if (c >= 0xc2 && c <= 0xdf && in(i + 1, 0x80, 0xbf)) i += 2;
        else if (c == 0xe0 && in(i + 1, 0xa0, 0xbf) && in(i + 2, 0x80, 0xbf)) i += 3;
        else if (((c >= 0xe1 && c <= 0xec) || c == 0xee || c == 0xef) && in(i + 1, 0x80, 0xbf) && in(i + 2, 0x80, 0xbf)) i += 3;
        else if (c == 0xed && in(i + 1, 0x80, 0x9f) && in(i + 2, 0x80, 0xbf)) i += 3;
        else if (c == 0xf0 && in(i + 1, 0x90, 0xbf) && in(i + 2, 0x80, 0xbf) && in(i + 3, 0x80, 0xbf)) i += 4;
        else if (c >= 0xf1 && c <= 0xf3 && in(i + 1, 0x80, 0xbf) && in(i + 2, 0x80, 0xbf) && in(i + 3, 0x80, 0xbf)) i += 4;
        else if (c == 0xf4 && in(i + 1, 0x80, 0x8f) && in(i + 2, 0x80, 0xbf) && in(i + 3, 0x80, 0xbf)) i += 4;
        else return false;
    }
    return true;
}
static inline void put_cp(Bytes &o, uint32_t cp, int n = 0) {
    if (!n) n = cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4;
    static const uint8_t lead[] = {0, 0, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc};
    if (n == 1) { o.push_back((uint8_t)cp); return; }
    o.push_back((uint8_t)(lead[n] | (cp >> (6 * (n - 1)))));
    for (int i = n - 2; i >= 0; --i) o.push_back(0x80 | ((cp >> (6 * i)) & 0x3f));
}
static inline uint32_t gen_cp(Gen &g) {
    switch (g.u(5)) {
    case 0: return 1 + (uint32_t)g.u(0x7e);
    case 1: return 0x80 + (uint32_t)g.u(0x77f);
    case 2: return 0x800 + (uint32_t)g.u(0xcfff);
    case 3: return 0xe000 + (uint32_t)g.u(0x1fff);
    case 4: return 0x10000 + (uint32_t)g.u(0xfffff);
    default: { static const uint32_t e[] = {1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0xfeff}; return e[g.u(11)]; }
    }
}
static inline Bytes gen_text(Gen &g, size_t maxchars) {
    Bytes o;
    size_t n = g.size(maxchars);
    bool ascii = g.flip();
    for (size_t i = 0; i < n; ++i) put_cp(o, ascii ? 0x20 + (uint32_t)g.u(0x5e) : gen_cp(g));
    return o;
}

#endif
