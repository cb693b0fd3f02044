// What functions of the library leave in their stack frames (C38).  The
// library, apart from the primitives in src/crypto, is compiled with
// -finstrument-functions -fno-inline -fno-omit-frame-pointer; each frame is
// copied when its function returns, and searched for secrets when the case is
// over and all of them are known.  (What was in the frame already when the
// function was entered is not the function's.)
#include "pbt.h"
#include "env.h"
#include <dlfcn.h>
#include <unistd.h>
#include <string.h>
#include <set>
#define NOI __attribute__((no_instrument_function))
namespace {
struct Frame { void *fn; size_t at, n, at0, n0; };
const size_t POOL = 96u << 20, MAX = 1u << 16, DEAD = 16384;
uint8_t *pool;
size_t used;
std::vector<Frame> frames;
struct Entry { uintptr_t fp; size_t at, n; };
std::vector<Entry> entries;
bool on;
}
extern "C" {
NOI void __cyg_profile_func_enter(void *, void *) {
    if (!on) return;
    uintptr_t *me = (uintptr_t *)__builtin_frame_address(0);
    uintptr_t lo = (uintptr_t)(me + 2), hi = me[0];
    size_t n = hi - lo;
    if (hi <= lo || n > MAX || used + n > POOL || entries.size() > 1000) { entries.push_back({hi, used, 0}); return; }
    uint8_t *d = pool + used;
    entries.push_back({hi, used, n});
    memcpy(d, (void *)lo, n);
    used += n;
}
NOI void __cyg_profile_func_exit(void *fn, void *) {
    if (!on) return;
    uintptr_t *me = (uintptr_t *)__builtin_frame_address(0);
    uintptr_t lo = (uintptr_t)(me + 2), hi = me[0];
    while (!entries.empty() && entries.back().fp < hi) entries.pop_back();   // (left by an exception)
    size_t at0 = 0, n0 = 0;
    if (!entries.empty() && entries.back().fp == hi) { at0 = entries.back().at; n0 = entries.back().n; entries.pop_back(); }
    size_t n = hi - lo;
    if (hi <= lo || n > MAX || used + n > POOL || frames.size() >= frames.capacity()) return;
    memcpy(pool + used, (void *)lo, n);
    frames.push_back({fn, used, n, at0, n0});
    used += n;
    // what the primitives it called left behind is not to be found in the
    // frames of functions called later
    uint64_t *sp = (uint64_t *)((uintptr_t)me & ~(uintptr_t)15) - 256;
    for (volatile uint64_t *q = sp - DEAD / 8; q < sp; ++q) *q = 0;
}
}
static NOI void stack_begin() {
    if (!pool) { pool = (uint8_t *)::operator new(POOL); frames.reserve(1u << 19); entries.reserve(2000); }
    used = 0; frames.clear(); entries.clear();
    secrets_keep(true);
    on = true;
}
static NOI std::string symbol(void *fn) {
    Dl_info di;
    if (!dladdr(fn, &di)) return "?";
    if (di.dli_sname && di.dli_saddr == fn) return di.dli_sname;
    std::string r = strf("+%zx", (size_t)((char *)fn - (char *)di.dli_fbase));
    FILE *f = popen(strf("addr2line -f -e /proc/%d/exe %s 2>/dev/null", (int)getpid(), r.c_str() + 1).c_str(), "r");
    char line[200];
    if (f && fgets(line, sizeof line, f) && line[0] != '?') { r = line; r.pop_back(); }
    if (f) pclose(f);
    return r;
}
static NOI std::string stack_end() {
    on = false;
    const size_t W = 12;
    std::string out;
    std::set<std::string> seen;
    auto sec = secrets_kept();
    for (size_t i = 0, n = sec.size(); i < n; ++i)          // as HMAC keys
        for (uint8_t pad : {0x36, 0x5c}) {
            Bytes x = sec[i].first;
            for (auto &c : x) c ^= pad;
            if (x.size() <= 64) sec.push_back({x, sec[i].second + " (as HMAC key)"});
        }
    std::set<Bytes> done;
    for (const auto &s : sec) {
        if (s.first.size() < W || !done.insert(s.first).second) continue;
        for (auto &f : frames) {
            for (size_t o = 0; o + W <= s.first.size(); o += 4) {
                const uint8_t *base = pool + f.at, *hit = (const uint8_t *)memmem(base, f.n, s.first.data() + o, W);
                if (!hit) continue;
                size_t kinds = 0; bool k[256] = {0};
                for (size_t i = 0; i < W; ++i) if (!k[hit[i]]) { k[hit[i]] = true; ++kinds; }
                if (kinds < 8) continue;
                // there already when the function was entered?  (frames grow down: compare from the top)
                size_t top = f.n - (size_t)(hit - base);
                if (top <= f.n0 && !memcmp(pool + f.at0 + f.n0 - top, hit, W)) continue;
                std::string fn = symbol(f.fn);
                if (!seen.insert(fn + s.second).second) continue;
                if (FILE *lf = getenv("STACK_ALL") ? fopen(getenv("STACK_ALL"), "a") : nullptr) { fprintf(lf, "STACK %s leaves %s (offset %zu)\n", fn.c_str(), s.second.c_str(), o); fclose(lf); }
                if (out.empty()) out = fn + " returns with " + s.second + strf(" (offset %zu) in its stack frame", o);
            }
        }
    }
    secrets_keep(false);
    return getenv("STACK_ALL") ? "" : out;
}
static struct StackInit { StackInit() { stack_begin_hook = stack_begin; stack_end_hook = stack_end; } } stack_init_;
