// Guarded buffers and allocation-failure scripts (C23, C24, C25).
#ifndef ROBUST_H
#define ROBUST_H
#include "nutil.h"
#include <functional>

// Memory handed to the library.  Exactly sized heap blocks let ASan see
// accesses by instrumented code; guards on both sides show writes by any code.
struct Out {
    bool guard; size_t n; uint8_t *base, *p; Bytes before;
    static const size_t G = 80;
    Out(Gen &g, size_t n_, int fill = 0xa5) : guard(g.flip()), n(n_) { make(Bytes(n_, (uint8_t)fill)); }
    Out(Gen &g, const Bytes &b) : guard(g.flip()), n(b.size()) { make(b); }
    void make(const Bytes &b) {
        size_t t = guard ? n + 2 * G : n ? n : 1;
        base = (uint8_t *)::operator new(t);
        for (size_t i = 0; i < t; ++i) base[i] = (uint8_t)(0xc3 ^ i);
        p = base + (guard ? G : 0);
        if (n) memcpy(p, b.data(), n);
        before = b;
    }
    ~Out() { ::operator delete(base); }
    Out(const Out &) = delete;
    Bytes bytes() const { return Bytes(p, p + n); }
    Bytes bytes(size_t k) const { return Bytes(p, p + k); }
    // nothing outside; nothing inside from `used` on
    void check(size_t used, const char *what) const {
        if (guard) for (size_t i = 0; i < n + 2 * G; ++i)
            if (i < G || i >= G + n) CHECK(base[i] == (uint8_t)(0xc3 ^ i), "%s wrote outside the caller's %zu bytes (at %ld)", what, n, (long)i - (long)G);
        for (size_t i = used; i < n; ++i) CHECK(p[i] == before[i], "%s reports %zu bytes but changed byte %zu of the caller's %zu", what, used, i, n);
    }
};
static inline size_t pick_cap(Gen &g, size_t need) {
    switch (g.u(9)) {
    case 0: case 1: return need;
    case 2: return need + 1 + g.u(40);
    case 3: case 4: return need ? need - 1 : 0;
    case 5: return need > 16 ? need - 16 : 0;
    case 6: return 0;
    case 7: return need ? g.u(need - 1) : 0;
    case 8: return need > 2 ? need - 1 - g.u(need - 2 < 20 ? need - 2 : 20) : need;
    default: return need + g.u(1) * 65535;
    }
}

// A script of library calls run once without and then with failing allocations.
struct Stop {};
struct Oom {
    bool sticky = false;
    bool ossl = false;          // OpenSSL's own allocations fail too
    int injected_in = 0;        // calls during which an allocation failed
    Bytes log;
    std::vector<std::function<void()>> frees;
    // f returns an error code; what it produced must be consistent with it
    void call(const char *what, const std::function<int()> &f, bool retry = true) {
        bool before = alloc_failed();
        ossl_gate = ossl;
        int err = f();
        ossl_gate = false;
        bool now = alloc_failed() && (sticky || !before);
        if (!now) { CHECK(err == 0, "%s: error 0x%x though no allocation failed in it", what, err); return; }
        ++injected_in;
        if (err == 0) return;      // did without the memory: the results must still be right
        CHECK(err == NOISE_ERROR_NO_MEMORY || (ossl && err == NOISE_ERROR_SYSTEM), "%s: allocation failure reported as 0x%x", what, err);
        if (sticky || !retry) throw Stop();
        ossl_gate = ossl;
        err = f();
        ossl_gate = false;
        CHECK(err == 0, "%s: fails with 0x%x when repeated after an allocation failure", what, err);
    }
    void add(const uint8_t *p, size_t n) { log.insert(log.end(), p, p + n); }
};
typedef std::function<void(Oom &)> Script;
static inline void oom_runs(Gen &g, const Script &script, size_t max_runs, bool ossl) {
    auto run = [&](uint64_t n, bool sticky, Oom &o) {
        o.sticky = sticky; o.ossl = ossl;
        alloc_begin();
        alloc_fail_at(n, sticky);
        bool stopped = false;
        try { script(o); } catch (Stop &) { stopped = true; }
        size_t total = alloc_count();
        bool failed = alloc_failed();
        alloc_fail_at(~0ull);
        while (!o.frees.empty()) { o.frees.back()(); o.frees.pop_back(); }
        size_t live = alloc_live();
        std::string rep = live ? alloc_live_report() : "";
        alloc_end();
        if (live) leak_note = strf("%zu blocks are still allocated after everything was freed (failure at %lld%s): %s", live, (long long)n, sticky ? " and on" : "", rep.c_str());
        CHECK(live == 0, "%s", leak_note.c_str());
        if (failed) { g.label(stopped ? "stopped" : "recovered"); g.nontrivial(); }
        return std::make_pair(total, stopped);
    };
    Oom base;
    size_t total = run(~0ull, false, base).first;
    CHECK(total > 0, "no allocations");
    g.note(" allocations=%zu", total);
    std::vector<std::pair<size_t, bool>> todo;
    for (size_t i = 0; i < total; ++i) { todo.push_back({i, false}); todo.push_back({i, true}); }
    for (size_t r = 0; r < max_runs && !todo.empty(); ++r) {
        size_t i = g.u(todo.size() - 1);
        auto t = todo[i];
        todo.erase(todo.begin() + i);
        g.key(strf("%zu%d", t.first, t.second));
        Oom o;
        auto res = run(t.first, t.second, o);
        CHECK(o.injected_in > 0 || t.first >= total || ossl, "an allocation failed outside any call?");
        if (!res.second) CHECK(o.log == base.log, "after a failed allocation (#%zu of %zu) the session went on differently", t.first, total);
    }
}
#endif
