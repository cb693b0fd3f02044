// C22: the system entropy source.  Linked without the stand-in for
// noise_rand_bytes; the system calls it makes go through a scripted device.
#include "nutil.h"
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <deque>
extern "C" void noise_rand_bytes(void *bytes, size_t size);

namespace {
enum Kind { FULL, SHORT, INTR, ERROR, END };
struct Step { Kind k; size_t n; int err; };
struct Device {
    bool armed = false;
    int open_errno = 0;
    std::deque<Step> steps;        // read outcomes; afterwards every read is full
    Prng data{1};
    Bytes delivered;               // everything successful reads handed out
    int opens = 0, closes = 0, reads = 0, open_now = 0;
    bool full_delivered = false, bad_fd = false;
    bool cloexec = false;
    size_t largest = 0;
    std::vector<std::pair<uintptr_t, size_t>> filled;
} dev;
const int FD = 4242;
jmp_buf on_exit_;
int exit_status = -1;
}
extern "C" {
int __real_open(const char *, int, ...);
ssize_t __real_read(int, void *, size_t);
int __real_close(int);
void __real_exit(int) __attribute__((noreturn));
int __wrap_open(const char *path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (!dev.armed || (strcmp(path, "/dev/urandom") && strcmp(path, "/dev/random"))) return __real_open(path, flags, mode);
    if (dev.open_errno) { errno = dev.open_errno; return -1; }
    ++dev.opens; ++dev.open_now;
    return FD;
}
ssize_t __wrap_read(int fd, void *p, size_t n) {
    if (!dev.armed) return __real_read(fd, p, n);
    if (fd != FD || !dev.open_now) { dev.bad_fd = true; errno = EBADF; return -1; }
    ++dev.reads;
    Step s{FULL, 0, 0};
    if (!dev.steps.empty()) { s = dev.steps.front(); dev.steps.pop_front(); }
    size_t k = n;
    switch (s.k) {
    case INTR: errno = EINTR; return -1;
    case ERROR: errno = s.err; return -1;
    case END: return 0;
    case SHORT: if (n <= 1) break; k = 1 + s.n % (n - 1); break;
    default: break;
    }
    dev.data.fill((uint8_t *)p, k);
    dev.delivered.insert(dev.delivered.end(), (uint8_t *)p, (uint8_t *)p + k);
    dev.filled.push_back({(uintptr_t)p, k});
    return (ssize_t)k;
}
int __wrap_close(int fd) {
    if (!dev.armed || fd != FD) return __real_close(fd);
    ++dev.closes; --dev.open_now;
    return 0;
}
void __wrap_exit(int st) {
    if (!dev.armed) __real_exit(st);
    exit_status = st;
    longjmp(on_exit_, 1);
}
void randombytes_buf(void *, size_t) __attribute__((weak));
struct randombytes_implementation_ { const char *(*name)(void); uint32_t (*random)(void); void (*stir)(void);
    uint32_t (*uniform)(uint32_t); void (*buf)(void *, size_t); int (*close)(void); };
int randombytes_set_implementation(void *) __attribute__((weak));
}
namespace {
const char *impl_name() { return "scripted"; }
uint32_t impl_random() { uint32_t r; dev.data.fill((uint8_t *)&r, 4); return r; }
void impl_buf(void *p, size_t n) {
    ++dev.reads;
    dev.data.fill((uint8_t *)p, n);
    dev.delivered.insert(dev.delivered.end(), (uint8_t *)p, (uint8_t *)p + n);
}
void impl_stir() {}
int impl_close() { return 0; }

struct Quiet {              // perror and the final message
    FILE *save, *f;
    Quiet() : save(stderr), f(fopen("/dev/null", "w")) { stderr = f; }
    ~Quiet() { stderr = save; fclose(f); }
};
// Runs f with the device armed. -> true if it returned, false if it ended the process
template <class F> bool run(F f) {
    exit_status = -1;
    Quiet q;
    dev.armed = true;
    volatile bool returned = false;
    if (!setjmp(on_exit_)) { f(); returned = true; }
    dev.armed = false;
    return returned;
}
// the random bytes end up here; what becomes of them is checked against `delivered`
struct Op { const char *name; size_t size; };
}
static void reset_dev(Gen &g) {
    dev = Device();
    dev.data.reseed(g.idx * 2654435761u + 77);
}
static std::string gen_plan(Gen &g) {
    std::string d;
    if (g.chance(1, 8)) {
        static const int errs[] = {ENOENT, EACCES, EMFILE, ENFILE, EINTR, ENXIO, EIO};
        dev.open_errno = errs[g.u(6)];
        return strf("open fails (%d)", dev.open_errno);
    }
    int n = (int)g.u(6);
    for (int i = 0; i < n; ++i) {
        static const int errs[] = {EIO, EAGAIN, EBADF, EFAULT, EINVAL, EISDIR};
        Step s{FULL, 0, 0};
        switch (g.u(7)) {
        case 0: case 1: case 2: s.k = INTR; d += " EINTR"; break;
        case 3: case 4: s.k = SHORT; s.n = g.chance(1, 3) ? 0 : g.u(70); d += strf(" short(%zu)", s.n); break;
        case 5: s.k = ERROR; s.err = errs[g.u(5)]; d += strf(" error(%d)", s.err); break;
        case 6: s.k = END; d += " end"; break;
        default: d += " full"; break;
        }
        dev.steps.push_back(s);
    }
    return d;
}
// what the plan must lead to: 1 the call returns, 0 the process ends, -1 either
// (a short read may be completed or taken for a failure, never for success)
static int expectation() {
    if (dev.open_errno) return dev.open_errno == EINTR ? -1 : 0;
    for (auto &s : dev.steps) {
        if (s.k == INTR) continue;
        if (s.k == SHORT) return -1;
        if (s.k == FULL) return 1;
        if (s.k == ERROR && s.err == EAGAIN) return -1;
        return 0;
    }
    return 1;
}
static void check_end(Gen &g, bool returned, int want, const std::string &plan) {
    CHECK(!dev.bad_fd, "read from another descriptor");
    g.label(returned ? "returned" : "process ended");
    if (!returned) CHECK(exit_status != 0, "the process ends with status 0 (%s)", plan.c_str());
    if (want >= 0) CHECK(returned == (want == 1), "with%s the call %s", plan.c_str(), returned ? "returned" : "ended the process");
    if (returned && dev.open_now > 0) leak_note = strf("%d descriptors of the entropy source are left open", (int)dev.open_now);
    if (returned) CHECK(dev.open_now == 0, "%d descriptors left open", dev.open_now);
}
TARGET(C22, device, 2, "requests of every size to the operating system's entropy source under scripted open failures, interrupted, short, failing and empty reads: the call returns only with every byte read from the device, otherwise the process ends with a failing status; distinct by size and outcome sequence") {
    reset_dev(g);
    size_t size = g.size(5000, {0, 1, 32, 40, 56, 64});
    if (g.chance(1, 40)) size = 65500 + g.size(300000, {36, 37, 40});
    Buf b(size + 8);
    if (g_backend == "sodium") {           // libsodium's source: every byte is asked of it
        randombytes_implementation_ im = {impl_name, impl_random, impl_stir, nullptr, impl_buf, impl_close};
        randombytes_set_implementation(&im);
        noise_rand_bytes(b.p, size);
        randombytes_set_implementation(nullptr);
        CHECK(b.bytes(size) == dev.delivered, "the bytes are not those of the source");
        for (int i = 0; i < 8; ++i) CHECK(b.p[size + i] == 0xa5, "wrote past the request");
        g.key(strf("%zu", size));
        g.note("%zu bytes", size);
        g.nontrivial(size > 0);
        return;
    }
    std::string plan = gen_plan(g);
    int want = expectation();
    g.note("%zu bytes:%s", size, plan.c_str());
    g.key(strf("%zu", size) + plan);
    g.nontrivial(!plan.empty());
    bool ret = run([&] { noise_rand_bytes(b.p, size); });
    for (int i = 0; i < 8; ++i) CHECK(b.p[size + i] == 0xa5, "wrote past the request");
    if (size == 0) return;
    check_end(g, ret, want, plan);
    if (ret) {
        // every byte comes from the device: the last reads cover the buffer
        std::vector<bool> cov(size);
        for (auto &f : dev.filled)
            for (size_t i = 0; i < f.second; ++i)
                if (f.first + i >= (uintptr_t)b.p && f.first + i < (uintptr_t)b.p + size) cov[f.first + i - (uintptr_t)b.p] = true;
        size_t n = 0;
        for (bool c : cov) n += c;
        Bytes got = b.bytes(size);
        // (read directly into the buffer, or through a temporary)
        bool direct = n == size;
        bool tail = dev.delivered.size() >= size && (Bytes(dev.delivered.begin(), dev.delivered.begin() + size) == got || Bytes(dev.delivered.end() - size, dev.delivered.end()) == got);
        CHECK(direct || tail, "returned with %zu of %zu bytes read from the device (%s)", n, size, plan.c_str());
        CHECK(dev.delivered.size() >= size, "the device delivered %zu bytes of %zu", dev.delivered.size(), size);
    }
}
TARGET(C22, keys, 1, "key pairs (Curve25519, Curve448, New Hope, Ed25519), random-number objects, handshake ephemerals and salts made while the entropy source fails in the same ways: an operation that returns has read all it needs and the private key consists of those bytes, otherwise the process ends; distinct by operation and outcome sequence") {
    reset_dev(g);
    int op = (int)g.en(7);
    static const char *names[] = {"X25519 key", "X448 key", "NewHope key", "Ed25519 key", "random object", "one-shot random", "handshake ephemeral"};
    static const size_t need[] = {32, 56, 64, 32, 40, 40, 32};
    bool so = g_backend == "sodium";
    std::string plan;
    int want = 1;
    if (!so) { plan = gen_plan(g); want = expectation(); }
    NoiseDHState *dh = nullptr; NoiseSignState *sg = nullptr; NoiseRandState *rs = nullptr; NoiseHandshakeState *hs = nullptr;
    struct Fin { NoiseDHState *&d; NoiseSignState *&s; NoiseRandState *&r; NoiseHandshakeState *&h;
        ~Fin() { if (d) noise_dhstate_free(d); if (s) noise_signstate_free(s); if (r) noise_randstate_free(r); if (h) noise_handshakestate_free(h); } } fin{dh, sg, rs, hs};
    if (op <= 2) { static const int ids[] = {NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE}; CHECK_EQ(noise_dhstate_new_by_id(&dh, ids[op]), 0, "new"); }
    if (op == 3) CHECK_EQ(noise_signstate_new_by_id(&sg, NOISE_SIGN_ED25519), 0, "new");
    if (op == 6) {
        CHECK_EQ(noise_handshakestate_new_by_name(&hs, "Noise_NN_25519_ChaChaPoly_BLAKE2s", NOISE_ROLE_INITIATOR), 0, "new");
        CHECK_EQ(noise_handshakestate_start(hs), 0, "start");
    }
    Buf out(100);
    NoiseBuffer mb;
    noise_buffer_set_output(mb, out.p, out.n);
    int err = 0;
    randombytes_implementation_ im = {impl_name, impl_random, impl_stir, nullptr, impl_buf, impl_close};
    if (so) randombytes_set_implementation(&im);
    bool ret = run([&] {
        switch (op) {
        case 0: case 1: case 2: err = noise_dhstate_generate_keypair(dh); break;
        case 3: err = noise_signstate_generate_keypair(sg); break;
        case 4: err = noise_randstate_new(&rs); break;
        case 5: err = noise_randstate_generate_simple(out.p, 50); break;
        default: err = noise_handshakestate_write_message(hs, &mb, nullptr);
        }
    });
    if (so) randombytes_set_implementation(nullptr);
    g.note("%s:%s", names[op], plan.c_str());
    g.key(names[op] + plan);
    g.nontrivial(!plan.empty() || so);
    check_end(g, ret, want, plan);
    if (!ret) { if (op == 4 && rs) { free(rs); rs = nullptr; } return; }
    if (op == 4 && !rs) FAILF("no object");
    CHECK_EQ(err, 0, names[op]);
    CHECK(dev.delivered.size() >= need[op], "%s: %zu bytes read from the device, at least %zu needed", names[op], dev.delivered.size(), need[op]);
    auto from_device = [&](const Bytes &k) {
        if (dev.delivered.size() < k.size()) return false;
        for (const Bytes &d : {Bytes(dev.delivered.begin(), dev.delivered.begin() + k.size()), Bytes(dev.delivered.end() - k.size(), dev.delivered.end())}) {
            int diff = 0;           // (curve keys are clamped)
            for (size_t i = 0; i < k.size(); ++i) diff += __builtin_popcount(d[i] ^ k[i]);
            if (diff <= 5) return true;
        }
        return false;
    };
    if (op <= 1) {
        Bytes k(op ? 56 : 32), p(k.size());
        CHECK_EQ(noise_dhstate_get_keypair(dh, k.data(), k.size(), p.data(), p.size()), 0, "get_keypair");
        CHECK(from_device(k), "%s: the private key is not what the device delivered", names[op]);
    } else if (op == 3) {
        Bytes k(32), p(32);
        CHECK_EQ(noise_signstate_get_keypair(sg, k.data(), 32, p.data(), 32), 0, "get_keypair");
        CHECK(from_device(k), "the signing key is not what the device delivered");
    } else if (op == 6) {
        bool hit = false;
        for (size_t o = 0; o + 32 <= dev.delivered.size() && !hit; ++o) hit = o_dh_public(O_25519, sub(dev.delivered, o, 32)) == Bytes(mb.data, mb.data + 32);
        CHECK(hit, "the ephemeral key does not come from the device");
    }
}
