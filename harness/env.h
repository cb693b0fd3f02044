// Test environment: deterministic randomness, allocation tracking and faults.
#ifndef ENV_H
#define ENV_H
#include "pbt.h"
#include <set>

// --- randomness: replaces the operating system's entropy in most harnesses
void env_rand_seed(uint64_t seed);
extern thread_local Bytes *env_rand_log;       // if set, everything handed out is appended
extern thread_local const Bytes *env_rand_script; // if set, bytes come from here first
extern thread_local size_t env_rand_script_pos;
extern thread_local Prng *env_rand_prng;       // if set, bytes come from here only
extern void (*env_rand_hook)(void *, size_t);  // if set, called first
extern thread_local size_t env_rand_calls, env_rand_bytes_total;

// --- allocations made by the library
void alloc_begin();                 // start tracking (counts start from 0)
void alloc_end();                   // stop tracking
size_t alloc_live();                // tracked blocks not yet freed
size_t alloc_peak();                // most bytes live at once
size_t alloc_count();               // allocations attempted since alloc_begin
void alloc_fail_at(uint64_t n, bool sticky = false);  // nth attempt (0-based) fails; ~0 = never
bool alloc_failed();                // a failure was injected
std::string alloc_live_report();
Bytes block_bytes(const void *p);   // contents of a tracked block (empty if unknown)
std::vector<Bytes> live_blocks();   // contents of all tracked blocks
extern bool ossl_gate;              // OpenSSL's own allocations count and fail too
bool ossl_hook();                   // call before any use of OpenSSL
// secrets: byte strings that may not be in memory given back with free()
void secrets_clear();
void secret_keep(const Bytes &b, const char *name);   // one that only matters there (C38)
bool secrets_keeping();
void secrets_keep(bool on);            // remember those of a whole case
const std::vector<std::pair<Bytes, std::string>> &secrets_kept();
void secret_add(const uint8_t *p, size_t n, const char *name);
inline void secret_add(const Bytes &b, const char *name) { secret_add(b.data(), b.size(), name); }
extern std::string secret_leak;     // description of the first leak
extern uint64_t secret_frees;       // blocks examined
#endif
