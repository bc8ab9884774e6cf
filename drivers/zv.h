// Analysis harness interface. Harnesses are never executed: the abstract interpreter (engine/zabs)
// interprets their LLVM IR; the zv_* functions below exist only as abstract operations.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>

extern "C" {
uint64_t zv_sym(const char* name, uint64_t bits);              // any value of that many bits
uint64_t zv_split(uint64_t lo, uint64_t hi);                   // trace partitioning: one partition per value
void zv_shard();                                               // partitions before this point may be analysed in parallel
void zv_assume(bool cond);
void zv_check(bool cond, const char* msg);                     // proof obligation
void zv_check_eq(uint64_t got, uint64_t expected, const char* msg);
void zv_fail(const char* msg);                                 // obligation: unreachable
void zv_cover(const char* msg);                                // must be reachable (non-vacuity)
void zv_trace(const char* msg, uint64_t v);
uint8_t* zv_buffer(const char* name, uint64_t bytes);          // object of exactly that many arbitrary bytes
void zv_readonly(const void* p);
uint64_t zv_bits_at(const void* p, uint64_t bitpos, uint64_t n);     // MSB-first stream bits now
uint64_t zv_bits_orig(const void* p, uint64_t bitpos, uint64_t n);   // ... as they were initially
void zv_check_untouched(const void* p, uint64_t lo, uint64_t hi, const char* msg); // only bits [lo,hi) differ
void zv_mode(const char* key, uint64_t value);
void zv_alloc_limit(uint64_t bytes);
void zv_alloc_nolimit();
uint64_t zv_live();                                            // live heap blocks
bool zv_choice(const char* name);                              // nondeterministic
bool zv_same(uint64_t a, uint64_t b);                           // provably the same value
uint64_t zv_havoc();
bool zv_is_alive(const void* p);
void* zv_obj_alloc(uint64_t bytes, uint64_t tag);
void zv_obj_free(void* p, uint64_t tag);
}
#define ZV_HARNESS(name) extern "C" void zv_h_##name()
