// Interface between the harnesses and the symbolic executor.  Compiled to
// bitcode the functions are interpreted by u5sym; compiled natively
// (-DSYM_NATIVE) they replay one concrete assignment of the inputs.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t sym_input(const char* name, int bits);   // a fresh unconstrained value of that many bits
void sym_assume(int cond);                        // restricts the inputs
void sym_assert(int cond, const char* msg);       // the property
void sym_assert_eq(int a, int b, const char* msg);  // decided by the solver without any rewriting
void sym_raw(int on);                              // oracle results stay unsimplified tables
void sym_reach(const char* tag);                  // this path got here (vacuity witness)
void sym_observe(const char* name, uint64_t v);   // compared with the replay of sampled paths
uint64_t sym_conc(uint64_t v);                    // case split on every value
int sym_engine();                                 // 1 under symbolic execution
int sym_memeq(const void* a, const void* b, size_t n);
void sym_end();                                   // drop the path
int sym_dirty(); void sym_mark(); void sym_direct(int on);
void sym_fresh_init(); void sym_fresh_begin(); void sym_fresh_end(); void sym_fresh_native(void (*fn)(int*), int* sh);
void sym_fail(int on); int sym_live();             // allocations may fail from now on; number of live ones
void* sym_scratch(size_t n);                      // memory that never fails and does not count
int sym_plain();                                  // memory older than sym_mark has been written without protection
void* sym_shared(size_t n); int sym_writable(const void* p);
}
// runs fn(sh) as in a process that did nothing since sym_fresh_init; sh is memory of sym_shared that was there before
static inline void sym_fresh(void (*fn)(int*), int* sh) { if (sym_engine()) { sym_fresh_begin(); fn(sh); sym_fresh_end(); } else sym_fresh_native(fn, sh); }
static inline uint32_t sym_u(const char* n, int bits) { return (uint32_t)sym_input(n, bits); }
// a value in 0..n-1, one path per value
static inline int sym_choice(const char* name, int n) { uint32_t v = (uint32_t)sym_input(name, 8); sym_assume(v < (uint32_t)n); return (int)sym_conc(v); }
