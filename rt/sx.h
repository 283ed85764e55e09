// Interface between harnesses and the symbolic executor (engine/sx.cpp).
// The same harness also builds natively (rt/native.c): then the inputs come
// from a file the engine wrote, which is how counterexamples are replayed.
#ifndef SX_H
#define SX_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
uint64_t sx_int(const char *name, unsigned bits);        // arbitrary value
uint64_t sx_choose(const char *name, uint64_t n);        // arbitrary value < n, one path each
uint64_t sx_concrete(uint64_t v);                        // one path per feasible value
void sx_bytes(void *p, size_t n, const char *name);      // arbitrary bytes
void sx_assume(bool c);
void sx_check_(bool c, const char *msg);
void sx_reach(const char *name);                         // vacuity witness
void sx_fail(const char *msg);
uint64_t sx_live_allocs(void);                           // heap blocks currently allocated
uint64_t sx_live_bytes(void);
uint64_t sx_stack_depth(void);                           // how deep the calls are (natively: in bytes)
void sx_trace(const char *name, uint64_t v);
uint64_t sx_is_symbolic(uint64_t v);
#define sx_check(c, msg) sx_check_((c), msg)
static inline size_t sx_pick(const char *name, size_t n) { return (size_t)sx_concrete(sx_choose(name, n)); }
static inline uint64_t sx_u64(const char *name) { return sx_int(name, 64); }
static inline uint32_t sx_u32(const char *name) { return (uint32_t)sx_int(name, 32); }
static inline uint8_t sx_u8(const char *name) { return (uint8_t)sx_int(name, 8); }
static inline bool sx_bool(const char *name) { return sx_int(name, 1) != 0; }
// symbolic value in [lo, hi], no forking
static inline uint64_t sx_range(const char *name, uint64_t lo, uint64_t hi) { uint64_t v = sx_int(name, 64); sx_assume(v >= lo && v <= hi); return v; }
// In-memory files: fopen(path) in code under test finds them; output streams capture.
void sx_file(const char *path, const void *data, size_t n);
void sx_file_gen(const char *path, int (*next)(size_t pos)); // a file whose bytes are asked for as they are read
uint64_t sx_err_writes(void);                             // nonzero once something was written to stderr
FILE *sx_in_gen(int (*next)(size_t));                     // stream whose bytes are decided when read
FILE *sx_in(const void *data, size_t n);                 // readable stream
FILE *sx_out(void);                                      // capture stream
const char *sx_out_data(FILE *f, size_t *n);             // what was written so far
void sx_keep(FILE *f, char *buf, size_t cap, size_t *n);   // what was written to the output stream when it is closed
void sx_setenv(const char *name, const char *value);       // what getenv() returns (else NULL)
extern int sx_rand_fixed;                                // rand() returns this when >= 0
extern bool sx_rand_symbolic;                            // rand() returns arbitrary values when set
extern FILE *(*sx_fopen)(const char *path, const char *mode);  // decides fopen() when set
extern int (*sx_access)(const char *path);             // decides access() when set: 0 or -1
void sx_main(void);
#endif
