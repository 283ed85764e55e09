// Allocation accounting (C16): lib/alloc.c and fbld/alloc.c over a C library
// allocator that records what it is asked for, so that sizes are arbitrary
// 64-bit numbers.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include "sx.h"
typedef struct { _Alignas(16) char mem[96]; uint64_t asked; bool used; } Blk;
#define NBLK (STEPS * 2 + 4)
static Blk blks[NBLK]; static int nblk; static int nlive; static bool leaked; static void (*at_exit)(void);
static void* my_malloc(size_t n) { sx_check(nblk < NBLK, "harness: blocks"); Blk* b = &blks[nblk++]; b->asked = n; b->used = true; nlive++; return b->mem; }
static Blk* Of(void* p) { for (int i = 0; i < nblk; ++i) if (p == blks[i].mem) { sx_check(blks[i].used, "a block given back is live"); return &blks[i]; } sx_fail("a block given back was handed out"); return NULL; }
static void my_free(void* p) { if (p) { Of(p)->used = false; nlive--; } }
static void* my_realloc(void* p, size_t n) { if (!p) return my_malloc(n); Blk* b = Of(p); void* q = my_malloc(n); memcpy(q, p, 96); b->used = false; nlive--; return q; }
static int my_atexit(void (*f)(void)) { at_exit = f; return 0; }
static void my_abort(void) { leaked = true; }
#define malloc my_malloc
#define free my_free
#define realloc my_realloc
#define atexit my_atexit
#define abort my_abort
#if FBLD
#include "fbld/alloc.c"
#define A FbldAllocRaw
#define R FbldReAllocRaw
#define F FbldFree
#else
#include "lib/alloc.c"
#define A FbleAllocRaw
#define R FbleReAllocRaw
#define F FbleFree
#endif
typedef struct { unsigned char* p; uint64_t size; uint8_t mark; bool live; } Use;
static Use us[STEPS + 1]; static int nu;
static uint64_t total, max;
static void Check(Use* u) {
  Blk* b = NULL;
  for (int i = 0; i < nblk; ++i) if (blks[i].used && (char*)u->p >= blks[i].mem && (char*)u->p < blks[i].mem + 96) b = &blks[i];
  sx_check(b != NULL, "the allocation lies in a live block");
  uint64_t off = (uint64_t)((char*)u->p - b->mem);
  sx_check(off % 8 == 0, "the allocation is aligned");
  sx_check(b->asked >= u->size && b->asked - u->size >= off, "the block is large enough for what was asked for");
}
void sx_main(void) {
  for (int s = 0; s < STEPS; ++s) {
    size_t op = sx_pick("op", FBLD ? 3 : 4);
    size_t k = op == 1 || op == 2 ? sx_pick("which", (size_t)nu + 1) : 0;     // nu stands for NULL
    if (k < (size_t)nu) sx_assume(us[k].live);
    uint64_t n = op < 2 ? sx_int("size", 12) + ((uint64_t)sx_int("large", 1) << 33) : 0;
    if (op == 0 || (op == 1 && k == (size_t)nu)) {
      Use* u = &us[nu++];
      u->p = op == 0 ? A(n) : R(NULL, n);
      u->size = n; u->live = true; u->mark = sx_u8("mark"); u->p[0] = u->mark;
      total += n;
    } else if (op == 1) {
      Use* u = &us[k];
      u->p = R(u->p, n);
      total += n - u->size; u->size = n;
      sx_check(u->p[0] == u->mark, "resizing keeps the contents");
    } else if (op == 2) {
      if (k == (size_t)nu) F(NULL);
      else { Use* u = &us[k]; F(u->p); total -= u->size; u->live = false; }
    }
    max = total > max ? total : max;
#if !FBLD
    if (op == 3) { FbleResetMaxTotalBytesAllocated(); max = total; }
    sx_check(FbleMaxTotalBytesAllocated() == max, "the reported maximum is the maximum since the last reset");
#endif
    for (int i = 0; i < nu; ++i) if (us[i].live && (i == nu - 1 || (op == 1 && (size_t)i == k))) Check(&us[i]);
  }
  int live = 0; uint64_t sum = 0;
  for (int i = 0; i < nu; ++i) if (us[i].live) { live++; sum += us[i].size; }
  sx_check(nlive == live, "as many blocks as live allocations");
  if (at_exit) {
    at_exit();
#if FBLD
    sx_check(leaked == (live > 0), "leaks are reported at exit exactly when there are some");
#else
    sx_check(leaked == (sum > 0), "leaks are reported at exit exactly when there are some");
#endif
    leaked = false;
    for (int i = 0; i < nu; ++i) if (us[i].live) F(us[i].p);
    at_exit();
    sx_check(!leaked && nlive == 0, "no leak is reported once everything is freed");
  }
  sx_reach("end");
}
