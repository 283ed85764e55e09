// Native side of rt/sx.h: inputs come from the file named by SX_REPLAY, and a
// failing check ends the program with status 77 and a message.
#define _GNU_SOURCE 1
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <malloc.h>
#include <sys/mman.h>
#include <string.h>
#include <stdlib.h>
#include "sx.h"
char *__real_getenv(const char *);
static const char *envn[8], *envv[8]; static int nenv;
void sx_setenv(const char *n, const char *v) { envn[nenv] = n; envv[nenv++] = v; }
char *__wrap_getenv(const char *n) { for (int i = 0; i < nenv; i++) if (strcmp(envn[i], n) == 0) return (char *)envv[i]; return NULL; }
static FILE *rf;
static uint64_t next(const char *name, unsigned bits) {
  if (!rf) { const char *p = __real_getenv("SX_REPLAY"); rf = p ? fopen64(p, "r") : NULL; }
  char line[4096];
  while (rf && fgets(line, sizeof line, rf)) {
    unsigned w; unsigned long long v; char nm[4000];
    if (sscanf(line, "in %u %llu %3999[^\n]", &w, &v, nm) == 3) {
      if (strcmp(nm, name) != 0 || w != bits) { dprintf(2, "SX-REPLAY-DIVERGED: wanted %s/%u, file has %s/%u\n", name, bits, nm, w); _exit(79); }
      return v;
    }
  }
  return 0; // inputs beyond the recorded ones are unconstrained
}
uint64_t sx_int(const char *name, unsigned bits) { return next(name, bits); }
uint64_t sx_choose(const char *name, uint64_t n) { uint64_t v = next(name, 32); if (v >= n) { dprintf(2, "SX-REPLAY-ASSUME\n"); _exit(78); } return v; }
uint64_t sx_concrete(uint64_t v) { return v; }
void sx_bytes(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)next(name, 8); }
void sx_assume(bool c) { if (!c) { dprintf(2, "SX-REPLAY-ASSUME\n"); _exit(78); } }
void sx_check_(bool c, const char *msg) { if (!c) { dprintf(2, "SX-CHECK-FAILED: %s\n", msg); fflush(NULL); _exit(77); } }
void sx_fail(const char *msg) { sx_check_(false, msg); }
void sx_reach(const char *name) { dprintf(2, "SX-REACH %s\n", name); }
void sx_trace(const char *name, uint64_t v) { dprintf(2, "SX-TRACE %s 0x%llx\n", name, (unsigned long long)v); }
uint64_t sx_is_symbolic(uint64_t v) { (void)v; return 0; }
// allocation accounting through link-time wrapping
static uint64_t live, liveB;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
// sizes are kept in a side table so that sanitizers see the program's own blocks
typedef struct { void *p; size_t n; } blk;
static blk *tab; static size_t ntab, cap;
static void add(void *p, size_t n) { if (!p) return; if (ntab == cap) { cap = cap ? cap * 2 : 1024; tab = __real_realloc(tab, cap * sizeof *tab); } tab[ntab].p = p; tab[ntab++].n = n; live++; liveB += n; }
static void del(void *p) { for (size_t i = ntab; i-- > 0;) if (tab[i].p == p) { live--; liveB -= tab[i].n; tab[i] = tab[--ntab]; return; } }
// With SX_ARENA set, blocks lie at increasing addresses and are never reused,
// as in the executor, for code whose failure depends on where blocks lie.
__attribute__((weak)) void __asan_poison_memory_region(void const volatile *, size_t);
__attribute__((weak)) void __asan_unpoison_memory_region(void const volatile *, size_t);
static int arena = -1; static char *atop, *aend, *aready;
static bool inarena(void) {
  if (arena < 0) {
    arena = __real_getenv("SX_ARENA") != NULL;
    if (arena) {
      size_t size = (size_t)16 << 30;
      atop = mmap(NULL, size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (atop == MAP_FAILED) _exit(79);
      aready = atop; aend = atop + size;
    }
  }
  return arena;
}
static void *take(size_t n) {
  if (!inarena()) return __real_malloc(n);
  size_t need = ((n + 15) & ~(size_t)15) + 64;
  if (need > (size_t)(aend - atop)) return NULL;
  if (atop + need > aready) { size_t more = ((size_t)(atop + need - aready) + 0xfffff) & ~(size_t)0xfffff; if (mprotect(aready, more, PROT_READ | PROT_WRITE)) return NULL; aready += more; }
  char *p = atop; atop += need;
  if (__asan_poison_memory_region) __asan_poison_memory_region(p + n, need - n);
  return p;
}
static size_t sizeat(void *p) { for (size_t i = ntab; i-- > 0;) if (tab[i].p == p) return tab[i].n; _exit(79); }
static void drop(void *p) {
  if (!inarena()) { __real_free(p); return; }
  for (size_t i = ntab; i-- > 0;) if (tab[i].p == p) { if (__asan_poison_memory_region) __asan_poison_memory_region(p, tab[i].n); return; }
  if ((char *)p < aend - ((size_t)16 << 30) || (char *)p >= aend) { __real_free(p); return; }
  dprintf(2, "SX-CHECK-FAILED: free of a block that is not live\n"); _exit(77);
}
void *__wrap_malloc(size_t n) { void *p = take(n); add(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) {
  if (!inarena()) { void *p = __real_calloc(a, b); add(p, a * b); return p; }
  void *p = take(a * b); memset(p, 0, a * b); add(p, a * b); return p;
}
void *__wrap_realloc(void *o, size_t n) {
  if (!inarena()) { if (o) del(o); void *p = __real_realloc(o, n); add(p, n); return p; }
  void *p = take(n); if (o) { size_t m = sizeat(o); memcpy(p, o, m < n ? m : n); drop(o); del(o); } add(p, n); return p;
}
void __wrap_free(void *p) { if (p) { drop(p); del(p); } else __real_free(p); }
uint64_t sx_live_allocs(void) { return live; }
__attribute__((noinline)) uint64_t sx_stack_depth(void) { return -(uint64_t)__builtin_frame_address(0); }
uint64_t sx_live_bytes(void) { return liveB; }
bool sx_rand_symbolic; int sx_rand_fixed = -1; static unsigned lcg = 1;
int __wrap_rand(void) { if (sx_rand_fixed >= 0) return sx_rand_fixed; if (sx_rand_symbolic) return (int)next("rand", 31); lcg = lcg * 1103515245u + 12345u; return (int)(lcg >> 1); }
void __wrap_exit(int c) { dprintf(2, "SX-EXIT %d\n", c); fflush(NULL); _exit(76); }
typedef struct { const char *path; const void *data; size_t n; int (*next)(size_t); } reg;
static reg regs[64]; static int nregs;
void sx_file(const char *path, const void *data, size_t n) { regs[nregs].path = path; regs[nregs].data = data; regs[nregs++].n = n; }
void sx_file_gen(const char *path, int (*next)(size_t)) { regs[nregs].path = path; regs[nregs++].next = next; }
typedef struct { int (*next)(size_t); size_t pos; } gen;
static ssize_t genread(void *c, char *b, size_t n) { gen *g = c; if (!n) return 0; int x = g->next(g->pos); if (x == EOF) return 0; g->pos++; *b = (char)x; return 1; }
static int genclose(void *c) { __real_free(c); return 0; }
FILE *sx_in_gen(int (*next)(size_t)) { gen *g = __real_malloc(sizeof *g); g->next = next; g->pos = 0; FILE *f = fopencookie(g, "r", (cookie_io_functions_t){ .read = genread, .close = genclose }); setvbuf(f, NULL, _IONBF, 0); live++; return f; }
static uint64_t nerr; uint64_t sx_err_writes(void) { return nerr; }
static ssize_t errwrite(void *c, const char *b, size_t n) { (void)c; nerr += n; return write(2, b, n); }
typedef struct { FILE *f; char *buf; size_t n; } outs; static outs ofs[64]; static int nofs;
FILE *sx_in(const void *data, size_t n) { FILE *f = tmpfile(); if (n) fwrite(data, 1, n, f); rewind(f); live++; return f; }
FILE *sx_out(void) { outs *o = &ofs[nofs++]; o->f = open_memstream(&o->buf, &o->n); live += 2; return o->f; }
const char *sx_out_data(FILE *f, size_t *n) { fflush(f); for (int i = 0; i < nofs; i++) if (ofs[i].f == f) { *n = ofs[i].n; return ofs[i].buf; } return NULL; }
FILE *(*sx_fopen)(const char *, const char *);
FILE *__wrap_fopen(const char *path, const char *mode) { if (sx_fopen) return sx_fopen(path, mode); for (int i = 0; i < nregs; i++) if (strcmp(regs[i].path, path) == 0 && mode[0] == 'r') return regs[i].next ? sx_in_gen(regs[i].next) : sx_in(regs[i].data, regs[i].n); return NULL; }
int __real_fclose(FILE *);
static struct { FILE *of; char *buf; size_t cap, *n; } keeps[4]; static int nkeeps;
void sx_keep(FILE *f, char *buf, size_t cap, size_t *n) { keeps[nkeeps].of = f; keeps[nkeeps].buf = buf; keeps[nkeeps].cap = cap; keeps[nkeeps++].n = n; }
int __wrap_fclose(FILE *f) { for (int i = 0; i < nofs; i++) if (ofs[i].f == f) { for (int k = 0; k < nkeeps; ++k) if (keeps[k].of == f) { fflush(f); *keeps[k].n = ofs[i].n < keeps[k].cap ? ofs[i].n : keeps[k].cap; memcpy(keeps[k].buf, ofs[i].buf, *keeps[k].n); } live -= 1; ofs[i].f = NULL; break; } live--; return __real_fclose(f); }
int (*sx_access)(const char *);
int __wrap_access(const char *path, int mode) { (void)mode; if (sx_access) return sx_access(path); for (int i = 0; i < nregs; i++) if (strcmp(regs[i].path, path) == 0) return 0; return -1; }
int main(void) {
  
  stderr = fopencookie(NULL, "w", (cookie_io_functions_t){ .write = errwrite }); setvbuf(stderr, NULL, _IONBF, 0);
  sx_main(); fflush(NULL); dprintf(2, "SX-DONE\n"); _exit(0); }
