// Small C library for code executed by the symbolic executor.
// String functions are the standard ones; streams live in memory.
#define _GNU_SOURCE 1
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include "sx.h"
#undef stdin
#undef stdout
#undef stderr
void *malloc(size_t); void *realloc(void *, size_t); void free(void *); void *memcpy(void *, const void *, size_t);
void *memset(void *, int, size_t); void abort(void);

size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) {
  for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
int strncmp(const char *a, const char *b, size_t n) {
  for (; n; n--, a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
  return 0;
}
int memcmp(const void *pa, const void *pb, size_t n) {
  const unsigned char *a = pa, *b = pb;
  for (; n; n--, a++, b++) if (*a != *b) return *a < *b ? -1 : 1;
  return 0;
}
void *memchr(const void *p, int c, size_t n) {
  const unsigned char *a = p; for (; n; n--, a++) if (*a == (unsigned char)c) return (void *)a; return 0;
}
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char *strchr(const char *s, int c) {
  if (sx_is_symbolic((uint64_t)(unsigned char)c)) {
    // the text is usually a constant set: decide membership with one query
    bool conc = true; size_t n = 0;
    for (; conc; n++) { if (sx_is_symbolic((unsigned char)s[n])) conc = false; else if (!s[n]) break; }
    if (conc) {
      unsigned found = 0; size_t idx = 0;
      for (size_t i = n + 1; i-- > 0;) { unsigned eq = s[i] == (char)c; found |= eq; idx = eq ? i : idx; }
      if (!found) return 0;
      return (char *)(uintptr_t)((uintptr_t)s + idx);
    }
  }
  for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; }
}
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (strncmp(h, n, l) == 0) return (char *)h; if (!*h) return 0; } }
size_t strspn(const char *s, const char *set) { size_t n = 0; while (s[n] && strchr(set, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *set) { size_t n = 0; while (s[n] && !strchr(set, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *set) { s += strcspn(s, set); return *s ? (char *)s : 0; }
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
void *memrchr(const void *p, int c, size_t n) { const unsigned char *a = p; while (n-- > 0) if (a[n] == (unsigned char)c) return (void *)(a + n); return 0; }
void *memmem(const void *h, size_t hn, const void *n, size_t nn) { const char *a = h; for (size_t i = 0; i + nn <= hn; i++) if (!memcmp(a + i, n, nn)) return (void *)(a + i); return 0; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
void *calloc(size_t n, size_t size) { void *r = malloc(n * size); memset(r, 0, n * size); return r; }
void *reallocarray(void *p, size_t n, size_t size) { return realloc(p, n * size); }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); memcpy(r, s, n); return r; }

#define U(c) ((unsigned)(c))
static int lower(char c) { return U(c - 'A') < 26 ? c + 32 : (unsigned char)c; }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = lower(*a), y = lower(*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int strcasecmp(const char *a, const char *b) { return strncasecmp(a, b, (size_t)-1); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int isascii(int c) { return U(c) < 128; }
long labs(long v) { return v < 0 ? -v : v; }
long long llabs(long long v) { return v < 0 ? -v : v; }
void *bsearch(const void *k, const void *base, size_t n, size_t size, int (*cmp)(const void *, const void *)) {
  for (size_t lo = 0, hi = n; lo < hi;) { size_t m = lo + (hi - lo) / 2; const char *p = (const char *)base + m * size; int c = cmp(k, p); if (c == 0) return (void *)p; if (c < 0) hi = m; else lo = m + 1; }
  return 0;
}
int isdigit(int c) { return U(c - '0') < 10; }
int isupper(int c) { return U(c - 'A') < 26; }
int islower(int c) { return U(c - 'a') < 26; }
int isalpha(int c) { return U((c | 32) - 'a') < 26; }
int isalnum(int c) { return (U((c | 32) - 'a') < 26) | (U(c - '0') < 10); }
int isspace(int c) { return (c == ' ') | (U(c - '\t') < 5); }
int isprint(int c) { return U(c - 32) < 95; }
int ispunct(int c) { return isprint(c) & !isalnum(c) & (c != ' '); }
int isxdigit(int c) { return isdigit(c) | (U((c | 32) - 'a') < 6); }
int iscntrl(int c) { return (U(c) < 32) | (c == 127); }
int isgraph(int c) { return U(c - 33) < 94; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int atoi(const char *s) { int v = 0, neg = 0; while (isspace(*s)) s++; if (*s == '-' || *s == '+') neg = *s++ == '-'; while (isdigit(*s)) v = v * 10 + (*s++ - '0'); return neg ? -v : v; }
long strtol(const char *s, char **e, int base) { long v = 0; int neg = 0; if (!base) base = 10; while (isspace(*s)) s++; if (*s == '-' || *s == '+') neg = *s++ == '-';
  for (;; s++) { int d = isdigit(*s) ? *s - '0' : isalpha(*s) ? (*s | 32) - 'a' + 10 : 99; if (d >= base) break; v = v * base + d; } if (e) *e = (char *)s; return neg ? -v : v; }
unsigned long strtoul(const char *s, char **e, int base) { return strtol(s, e, base); }
long long strtoll(const char *s, char **e, int base) { return strtol(s, e, base); }
unsigned long long strtoull(const char *s, char **e, int base) { return strtol(s, e, base); }
long atol(const char *s) { return strtol(s, 0, 10); }
long long atoll(const char *s) { return strtol(s, 0, 10); }
int __isoc99_sscanf(const char *s, const char *f, ...) {
  va_list ap; va_start(ap, f); int *out = va_arg(ap, int *); va_end(ap);
  if (f[0] != '%' || (f[1] != 'i' && f[1] != 'd') || f[2]) sx_fail("scanf conversion not modelled");
  while (isspace(*s)) s++;
  if (!*s) return -1;
  int neg = 0, base = f[1] == 'i' ? 0 : 10; if (*s == '-' || *s == '+') neg = *s++ == '-';
  if (!isdigit(*s)) return 0;
  if (base == 0) { base = 10; if (*s == '0') { base = 8; if ((s[1] | 32) == 'x' && isxdigit(s[2])) { base = 16; s += 2; } } }
  uint64_t v = 0;
  for (;; s++) { int d = isdigit(*s) ? *s - '0' : isalpha(*s) ? (*s | 32) - 'a' + 10 : 99; if (d >= base) break; v = v * (uint64_t)base + (uint64_t)d; }
  *out = (int)(neg ? 0 - v : v);
  return 1;
}
int abs(int x) { return x < 0 ? -x : x; }

// ------------------------------------------------------------------ streams
typedef struct sxfile { int kind; int (*next)(size_t); char *data; size_t size, cap, pos; int eof, back; } sxfile; // 0 discard 1 out 2 in
static sxfile f_in = {2, 0, 0, 0, 0, 0, 0, -1}, f_out = {0}, f_err = {0};
FILE *stdin = (FILE *)&f_in, *stdout = (FILE *)&f_out, *stderr = (FILE *)&f_err;
typedef struct { const char *path; const char *data; size_t n; int (*next)(size_t); } reg;
static reg regs[64]; static int nregs;
static uint64_t nerr;
uint64_t sx_err_writes(void) { return nerr; }
void sx_file_gen(const char *path, int (*next)(size_t)) { regs[nregs].path = path; regs[nregs++].next = next; }
void sx_file(const char *path, const void *data, size_t n) { regs[nregs].path = path; regs[nregs].data = data; regs[nregs++].n = n; }
FILE *sx_in(const void *data, size_t n) { sxfile *f = malloc(sizeof *f); f->kind = 2; f->next = 0; f->data = (char *)data; f->size = n; f->cap = 0; f->pos = 0; f->eof = 0; f->back = -1; return (FILE *)f; }
FILE *sx_in_gen(int (*next)(size_t)) { FILE *f = sx_in(0, 0); ((sxfile *)f)->next = next; return f; }
FILE *sx_out(void) { sxfile *f = malloc(sizeof *f); f->kind = 1; f->cap = 256; f->data = malloc(f->cap); f->size = f->pos = 0; f->eof = 0; f->back = -1; return (FILE *)f; }
const char *sx_out_data(FILE *fp, size_t *n) { sxfile *f = (sxfile *)fp; *n = f->size; return f->data; }
FILE *(*sx_fopen)(const char *, const char *);
FILE *fopen(const char *path, const char *mode) {
  if (sx_fopen) return sx_fopen(path, mode);
  for (int i = 0; i < nregs; i++) if (strcmp(regs[i].path, path) == 0) { if (mode[0] == 'r') { FILE *f = sx_in(regs[i].data, regs[i].n); ((sxfile *)f)->next = regs[i].next; return f; } return 0; }
  return 0;
}
int (*sx_access)(const char *);
int access(const char *path, int mode) { (void)mode; if (sx_access) return sx_access(path); for (int i = 0; i < nregs; i++) if (strcmp(regs[i].path, path) == 0) return 0; return -1; }
static struct { FILE *of; char *buf; size_t cap, *n; } keeps[4]; static int nkeeps;
void sx_keep(FILE *f, char *buf, size_t cap, size_t *n) { keeps[nkeeps].of = f; keeps[nkeeps].buf = buf; keeps[nkeeps].cap = cap; keeps[nkeeps++].n = n; }
int fclose(FILE *fp) { sxfile *f = (sxfile *)fp; if (f == &f_in || f == &f_out || f == &f_err) return 0; if (f->kind == 1) { for (int k = 0; k < nkeeps; ++k) if (keeps[k].of == fp) { *keeps[k].n = f->size < keeps[k].cap ? f->size : keeps[k].cap; memcpy(keeps[k].buf, f->data, *keeps[k].n); } free(f->data); } free(f); return 0; }
int fgetc(FILE *fp) { sxfile *f = (sxfile *)fp; if (f->back >= 0) { int c = f->back; f->back = -1; return c; } if (f->next) { int c = f->next(f->pos); if (c == EOF) f->eof = 1; else f->pos++; return c; } if (f->pos >= f->size) { f->eof = 1; return EOF; } return (unsigned char)f->data[f->pos++]; }
int getc(FILE *fp) { return fgetc(fp); }
int getchar(void) { return fgetc(stdin); }
int ungetc(int c, FILE *fp) { ((sxfile *)fp)->back = c; return c; }
int feof(FILE *fp) { return ((sxfile *)fp)->eof; }
int ferror(FILE *fp) { (void)fp; return 0; }
int fflush(FILE *fp) { (void)fp; return 0; }
int fputc(int c, FILE *fp) {
  sxfile *f = (sxfile *)fp; if (f == &f_err) nerr++; if (f->kind != 1) return c;
  if (f->size == f->cap) { f->cap *= 2; f->data = realloc(f->data, f->cap); }
  f->data[f->size++] = c; return (unsigned char)c;
}
int putc(int c, FILE *fp) { return fputc(c, fp); }
int putchar(int c) { return fputc(c, stdout); }
int fputs(const char *s, FILE *fp) { if ((sxfile *)fp == &f_err) nerr++; if (((sxfile *)fp)->kind != 1) return 0; while (*s) fputc(*s++, fp); return 0; }
int puts(const char *s) { fputs(s, stdout); return fputc('\n', stdout); }
size_t fwrite(const void *p, size_t s, size_t n, FILE *fp) { const char *c = p; for (size_t i = 0; i < s * n; i++) fputc(c[i], fp); return n; }
size_t fread(void *p, size_t s, size_t n, FILE *fp) { char *c = p; size_t i; for (i = 0; i < s * n; i++) { int ch = fgetc(fp); if (ch == EOF) break; c[i] = ch; } return i / s; }
char *fgets(char *s, int n, FILE *fp) { int i = 0; while (i < n - 1) { int c = fgetc(fp); if (c == EOF) break; s[i++] = c; if (c == '\n') break; } if (!i) return 0; s[i] = 0; return s; }

typedef struct { FILE *f; char *buf; size_t cap, n; } sink;
static void emit(sink *k, char c) { if (k->f) fputc(c, k->f); else if (k->n + 1 < k->cap) k->buf[k->n] = c; k->n++; }
static void emitn(sink *k, const char *s, size_t n, int width, int left, char pad) {
  int padn = width > (int)n ? width - (int)n : 0;
  if (!left) while (padn > 0) { emit(k, pad); padn--; }
  for (size_t i = 0; i < n; i++) emit(k, s[i]);
  while (padn-- > 0 && left) emit(k, ' ');
}
static int fmt(sink *k, const char *f, va_list ap) {
  for (; *f; f++) {
    if (*f != '%') { emit(k, *f); continue; }
    f++;
    int left = 0, zero = 0, width = 0, prec = -1, lng = 0; bool plus = false;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = true; else if (*f == ' ' || *f == '#') {} else break; }
    if (*f == '*') { width = va_arg(ap, int); f++; } else while (isdigit(*f)) width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0'); }
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng++; else if (*f == 'h') {} else break; }
    char buf[72]; int n = 0;
    switch (*f) {
      case '%': emit(k, '%'); break;
      case 'c': { char c = va_arg(ap, int); emitn(k, &c, 1, width, left, ' '); break; }
      case 's': { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; size_t l = prec >= 0 ? strnlen(s, prec) : strlen(s); emitn(k, s, l, width, left, ' '); break; }
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'p': case 'o': {
        uint64_t v; bool neg = false;
        if (*f == 'p') { v = (uint64_t)va_arg(ap, void *); }
        else if (*f == 'd' || *f == 'i') { int64_t sv = lng ? va_arg(ap, long) : va_arg(ap, int); neg = sv < 0; v = neg ? 0 - (uint64_t)sv : (uint64_t)sv; }
        else v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
        unsigned base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'o' ? 8 : 10;
        do { unsigned d = v % base; buf[71 - n++] = (d < 10 ? '0' : (*f == 'X' ? 'A' : 'a') - 10) + d; v /= base; } while (v);
        while (n < prec) buf[71 - n++] = '0';
        if (*f == 'p') { buf[71 - n++] = 'x'; buf[71 - n++] = '0'; }
        if (zero && !left && prec < 0) while (n < width - (neg || plus)) buf[71 - n++] = '0';
        if (neg) buf[71 - n++] = '-'; else if (plus) buf[71 - n++] = '+';
        emitn(k, buf + 72 - n, n, width, left, ' '); break; }
      case 'f': { double d = va_arg(ap, double); int64_t q = (int64_t)(d * 100 + 0.5); char t[40]; int m = 0; int64_t w = q / 100; int fr = q % 100;
        char r[24]; int rn = 0; do { r[rn++] = '0' + w % 10; w /= 10; } while (w); while (rn) t[m++] = r[--rn]; t[m++] = '.'; t[m++] = '0' + fr / 10; t[m++] = '0' + fr % 10; emitn(k, t, m, width, left, ' '); break; }
      default: sx_fail("printf conversion not modelled");
    }
  }
  return (int)k->n;
}
int vfprintf(FILE *fp, const char *f, va_list ap) { if ((sxfile *)fp == &f_err) nerr++; if (((sxfile *)fp)->kind != 1) return 0; sink k = {fp, 0, 0, 0}; return fmt(&k, f, ap); }
int fprintf(FILE *fp, const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(fp, f, ap); va_end(ap); return r; }
int vprintf(const char *f, va_list ap) { return vfprintf(stdout, f, ap); }
int printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(stdout, f, ap); va_end(ap); return r; }
int vsnprintf(char *b, size_t n, const char *f, va_list ap) { sink k = {0, b, n, 0}; int r = fmt(&k, f, ap); if (n) b[k.n < n ? k.n : n - 1] = 0; return r; }
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
// sprintf writes every byte through memory so that an overflow is seen
int vsprintf(char *b, const char *f, va_list ap) { sink k = {0, b, (size_t)1 << 40, 0}; int r = fmt(&k, f, ap); b[k.n] = 0; return r; }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(b, f, ap); va_end(ap); return r; }

static const char *envn[8], *envv[8]; static int nenv;
void sx_setenv(const char *n, const char *v) { envn[nenv] = n; envv[nenv++] = v; }
char *getenv(const char *n) { for (int i = 0; i < nenv; i++) if (strcmp(envn[i], n) == 0) return (char *)envv[i]; return 0; }
bool sx_rand_symbolic; int sx_rand_fixed = -1; static unsigned lcg = 1;
int rand(void) { if (sx_rand_fixed >= 0) return sx_rand_fixed; if (sx_rand_symbolic) return (int)sx_int("rand", 31); lcg = lcg * 1103515245u + 12345u; return (int)(lcg >> 1); }
void srand(unsigned s) { (void)s; }
int atexit(void (*f)(void)) { (void)f; return 0; }
char *getcwd(char *b, size_t n) { if (n < 2) return 0; b[0] = '/'; b[1] = 0; return b; }
struct rlimit; int getrlimit(int r, struct rlimit *l) { (void)r; memset(l, 0, 16); return 0; }
int setrlimit(int r, const struct rlimit *l) { (void)r; (void)l; return 0; }
static int errno_v; int *__errno_location(void) { return &errno_v; }
char *strerror(int e) { (void)e; return "error"; }
void qsort(void *base, size_t n, size_t w, int (*cmp)(const void *, const void *)) {
  char *b = base; char t[256];
  for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(b + (j - 1) * w, b + j * w) > 0; j--) { memcpy(t, b + j * w, w); memcpy(b + j * w, b + (j - 1) * w, w); memcpy(b + (j - 1) * w, t, w); }
}
