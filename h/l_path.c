// Module paths as text: what a text denotes, printing, equality, membership.
#include <string.h>
#include <fble/fble-module-path.h>
#include <fble/fble-string.h>
#include <fble/fble-name.h>
#include <fble/fble-vector.h>
#include "parse.h"
#include "sx.h"
static bool Plain(int c) { bool p = !(c == ' ' || (c >= '\t' && c <= '\r')) && c != '\'' && c != '#'; static const char s[] = "(){}[];,:?=.<>+*-!$@~&|%/^"; for (size_t i = 0; s[i]; ++i) p &= c != s[i]; return p; }
typedef struct { int n; char w[4][12]; } P;
static char buf[200]; static size_t nbuf;
static void Print(P* p, bool quoted) {
  nbuf = 0;
  for (int i = 0; i < p->n; ++i) {
    buf[nbuf++] = '/';
    if (quoted) buf[nbuf++] = '\'';
    for (const char* c = p->w[i]; *c; ++c) { if (quoted && *c == '\'') buf[nbuf++] = '\''; buf[nbuf++] = *c; }
    if (quoted) buf[nbuf++] = '\'';
  }
  buf[nbuf++] = '%'; buf[nbuf] = 0;
}
static void Fill(P* p, int n, int len, bool plain) {
  p->n = n;
  for (int i = 0; i < n; ++i) {
    int l = (int)sx_pick("length", (size_t)len) + (plain ? 1 : 0);
    sx_bytes(p->w[i], (size_t)l, "byte");
    for (int j = 0; j < l; ++j) { sx_assume(p->w[i][j] != 0); if (plain) sx_assume(Plain((unsigned char)p->w[i][j])); }
    p->w[i][l] = 0;
  }
}
static void Is(FbleModulePath* m, P* p) {
  sx_check(m != NULL, "the path is accepted");
  sx_check(m->path.size == (size_t)p->n, "components as written");
  for (int i = 0; i < p->n; ++i) sx_check(!strcmp(m->path.xs[i].name->str, p->w[i]) && m->path.xs[i].space == FBLE_NORMAL_NAME_SPACE, "component as written");
}
static FbleModulePath* Make(P* p) {
  FbleLoc loc = FbleNewLoc("test", 1, 1);
  FbleModulePath* m = FbleNewModulePath(loc);
  for (int i = 0; i < p->n; ++i) { FbleName* nm = FbleExtendVector(m->path); nm->name = FbleNewString(p->w[i]); nm->space = FBLE_NORMAL_NAME_SPACE; nm->loc = FbleCopyLoc(loc); }
  FbleFreeLoc(loc);
  return m;
}
static bool Same(P* a, P* b, int n) { for (int i = 0; i < n; ++i) if (strcmp(a->w[i], b->w[i])) return false; return true; }

// MODE 3: what an arbitrary string denotes.
static const char* t; 
static bool Space(int c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static void Skip(void) { for (;;) { while (Space((unsigned char)*t)) t++; if (*t != '#') return; while (*t && *t != '\n') t++; } }
static bool Word(char* w) {
  Skip();
  size_t n = 0;
  if (*t == '\'') {
    do { t++; while (*t && *t != '\'') w[n++] = *t++; if (*t) t++; if (*t == '\'') w[n++] = '\''; } while (*t == '\'');
  } else { while (*t && Plain((unsigned char)*t)) w[n++] = *t++; if (!n) return false; }
  w[n] = 0;
  return true;
}
static bool Ref(P* p) {
  p->n = 0;
  Skip();
  if (*t != '/') return false;
  while (*t == '/') { t++; if (!Word(p->w[p->n])) return false; p->n++; Skip(); }
  if (*t != '%') return false;
  t++;
  Skip();
  return *t == 0;
}
void sx_main(void) {
  static P a, b;
  int k = (int)sx_pick("components", MODE == 2 ? 4 : 3);
#if MODE == 0
  // plain words: print, parse, name
  Fill(&a, k + 1, LEN, true);
  FbleModulePath* m = Make(&a);
  for (int i = 0; i < a.n; ++i) sx_check(FbleIsPlainWord(a.w[i]), "a plain word needs no quotes");
  Print(&a, false);
  FILE* f = sx_out();
  FblePrintModulePath(f, m);
  size_t n; const char* got = sx_out_data(f, &n);
  sx_check(n == nbuf && !memcmp(got, buf, n), "printed as slash separated components and a percent sign");
  FbleName name = FbleModulePathName(m);
  sx_check(!strcmp(name.name->str, buf) && name.space == FBLE_NORMAL_NAME_SPACE, "named the same");
  fclose(f);
  FbleModulePath* m2 = FbleParseModulePath(buf);
  Is(m2, &a);
  sx_check(FbleModulePathsEqual(m, m2), "reads back as the same path");
  FbleFreeName(name); FbleFreeModulePath(m2); FbleFreeModulePath(m);
  sx_reach("printed");
#elif MODE == 1
  // any words: quoted, and names as printed in messages
  Fill(&a, k + 1, LEN, false);
  Print(&a, true);
  FbleModulePath* m = FbleParseModulePath(buf);
  Is(m, &a);
  for (int i = 0; i < a.n; ++i) {
    bool plain = true;
    for (const char* c = a.w[i]; *c; ++c) plain &= Plain((unsigned char)*c);
    sx_check(FbleIsPlainWord(a.w[i]) == plain, "needs quotes exactly when it has a character of other meaning");
    if (a.w[i][0]) {
      FILE* f = sx_out();
      FblePrintName(f, m->path.xs[i]);
      size_t n; const char* got = sx_out_data(f, &n);
      buf[0] = '/'; memcpy(buf + 1, got, n); buf[n + 1] = '%'; buf[n + 2] = 0;
      fclose(f);
      FbleModulePath* m2 = FbleParseModulePath(buf);
      sx_check(m2 != NULL && m2->path.size == 1 && FbleNamesEqual(m2->path.xs[0], m->path.xs[i]), "a printed name reads back as that name");
      FbleFreeModulePath(m2);
    }
  }
  FbleFreeModulePath(m);
  sx_reach("printed");
#elif MODE == 2
  // equality and membership
  int k2 = (int)sx_pick("components", 4);
  Fill(&a, k, LEN, false); Fill(&b, k2, LEN, false);
  FbleModulePath *m = Make(&a), *q = Make(&b);
  bool eq = k == k2 && Same(&a, &b, k), in = k >= k2 && Same(&a, &b, k2);
  sx_check(FbleModulePathsEqual(m, q) == eq, "equal exactly when every component is");
  sx_check(FbleModuleBelongsToPackage(m, q) == in, "belongs to a package exactly when the package is a prefix");
  FbleModulePath* c = FbleCopyModulePath(m);
  FbleFreeModulePath(m);
  sx_check(FbleModulePathsEqual(c, c), "still there");
  FbleFreeModulePath(c); FbleFreeModulePath(q);
  if (eq) sx_reach("equal"); else if (in) sx_reach("member"); else sx_reach("neither");
  (void)Print; (void)Is;
#else
  // any text
  static const char* const pre[] = { "", "/a", "/'b" };
  strcpy(buf, pre[k]); nbuf = strlen(buf);
  sx_bytes(buf + nbuf, LEN, "byte");
  buf[nbuf + LEN] = 0;
  t = buf;
  bool ok = Ref(&a);
  FbleModulePath* m = FbleParseModulePath(buf);
  sx_check((m != NULL) == ok, "accepted exactly when it is a module path");
  sx_check((sx_err_writes() != 0) == !ok, "an error is reported exactly when rejected");
  if (ok) { Is(m, &a); FbleFreeModulePath(m); sx_reach("accepted"); } else sx_reach("rejected");
#endif
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
