// Unused variable warnings: every nesting of binding forms, other forms and
// references within a budget, against a reference scope walk.
#include <string.h>
#include <fble/fble-load.h>
#include <fble/fble-string.h>
#include <fble/fble-vector.h>
#include "expr.h"
#include "unused.h"
#include "sx.h"
// $ a child in the scope around the form, ^ one in the scope of its binders,
// 0..2 the name of a binder. 'l': let (the first children in ^ define the
// binders, the last is the body), 'f': function, 'p': polymorphic value.
typedef struct { char kind; const char* text; int nb; bool type; } Form;
static const Form forms[] = {
  { 'l', "{ $ 0 = ^; ^; }", 1, false }, { 'l', "{ % 0 = ^; ^; }", 1, false }, { 'l', "{ @ 0 = ^; ^; }", 1, true },
  { 'l', "{ $ 0 = ^, % 1 = ^; ^; }", 2, false },
  { 'f', "($ 0) { ^; }", 1, false }, { 'b', "{ $ 0 <- $; ^; }", 1, false }, { 'p', "<@ 0> { ^; }", 1, true },
  { 'f', "(U@ 0, ^ 1) { ^; }", 2, false }, { 'q', "<@ 0>(U@ 1) { ^; }", 2, true },
  { 'l', "{ @ 0 = ^, % 1 = ^, % 2 = ^; ^; }", 3, true },
  { 0, "$.x" }, { 0, "@<$>" }, { 0, "$|'x'" }, { 0, "$.%" }, { 0, "*($ x)" }, { 0, "@(x: $, y: $)" }, { 0, "$($, $)" }, { 0, "$[$, $]" }, { 0, "$<$>" },
  { 0, "($) { $; }" }, { 0, "+($ x, $ y)" }, { 0, "$(x: $)" }, { 0, "$.@(x: $)" }, { 0, "$.?(x: $, y: $)" }, { 0, "$.?(x: $, : $)" }, { 0, "{ $.?(x: $); $; }" }, { 0, "$.<$>($)" }, { 0, "{ $; }" },
};
#define NF (sizeof forms / sizeof *forms)
#define NBIND 10
typedef struct Node { const Form* f; int var; struct Node* xs[8]; int n; int name[3]; int at[3]; } Node;
static Node pool[64]; static int npool;
static const char* const names[] = { "x", "y", "_x", "x@", "y@", "_x@" };
static const char* const leaves[] = { "x", "y", "_x", "x@", "y@", "_x@", "@(x)", "/M%", "%(/x%)", "U@" };
static char text[1000]; static int nt;
static void Put(const char* s) { while (*s) text[nt++] = *s++; text[nt] = 0; }
static int refs = REFS;
static Node* Gen(int budget) {
  Node* e = pool + npool++;
  if (budget == 0) {
    // a reference or nothing of interest
    static const int which[] = { 7, 0, 1, 3, 2, 6, 5, 4, 8 };
    e->var = refs > 0 ? which[sx_pick("leaf", LEAVES)] : 7;
    if (e->var < 7) refs--;
    Put(leaves[e->var]);
    return e;
  }
  e->f = &forms[sx_pick("form", budget > 1 || NESTED ? NF : NBIND)];
  if (budget == BUDGET) sx_assume(e->f < forms + NBIND);
  int kids = 0;
  for (const char* c = e->f->text; *c; ++c) kids += *c == '$' || *c == '^';
  // which child gets the rest of the budget
  int heir = budget > 1 ? (int)sx_pick("heir", (size_t)kids) : 0;
  for (int i = 0; i < e->f->nb; ++i) {
    e->name[i] = (int)sx_pick("name", !NESTED || THOROUGH ? (i == 0 ? 3 : 2) : i == 0 && budget == BUDGET ? 1 : 2) + ((e->f->type && i == 0) ? 3 : 0);
    for (int j = 0; j < i; ++j) sx_assume(e->name[j] != e->name[i]);
  }
  for (const char* c = e->f->text; *c; ++c) {
    if (*c == '$' || *c == '^') { int k = e->n++; e->xs[k] = Gen(k == heir ? budget - 1 : 0); }
    else if (*c >= '0' && *c <= '2') { e->at[*c - '0'] = nt; Put(names[e->name[*c - '0']]); }
    else { text[nt++] = *c; text[nt] = 0; }
  }
  return e;
}
// reference
typedef struct Sc { int name; bool used; struct Sc* up; } Sc;
typedef struct { int at, name; bool arg; } W;
static W ws[64]; static int nws;
static void Use(Node* e, Sc* sc) {
  if (!e->f) {
    int v = e->var == 6 ? 0 : e->var;
    if (v > 6) return;
    for (; sc; sc = sc->up) if (sc->name == v) { sc->used = true; return; }
    return;
  }
  Sc in[3]; Node* def[3]; bool done[3] = { 0 };
  Sc* inner = sc;
  int k = 0, nd = 0;
  const char* c = e->f->text;
  int nb = e->f->nb;
  bool let = e->f->kind == 'l';
  for (int i = 0; i < nb; ++i) { in[i].name = e->name[i]; in[i].used = e->name[i] == 2 || e->name[i] == 5; in[i].up = inner; inner = &in[i]; }
  Sc* two = nb == 2 && e->f->kind == 'f' ? &in[0] : inner;      // the type of a second argument may use the first
  for (; *c; ++c) {
    if (*c == '$') Use(e->xs[k++], sc);
    else if (*c == '^') {
      if (let && nd < nb) def[nd++] = e->xs[k++];
      else { bool body = k == e->n - 1; Use(e->xs[k++], body ? inner : two); }
    }
  }
  for (bool more = let; more;) {
    more = false;
    for (int i = 0; i < nb; ++i) if (in[i].used && !done[i]) { done[i] = more = true; Use(def[i], inner); }
  }
  for (int i = 0; i < nb; ++i) {
    bool poly = e->f->kind == 'p' || (e->f->kind == 'q' && i == 0);
    if (!in[i].used && !poly) { ws[nws].at = e->at[i]; ws[nws].name = e->name[i]; ws[nws++].arg = !let; }
  }
}
void sx_main(void) {
  Node* e = Gen(BUDGET);
  Put(";\n");
#ifdef SHOW
  fprintf(stderr, "%s\n", text);
#endif
  sx_file("M.fble", text, (size_t)nt);
  FbleModulePathV deps; FbleInitVector(deps);
  FbleString* file = FbleNewString("M.fble");
  FbleExpr* expr = FbleParse(file, &deps);
  sx_check(expr != NULL, "harness: the text parses");
  FILE* old = stderr;
  FILE* out = stderr = sx_out();
  FbleWarnAboutUnusedVars(expr);
  stderr = old;
  size_t n; const char* got = sx_out_data(out, &n);
  Use(e, NULL);
  int lines = 0;
  for (size_t i = 0; i < n; ++i) lines += got[i] == '\n';
  sx_check(lines == nws, "as many warnings as unused variables");
  for (int i = 0; i < nws; ++i) {
    char want[64]; int l = snprintf(want, sizeof want, "M.fble:1:%d: warning: ", ws[i].at + 1);
    int found = 0;
    for (size_t j = 0; j + (size_t)l <= n; ++j) if ((j == 0 || got[j - 1] == '\n') && !memcmp(got + j, want, (size_t)l)) {
      // the name in quotes
      const char* q = memchr(got + j, '\'', n - j);
      const char* nm = names[ws[i].name]; size_t len = strlen(nm);
      found += q != NULL && (size_t)(got + n - q) > len + 1 && !memcmp(q + 1, nm, len) && q[len + 1] == '\'';
    }
    sx_check(found == 1, "warned about where it is defined, once");
  }
  if (nws) sx_reach("unused"); else sx_reach("used");
  fclose(out);
  FbleFreeExpr(expr);
  FbleFreeString(file);
  for (size_t i = 0; i < deps.size; ++i) FbleFreeModulePath(deps.xs[i]);
  FbleFreeVector(deps);
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
