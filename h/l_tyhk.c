// Equality of type level functions and kinds: two type functions given by any
// terms of a bounded size are equal exactly when they are equal up to
// application (beta) and the naming of a function's argument (alpha, eta), and
// a polymorphic value fits a type or an argument exactly when the kinds agree.
#include <string.h>
#include <fble/fble-alloc.h>
#include <fble/fble-load.h>
#include <fble/fble-link.h>
#include <fble/fble-module-path.h>
#include "sx.h"
static char src[8192]; static size_t n;
static void Put(const char* s) { while (*s) src[n++] = *s++; }
static bool Accepted(void) {
#ifdef SHOW
  fprintf(stderr, "%s\n", src);
#endif
  sx_file("/m/Foo.fble", src, n);
  FbleSearchPath* sp = FbleNewSearchPath();
  FbleAppendToSearchPath(sp, "/m");
  FbleModulePath* mp = FbleParseModulePath("/Foo%");
  FbleProfile* profile = FbleNewProfile(false);
  FbleValueHeap* heap = FbleNewValueHeap();
  FbleValue* linked = FbleLink(heap, profile, NULL, sp, mp);
  bool ok = linked != NULL;
  FbleFreeValueHeap(heap);
  FbleFreeProfile(profile);
  FbleFreeModulePath(mp);
  FbleFreeSearchPath(sp);
  sx_check(sx_live_allocs() == 0, "everything released");
  return ok;
}
#if MODE == 0
enum { X, Z, A, APPM, APPN, STRUCT, RED, HIGH, LAM, KM, KN };
typedef struct Tm { int op, k; struct Tm* l; struct Tm* r; } Tm;
static Tm pool[400]; static int np;
static Tm* New(int op, int k, Tm* l, Tm* r) { Tm* t = pool + np++; t->op = op; t->k = k; t->l = l; t->r = r; return t; }
static Tm* Gen(int d, bool z);
// A type function: a variable, a partial application or a literal.
static Tm* GenK(int d, bool z) {
  switch (sx_pick("fn", 3)) {
    case 0: return New(KM, 0, NULL, NULL);
    case 1: return New(KN, 0, Gen(0, z), NULL);
    default: return New(LAM, 0, Gen(d, z), NULL);
  }
}
static Tm* Gen(int d, bool z) {
  int ops = d == 0 ? 1 : d == 1 ? 5 : 6;
  switch (sx_pick("term", ops)) {
    case 0: { size_t v = sx_pick("leaf", z ? 3 : 2); return New(v == 0 ? X : v == 1 ? A : Z, 0, NULL, NULL); }
    case 1: return New(APPM, 0, Gen(d - 1, z), NULL);
    case 2: { Tm* l = Gen(d - 1, z); return New(APPN, 0, l, Gen(0, z)); }
    case 3: return New(RED, (int)sx_pick("redex", 4), Gen(d - 1, z), NULL);
    case 4: return New(STRUCT, 0, Gen(d - 1, z), NULL);
    default: return New(HIGH, 0, z ? New(KM, 0, NULL, NULL) : GenK(d - 1, true), NULL);
  }
}
static void Print(Tm* t) {
  switch (t->op) {
    case X: Put("X@"); break;
    case Z: Put("Z@"); break;
    case A: Put("A@"); break;
    case APPM: Put("M@<"); Print(t->l); Put(">"); break;
    case APPN: Put("N@<"); Print(t->l); Put(", "); Print(t->r); Put(">"); break;
    case STRUCT: Put("*("); Print(t->l); Put(" a)"); break;
    case RED: Put("R"); Put((const char*[]){ "0", "1", "2", "3" }[t->k]); Put("@<"); Print(t->l); Put(">"); break;
    case HIGH: Put("H@<"); if (t->l->op == LAM) { Put("<@ Z@> { "); Print(t->l->l); Put("; }"); } else Print(t->l); Put(">"); break;
    case KM: Put("M@"); break;
    case KN: Put("N@<"); Print(t->l); Put(">"); break;
  }
}
static Tm* Norm(Tm* t);
static Tm* Leaf(int op) { return New(op, 0, NULL, NULL); }
// The body of a type function applied to a variable.
static Tm* Body(Tm* k, Tm* v) {
  if (k->op == KM) return New(APPM, 0, v, NULL);
  if (k->op == KN) return New(APPN, 0, Norm(k->l), v);
  return Norm(k->l);
}
static Tm* Norm(Tm* t) {
  switch (t->op) {
    case APPM: case STRUCT: return New(t->op, 0, Norm(t->l), NULL);
    case APPN: { Tm* l = Norm(t->l); return New(APPN, 0, l, Norm(t->r)); }
    case RED: switch (t->k) {
      case 0: return Norm(t->l);                                        // R0@ = <@ Y@> { Y@; }
      case 1: return New(APPM, 0, Norm(t->l), NULL);                    // R1@ = <@ Y@> { M@<Y@>; }
      case 2: return Leaf(A);                                           // R2@ = <@ Y@> { A@; }
      default: return New(APPN, 0, Norm(t->l), Leaf(X));                // R3@ = <@ Y@> { N@<Y@, X@>; }
    }
    case HIGH: return New(HIGH, 0, Body(t->l, Leaf(Z)), NULL);
    default: return t;
  }
}
static bool Same(Tm* a, Tm* b) {
  if (a->op != b->op) return false;
  if (a->op == APPN) return Same(a->l, b->l) && Same(a->r, b->r);
  return a->l == NULL || Same(a->l, b->l);
}
static void Define(const char* name, Tm* k) {
  Put("  <@>@ "); Put(name); Put(" = ");
  if (k->op == LAM) {
    Put("<@ X@> { <@>@ R3@ = <@ Y@> { N@<Y@, X@>; }; "); Print(k->l); Put("; };\n");
  } else { Print(k); Put(";\n"); }
}
void sx_main(void) {
  Tm* k1 = New(LAM, 0, NULL, NULL); Tm* k2;
  k1 = GenK(D1, false); k2 = GenK(D2, false);
  // a function's own argument is not in scope of a partial application
  sx_assume(!(k1->op == KN && k1->l->op == X) && !(k2->op == KN && k2->l->op == X));
  int how = (int)sx_pick("how", 3);
  Put("<<@>@ M@, <@, @>@ N@, <<@>@>@ H@, @ A@> {\n  <@>@ R0@ = <@ Y@> { Y@; };\n  <@>@ R1@ = <@ Y@> { M@<Y@>; };\n  <@>@ R2@ = <@ Y@> { A@; };\n");
  Define("K1@", k1); Define("K2@", k2);
  switch (how) {
    case 0: Put("  (H@<K1@> x) { H@<K2@> y = x; y; };\n"); break;
    case 1: Put("  (K1@<A@> x) { K2@<A@> y = x; y; };\n"); break;
    case 2: Put("  (<@ X@> { K1@<X@>; } x) { <@ X@> { K2@<X@>; } y = x; y; };\n"); break;
  }
  Put("};\n");
  Tm* b1 = Body(k1, Leaf(X)); Tm* b2 = Body(k2, Leaf(X));
  if (how == 1) {
    // applied to A@: X@ and A@ are the same
    for (int i = 0; i < np; ++i) if (pool[i].op == X) pool[i].op = A;
  }
  bool same = Same(b1, b2);
  sx_check(Accepted() == same, "type functions are equal exactly when they agree on every argument");
  sx_reach(same ? "equal" : "different");
  sx_reach("end");
}
#else
typedef struct K { struct K* arg; struct K* r; } K;      // arg NULL: @
static K pool[40]; static int np;
static K* Gen(int d) {
  K* k = pool + np++;
  k->arg = k->r = NULL;
  if (d > 0 && sx_pick("kind", 2)) { k->arg = Gen(d - 1); k->r = Gen(d - 1); }
  return k;
}
static void Print(K* k) { if (k->arg) { Put("<"); Print(k->arg); Put(">"); Print(k->r); } else Put("@"); }
static bool Same(K* a, K* b) { return (!a->arg && !b->arg) || (a->arg && b->arg && Same(a->arg, b->arg) && Same(a->r, b->r)); }
void sx_main(void) {
  K* a = Gen(DEPTH); K* b = Gen(DEPTH);
  bool same = Same(a, b);
  Put("@ Unit@ = *();\nUnit@ Unit = Unit@();\n");
  switch (sx_pick("how", 4)) {
    case 0: Put("<"); Print(a); Put(" F@> { (Unit@) { Unit@; }; } f = <"); Print(b); Put(" G@> { (Unit@ x) { x; }; };\nf;\n"); break;
    case 1:  Put("<<"); Print(a); Put(">@ P@, "); Print(b); Put(" G@> { (P@<G@> x) { x; }; };\n"); break;
    case 2: Put("<"); Print(b); Put(" G@> { "); Print(a); Put(" F@ = G@; Unit; };\n"); break;
    default: Put("<"); Print(b); Put(" G@> { (<"); Print(a); Put(" X@> { Unit@; } f) { f<G@>; }; };\n"); break;
  }
  sx_check(Accepted() == same, "accepted exactly when the kinds are equal");
  sx_reach(same ? "equal" : "different");
  sx_reach("end");
}
#endif
