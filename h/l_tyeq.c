// Type equality: every pair of recursive type definitions of a bounded size is
// accepted as equal exactly when the two describe the same infinite type.
#include <string.h>
#include <fble/fble-alloc.h>
#include <fble/fble-load.h>
#include <fble/fble-link.h>
#include <fble/fble-module-path.h>
#include "sx.h"
#ifndef CAST
#define CAST 0
#endif
static char src[8192]; static size_t n;
static void Put(const char* s) { while (*s) src[n++] = *s++; }
enum { F_STRUCT1, F_UNION2, F_FUNC, F_BOX, F_POLY, F_ABS, F_STRUCT2, F_STRUCT1B, F_UNION1, F_UNIT, F_LIST };
#define UNIT NODES
typedef struct { int form, a, b; } Node;
static Node nodes[8];
static const char* const T[] = { "T0@", "T1@", "T2@", "T3@" };
static const char* Name(int i) { return i == UNIT ? "Unit@" : T[i]; }
// The infinite type at a position: nodes, or F_LIST/POLY instances of nodes.
static Node At(int i) { if (i < 100) return i == UNIT ? (Node){ F_UNIT, 0, 0 } : nodes[i]; return (Node){ F_POLY, i - 100, 0 }; }
static int Kids(Node x, int* shape, int out[2]) {
  *shape = x.form;
  switch (x.form) {
    case F_BOX: *shape = F_STRUCT1; out[0] = x.a; return 1;                         // F@<A> is *(A x)
    case F_POLY: *shape = F_UNION2; out[0] = x.a; out[1] = 100 + x.a; return 2;     // G@<A> is +(A x, G@<A> y)
    case F_STRUCT1: case F_STRUCT1B: case F_ABS: case F_UNION1: out[0] = x.a; return 1;
    case F_UNIT: return 0;
    default: out[0] = x.a; out[1] = x.b; return 2;
  }
}
static int seen[200][2]; static int nseen;
static bool vacuous;    // a comparison of two types without content: either answer would do
static int Res(int i) {   // inside a cast, Tok@<A> is A
  for (int k = 0; k <= NODES && i < NODES && CAST && nodes[i].form == F_ABS; ++k) i = nodes[i].a;
  return i < NODES && CAST && nodes[i].form == F_ABS ? -1 : i;
}
static bool Same(int i, int j) {
  i = Res(i); j = Res(j);
  if (i == -1 || j == -1) { vacuous |= i == j; return false; }
  if (i == j) return true;
  for (int k = 0; k < nseen; ++k) if (seen[k][0] == i && seen[k][1] == j) return true;
  seen[nseen][0] = i; seen[nseen++][1] = j;
  int si, sj, a[2], b[2];
  int ni = Kids(At(i), &si, a), nj = Kids(At(j), &sj, b);
  if (si != sj || ni != nj) return false;
  for (int k = 0; k < ni; ++k) if (!Same(a[k], b[k])) return false;
  return true;
}
static int Target(void) { return (int)sx_pick("target", UNITS ? NODES + 1 : NODES); }
void sx_main(void) {
  Put("@ Unit@ = *();\nUnit@ Unit = Unit@();\n<@>@ F@ = <@ X@> { *(X@ x); };\n<@>@ G@ = <@ X@> { @ L@ = +(X@ x, L@ y); L@; };\n@ Tok@ = %(/Foo%);\n");
  for (int i = 0; i < NODES; ++i) {
    Node* x = nodes + i;
    x->form = (int)sx_pick("form", FORMS);
    x->a = Target();
    bool two = x->form == F_UNION2 || x->form == F_FUNC || x->form == F_STRUCT2;
    if (two) x->b = FULL ? Target() : (x->a + 1) % NODES;
    Put(i ? ", @ " : "@ "); Put(T[i]); Put(" = ");
    switch (x->form) {
      case F_STRUCT1: Put("*("); Put(Name(x->a)); Put(" x)"); break;
      case F_STRUCT1B: Put("*("); Put(Name(x->a)); Put(" y)"); break;
      case F_UNION1: Put("+("); Put(Name(x->a)); Put(" x)"); break;
      case F_UNION2: case F_STRUCT2: Put(x->form == F_UNION2 ? "+(" : "*("); Put(Name(x->a)); Put(" x, "); Put(Name(x->b)); Put(" y)"); break;
      case F_FUNC: Put("("); Put(Name(x->a)); Put(") { "); Put(Name(x->b)); Put("; }"); break;
      case F_BOX: Put("F@<"); Put(Name(x->a)); Put(">"); break;
      case F_POLY: Put("G@<"); Put(Name(x->a)); Put(">"); break;
      case F_ABS: Put("Tok@<"); Put(Name(x->a)); Put(">"); break;
    }
  }
  if (CAST) Put(";\n(T0@) { T1@; } f = (T0@ z) { Tok@.<T1@>(z); };\nf;\n");
  else Put(";\n(T0@) { Unit@; } f = (T1@ z) { Unit; };\nf;\n");
#ifdef SHOW
  fprintf(stderr, "%s\n", src);
#endif
  bool same = Same(0, 1);
  sx_file("/m/Foo.fble", src, n);
  FbleSearchPath* sp = FbleNewSearchPath();
  FbleAppendToSearchPath(sp, "/m");
  FbleModulePath* mp = FbleParseModulePath("/Foo%");
  FbleProfile* profile = FbleNewProfile(false);
  FbleValueHeap* heap = FbleNewValueHeap();
  FbleValue* linked = FbleLink(heap, profile, NULL, sp, mp);
  if (!vacuous) sx_check((linked != NULL) == same, "types are equal exactly when they describe the same type");
  sx_reach(same ? "equal" : "different");
  FbleFreeValueHeap(heap);
  FbleFreeProfile(profile);
  FbleFreeModulePath(mp);
  FbleFreeSearchPath(sp);
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
