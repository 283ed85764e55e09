// Arbitrary small programs, well typed or not, with values, types, polymorphic
// values, kinds, module paths and undefined names in every position: the
// pipeline accepts or rejects each without a memory error, an assertion or a
// leak, and an accepted program runs.
#include <string.h>
#include <fble/fble-alloc.h>
#include <fble/fble-load.h>
#include <fble/fble-link.h>
#include <fble/fble-value.h>
#include <fble/fble-module-path.h>
#include "sx.h"
static const char* const T[] = {      // '$' is a hole
  "$.x", "$.cons", "$.a", "$.%", "$|'ab'", "$|''", "/Bar%", "@<$>", "$",
  "$($)", "$[$]", "$<$>", "$(a: $)", "$(x: $)", "@(x: $)", "$.@(x: $)", "$.?(a: $, : $)", "$.?(: $)", "{ $; }", "%($)",
  "<@ T@> { $; }", "<@ T@>($ i) { T@; }", "<@ T@>(T@) { $; }", "<<@>@ T@> { T@<$>; }", "<<@>@ T@> { $; }", "<@ T@>(T@ i) { $; }", "*($ x)", "+($ a, $ b)", "*($ x, $ x)", "($) { $; }",
  "($ z) { $; }", "$.<$>($)", "{ @ Z@ = $; $; }", "{ % z = $; $; }", "{ $ z <- $; $; }", "{ $ z = $; $; }", "{ @ z = $; $; }", "{ % Z@ = $; $; }",
  "$($, $)", "$[$, $]", "$.@(x: $, y: $)", "$.?(a: $, b: $, c: $)", "$.?(b: $, c: $, : $)", "@(x: $, y: $)", "@(x: $, x: $)", "{ <@>@ Z@ = $; Z@<$>; }",
  "{ <@>% z = $; z<$>; }", "{ $.?(a: $); $; }", "{ @<$> z = $; $; }", "{ @ Z@ = $, $ z = $; $; }", "{ $ z = $, $ z = $; $; }",
};
#define NT_ (sizeof T / sizeof *T)
static const char* const L[] = { "p", "N@", "s", "f", "undefined", "Unit@", "Id@", "id", "P@", "z", "Z@", "L@", "Tok@", "Ab@", "ab", "nil" };
static char src[16384]; static size_t n;
static void Put(const char* s) { while (*s) src[n++] = *s++; }
static void Leaf(size_t leaves) { Put(L[sx_pick("leaf", leaves)]); }
static void Fill(size_t t, int nest, size_t u) {      // nest: which hole holds the template u (-1: none)
  int k = 0;
  for (const char* s = T[t]; *s; ++s) {
    if (*s != '$') { src[n++] = *s; continue; }
    if (k++ == nest) Fill(u, -1, 0); else Leaf(nest >= 0 || DEPTH == 2 ? LEAVES2 : LEAVES1);
  }
}
static int Holes(size_t t) { int k = 0; for (const char* s = T[t]; *s; ++s) k += *s == '$'; return k; }
void sx_main(void) {
  Put("@ Unit@ = *(); Unit@ Unit = Unit@();\n@ N@ = +(Unit@ a, Unit@ b, Unit@ c);\n@ P@ = *(N@ x, N@ y);\n"
      "@ L@ = +(LP@ cons, Unit@ nil), @ LP@ = *(N@ head, L@ tail);\nL@ nil = L@(nil: Unit);\n"
      "@ Tok@ = %(/Foo%); @ Ab@ = Tok@<N@>; Ab@ ab = Tok@.<Ab@>(N@(a: Unit));\n"
      "<@>@ Id@ = <@ T@> { T@; };\n<@ T@>(T@) { T@; } id = <@ T@>(T@ x) { x; };\n(L@) { N@; } f = (L@ l) { l.cons.head; };\n"
      "(N@ p, P@ s) { ");
  size_t t = sx_pick("template", NT_);
  int h = Holes(t);
  sx_assume(h >= MINHOLES && h <= MAXHOLES);
  if (DEPTH == 1) Fill(t, -1, 0);
  else { sx_assume(h > 0); int k = (int)sx_pick("nest", (size_t)h); Fill(t, k, sx_pick("inner", NT_)); }
  Put("; };\n");
#ifdef SHOW
  fprintf(stderr, "%s\n", src);
#endif
  sx_file("/m/Foo.fble", src, n);
  sx_file("/m/Bar.fble", "@ Unit@ = *(); Unit@();\n", 24);
  FbleSearchPath* sp = FbleNewSearchPath();
  FbleAppendToSearchPath(sp, "/m");
  FbleModulePath* mp = FbleParseModulePath("/Foo%");
  FbleProfile* profile = FbleNewProfile(true);
  FbleValueHeap* heap = FbleNewValueHeap();
  FbleValue* linked = FbleLink(heap, profile, NULL, sp, mp);
  if (linked != NULL) {
    FbleValue* f = FbleEval(heap, linked, profile);
    sx_check(f != NULL, "module evaluates to a function");
    FbleValue* args[2] = { FbleNewEnumValue(heap, 0), NULL };
    args[1] = FbleNewStructValue_(heap, 2, FbleNewEnumValue(heap, 2), args[0]);
    FbleApply(heap, f, 2, args, profile);
    sx_reach("accepted");
  } else sx_reach("rejected");
  FbleFreeValueHeap(heap);
  FbleFreeProfile(profile);
  FbleFreeModulePath(mp);
  FbleFreeSearchPath(sp);
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
