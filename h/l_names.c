// Names: every group of up to N bindings, fields, parameters or branches with
// any names is accepted exactly if the names obey the rules of that kind of
// group, and a name then denotes the binding the rules say.
#include <string.h>
#include <fble/fble-alloc.h>
#include <fble/fble-load.h>
#include <fble/fble-link.h>
#include <fble/fble-value.h>
#include <fble/fble-module-path.h>
#include "sx.h"
static char src[8192]; static size_t n;
static void Put(const char* s) { while (*s) src[n++] = *s++; }
static void PutI(const char* s, int i) { Put(s); src[n++] = (char)('0' + i); }
// names 0 and 2 are the same name
static const char* const names[] = { "x", "x1", "'x'", "y", "x@" };
static const int same[] = { 0, 1, 0, 2, 3 };
static int name[8]; static int cnt;
static void Item(int i) { Put(names[name[i]]); }
static void Val(int i) { PutI("V@(t", i); Put(": Unit)"); }
static void Decl(int i) { Put(name[i] == 4 ? "@<V@> " : "V@ "); Item(i); }
static void Def(int i) { if (name[i] == 4) Put("V@"); else Val(i); }
#define ALL(sep, what) for (int i = 0; i < cnt; ++i) { if (i) Put(sep); what; }
void sx_main(void) {
  Put("@ Unit@ = *(); Unit@ Unit = Unit@();\n@ V@ = +(Unit@ t0, Unit@ t1, Unit@ t2, Unit@ t3, Unit@ t4);\n"
      "@ S@ = *(V@ x, V@ x1, V@ y, V@ z); S@ s = S@(V@(t0: Unit), V@(t1: Unit), V@(t2: Unit), V@(t3: Unit));\n"
      "@ U@ = +(V@ x, V@ x1, V@ y, V@ z);\n"
      "@ T0@ = *(V@ f0); @ T1@ = *(V@ f1); @ T2@ = *(V@ f2); @ T3@ = *(V@ f3); @ T4@ = *(V@ f4);\n");
  int what = (int)sx_pick("what", 11);
  bool types = what == 0 || what == 2 || what == 3 || what == 10;   // where types can be bound, too
  cnt = (int)sx_pick("count", NMAX + 1);
  for (int i = 0; i < cnt; ++i) name[i] = (int)sx_pick("name", types ? 5 : 4);
  int q = (int)sx_pick("asked for", 3) ; if (q == 2) q = 3;         // x, x1 or y
  int tag = 0;
  bool dup = false; int first = -1, last = -1;
  for (int i = 0; i < cnt; ++i) {
    for (int j = 0; j < i; ++j) dup |= same[name[i]] == same[name[j]];
    if (same[name[i]] == same[q]) { last = i; if (first < 0) first = i; }
  }
  bool ok = !dup && first >= 0; int want = first;
  switch (what) {
    case 0:    // fields of a struct type
      Put("@ R@ = *("); ALL(", ", Decl(i)); Put("); R@("); ALL(", ", Def(i)); Put(")."); Put(names[q]); Put(";\n");
      break;
    case 1: {  // tags of a union type
      sx_assume(cnt > 0);
      Put("@ R@ = +("); ALL(", ", Decl(i)); Put("); R@("); Put(names[q]); Put(": s.z).?("); ALL(", ", Item(i); Put(": "); Val(i)); Put(");\n");
      break;
    }
    case 2:    // fields of a struct value of implicit type
      Put("@("); ALL(", ", Item(i); Put(": "); Def(i)); Put(")."); Put(names[q]); Put(";\n");
      break;
    case 3:    // variables bound together
      sx_assume(cnt > 0);
      ALL(", ", Put(name[i] == 4 ? "@" : "V@"); Put(" "); Item(i); Put(" = "); Def(i)); Put("; "); Put(names[q]); Put(";\n");
      break;
    case 4:    // parameters of a function; a later one shadows an earlier one
      sx_assume(cnt > 0);
      Put("("); ALL(", ", Decl(i)); Put(") { "); Put(names[q]); Put("; }("); ALL(", ", Def(i)); Put(");\n");
      ok = first >= 0; want = last;
      break;
    case 5:    // variables bound one after the other
      ALL(" ", Decl(i); Put(" = "); Def(i); Put(";")); Put(names[q]); Put(";\n");
      ok = first >= 0; want = last;
      break;
    case 6: {  // branches of a select: in the order of the type, all of them or a default
      sx_assume(cnt > 0);
      bool dflt = sx_pick("default", 2) != 0;
      tag = (int)sx_pick("tag", 4);
      static const char* const tags[] = { "x", "x1", "y", "z" };
      Put("U@("); Put(tags[tag]); Put(": s.z).?("); ALL(", ", Item(i); Put(": "); Val(i)); if (dflt) Put(", : V@(t4: Unit)"); Put(");\n");
      sx_assume(q == 0);
      ok = true; want = 4;
      for (int i = 0; i < cnt; ++i) { ok &= i == 0 || same[name[i]] > same[name[i - 1]]; if (same[name[i]] == tag) want = i; }
      ok &= dflt;     // there is no branch for z, otherwise
      break;
    }
    case 7:    // fields of a struct copy: in the order of the type
      sx_assume(cnt > 0);
      Put("s.@("); ALL(", ", Item(i); Put(": V@(t4: Unit)")); Put(")."); Put(names[q]); Put(";\n");
      ok = true; want = first >= 0 ? 4 : same[q];
      for (int i = 1; i < cnt; ++i) ok &= same[name[i]] > same[name[i - 1]];
      break;
    case 8:    // type parameters; a later one shadows an earlier one
    case 9: {  // types bound one after the other
      sx_assume(cnt > 0);
      static const char* const ty[] = { "x@", "x1@", "'x'@", "y@" };
      int k = (int)sx_pick("type", (size_t)cnt);
      Put("V@ r = ");
      if (what == 8) { Put("<"); ALL(", ", Put("@ "); Put(ty[name[i]])); Put("> { ("); Put(ty[q]); PutI(" t) { t; }; }<", 0); n--; ALL(", ", PutI("T", i); Put("@")); Put(">"); }
      else { Put("{ "); ALL(" ", Put("@ "); Put(ty[name[i]]); PutI(" = T", i); Put("@;")); Put("("); Put(ty[q]); Put(" t) { t; }; }"); }
      PutI("(T", k); Put("@("); Val(k); PutI(")).f", k); Put("; r;\n");
      ok = first >= 0 && k == last; want = k;
      break;
    }
    case 10:   // values for the fields of a struct: as many as there are
      sx_assume(q == 0);
      Put("@ R@ = *(V@ a, @<V@> b@, V@ c); R@("); ALL(", ", Def(i)); Put(").a;\n");
      ok = cnt == 3 && name[0] != 4 && name[1] == 4 && name[2] != 4; want = 0;
      break;
  }
#ifdef SHOW
  fprintf(stderr, "%s\n", src);
#endif
  sx_file("/m/Foo.fble", src, n);
  FbleSearchPath* sp = FbleNewSearchPath();
  FbleAppendToSearchPath(sp, "/m");
  FbleModulePath* mp = FbleParseModulePath("/Foo%");
  FbleProfile* profile = FbleNewProfile(true);
  FbleValueHeap* heap = FbleNewValueHeap();
  FbleValue* linked = FbleLink(heap, profile, NULL, sp, mp);
  sx_check((linked != NULL) == ok, "accepted exactly if the names obey the rules");
  sx_check(ok || sx_err_writes() != 0, "a rejection is reported");
  if (linked != NULL) {
    FbleValue* v = FbleEval(heap, linked, profile);
    sx_check(v != NULL && (int)FbleUnionValueTag(v) == want, "a name denotes the binding it should");
    sx_reach("accepted");
  } else sx_reach("rejected");
  FbleFreeValueHeap(heap);
  FbleFreeProfile(profile);
  FbleFreeModulePath(mp);
  FbleFreeSearchPath(sp);
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
