// Programs of the fragment through the whole pipeline: parser, loader, type
// checker, compiler, interpreter and value runtime, against the reference type
// checker and evaluator of lang.h, for all argument values.
#ifndef LEAVES
#define LEAVES 3
#endif
#ifndef ROUNDS
#define ROUNDS 1
#endif
#include "gen.h"
#include <fble/fble-alloc.h>
#include <fble/fble-load.h>
#include <fble/fble-link.h>
#include <fble/fble-value.h>
#include <fble/fble-module-path.h>
static Ty* Params[3] = { &NT, &NT, &PT };
static const char* ParamNames[3] = { "p", "q", "s" };
// Every block is entered as often as the reference evaluator says, and the
// time of the blocks adds up to the time of the whole.
static void Counts(FbleProfile* p) {
  uint64_t self = 0;
  for (size_t i = 0; i < p->blocks.size; ++i) {
    FbleBlockProfile* b = p->blocks.xs[i];
    const char* name = b->name.name->str;
    uint64_t calls = 0, count = 0, want = 0;
    self += b->self;
    sx_check(b->block.time <= p->blocks.xs[0]->block.time, "a block takes no longer than the program");
    sx_check(b->self <= b->block.time, "self time within block time");
    for (size_t c = 0; c < p->blocks.size; ++c) {
      FbleBlockProfile* cb = p->blocks.xs[c];
      if (!strcmp(cb->name.name->str, name)) count += cb->block.count;
      for (size_t j = 0; j < cb->callees.size; ++j) if (cb->callees.xs[j]->id == i) {
        calls += cb->callees.xs[j]->count;
        sx_check(cb->callees.xs[j]->time <= b->block.time && cb->callees.xs[j]->time <= cb->block.time, "a call takes no longer than its caller or callee");
      }
    }
    if (i > 0) sx_check(calls == b->block.count, "calls into a block add up");
    if (!strncmp(name, "/Foo%!", 6)) {
      for (int j = 0; j < nblks; ++j) if (!strcmp(blks[j].name, name)) want = (uint64_t)blks[j].count;
      sx_check(count == want, "block entered as often as its code runs");
    }
    else if (i > 0) sx_check(b->block.count == 1, "module code runs once");
    else sx_check(b->block.count == 1 + ROUNDS && calls == 0, "the root is entered once per evaluation");
  }
  for (int j = 0; j < nblks; ++j) {
    bool found = false;
    for (size_t i = 0; i < p->blocks.size; ++i) found = found || !strcmp(p->blocks.xs[i]->name.name->str, blks[j].name);
    sx_check(found, "block in the profile");
  }
  sx_check(self == p->blocks.xs[0]->block.time, "self times add up");
  sx_reach("profiled");
}
void sx_main(void) {
  bool completed = true;
  if (MODE == 3) sx_rand_fixed = 1;      // sample at every instruction
  mutations = MODE == 1 ? 1 : 0;
  Ex* body = GenProgram(DEPTH);
  Sc* sc = Bind(Bind(Bind(NULL, "p", &NT), "q", &NT), "s", &PT);
  Ty* t = TypeOf(body, sc);
  if (MODE != 1) sx_check(t == &NT, "harness: generated program is well typed");
  // print the body first: it decides which definitions the prelude needs
  static char text[SRCMAX];
  PutEx(body);
  strcpy(text, src);
  nsrc = 0;
  PutPrelude();
  Put("(N@ p, N@ q, P@ s) { "); Put(text); Put("; };\n");
  sx_file("/m/Foo.fble", src, (size_t)nsrc);
#ifdef SHOW
  fprintf(stderr, "%s\n", src);
#endif
  FbleSearchPath* sp = FbleNewSearchPath();
  FbleAppendToSearchPath(sp, "/m");
  FbleModulePath* mp = FbleParseModulePath("/Foo%");
  FbleProfile* profile = FbleNewProfile(true);
  FbleValueHeap* heap = FbleNewValueHeap();
  FbleValue* linked = FbleLink(heap, profile, NULL, sp, mp);
  sx_check((linked != NULL) == (t != NULL), MODE == 0 ? "well typed program accepted" : "accepted exactly when well typed");
  if (linked != NULL && t != NULL) {
    FbleValue* f = FbleEval(heap, linked, profile);
    sx_check(f != NULL, "module evaluates to a function");
    Annotate(body, sc);
    for (int round = 0; round < ROUNDS; ++round) {        // an abort leaves the heap and the function usable
      int p = (int)sx_pick("p", 3), q = (int)sx_pick("q", 3), x = round ? 0 : (int)sx_pick("s.x", 3), y = (x + 1) % 3;
      FbleValue* es[3];
      for (int i = 0; i < 3; ++i) es[i] = FbleNewEnumValue(heap, (size_t)i);
      FbleValue* args[3] = { es[p], es[q], FbleNewStructValue_(heap, 2, es[x], es[y]) };
      V* s = NewV(V_STRUCT); s->n = 2; s->xs[0] = Enum(x); s->xs[1] = Enum(y);
      fuel = 60;
      cur = blks; strcpy(cur->name, "/Foo%!"); cur->count++; nblks = nblks ? nblks : 1;
      V* want = Eval(body, BindV(BindV(BindV(NULL, "p", Enum(p)), "q", Enum(q)), "s", s));
      if (want) want = Force(want);
      FbleValue* got = FbleApply(heap, f, 3, args, profile);
      sx_check((got == NULL) == (want == NULL), "aborts exactly when the reference evaluator does");
      if (got == NULL || want == NULL) sx_reach("abort");
      else if (t == &NT) sx_check(FbleUnionValueTag(got) == (size_t)want->tag, "result of the reference evaluator");
      completed = completed && got != NULL;
      if (MODE == 2 && got == NULL) { FbleValueFullGc(heap); sx_reach("after abort"); }
    }
  } else sx_reach("rejected");
  if (MODE == 3 && completed) Counts(profile);
  FbleFreeValueHeap(heap);
  FbleFreeProfile(profile);
  FbleFreeModulePath(mp);
  FbleFreeSearchPath(sp);
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
