// Programs run compiled (the code the real generator writes for them, itself
// compiled and executed symbolically) and interpreted: same result or the same
// abort with the same message, same profile, for all argument values.
#include <string.h>
#include <fble/fble-alloc.h>
#include <fble/fble-load.h>
#include <fble/fble-link.h>
#include <fble/fble-value.h>
#include <fble/fble-module-path.h>
#include <fble/fble-generate.h>
#include "sx.h"
#include "progs.h"
#ifndef ROUNDS
#define ROUNDS 1
#endif
typedef struct { FbleProfile* profile; int result[ROUNDS]; bool linked, evaluated; FILE* err; } Outcome;
static int p, q, x[ROUNDS];
static void RunProgram(Outcome* o, const Program* g, FbleGeneratedModule* module) {
  FbleSearchPath* sp = FbleNewSearchPath();
  FbleAppendToSearchPath(sp, "/m");
  FbleModulePath* mp = FbleParseModulePath(g->path);
  FILE* old = stderr;
  stderr = o->err = sx_out();
  o->profile = FbleNewProfile(true);
  FbleValueHeap* heap = FbleNewValueHeap();
  FbleValue* linked = FbleLink(heap, o->profile, module, sp, mp);
  o->linked = linked != NULL;
  FbleValue* f = linked ? FbleEval(heap, linked, o->profile) : NULL;
  o->evaluated = f != NULL;
  for (int r = 0; r < ROUNDS && f; ++r) {
    FbleValue* es[3];
    for (int i = 0; i < 3; ++i) es[i] = FbleNewEnumValue(heap, (size_t)i);
    FbleValue* args[3] = { es[p], es[q], FbleNewStructValue_(heap, 2, es[x[r]], es[(x[r] + 1) % 3]) };
    FbleValue* v = FbleApply(heap, f, 3, args, o->profile);
    o->result[r] = v ? (int)FbleUnionValueTag(v) : -1;
    if (!v) FbleValueFullGc(heap);
  }
  FbleFreeValueHeap(heap);
  FbleFreeModulePath(mp);
  FbleFreeSearchPath(sp);
  stderr = old;
}
// Removes the warnings of the compiler from messages: what is left is about running.
static size_t Errors(const char* in, size_t n, char* out, size_t cap) {
  size_t k = 0;
  for (size_t i = 0; i < n; ) {
    size_t e = i;
    bool warn = false;
    while (e < n && in[e] != '\n') { warn = warn || (e + 9 <= n && !memcmp(in + e, "warning: ", 9)); e++; }
    if (e < n) e++;
    if (!warn) { sx_check(k + e - i <= cap, "harness size"); memcpy(out + k, in + i, e - i); k += e - i; }
    i = e;
  }
  return k;
}
// Block j of b that corresponds to block i of a.
static size_t Match(FbleProfile* a, size_t i, FbleProfile* b) {
  FbleName* n = &a->blocks.xs[i]->name;
  size_t skip = 0;
  for (size_t k = 0; k < i; ++k) if (!strcmp(a->blocks.xs[k]->name.name->str, n->name->str)) skip++;
  for (size_t j = 0; j < b->blocks.size; ++j) if (!strcmp(b->blocks.xs[j]->name.name->str, n->name->str) && skip-- == 0) return j;
  return b->blocks.size;
}
static void SameProfile(FbleProfile* a, FbleProfile* b) {
  sx_check(a->blocks.size == b->blocks.size, "number of profile blocks");
  for (size_t i = 0; i < a->blocks.size; ++i) {
    size_t j = Match(a, i, b);
    sx_check(j < b->blocks.size, "profile block of that name");
    FbleBlockProfile *s = a->blocks.xs[i], *t = b->blocks.xs[j];
    if (!strcmp(s->name.name->str, "<main>")) continue;   // located in the source of the linker
    size_t len = strlen(s->name.name->str);
    // the block of a module is located where it is imported, or at its start if it is compiled on its own
    if (len == 0 || s->name.name->str[len - 1] != '%') {
    sx_check(s->name.loc.line == t->name.loc.line && s->name.loc.col == t->name.loc.col, "location of a profile block");
    sx_check((s->name.loc.source == NULL) == (t->name.loc.source == NULL) && (s->name.loc.source == NULL || !strcmp(s->name.loc.source->str, t->name.loc.source->str)), "source of a profile block");
    }
    sx_check(s->block.count == t->block.count, "count of a profile block");
    sx_check(s->block.time == t->block.time && s->self == t->self, "time of a profile block");
    sx_check(s->callees.size == t->callees.size, "number of callees");
    for (size_t k = 0; k < s->callees.size; ++k) {
      size_t m = Match(a, s->callees.xs[k]->id, b), l = 0;
      while (l < t->callees.size && t->callees.xs[l]->id != m) l++;
      sx_check(l < t->callees.size, "callee");
      sx_check(s->callees.xs[k]->count == t->callees.xs[l]->count && s->callees.xs[k]->time == t->callees.xs[l]->time, "count and time of a call");
    }
  }
}
void sx_main(void) {
  sx_rand_fixed = 1;
  const Program* g = progs[sx_pick("program", NPROGS)];
  for (int i = 0; i < g->n; ++i) sx_file(g->files[i].path, g->files[i].text, strlen(g->files[i].text));
#ifdef SHOW
  for (int i = 0; i < g->n; ++i) fprintf(stderr, "%s: %s\n", g->files[i].path, g->files[i].text);
#endif
  p = (int)sx_pick("p", 3); q = (int)sx_pick("q", 3);
  for (int r = 0; r < ROUNDS; ++r) x[r] = r ? 0 : (int)sx_pick("s.x", 3);
  for (int r = 0; r < ROUNDS; ++r) sx_assume(!(g->diverges >> (9 * p + 3 * q + x[r]) & 1));     // does not end: outside the bounds
  Outcome i = { 0 }, c = { 0 };
  RunProgram(&i, g, NULL);
  RunProgram(&c, g, *g->module);
  sx_check(i.linked && i.evaluated, "harness: program is valid");
  sx_check(c.linked && c.evaluated, "compiled program links and runs");
  bool aborted = false;
  for (int r = 0; r < ROUNDS; ++r) { sx_check(i.result[r] == c.result[r], "compiled program gives the result of the interpreted one"); aborted = aborted || i.result[r] < 0; }
  size_t ni, nc;
  const char *ei = sx_out_data(i.err, &ni), *ec = sx_out_data(c.err, &nc);
#ifdef SHOW
  fprintf(stderr, "interpreted: %.*scompiled: %.*s", (int)ni, ei, (int)nc, ec);
#endif
  static char bi[4000], bc[4000];
  ni = Errors(ei, ni, bi, sizeof bi); nc = Errors(ec, nc, bc, sizeof bc); ei = bi; ec = bc;
  sx_check(ni == nc && memcmp(ei, ec, ni) == 0, "same error messages");
  sx_check((ni != 0) == aborted, "an abort is reported");
  SameProfile(i.profile, c.profile);
  SameProfile(c.profile, i.profile);
  FbleFreeProfile(i.profile);
  FbleFreeProfile(c.profile);
  fclose(i.err); fclose(c.err);
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach(aborted ? "abort" : "result");
  sx_reach("end");
}
