// Values built through the constructors read back unchanged through the
// accessors: arbitrary shapes, arities, tags and nesting, before and after
// being returned from a frame, and after a full collection.
#include <fble/fble-value.h>
#include <fble/fble-function.h>
#include "sx.h"

typedef struct Spec { int kind; size_t n; size_t tag; struct Spec* kids[72]; FbleValue* v; } Spec;
enum { S, U, N, F };
static Spec pool[400];
static size_t npool;
static FbleValueHeap* heap;
static int datum[8];
static size_t ndatum;

static Spec* NewSpec(int kind, size_t n, size_t tag) {
  Spec* s = pool + npool++;
  s->kind = kind; s->n = n; s->tag = tag;
  return s;
}
static FbleValue* Run(FbleValueHeap* h, FbleProfileThread* t, FbleFunction* f, FbleValue** args) { return NULL; }

static FbleValue* Build(Spec* s) {
  FbleValue* xs[72];
  if (s->kind == N) return s->v = FbleNewNativeValue(heap, datum + s->tag, NULL);
  for (size_t i = 0; i < s->n; ++i) xs[i] = Build(s->kids[i]);
  if (s->kind == S) return s->v = FbleNewStructValue(heap, s->n, xs);
  if (s->kind == F) {
    FbleExecutable exe = { .num_args = 3, .num_statics = s->n, .run = &Run };
    return s->v = FbleNewFuncValue(heap, &exe, 17, xs);
  }
  return s->v = FbleNewUnionValue(heap, s->tag, xs[0]);
}

static void Verify(Spec* s, FbleValue* v) {
  switch (s->kind) {
    case N: sx_check(FbleNativeValueData(v) == datum + s->tag, "native data"); break;
    case S:
      for (size_t i = 0; i < s->n; ++i) Verify(s->kids[i], FbleStructValueField(v, i));
      break;
    case F: {
      FbleFunction* f = FbleFuncValueFunction(v);
      sx_check(f->executable.num_args == 3 && f->executable.num_statics == s->n && f->executable.run == &Run && f->profile_block_id == 17, "function header");
      for (size_t i = 0; i < s->n; ++i) Verify(s->kids[i], f->statics[i]);
      break;
    }
    case U: {
      sx_check(FbleUnionValueTag(v) == s->tag, "union tag");
      Verify(s->kids[0], FbleUnionValueArg(v));
      FbleValue* x = FbleUnionValueField(v, s->tag);
      sx_check(x != FbleWrongUnionTag, "field at the tag");
      Verify(s->kids[0], x);
      sx_check(FbleUnionValueField(v, s->tag + 1) == FbleWrongUnionTag, "field past the tag");
      if (s->tag > 0) sx_check(FbleUnionValueField(v, s->tag - 1) == FbleWrongUnionTag, "field before the tag");
      if (s->tag > 0) sx_check(FbleUnionValueField(v, 0) == FbleWrongUnionTag, "field zero");
    }
  }
}

static Spec* Unit(void) { return NewSpec(S, 0, 0); }
static Spec* Enum(size_t tag) { Spec* s = NewSpec(U, 1, tag); s->kids[0] = Unit(); return s; }

#if MODE == 0
// Arbitrary tree of at most NODES nodes, struct arity up to 3.
static size_t budget = NODES;
static Spec* Gen(void) {
  budget--;
  size_t room = budget < 3 ? budget : 3;
  // struct of 0..room, union, native, function of 0..min(room,2)
  size_t c = sx_pick("shape", room + 1 + 1 + (budget > 0 ? 2 : 0));
  if (c <= room) {
    Spec* s = NewSpec(S, c, 0);
    for (size_t i = 0; i < c; ++i) { if (budget == 0) { s->kids[i] = NewSpec(S, 0, 0); } else { s->kids[i] = Gen(); } }
    return s;
  }
  if (c == room + 1) return NewSpec(N, 0, ndatum < 7 ? ndatum++ : 7);
  Spec* s = NewSpec(c == room + 2 ? U : F, 1, 0);
  if (s->kind == U) s->tag = sx_pick("tag", 3);
  s->kids[0] = Gen();
  return s;
}
static Spec* Root(void) { return Gen(); }
#elif MODE == 1
// Nested unions around the packing boundary.
static Spec* Root(void) {
  size_t t1 = sx_pick("inner", 70), t2 = sx_pick("outer", 70), k = sx_pick("siblings", 4), pos = 0;
  if (k > 1) pos = sx_pick("pos", 2) * (k - 1);
  Spec* in = Enum(t1);
  Spec* s = NewSpec(U, 1, t2);
  s->kids[0] = in;
  if (k == 0) return s;
  Spec* st = NewSpec(S, k, 0);
  for (size_t i = 0; i < k; ++i) st->kids[i] = i == pos ? s : Unit();
  return st;
}
#elif MODE == 2
// Wide structs of small enums, one field of any tag, optionally inside a union.
static Spec* Root(void) {
  size_t n = sx_pick("fields", 70), t = sx_pick("tag", 12), p = n ? sx_pick("pos", 3) : 0, w = sx_pick("wrap", 3);
  Spec* st = NewSpec(S, n, 0);
  for (size_t i = 0; i < n; ++i) st->kids[i] = i == (p == 0 ? 0 : p == 1 ? n / 2 : n - 1) ? Enum(t) : (i % 3 == 2) ? Enum(1) : Unit();
  if (w == 0) return st;
  Spec* u = NewSpec(w == 1 ? U : S, 1, w);
  u->kids[0] = st;
  return u;
}
#endif

void sx_main(void) {
  heap = FbleNewValueHeap();
  Spec* s = Root();
  FblePushFrame(heap);
  FblePushFrame(heap);
  FbleValue* v = Build(s);
  Verify(s, v);
  FbleValue* again = Build(s);        // a second copy must not disturb the first
  Verify(s, v);
  Verify(s, again);
  v = FblePopFrame(heap, v);
  Verify(s, v);
  FbleValue* ref = FbleNewRefValue(heap);
  sx_check(FbleStructValueField(ref, 0) == NULL && FbleUnionValueTag(ref) == (size_t)-1 && FbleUnionValueArg(ref) == NULL
      && FbleUnionValueField(ref, 0) == NULL && FbleFuncValueFunction(ref) == NULL, "undefined value reads as undefined");
  sx_check(FbleAssignRefValue(heap, ref, v), "reference to a value");
  Verify(s, ref);
  v = FblePopFrame(heap, ref);
  Verify(s, v);
  FbleValueFullGc(heap);
  Verify(s, v);
  FbleFreeValueHeap(heap);
  sx_check(sx_live_allocs() == 0, "memory returned");
  sx_reach("end");
}
