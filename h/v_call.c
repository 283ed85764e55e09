// Function application: every way of supplying arguments to a chain of native
// functions that return, call, tail call, hand back functions or abort gives
// the result of a direct model of application; arguments survive collection.
#include <string.h>
#include <fble/fble-value.h>
#include <fble/fble-function.h>
#include "sx.h"

typedef struct Fn Fn;
typedef struct M { int kind; int n; struct M* xs[16]; Fn* fn; int id; } M;    // model values
enum { LEAF, TUPLE, FUNC, ABORT };
enum { K_TUPLE, K_TAIL, K_CALL, K_RET, K_DROP, K_TAILDUP, K_ABORT, K_UNDEF, K_MAX };
struct Fn { int kind, arity; Fn* next; M* stat; FbleValue* v; bool ref; int calls, modelcalls; };

static M mpool[600]; static int nm;
static Fn fns[8]; static int nfn;
static FbleValueHeap* heap;
static int released[600];
static int churn;
static M AbortM = { ABORT };

static M* NewM(int kind) { M* m = mpool + nm; m->kind = kind; m->id = nm++; m->n = 0; m->fn = NULL; return m; }
static void OnFree(void* d) { M* m = d; sx_check(!released[m->id], "released once"); released[m->id] = 1; }
static FbleValue* Leaf(FbleValueHeap* h, M* m) { return FbleNewNativeValue(h, m, &OnFree); }
static M garbage;
static void Nop(void* d) { }
static void Churn(FbleValueHeap* h) { for (int i = 0; i < churn; ++i) FbleNewNativeValue(h, &garbage, &Nop); }

static FbleValue* Run(FbleValueHeap* h, FbleProfileThread* t, FbleFunction* f, FbleValue** args);

// ---- model of application ----
static M* Apply(M* f, int n, M** xs);
static M* Body(Fn* fn, M** xs) {
  fn->modelcalls++;
  M* ys[16];
  switch (fn->kind) {
    case K_TUPLE: { M* m = NewM(TUPLE); m->n = fn->arity; for (int i = 0; i < fn->arity; ++i) m->xs[i] = xs[i]; return m; }
    case K_TAIL: case K_CALL: case K_DROP: {
      for (int i = 0; i < fn->arity; ++i) ys[i] = xs[fn->arity - 1 - i];
      ys[fn->arity] = fn->stat;
      M* g = NewM(FUNC); g->fn = fn->next;
      M* r = Apply(g, fn->arity + 1, ys);
      if (r->kind == ABORT) return r;
      return fn->kind == K_DROP ? xs[0] : r;
    }
    case K_TAILDUP: {
      for (int i = 0; i < 4; ++i) ys[i] = xs[0];
      M* g = NewM(FUNC); g->fn = fn->next;
      return Apply(g, 4, ys);
    }
    case K_RET: { M* g = NewM(FUNC); g->fn = fn->next; return g; }
    default: return &AbortM;
  }
}
static M* Apply(M* f, int n, M** xs) {
  if (f->kind == ABORT) return f;
  sx_assume(f->kind == FUNC);           // only well-typed applications
  if (f->fn->kind == K_UNDEF) return &AbortM;
  M* all[40]; int k = 0;
  for (int i = 0; i < f->n; ++i) all[k++] = f->xs[i];
  for (int i = 0; i < n; ++i) all[k++] = xs[i];
  sx_assume(k <= 14);
  if (k < f->fn->arity) { M* p = NewM(FUNC); p->fn = f->fn; p->n = k; for (int i = 0; i < k; ++i) p->xs[i] = all[i]; return p; }
  M* r = Body(f->fn, all);
  k -= f->fn->arity;
  if (r->kind == ABORT || k == 0) return r;
  return Apply(r, k, all + f->fn->arity);
}

// ---- the same bodies, natively ----
static FbleValue* Run(FbleValueHeap* h, FbleProfileThread* t, FbleFunction* f, FbleValue** args) {
  Fn* fn = FbleNativeValueData(f->statics[2]);
  fn->calls++;
  FbleValue* stat = f->statics[0];
  FbleValue* next = f->statics[1];
  Churn(h);
  FbleValue* ys[16];
  switch (fn->kind) {
    case K_TUPLE: return FbleNewStructValue(h, fn->arity, args);
    case K_TAIL: case K_CALL: case K_DROP: {
      for (int i = 0; i < fn->arity; ++i) ys[i] = args[fn->arity - 1 - i];
      ys[fn->arity] = stat;
      if (fn->kind == K_TAIL) {
        FbleFunction* g = FbleFuncValueFunction(next);
        if (g == NULL) return NULL;
        return FbleTailCall(h, g, next, fn->arity + 1, ys);
      }
      FbleValue* r = FbleCall(h, t, next, fn->arity + 1, ys);
      if (r == NULL) return NULL;
      Churn(h);
      return fn->kind == K_DROP ? args[0] : r;
    }
    case K_TAILDUP: {
      for (int i = 0; i < 4; ++i) ys[i] = args[0];
      FbleFunction* g = FbleFuncValueFunction(next);
      if (g == NULL) return NULL;
      return FbleTailCall(h, g, next, 4, ys);
    }
    case K_RET: return next;
    default: return NULL;
  }
}

static void Same(FbleValue* v, M* m) {
  if (m->kind == LEAF) { sx_check(!released[m->id], "result not released"); sx_check(FbleNativeValueData(v) == m, "argument passed in order"); }
  else if (m->kind == TUPLE) for (int i = 0; i < m->n; ++i) Same(FbleStructValueField(v, i), m->xs[i]);
  else {
    FbleFunction* f = FbleFuncValueFunction(v);
    sx_check((f == NULL) == (m->fn->kind == K_UNDEF), "function defined");
    if (f) sx_check((int)f->executable.num_args == m->fn->arity - m->n, "remaining arguments");
  }
}

static Fn* Make(int depth, size_t block) {
  Fn* fn = fns + nfn++;
  fn->kind = (int)sx_pick("kind", depth > 0 ? K_MAX : 1);
  fn->arity = fn->kind == K_UNDEF ? 1 : 1 + (int)sx_pick("arity", depth > 0 ? 2 : 3);
  fn->ref = fn->kind == K_UNDEF || sx_pick("ref", 2);
  FbleValue* st[3] = { FbleNewStructValue_(heap, 0), FbleNewStructValue_(heap, 0), FbleNewNativeValue(heap, fn, &Nop) };
  if (fn->kind == K_UNDEF) { fn->v = FbleNewRefValue(heap); return fn; }
  if (fn->kind != K_TUPLE && fn->kind != K_ABORT) { fn->next = Make(depth - 1, block + 1); st[1] = fn->next->v; }
  if (fn->kind == K_TAIL || fn->kind == K_CALL || fn->kind == K_DROP) { fn->stat = NewM(LEAF); st[0] = Leaf(heap, fn->stat); }
  FbleExecutable exe = { .num_args = fn->arity, .num_statics = 3, .run = &Run };
  fn->v = FbleNewFuncValue(heap, &exe, block, st);
  if (fn->ref) {
    FbleValue* r = FbleNewRefValue(heap);
    sx_check(FbleAssignRefValue(heap, r, fn->v), "assign");
    fn->v = r;
  }
  return fn;
}

void sx_main(void) {
  heap = FbleNewValueHeap();
  FbleProfile* profile = FbleNewProfile(PROFILE);
  FbleName nm2 = { .name = FbleNewString("f"), .space = FBLE_NORMAL_NAME_SPACE, .loc = { .source = FbleNewString("s"), .line = 1, .col = 1 } };
  for (int i = 0; i < 6; ++i) FbleAddBlockToProfile(profile, FbleCopyName(nm2));
  FbleFreeName(nm2);
  churn = CHURN;
  Fn* f = Make(DEPTH, 1);
  int total = 1 + (int)sx_pick("args", ARGS);
  M* ms[8];
  for (int i = 0; i < total; ++i) ms[i] = NewM(LEAF);
  // Supply the arguments in any grouping.
  M* want = NewM(FUNC); want->fn = f;
  FbleValue* got = f->v;
  FbleValue* held[8]; M* heldm[8]; int nheld = 0;
  for (int i = 0; i < total; ) {
    int g = 1 + (int)sx_pick("group", (size_t)(total - i));
    FbleValue* xs[8];
    for (int j = 0; j < g; ++j) xs[j] = Leaf(heap, ms[i + j]);
    want = Apply(want, g, ms + i);
    got = FbleApply(heap, got, (size_t)g, xs, profile);
    sx_check((got == NULL) == (want->kind == ABORT), "aborts exactly when the model does");
    if (got == NULL) { sx_reach("abort"); break; }
    Same(got, want);
    held[nheld] = got; heldm[nheld++] = want;
    for (int j = 0; j < nheld; ++j) Same(held[j], heldm[j]);    // earlier results (partial applications) unaffected
    i += g;
    if (want->kind != FUNC) { sx_assume(i == total); break; }
  }
  for (int i = 0; i < nfn; ++i) sx_check(fns[i].calls == fns[i].modelcalls, "each body runs once per application");
  for (int j = 0; j < nheld; ++j) Same(held[j], heldm[j]);
  // The heap stays usable, also after an abort.
  FblePushFrame(heap);
  M* extra = NewM(LEAF);
  FbleValue* x = FbleNewStructValue_(heap, 1, Leaf(heap, extra));
  x = FblePopFrame(heap, x);
  FbleValueFullGc(heap);
  Same(FbleStructValueField(x, 0), extra);
  for (int j = 0; j < nheld; ++j) Same(held[j], heldm[j]);
  FbleFreeValueHeap(heap);
  FbleFreeProfile(profile);
  for (int i = 0; i < nm; ++i) if (mpool[i].kind == LEAF && mpool[i].id < 0) sx_fail("unreachable");
  sx_check(sx_live_allocs() == 0, "memory returned");
  sx_reach("end");
}
