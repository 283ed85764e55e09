// Heap histories: every value reachable from a live frame stays intact, every
// unreachable one is released by a full collection, everything is released
// exactly once by the end.
#include <fble/fble-value.h>
#include <fble/fble-function.h>
#include "sx.h"

// Model of a value: what it should look like.
typedef struct Model { int kind; struct Model* a; struct Model* b; int id; int seen; int depth; } Model;
enum { NATIVE, PAIR, WRAP, FUNC, REF, SMALL };
typedef struct { FbleValue* v; Model* m; } Handle;

#define MAXM 80
static Model models[MAXM];
static int nmodels;
static int freed[MAXM];
static Handle hs[MAXM];        // handles of all live frames, oldest first
static int nh;
static int base[16];           // first handle of each frame
static int nf;
static FbleValueHeap* heap;
static int stamp;

static void OnFree(void* data) {
  Model* m = (Model*)data;
  sx_check(m >= models && m < models + nmodels && m->kind == NATIVE, "release function called with its own data");
  sx_check(freed[m->id] == 0, "released once");
  freed[m->id]++;
}

static FbleValue* Run(FbleValueHeap* h, FbleProfileThread* t, FbleFunction* f, FbleValue** args) { return NULL; }

static Model* NewModel(int kind, Model* a, Model* b) {
  Model* m = models + nmodels;
  m->kind = kind; m->a = a; m->b = b; m->id = nmodels++; m->depth = nf;
  return m;
}
static void Push(FbleValue* v, Model* m) { hs[nh].v = v; hs[nh].m = m; nh++; }

// The value v is what m says, as far as a walk without repetition shows.
static void Same(FbleValue* v, Model* m) {
  if (m->kind == REF && m->a) {
    if (m->seen == stamp) return;
    m->seen = stamp;
    Same(v, m->a);        // references are transparent
    return;
  }
  if (m->kind != SMALL) {
    if (m->seen == stamp) return;
    m->seen = stamp;
  }
  switch (m->kind) {
    case SMALL: sx_check(FbleUnionValueTag(v) == 2, "small value"); break;
    case NATIVE:
      sx_check(!freed[m->id], "reachable native value not released");
      sx_check(FbleNativeValueData(v) == m, "native data");
      break;
    case PAIR:
      Same(FbleStructValueField(v, 0), m->a);
      Same(FbleStructValueField(v, 1), m->b);
      break;
    case WRAP:
      sx_check(FbleUnionValueTag(v) == 3, "tag");
      Same(FbleUnionValueArg(v), m->a);
      break;
    case FUNC: {
      FbleFunction* f = FbleFuncValueFunction(v);
      sx_check(f != NULL && f->executable.num_statics == 2 && f->executable.run == &Run, "function");
      Same(f->statics[0], m->a);
      Same(f->statics[1], m->b);
      break;
    }
    case REF: sx_check(FbleStructValueField(v, 0) == NULL, "undefined"); break;
  }
}
static void VerifyAll(void) { for (int i = 0; i < nh; ++i) { stamp++; Same(hs[i].v, hs[i].m); } }

static void Reach(Model* m) {
  if (m == NULL || m->seen == stamp) return;
  m->seen = stamp;
  Reach(m->a); Reach(m->b);
}
static void FullGc(void) {
  FbleValueFullGc(heap);
  stamp++;
  for (int i = 0; i < nh; ++i) Reach(hs[i].m);
  for (int i = 0; i < nmodels; ++i)
    if (models[i].kind == NATIVE && models[i].seen != stamp) sx_check(freed[i] == 1, "full collection releases unreachable values");
}

static void Native(void) {
  Model* m = NewModel(NATIVE, NULL, NULL);
  Push(FbleNewNativeValue(heap, m, &OnFree), m);
}
static void Enter(void) { base[nf++] = nh; FblePushFrame(heap); }
static void Leave(int r) {
  Handle h = { NULL, NULL };
  if (r >= 0) h = hs[r];
  h.v = FblePopFrame(heap, h.v);
  nh = base[--nf];
  if (r >= 0) { if (h.m->depth > nf) h.m->depth = nf; Push(h.v, h.m); }
}
// A handle among the newest K and the oldest one.
static int Operand(const char* name, int k) {
  int n = nh < k + 1 ? nh : k + 1;
  int c = (int)sx_pick(name, (size_t)n);
  return c < k ? nh - 1 - c : 0;
}
static void Pair(int i, int j) {
  FbleValue* v = FbleNewStructValue_(heap, 2, hs[i].v, hs[j].v);
  Push(v, NewModel(PAIR, hs[i].m, hs[j].m));
}
static void Finish(void) {
  VerifyAll();
  if (sx_pick("unwind", 2)) {
    while (nf > 0) { Leave(-1); VerifyAll(); }
    FullGc();
    VerifyAll();
  }
  FbleFreeValueHeap(heap);
  for (int i = 0; i < nmodels; ++i) if (models[i].kind == NATIVE) sx_check(freed[i] == 1, "everything released at the end");
  sx_check(sx_live_allocs() == 0, "memory returned");
  sx_reach("end");
}

#if MODE == 0
// Arbitrary histories of STEPS operations.
static void Step(void) {
  switch (sx_pick("op", 3 + (nh > 0 ? 5 : 0) + (nf > 0 ? 1 : 0))) {
    case 0: Native(); break;
    case 1: if (nf < 8) Enter(); break;
    case 2: { Model* m = NewModel(REF, NULL, NULL); Push(FbleNewRefValue(heap), m); break; }
    case 3: { int i = Operand("a", 1); int j = Operand("b", 2); Pair(i, j); break; }
    case 4: {   // give the newest unassigned reference of this frame a value
      int r = nh - 1, lo = nf ? base[nf - 1] : 0;
      while (r >= lo && !(hs[r].m->kind == REF && hs[r].m->a == NULL && hs[r].m->depth == nf)) r--;
      if (r < lo) break;
      int i = Operand("v", 2);
      Model* t = hs[i].m;
      while (t->kind == REF && t->a) t = t->a;
      bool ok = FbleAssignRefValue(heap, hs[r].v, hs[i].v);
      sx_check(ok == (t != hs[r].m), "vacuous exactly if it would refer to itself");
      if (ok) hs[r].m->a = t;
      break;
    }
    case 5: FullGc(); break;
    case 6: { int i = Operand("w", 1); Model* m = hs[i].m; Push(FbleNewUnionValue(heap, 3, hs[i].v), NewModel(WRAP, m, NULL)); break; }
    case 7: {
      FbleExecutable exe = { .num_args = 1, .num_statics = 2, .run = &Run };
      int i = Operand("f", 1);
      FbleValue* st[2] = { hs[i].v, FbleNewEnumValue(heap, 2) };
      Push(FbleNewFuncValue(heap, &exe, 0, st), NewModel(FUNC, hs[i].m, NewModel(SMALL, NULL, NULL)));
      break;
    }
    default: {
      int c = (int)sx_pick("ret", (size_t)(nh < 2 ? nh : 2) + 1);
      Leave(c == 0 ? -1 : nh - c);
      break;
    }
  }
}
void sx_main(void) {
  heap = FbleNewValueHeap();
  for (int i = 0; i < STEPS; ++i) { Step(); VerifyAll(); }
  Finish();
}
#elif MODE == 1
// Rounds: enter DEPTH frames deep, allocate, link, return something, allocate
// more so that collections are at every point of progress when the next
// return happens.
void sx_main(void) {
  heap = FbleNewValueHeap();
  Native();
  for (int r = 0; r < ROUNDS; ++r) {
    int d = 1 + (int)sx_pick("depth", DEPTH);
    for (int k = 0; k < d; ++k) {
      Enter();
      size_t n = sx_pick("alloc", 3);
      for (size_t j = 0; j < n; ++j) Native();
    }
    for (int k = 0; k < d; ++k) {
      switch (sx_pick("link", 3)) {
        case 0: break;
        case 1: Pair(nh - 1, 0); break;
        case 2: if (nh > 1) Pair(nh - 2, nh - 1); break;
      }
      size_t c = sx_pick("ret", 3);
      Leave(c == 0 ? -1 : nh >= (int)c ? nh - (int)c : 0);
      VerifyAll();
      size_t n = sx_pick("more", 3);
      for (size_t j = 0; j < n; ++j) Native();
      VerifyAll();
    }
  }
  Finish();
}
#endif
