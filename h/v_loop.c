// A native loop through a recursive function value: every iteration allocates
// garbage, possibly fills the stack up to around the end of a chunk, passes on
// its arguments rotated by some amount with one of them fresh, and calls
// itself by tail call. Arguments must stay intact, what is dropped must be
// released in time, and live memory must not grow.
#include <fble/fble-value.h>
#include <fble/fble-function.h>
#include "sx.h"
#define MAXA 12
#define MAXM 900
static int arity, rot, garbage, fresh, iters, left, filler, small, off;
static FbleValueHeap* heap;
static int released[MAXM], nm, live, maxlive[2];
static size_t bytes[2];
static int model[MAXA];      // model of the arguments: ids, negative if wrapped
static FbleValue* fill[140000];
static FbleValue* unit;

static void OnFree(void* d) { int id = (int)((int*)d - released); sx_check(released[id] == 1, "released once"); released[id] = 2; live--; }
static FbleValue* Fresh(FbleValueHeap* h, int* id) {
  *id = nm++;
  sx_check(*id < MAXM, "harness size");
  released[*id] = 1; live++;
  return FbleNewNativeValue(h, released + *id, &OnFree);
}
static void Check(FbleValue* v, int id) {
  if (id < 0) { sx_check(FbleUnionValueTag(v) == 5, "wrapped argument"); v = FbleUnionValueArg(v); id = -id; }
  sx_check(released[id] == 1, "argument not released while in use");
  sx_check(FbleNativeValueData(v) == released + id, "argument passed in order");
}
static FbleValue* Run(FbleValueHeap* h, FbleProfileThread* t, FbleFunction* f, FbleValue** args) {
  int w = left >= 2 * iters / 3 ? -1 : left < iters / 3;     // the second and third part of the loop
  if (w >= 0) {
    if (live > maxlive[w]) maxlive[w] = live;
    size_t b = sx_live_bytes();
    if (b > bytes[w]) bytes[w] = b;
  }
  for (int i = 0; i < arity; ++i) Check(args[i], model[i]);
  for (int i = 0; i < garbage; ++i) { int id; Fresh(h, &id); }
  if (filler) {
    fill[filler - 1] = f->statics[0];
    FbleValue* v = FbleNewStructValue(h, filler, fill);
    for (int i = 0; i < 3; ++i) {
      FbleValue* s = FbleNewStructValue(h, small, args + (i & 1));
      for (int j = 0; j < small; ++j) Check(FbleStructValueField(s, j), model[(i & 1) + j]);
    }
    sx_check(FbleFuncValueFunction(FbleStructValueField(v, filler - 1)) != NULL || filler == 1, "last field of a large struct");
  }
  if (left-- == 0) return FbleNewStructValue(h, arity, args);
  FbleValue* ys[MAXA]; int ms[MAXA];
  for (int i = 0; i < arity; ++i) { int k = (i + rot) % arity; ys[i] = args[k]; ms[i] = model[k]; }
  if (fresh < arity) { ys[fresh] = Fresh(h, ms + fresh); if (off) { ys[fresh] = FbleNewUnionValue(h, 5, ys[fresh]); ms[fresh] = -ms[fresh]; } }
  for (int i = 0; i < arity; ++i) model[i] = ms[i];
  return FbleTailCall(h, FbleFuncValueFunction(f->statics[0]), f->statics[0], arity, ys);
}
static FbleValue* Function(FbleValueHeap* h) {
  FbleExecutable exe = { .num_args = arity, .num_statics = 1, .run = &Run };
  FbleValue* ref = FbleNewRefValue(h);
  FbleValue* f = FbleNewFuncValue(h, &exe, 0, &ref);
  sx_check(FbleAssignRefValue(h, ref, f), "function defined");
  return ref;
}
// Makes the function and its arguments itself before it enters the loop.
static FbleValue* Start(FbleValueHeap* h, FbleProfileThread* t, FbleFunction* f, FbleValue** args) {
  FbleValue* ys[MAXA];
  FbleValue* g = Function(h);
  for (int i = 0; i < arity; ++i) ys[i] = Fresh(h, model + i);
  return FbleTailCall(h, FbleFuncValueFunction(g), g, arity, ys);
}
void sx_main(void) {
  nm = 1;
  FbleProfile* profile = FbleNewProfile(false);
  heap = FbleNewValueHeap();
#if MODE == 0
  arity = 1 + (int)sx_pick("arity", MAXA);
  rot = sx_pick("rot", 2); garbage = (int)sx_pick("garbage", 4);
  if (garbage == 3) garbage = arity;
  fresh = (int[]){ 0, arity / 2, arity - 1, MAXA }[sx_pick("fresh", 4)];
  off = fresh < arity && sx_pick("wrapped", 2);
  iters = 18 + 2 * arity;
#else
  // struct sizes around those of the memory blocks of the stack (1 MB)
  arity = 7; rot = 1; garbage = 1; fresh = 2; iters = 5;
  int base = (int[]){ 65536, 131072 }[sx_pick("size", 2)];
  filler = base > 65536 ? base + 2 - (int)sx_pick("less", 24) : base - 8 * (int)sx_pick("less", 3);
  small = 3 + (int)sx_pick("small", 4);
#endif
  left = iters;
  unit = FbleNewStructValue_(heap, 0);
  for (int i = 0; i < filler; ++i) fill[i] = unit;
  FbleValue* f; FbleValue* args[MAXA];
  int inner = (int)sx_pick("inner", 2);
  if (inner) {
    FbleExecutable exe = { .num_args = 1, .num_statics = 0, .run = &Start };
    f = FbleNewRefValue(heap);
    FbleAssignRefValue(heap, f, FbleNewFuncValue(heap, &exe, 0, NULL));
    args[0] = unit;
  } else {
    f = Function(heap);
    for (int i = 0; i < arity; ++i) args[i] = Fresh(heap, model + i);
  }
  FblePushFrame(heap);
  FbleValue* r = FbleApply(heap, f, inner ? 1 : arity, args, profile);
  sx_check(r != NULL, "loop finishes");
  r = FblePopFrame(heap, r);
  for (int i = 0; i < arity; ++i) Check(FbleStructValueField(r, i), model[i]);
  sx_check(maxlive[1] <= maxlive[0] + arity + 2, "garbage is collected as the loop goes");
  if (filler) sx_check(bytes[1] <= bytes[0] + 256, "memory does not grow with the iterations");
  FbleFreeValueHeap(heap);
  FbleFreeProfile(profile);
  for (int i = 1; i < nm; ++i) sx_check(released[i] == 2, "everything released at the end");
  sx_check(sx_live_allocs() == 0, "memory returned");
  sx_reach("end");
}
