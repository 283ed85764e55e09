// Loops written as tail calls: the C stack and the live heap memory of a later
// iteration are those of an earlier one, for every style of loop.
#include <string.h>
#include <fble/fble-alloc.h>
#include <fble/fble-load.h>
#include <fble/fble-link.h>
#include <fble/fble-value.h>
#include <fble/fble-function.h>
#include <fble/fble-module-path.h>
#include "sx.h"
#define FN "(N@) { N@; }"
static const char* const loops[] = {
  /* direct */             FN " f = (N@ n) { n.?(c: n, : f(dec(n))); }; f(p);",
  /* two functions */      FN " f = (N@ n) { n.?(c: n, : g(dec(n))); }, " FN " g = (N@ n) { n.?(c: n, : f(dec(n))); }; f(p);",
  /* statement form */     FN " f = (N@ n) { n.?(c: n); N@ m = dec(n); f(m); }; f(p);",
  /* nested branches */    FN " f = (N@ n) { n.?(a: n.?(a: f(dec(n)), b: n, c: n), b: { N@ x = dec(n); { N@ y = x; f(y); }; }, c: n); }; f(p);",
  /* accumulator */        "(N@, P@) { N@; } f = (N@ n, P@ s) { n.?(c: s.x, : f(dec(n), P@(s.y, n))); }; f(p, P@(p, p));",
  /* excess argument */    "(N@) { " FN "; } f = (N@ n) { n.?(c: g, : g); }, " FN " g = (N@ n) { n.?(c: n, : f(n, dec(n))); }; g(p);",
  /* partial */            "(N@, N@) { N@; } f = (N@ a, N@ n) { n.?(c: n, : { " FN " k = f(a); k(dec(n)); }); }; f(p, p);",
  /* partial, kept */      "(N@, N@) { N@; } g = (N@ a, N@ n) { n.?(c: n, : h(dec(n))); }, " FN " h = (N@ n) { g(n)(n); }; h(p);",
  /* higher order */       "(" FN ", N@) { N@; } ap = (" FN " k, N@ n) { k(n); }; " FN " f = (N@ n) { n.?(c: n, : ap(f, dec(n))); }; f(p);",
  /* closures */           FN " f = (N@ n) { " FN " k = (N@ m) { m.?(c: n, : f(dec(m))); }; k(n); }; f(p);",
  /* recursive closures */ FN " f = (N@ n) { " FN " k = (N@ m) { m.?(a: k(dec(m)), c: n, : f(dec(m))); }; k(dec(n)); }; f(p);",
  /* cyclic garbage */     FN " f = (N@ n) { L@ l = L@(cons: @(head: n, tail: l)); l.cons.head.?(c: n, : f(dec(n))); }; f(p);",
  /* continuation */       "(" FN ") { N@; } ret = (" FN " k) { k(p); }; " FN " f = (N@ n) { n.?(c: n); N@ m <- ret; f(dec(n)); }; f(p);",
  /* polymorphic */        "<@ T@>(T@, N@) { N@; } f = <@ T@>(T@ t, N@ n) { n.?(c: n, : f<T@>(t, dec(n))); }; f<P@>(P@(p, p), p);",
  /* in a struct */        "@ S@ = *((N@, S@) { N@; } go); (N@, S@) { N@; } f = (N@ n, S@ s) { n.?(c: n, : s.go(dec(n), s)); }; f(p, S@(f));",
  /* list */               "(N@, L@) { N@; } f = (N@ n, L@ l) { n.?(c: n, : f(dec(n), l.cons.tail.cons.tail)); }; L@ l = L@(cons: @(head: p, tail: l)); f(p, l);",
  /* returned closure */   "(N@) { " FN "; } mk = (N@ a) { a.?(c: (N@ x) { x; }, : (N@ n) { n.?(c: n, : mk(a)(dec(n))); }); }; mk(p)(p);",
  /* big frame */          "(N@, N@, N@, N@) { N@; } f = (N@ n, N@ x, N@ y, N@ z) { P@ s = P@(x, y); P@ t = P@(s.y, z); n.?(c: n, : f(dec(n), t.y, s.x, t.x)); }; f(p, p, p, p);",
  /* union state */        "@ U@ = +(P@ l, N@ r); (N@, U@) { N@; } f = (N@ n, U@ u) { n.?(c: n, : f(dec(n), u.?(l: U@(r: u.l.x), r: U@(l: P@(n, u.r))))); }; f(p, U@(r: p));",
};
#define NLOOPS (sizeof loops / sizeof *loops)
static int calls; static size_t top[2]; static uint64_t stack_[2][2];
static FbleValue* Dec(FbleValueHeap* h, FbleProfileThread* t, FbleFunction* f, FbleValue** args) {
  calls++;
  for (int w = 0; w < 2; ++w) if (calls > (w + 1) * WIN && calls <= (w + 2) * WIN) {
    size_t b = sx_live_bytes();
    if (b > top[w]) top[w] = b;
    uint64_t s = sx_stack_depth();
    if (calls == (w + 1) * WIN + 1 || s < stack_[w][0]) stack_[w][0] = s;
    if (calls == (w + 1) * WIN + 1 || s > stack_[w][1]) stack_[w][1] = s;
  }
  return FbleNewEnumValue(h, calls > 3 * WIN ? 2 : calls % 3 == 0);
}
static void Put(char** p, const char* s) { while (*s) *(*p)++ = *s++; }
void sx_main(void) {
  static char src[8192]; char* p = src;
  Put(&p, "@ Unit@ = *();\n@ N@ = +(Unit@ a, Unit@ b, Unit@ c);\n@ P@ = *(N@ x, N@ y);\n@ L@ = +(*(N@ head, L@ tail) cons, Unit@ nil);\n(" FN ", N@) { N@; } main = (" FN " dec, N@ p) { ");
  Put(&p, loops[sx_pick("loop", NLOOPS)]);
  Put(&p, " }; main;\n");
  sx_file("/m/Foo.fble", src, (size_t)(p - src));
  FbleSearchPath* sp = FbleNewSearchPath();
  FbleAppendToSearchPath(sp, "/m");
  FbleModulePath* mp = FbleParseModulePath("/Foo%");
  FbleProfile* profile = FbleNewProfile(sx_pick("profile", 2));
  FbleValueHeap* heap = FbleNewValueHeap();
  FbleValue* linked = FbleLink(heap, profile, NULL, sp, mp);
  sx_check(linked != NULL, "program accepted");
  FbleValue* f = FbleEval(heap, linked, profile);
  FbleExecutable exe = { .num_args = 1, .num_statics = 0, .run = &Dec };
  FbleName nm = { .name = FbleNewString("dec"), .space = FBLE_NORMAL_NAME_SPACE, .loc = { .source = FbleNewString("s"), .line = 1, .col = 1 } };
  FbleValue* args[2] = { FbleNewFuncValue(heap, &exe, FbleAddBlockToProfile(profile, nm), NULL), FbleNewEnumValue(heap, sx_pick("p", 2)) };
  FbleValue* r = FbleApply(heap, f, 2, args, profile);
  sx_check(r != NULL, "loop finishes");
  sx_check(calls > 3 * WIN, "loop runs to its end");
  sx_check(stack_[0][0] == stack_[1][0] && stack_[0][1] == stack_[1][1], "the stack does not grow with the iterations");
  sx_check(top[1] <= top[0] + 64, "live memory does not grow with the iterations");
  FbleFreeValueHeap(heap);
  FbleFreeProfile(profile);
  FbleFreeModulePath(mp);
  FbleFreeSearchPath(sp);
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
