// Recursive bindings: every pattern of references among the definitions of one
// let, against the reference evaluator: the bound values form the graph the
// definitions describe, and a definition that needs a value not yet defined,
// or is defined as nothing but itself, aborts.
#include "lang.h"
#include <fble/fble-alloc.h>
#include <fble/fble-load.h>
#include <fble/fble-link.h>
#include <fble/fble-value.h>
#include <fble/fble-module-path.h>
static const char* const B[] = { "b0", "b1", "b2", "b3" };
static int nb; static bool calls;
static Ex* Var(const char* n) { Ex* e = NewEx(VAR); e->name = n; return e; }
static Ex* Get(Ex* x, const char* f) { Ex* e = NewEx(GET); e->xs[0] = x; e->name = f; return e; }
static Ex* Inj(const char* f, Ex* x) { Ex* e = NewEx(INJ); e->ty = &TT; e->name = f; e->xs[0] = x; return e; }
static Ex* D(Ex* a, Ex* b) { Ex* e = NewEx(MK); e->ty = &DT; e->n = 2; e->xs[0] = a; e->xs[1] = b; return e; }
static Ex* Ref(void) { return Var(B[sx_pick("ref", (size_t)nb)]); }
static Ex* Call(const char* f, Ex* a) { Ex* e = NewEx(APP); e->n = 2; e->xs[0] = Var(f); e->xs[1] = a; return e; }
static Ex* SelE(Ex* c, const char* t, Ex* x, Ex* d) { Ex* e = NewEx(SEL); e->n = 2; e->xs[0] = c; e->names[1] = t; e->xs[1] = x; e->dflt = d; return e; }
static Ex* Def(int i) {
  Ex* a;
  switch (sx_pick("def", FORMS)) {
    case 0: return Ref();
    case 1: a = Ref(); return Inj("d", D(a, FORMS > 7 ? Ref() : Var(B[(i + 1) % nb])));
    case 2: return Inj("l", Ref());
    case 3: return Inj("e", NewEx(UNITV));
    case 4: calls = true; return Call("c", Ref());
    case 5: return Get(Ref(), "l");
    case 6: a = Ref(); return SelE(a, "e", FORMS > 7 ? Ref() : Var(B[(i + 2) % nb]), Inj("l", Var(B[i])));
    case 7: { Ex* e = NewEx(COPY); e->n = 2; e->xs[0] = D(Ref(), Var(B[i])); e->names[1] = "r"; e->xs[1] = Var(B[(i + 1) % nb]); return Inj("d", e); }
    case 8: { Ex* e = NewEx(LET); e->n = 1; e->tys[0] = &TT; e->names[0] = "u"; e->xs[0] = Inj("l", Ref()); e->body = Inj("l", Var("u")); return e; }
    case 9: { Ex* e = NewEx(LET); e->n = 1; e->tys[0] = &TT; e->names[0] = "u"; e->xs[0] = Ref(); e->body = Inj("d", D(Var("u"), Var(B[i]))); return e; }
    default: return Get(Get(Ref(), "d"), "r");
  }
}
// The value graphs agree on every access path of at most k fields.
static void Same(FbleValue* v, V* m, int k) {
  m = Force(m);
  sx_check(m != NULL && v != NULL, "defined");
  size_t tag = FbleUnionValueTag(v);
  sx_check(tag == (size_t)m->tag, "same tag");
  if (k == 0 || m->tag == 2) return;
  FbleValue* a = FbleUnionValueArg(v);
  if (m->tag == 0) { Same(a, m->xs[0], k - 1); return; }
  V* d = Force(m->xs[0]);
  for (int i = 0; i < 2; ++i) Same(FbleStructValueField(a, (size_t)i), d->xs[i], k - 1);
}
void sx_main(void) {
  nb = NB;
  Ex* let = NewEx(LET);
  for (int j = 0; j < NB; ++j) { let->tys[j] = &TT; let->names[j] = B[j]; let->xs[j] = Def(j); let->n++; }
  // a function among the bindings, which captures them
  Ex* k = NewEx(LAM); k->n = 1; k->tys[0] = &TT; k->names[0] = "x";
  switch (sx_pick("captures", CAPTURES)) {
    case 0: k->body = SelE(Var("x"), "e", Inj("l", Var("b1")), Inj("d", D(Var("x"), Var("b0")))); break;
    case 1: k->body = Var("b0"); break;
    case 2: k->body = SelE(Var("x"), "l", Call("k", Get(Var("x"), "l")), Var("b1")); break;
    case 3: k->body = Var("x"); if (calls) let->xs[0] = Call("k", Var("b1")); break;
  }
  let->tys[NB] = Fn(&TT, &TT); let->names[NB] = "k"; let->xs[NB] = k; let->n++;
  Ex* res = NewEx(MKI);
  static const char* const R[] = { "r0", "r1", "r2" };
  for (int i = 0; i < NB; ++i) { res->names[i] = R[i]; res->xs[res->n++] = Var(B[i]); }
  res->names[NB] = "rk"; res->xs[res->n++] = Call("k", Var("b0"));
  let->body = res;
  // a function that is defined before the bindings
  Ex* c = NewEx(LAM); c->n = 1; c->tys[0] = &TT; c->names[0] = "x";
  switch (calls ? sx_pick("function", 3) : 0) {
    case 0: c->body = Var("x"); break;
    case 1: c->body = Inj("d", D(Var("x"), Var("x"))); break;
    case 2: c->body = SelE(Var("x"), "e", Var("x"), Inj("e", NewEx(UNITV))); break;
  }
  Ex* out = NewEx(LET); out->n = 1; out->tys[0] = Fn(&TT, &TT); out->names[0] = "c"; out->xs[0] = c; out->body = let;
  let = out;
  Ty* t = TypeOf(let, NULL);
  sx_check(t != NULL, "harness: generated program is well typed");
  static char text[SRCMAX];
  TT.used = true;
  PutEx(let); strcpy(text, src); nsrc = 0;
  PutPrelude();
  Put("(Unit@ q) { "); Put(text); Put("; };\n");
#ifdef SHOW
  fprintf(stderr, "%s\n", src);
#endif
  sx_file("/m/Foo.fble", src, (size_t)nsrc);
  FbleSearchPath* sp = FbleNewSearchPath();
  FbleAppendToSearchPath(sp, "/m");
  FbleModulePath* mp = FbleParseModulePath("/Foo%");
  FbleProfile* profile = FbleNewProfile(false);
  FbleValueHeap* heap = FbleNewValueHeap();
  FbleValue* linked = FbleLink(heap, profile, NULL, sp, mp);
  sx_check(linked != NULL, "well typed program accepted");
  FbleValue* f = FbleEval(heap, linked, profile);
  sx_check(f != NULL, "module evaluates to a function");
  Annotate(let, NULL);
  fuel = 40;
  V* want = Eval(let, NULL);
  FbleValue* args[1] = { FbleNewStructValue_(heap, 0) };
  FbleValue* got = FbleApply(heap, f, 1, args, profile);
  sx_check((got == NULL) == (want == NULL), "aborts exactly when the reference evaluator does");
  if (want) {
    FbleValueFullGc(heap);
    for (int i = 0; i <= NB; ++i) Same(FbleStructValueField(got, (size_t)i), want->xs[i], 4);
    sx_reach("cyclic");
  } else sx_reach("abort");
  FbleFreeValueHeap(heap);
  FbleFreeProfile(profile);
  FbleFreeModulePath(mp);
  FbleFreeSearchPath(sp);
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
