// Generator of programs of the fragment: contexts with one hole, nested DEPTH
// deep, applied to the parameters p, q (N@) and s (P@) of the program.
// When mutations are on, one place of the program may be replaced by something
// of another type, another name or another number of things.
#ifndef GEN_H
#define GEN_H
#include "lang.h"
static const char* scope[40]; static int nscope;      // names of N@-typed variables, newest last
static int opk;
static int mutations;                                 // how many mutations may still be made
static int GenMutated(int kinds) {
  if (mutations <= 0) return 0;
  int m = (int)sx_pick("mutate", (size_t)kinds + 1);
  if (m) mutations--;
  return m;
}
static const char* const ABC[] = { "a", "b", "c", "j", "x" };
static const char* Tg(int i) {                        // a tag name
  int m = GenMutated(1);
  return m ? ABC[3] : ABC[i];
}
static Ex* Var(const char* n) { Ex* e = NewEx(VAR); e->name = n; return e; }
static Ex* Con(int i) { Ex* e = NewEx(TAG); e->name = Tg(i); return e; }
static Ex* Mk(Ex* e, Ex* x) { e->xs[e->n++] = x; return e; }
static Ex* Get(Ex* x, const char* f) { Ex* e = NewEx(GET); e->xs[0] = x; e->name = f; if (GenMutated(1)) e->name = "zz"; return e; }
static Ex* Op(void) {                                 // an operand of type N@
  int m = GenMutated(2);
  if (m == 1) return Var("s");
  if (m == 2) return Var("undefined");
  int k = opk++;
  if (k % 5 == 4) return Get(Var("s"), (k / 5) % 2 ? "x" : "y");
  if (k % 7 == 6) return Con(k % 3);
  return Var(scope[nscope - 1 - (k * 3) % nscope]);
}
static Ty* TN(void) { int m = GenMutated(1); return m ? &PT : &NT; }
static Ex* Sel(Ex* c, Ex* a, Ex* b, Ex* d) {
  Ex* e = NewEx(SEL);
  Mk(e, c);
  Ex* xs[3] = { a, b, d };
  int m = GenMutated(4);      // 1: branch missing 2: order 3: default to a wrong type 4: unknown tag
  for (int i = 0; i < 3; ++i) {
    int t = i;
    if (m == 1 && i == 1) continue;
    if (m == 2 && i < 2) t = 1 - i;
    e->names[e->n] = m == 4 && i == 2 ? "zz" : ABC[t];
    Mk(e, xs[i]);
  }
  if (m == 3) e->dflt = Var("s");
  return e;
}
static Ex* SelD(Ex* c, int tag, Ex* x, Ex* d, int flavor) {
  Ex* e = NewEx(SEL);
  Mk(e, c);
  e->names[e->n] = Tg(tag);
  Mk(e, x);
  e->dflt = d;
  e->flavor = flavor;
  return e;
}
static Ex* Lam1(Ty* t, const char* n, Ex* body) { Ex* e = NewEx(LAM); e->n = 1; e->tys[0] = t; e->names[0] = n; e->body = body; return e; }
static Ex* Lam2(Ty* t, const char* n, Ty* u, const char* m, Ex* body) { Ex* e = Lam1(t, n, body); e->n = 2; e->tys[1] = u; e->names[1] = m; return e; }
static Ex* Let1(int fl, Ty* t, const char* n, Ex* def, Ex* body) { Ex* e = NewEx(LET); e->n = 1; e->flavor = fl; e->tys[0] = t; e->names[0] = n; e->xs[0] = def; e->body = body; return e; }
static Ex* AddBinding(Ex* e, int fl, Ty* t, const char* n, Ex* def) { e->flavor |= fl << (2 * e->n); e->tys[e->n] = t; e->names[e->n] = n; e->xs[e->n++] = def; return e; }
static Ex* App1(Ex* f, Ex* a) {
  Ex* e = NewEx(APP); Mk(e, f);
  int m = GenMutated(2);      // 1: no argument at all is not an application; too many arguments
  Mk(e, a);
  if (m == 1) Mk(e, Con(0));
  if (m == 2) e->xs[1] = Var("s");
  return e;
}
static Ex* App2(Ex* f, Ex* a, Ex* b) {
  Ex* e = NewEx(APP); Mk(e, f); Mk(e, a);
  int m = GenMutated(2);
  if (m != 1) Mk(e, m == 2 ? Var("s") : b);
  return e;
}
static Ex* Pair(Ex* a, Ex* b) {
  Ex* e = NewEx(MK); e->ty = &PT; Mk(e, a);
  int m = GenMutated(2);
  if (m != 1) Mk(e, b);
  if (m == 2) Mk(e, Con(0));
  return e;
}
static Ex* Inj(Ty* t, const char* f, Ex* x) { Ex* e = NewEx(INJ); e->ty = t; e->name = f; e->xs[0] = x; if (GenMutated(1)) e->name = "zz"; return e; }
static void Push(const char* n) { scope[nscope++] = n; }
static const char* const fresh[][4] = { {"u0","v0","w0","f0"}, {"u1","v1","w1","f1"}, {"u2","v2","w2","f2"}, {"u3","v3","w3","f3"} };

#define NCONTEXTS 66
static int onlyContexts[8]; static int nonlyContexts;
static Ex* Gen(int depth) {
  if (depth == 0) {
#ifdef ABORTS
    // aborts for some arguments, in one of several ways
    Ex *ok = Var(scope[nscope - 1]), *bad;
    switch (sx_pick("abort", 7)) {
      case 0: bad = Get(Inj(&MT, "k", Var(scope[nscope - 1])), "j"); break;                  // wrong tag
      case 1: bad = Let1(0, &NT, "z", Var("z"), Var("z")); break;                            // defined as itself
      case 2: bad = Let1(0, &NT, "z", Sel(Var("z"), Con(0), Con(1), Con(2)), Var("q")); break;   // select on an undefined value
      case 3: bad = Let1(0, Fn(&NT, &NT), "z", Lam1(&NT, "zz", Var("y")), NULL);             // call of an undefined function
              AddBinding(bad, 0, &NT, "y", App1(Var("z"), Con(1))); bad->body = Var("y"); break;
      case 4: bad = Let1(0, &PT, "z", NewEx(COPY), Get(Var("z"), "x"));                      // copy of an undefined struct
              bad->xs[0]->n = 2; bad->xs[0]->xs[0] = Var("z"); bad->xs[0]->names[1] = "x"; bad->xs[0]->xs[1] = Con(0); break;
      case 5: bad = Let1(0, &PT, "z", Pair(Var("q"), Get(Var("z"), "x")), Get(Var("z"), "y")); break;   // field of an undefined struct
      default: bad = App1(Lam1(&MT, "zz", Get(Get(Var("zz"), "l"), "y")), Inj(&MT, "j", Var(scope[nscope - 1])));    // inside a function
               bad = Let1(0, Fn(&MT, &NT), "z", bad->xs[0], App1(Var("z"), bad->xs[1])); break;
    }
    return SelD(Var(scope[nscope - 2]), 1, bad, ok, 0);
#endif
    size_t k = sx_pick("leaf", LEAVES);
    if (k == 0) return Var(scope[nscope - 1]);
    if (k == 1) return Var(scope[nscope - 2]);
    return Get(Var("s"), "y");
  }
  const char *u = fresh[depth][0], *v = fresh[depth][1], *w = fresh[depth][2], *f = fresh[depth][3];
  int save = nscope;
  Ex *h, *e, *r = NULL;
  Ty *nn = Fn(&NT, &NT), *nnn = Fn(&NT, Fn(&NT, &NT));
#define HOLE (h = Gen(depth - 1))
#define OUT (nscope = save)
  size_t c = sx_pick("context", NCONTEXTS);
  switch (c) {
    case 0: e = Op(); Push(u); HOLE; r = Let1(0, TN(), u, e, h); break;
    case 1: HOLE; r = Let1(0, TN(), u, h, Pair(Var(u), Op())); r = Get(r, "x"); break;
    case 2: case 3: {                                     // shadow p
      const char* old[40]; int n = nscope;
      memcpy(old, scope, sizeof old);
      nscope = 0;
      for (int i = 0; i < n; ++i) if (strcmp(old[i], "p")) scope[nscope++] = old[i];
      e = c == 2 ? Op() : Sel(Op(), Con(1), Con(2), Op());
      memcpy(scope, old, sizeof old); nscope = n;
      Push("p"); HOLE; r = Let1(0, TN(), "p", e, h); break;
    }
    case 4: HOLE; r = Let1(1, NULL, u, h, Sel(Var(u), Var(u), Con(0), Op())); break;
    case 5: e = Op(); Push(u); HOLE; r = Let1(2, NULL, u, e, h); break;
    case 6: HOLE; r = Let1(0, TN(), u, h, NULL); AddBinding(r, 0, TN(), v, Op()); Push(v); r->body = Sel(Var(u), Var(v), Con(0), Op()); break;
    case 7: e = Op(); r = Let1(0, TN(), u, e, NULL); AddBinding(r, 1, NULL, v, Con(2)); Push(u); Push(v); r->body = HOLE; break;
    case 8: {                                             // recursion through one function
      Push(u); HOLE;
      Ex* b = Sel(Var(u), h, App1(Var(f), Con(0)), App1(Var(f), Con(1)));
      OUT; r = Let1(0, nn, f, Lam1(TN(), u, b), NULL); r->body = App1(Var(f), Op()); break;
    }
    case 9: {                                             // mutual recursion
      Push(u); HOLE;
      Ex* b = SelD(Var(u), 0, h, App1(Var(v), Con(1)), 0);
      OUT; Ex* b2 = SelD(Var(w), 2, Op(), App1(Var(f), Con(0)), 1);
      r = Let1(0, nn, f, Lam1(TN(), u, b), NULL); AddBinding(r, 0, nn, v, Lam1(TN(), w, b2));
      r->body = App1(Var(v), Op()); break;
    }
    case 10: Push(u); HOLE; OUT; r = Let1(0, nn, f, Lam1(TN(), u, h), App1(Var(f), Op())); break;
    case 11: Push(u); Push(v); HOLE; OUT; r = Let1(0, nnn, f, Lam2(TN(), u, TN(), v, h), NULL); r->body = App2(Var(f), Op(), Con(1)); break;
    case 12: Push(u); Push(v); HOLE; OUT; r = Let1(0, nnn, f, Lam1(TN(), u, Lam1(TN(), v, h)), NULL); r->body = App2(Var(f), Op(), Op()); break;
    case 13: Push(u); Push(v); HOLE; OUT; r = Let1(0, nnn, f, Lam2(TN(), u, TN(), v, h), NULL);
             r->body = Let1(1, NULL, w, App1(Var(f), Op()), NULL); r->body->body = App1(Var(w), Op()); break;
    case 14: Push(u); Push(v); HOLE; OUT; r = Let1(0, nnn, f, Lam1(TN(), u, Lam1(TN(), v, h)), NULL);
             r->body = Let1(0, nn, w, App1(Var(f), Op()), NULL); r->body->body = Sel(Op(), App1(Var(w), Con(2)), App1(Var(w), Op()), Op()); break;
    case 15: HOLE; r = Sel(h, Op(), Con(2), Op()); break;
    case 16: HOLE; r = Sel(Op(), h, Op(), Con(0)); break;
    case 17: HOLE; r = Sel(Op(), Op(), h, Op()); break;
    case 18: HOLE; r = Sel(Op(), Con(1), Op(), h); break;
    case 19: HOLE; r = SelD(Op(), 0, h, Op(), 0); break;
    case 20: HOLE; r = SelD(Op(), 1, Op(), h, 1); break;
    case 21: HOLE; r = SelD(h, 2, Op(), Con(1), 0); break;
    case 22: HOLE; r = Get(Pair(h, Op()), "x"); break;
    case 23: HOLE; r = Get(Pair(Op(), h), "y"); break;
    case 24: case 25:                                     // implicit struct
      HOLE; e = NewEx(MKI); e->names[0] = "x"; e->names[1] = "y"; if (GenMutated(1)) e->names[1] = "x"; Mk(e, h); Mk(e, Op()); r = Get(e, c == 24 ? "x" : "y"); break;
    case 26: case 27: case 28: {                          // copy
      HOLE; e = NewEx(COPY); Mk(e, Var("s"));
      e->names[1] = "x"; if (GenMutated(1)) e->names[1] = "zz"; Mk(e, h);
      if (c == 28) { e->names[2] = "y"; if (GenMutated(1)) e->names[2] = "x"; Mk(e, Op()); }
      r = Get(e, c == 26 ? "x" : "y"); break;
    }
    case 29: HOLE; r = Get(Inj(&MT, "j", h), "j"); break;
    case 30: HOLE; r = Get(Inj(&MT, "k", h), "j"); break;  // wrong tag: aborts
    case 31: {
      HOLE; e = NewEx(SEL); Ex* o = Inj(&MT, "k", h);
      r = Let1(0, &MT, u, o, e); Mk(e, Var(u));
      e->names[1] = "j"; Mk(e, Get(Var(u), "j")); e->names[2] = "k"; Mk(e, Get(Var(u), "k"));
      e->dflt = Con(1); break;
    }
    case 32: HOLE; r = Get(Get(Inj(&MT, "l", Pair(Op(), h)), "l"), "y"); break;
    case 33: {                                            // bind
      Ty* k = Fn(nn, &NT);
      HOLE; Ex* fn = Lam1(nn, v, App1(Var(v), h));
      e = NewEx(APP); e->flavor = 1; Mk(e, Var(f)); e->names[0] = u; e->tys[0] = TN();
      Push(u); e->body = Sel(Var(u), Op(), Op(), Var(u));
      r = Let1(0, k, f, fn, e); break;
    }
    case 34: {                                            // bind, hole in the continuation
      Ty* k = Fn(nn, &NT);
      Ex* fn = Lam1(nn, v, App1(Var(v), Op()));
      e = NewEx(APP); e->flavor = 1; Mk(e, Var(f)); e->names[0] = u; e->tys[0] = TN();
      Push(u); e->body = HOLE;
      r = Let1(0, k, f, fn, e); break;
    }
    case 35: case 36: case 37: HOLE; r = NewEx(POLY); r->flavor = (int)c - 35; r->ty = TN(); r->xs[0] = h; break;
    case 38: case 39: HOLE; r = NewEx(ABS); r->flavor = (int)c - 38; r->ty = TN(); r->xs[0] = h; break;
    case 40: case 41: {                                   // list: first or second element
      HOLE;
      Ex* b = Get(Var(u), "cons");
      if (c == 41) b = Get(Get(b, "tail"), "cons");
      Ex* fn = Lam1(&LT, u, Get(b, "head"));
      e = NewEx(LIST); Mk(e, Var(f)); Mk(e, c == 40 ? h : Op()); Mk(e, c == 40 ? Op() : h);
      r = Let1(0, Fn(&LT, &NT), f, fn, e); break;
    }
    case 42: case 43: {                                   // literal: sum up by the length
      Push(v); HOLE; OUT;
      Ex* s2 = NewEx(SEL); Mk(s2, Var(u));
      s2->names[1] = "cons"; Mk(s2, App2(Var(f), Get(Get(Var(u), "cons"), "tail"), Get(Get(Var(u), "cons"), "head")));
      s2->names[2] = "nil"; Mk(s2, h);
      Ex* fn = Lam2(&LT, u, &NT, v, s2);
      e = NewEx(LIT); Mk(e, Var(w)); e->name = c == 42 ? "bca" : ""; if (GenMutated(1)) e->name = "ad";
      Ex* one = Lam1(&LT, u, App2(Var(f), Var(u), Op()));
      r = Let1(0, Fn(&LT, nn), f, fn, NULL); AddBinding(r, 0, Fn(&LT, &NT), w, one);
      r->body = e; break;
    }
    case 44: {                                            // infinite list
      HOLE; Ex* p = NewEx(MK); p->ty = &LPT; Mk(p, h); Mk(p, Var(u));
      r = Let1(0, &LT, u, Inj(&LT, "cons", p), Get(Get(Get(Get(Get(Var(u), "cons"), "tail"), "cons"), "tail"), "cons"));
      r->body = Get(r->body, "head"); break;
    }
    case 45: HOLE; r = NewEx(BLOCK); r->xs[0] = h; r->n = 1; break;
    case 46: {                                            // function as argument
      Push(u); HOLE; OUT;
      r = Let1(0, Fn(nn, nn), f, Lam2(nn, v, TN(), w, App1(Var(v), Var(w))), NULL);
      r->body = App2(Var(f), Lam1(TN(), u, h), Op()); break;
    }
    case 47: {                                            // struct of functions
      Push(u); HOLE; OUT;
      e = NewEx(MKI); e->names[0] = "k"; e->names[1] = "m"; Mk(e, Lam1(TN(), u, h)); Mk(e, Op());
      r = App1(Get(e, "k"), Op()); break;
    }
    case 48: {                                            // tail call with an accumulator
      Push(u); Push(v); HOLE; OUT;
      Ex* b = Sel(Var(u), Var(v), App2(Var(f), Con(0), h), App2(Var(f), Con(1), Op()));
      r = Let1(0, nnn, f, Lam2(TN(), u, TN(), v, b), NULL); r->body = App2(Var(f), Op(), Op()); break;
    }
    case 49: {                                            // capture of everything around
      Ex* x = Op(); Ex* y = Op();
      Push(u); HOLE; OUT;
      Ex* b = Sel(Var("q"), h, x, Get(Pair(y, Get(Var("s"), "x")), "y"));
      r = Let1(0, nn, f, Lam1(TN(), u, b), NULL); r->body = Sel(Op(), App1(Var(f), Con(2)), App1(Var(f), Op()), App1(Var(f), Var("p"))); break;
    }
    case 50: {                                            // function returning a function chosen by a select
      HOLE;
      Ex* id = Lam1(TN(), u, Var(u)); Ex* k = Lam1(TN(), u, h);
      r = Let1(0, Fn(&NT, nn), f, Lam1(TN(), v, SelD(Var(v), 1, id, k, 0)), NULL);
      r->body = App2(Var(f), Op(), Op()); break;
    }
    case 51: {                                            // select on a value computed in a let in its condition
      Push(u); e = Op(); OUT;
      r = Sel(Let1(0, TN(), v, Con(1), SelD(Var(v), 0, Con(2), HOLE, 1)), Op(), Op(), Con(0)); break;
    }
    case 52: {                                            // two variables, one unused, then shadowed
      e = Op(); Ex* e2 = Op(); Push(u); HOLE;
      r = Let1(0, TN(), v, Con(0), Let1(0, TN(), u, e, Let1(0, TN(), v, e2, h))); break;
    }
    case 53: {                                            // argument shadows a captured variable
      Push("q"); HOLE; OUT;
      r = Let1(0, nn, f, Lam1(TN(), "q", h), NULL); r->body = App1(Var(f), Op()); break;
    }
    case 54: {                                            // over-application of a function returning its argument function
      Push(u); HOLE; OUT;
      r = Let1(0, Fn(nn, nn), f, Lam1(nn, v, Var(v)), NULL); r->body = App2(Var(f), Lam1(TN(), u, h), Op()); break;
    }
    case 55: {                                            // nested structs
      HOLE;
      e = NewEx(MKI); e->names[0] = "i"; e->names[1] = "o"; Mk(e, Pair(Op(), h)); Mk(e, Op());
      r = Get(Get(e, "i"), "y"); break;
    }
    case 56: {                                            // union of unit by select on its own tag
      HOLE; e = NewEx(SEL); Mk(e, Inj(&MT, "m", NewEx(UNITV)));
      e->names[1] = "k"; Mk(e, Op()); e->names[2] = "m"; Mk(e, h); e->dflt = Op(); r = e; break;
    }
    case 57: {                                            // partial application kept and used twice
      Push(u); Push(v); HOLE; OUT;
      r = Let1(0, nnn, f, Lam2(TN(), u, TN(), v, h), NULL);
      r->body = Let1(1, NULL, w, App1(Var(f), Op()), NULL);
      r->body->body = App1(Var(w), App1(Var(w), Con(1))); break;
    }
    case 58: {                                            // recursion whose result is used further
      Push(u); HOLE; OUT;
      Ex* b = Sel(Var(u), Op(), Sel(App1(Var(f), Con(0)), Con(1), Var(u), h), App1(Var(f), App1(Var(f), Con(1))));
      r = Let1(0, nn, f, Lam1(TN(), u, b), NULL); r->body = App1(Var(f), Op()); break;
    }
    case 59: {                                            // default branch holds a let
      HOLE; r = SelD(Op(), 0, Op(), Let1(0, TN(), u, h, Sel(Var(u), Con(2), Var(u), Op())), 1); break;
    }
    case 60: {                                            // condition is a function call, in statement form
      Push(u); HOLE; OUT;
      r = Let1(0, nn, f, Lam1(TN(), u, h), NULL); r->body = SelD(App1(Var(f), Op()), 2, Op(), Con(1), 1); break;
    }
    case 61: {                                            // a list built by hand and walked
      HOLE; Ex* nil = Inj(&LT, "nil", NewEx(UNITV));
      Ex* p1 = NewEx(MK); p1->ty = &LPT; Mk(p1, h); Mk(p1, nil);
      Ex* p2 = NewEx(MK); p2->ty = &LPT; Mk(p2, Op()); Mk(p2, Inj(&LT, "cons", p1));
      r = Get(Get(Get(Get(Inj(&LT, "cons", p2), "cons"), "tail"), "cons"), "head"); break;
    }
    case 62: {                                            // three arguments, partially applied in turn
      Push(u); Push(v); HOLE; OUT;
      Ex* l = Lam2(TN(), u, TN(), v, Sel(Var(w), h, Var(v), Var(u))); l->n = 3; l->tys[2] = TN(); l->names[2] = w;
      r = Let1(1, NULL, f, l, NULL); e = App2(Var(f), Op(), Op()); r->body = App1(e, Op()); break;
    }
    case 63: {                                            // two bindings the later of which the earlier captures
      HOLE; r = Let1(0, nn, f, Lam1(TN(), u, Sel(Var(u), Var(v), Var(u), Op())), NULL);
      AddBinding(r, 0, TN(), v, h); r->body = App1(Var(f), Op()); break;
    }
    case 64: {                                            // union of a function-free struct selected twice
      HOLE; Ex* o = Inj(&MT, "l", Pair(h, Op()));
      e = NewEx(SEL); Mk(e, Var(u)); e->names[1] = "k"; Mk(e, Op()); e->names[2] = "l"; Mk(e, Get(Get(Var(u), "l"), "x")); e->dflt = Con(0);
      r = Let1(0, &MT, u, o, e); break;
    }
    case 65: {                                            // copy of a freshly made struct
      HOLE; e = NewEx(COPY); Mk(e, Pair(Op(), h)); e->names[1] = "x"; Mk(e, Op()); r = Get(e, "y"); break;
    }
  }
  OUT;
#undef HOLE
#undef OUT
  return r;
}
static Ex* GenProgram(int depth) {
  nscope = 0; Push("p"); Push("q");
  return Gen(depth);
}
#endif
