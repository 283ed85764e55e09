// A fragment of the fble language as data: abstract syntax, printing as fble
// source, a reference type checker and a reference evaluator. Everything
// lives in static arenas, so the heap belongs to the code under test alone.
#ifndef LANG_H
#define LANG_H
#include <string.h>
#include "sx.h"

// ---- types (structural) ----
typedef struct Ty Ty;
enum { T_STRUCT, T_UNION, T_FN };
#define MAXF 4
struct Ty { int k, n; const char* names[MAXF]; Ty* tys[MAXF]; const char* name; bool used; };
static Ty UnitT = { T_STRUCT, 0, {0}, {0}, "Unit@" };
static Ty NT = { T_UNION, 3, {"a", "b", "c"}, {&UnitT, &UnitT, &UnitT}, "N@" };
static Ty PT = { T_STRUCT, 2, {"x", "y"}, {&NT, &NT}, "P@" };
static Ty MT = { T_UNION, 4, {"j", "k", "l", "m"}, {&NT, &NT, &PT, &UnitT}, "M@" };
static Ty LPT, LT = { T_UNION, 2, {"cons", "nil"}, {&LPT, &UnitT}, "L@" };
static Ty LPT = { T_STRUCT, 2, {"head", "tail"}, {&NT, &LT}, "LP@" };
static Ty DT, TT = { T_UNION, 3, {"l", "d", "e"}, {&TT, &DT, &UnitT}, "T@" };
static Ty DT = { T_STRUCT, 2, {"l", "r"}, {&TT, &TT}, "D@" };
static Ty typool[400]; static int ntypool;
static Ty* NewTy(int k) { Ty* t = typool + ntypool++; t->k = k; t->n = 0; t->name = NULL; return t; }
static Ty* Fn(Ty* a, Ty* r) { Ty* t = NewTy(T_FN); t->n = 2; t->tys[0] = a; t->tys[1] = r; return t; }
static Ty* Struct2(const char* n0, Ty* a, const char* n1, Ty* b) { Ty* t = NewTy(T_STRUCT); t->n = 2; t->names[0] = n0; t->names[1] = n1; t->tys[0] = a; t->tys[1] = b; return t; }
static bool TyEq(Ty* a, Ty* b) {
  if (a == b) return true;
  if (a == &LT || b == &LT || a == &LPT || b == &LPT || a == &TT || b == &TT || a == &DT || b == &DT) return false;   // recursive types are only compared by name here
  if (a->k != b->k || a->n != b->n) return false;
  for (int i = 0; i < a->n; ++i) {
    if (a->k != T_FN && strcmp(a->names[i], b->names[i])) return false;
    if (!TyEq(a->tys[i], b->tys[i])) return false;
  }
  return true;
}
static int FieldOf(Ty* t, const char* name) { for (int i = 0; i < t->n; ++i) if (!strcmp(t->names[i], name)) return i; return -1; }

// ---- expressions ----
typedef struct Ex Ex;
typedef enum {
  VAR,       // name
  UNITV,     // Unit
  TAG,       // N@(name: Unit)
  MK,        // ty(xs...)                explicit struct value
  MKI,       // @(names: xs...)          implicit type struct value
  GET,       // xs[0].name
  COPY,      // xs[0].@(names[i]: xs[i] for i in 1..n-1)
  INJ,       // ty(name: xs[0])          union value
  SEL,       // xs[0].?(names[i]: xs[i] for i in 1..n-1, : dflt); flavor 1: statement form
  LET,       // tys[i] names[i] = xs[i]..., ; body    flavor bits per binding: 0 typed, 1 '%', 2 typeof
  LAM,       // (tys[i] names[i]...) { body }
  APP,       // xs[0](xs[1..])           flavor 1: bind  tys[0] names[0] <- xs[0]; body
  LIST,      // xs[0][xs[1..]]
  LIT,       // xs[0]|name
  POLY,      // polymorphic identity applied: flavor 0 explicit type argument, 1 inferred, 2 let-bound both
  ABS,       // cast to an abstract type and back; flavor 1: via access
  BLOCK,     // { xs[0]; }
} ExKind;
struct Ex { ExKind k; int flavor, n; const char* name; Ty* ty; Ex* xs[6]; const char* names[6]; Ty* tys[6]; Ex* body; Ex* dflt; bool errty; };
static Ex expool[400]; static int nexpool;
static Ex* NewEx(ExKind k) { Ex* e = expool + nexpool++; e->k = k; e->n = 0; e->flavor = 0; e->body = e->dflt = NULL; return e; }

// ---- printing ----
#define SRCMAX 16384
static char src[SRCMAX]; static int nsrc;
static bool usesL, usesTok;
static const char* absText[8]; static int nabs;
static void Put(const char* s) { while (*s && nsrc < SRCMAX - 1) src[nsrc++] = *s++; src[nsrc] = 0; }
static void PutTy(Ty* t) {
  if (t == &LT || t == &LPT) usesL = true;
  if (t->name) { t->used = true; Put(t->name); return; }
  if (t->k == T_FN) { Put("("); PutTy(t->tys[0]); Put(") { "); PutTy(t->tys[1]); Put("; }"); return; }
  Put(t->k == T_STRUCT ? "*(" : "+(");
  for (int i = 0; i < t->n; ++i) { if (i) Put(", "); PutTy(t->tys[i]); Put(" "); Put(t->names[i]); }
  Put(")");
}
static void PutEx(Ex* e);
static void PutStmt(Ex* e) {
  if (e->k == LET) {
    for (int i = 0; i < e->n; ++i) {
      int fl = (e->flavor >> (2 * i)) & 3;
      if (i) Put(", ");
      if (fl == 1) Put("%"); else if (fl == 2) { Put("@<"); PutEx(e->xs[i]); Put(">"); } else PutTy(e->tys[i]);
      Put(" "); Put(e->names[i]); Put(" = "); PutEx(e->xs[i]);
    }
    Put("; "); PutStmt(e->body);
  } else if (e->k == APP && e->flavor == 1) {
    PutTy(e->tys[0]); Put(" "); Put(e->names[0]); Put(" <- "); PutEx(e->xs[0]); Put("; "); PutStmt(e->body);
  } else if (e->k == SEL && e->flavor == 1) {
    PutEx(e->xs[0]); Put(".?(");
    for (int i = 1; i < e->n; ++i) { if (i > 1) Put(", "); Put(e->names[i]); Put(": "); PutEx(e->xs[i]); }
    Put("); "); PutStmt(e->dflt);
  } else { PutEx(e); Put("; "); }
}
static void PutEx(Ex* e) {
  switch (e->k) {
    case VAR: Put(e->name); break;
    case UNITV: Put("Unit"); break;
    case TAG: NT.used = true; Put("N@("); Put(e->name); Put(": Unit)"); break;
    case MK: PutTy(e->ty); Put("("); for (int i = 0; i < e->n; ++i) { if (i) Put(", "); PutEx(e->xs[i]); } Put(")"); break;
    case MKI:
      Put("@(");
      for (int i = 0; i < e->n; ++i) { if (i) Put(", "); Put(e->names[i]); if (!(e->xs[i]->k == VAR && !strcmp(e->xs[i]->name, e->names[i]))) { Put(": "); PutEx(e->xs[i]); } }
      Put(")"); break;
    case GET: PutEx(e->xs[0]); Put("."); Put(e->name); break;
    case COPY: PutEx(e->xs[0]); Put(".@("); for (int i = 1; i < e->n; ++i) { if (i > 1) Put(", "); Put(e->names[i]); Put(": "); PutEx(e->xs[i]); } Put(")"); break;
    case INJ: PutTy(e->ty); Put("("); Put(e->name); Put(": "); PutEx(e->xs[0]); Put(")"); break;
    case SEL:
      if (e->flavor == 1) { Put("{ "); PutStmt(e); Put("}"); break; }
      PutEx(e->xs[0]); Put(".?(");
      for (int i = 1; i < e->n; ++i) { if (i > 1) Put(", "); Put(e->names[i]); Put(": "); PutEx(e->xs[i]); }
      if (e->dflt) { Put(", : "); PutEx(e->dflt); }
      Put(")"); break;
    case LET: Put("{ "); PutStmt(e); Put("}"); break;
    case LAM: Put("("); for (int i = 0; i < e->n; ++i) { if (i) Put(", "); PutTy(e->tys[i]); Put(" "); Put(e->names[i]); } Put(") { "); PutStmt(e->body); Put("}"); break;
    case APP:
      if (e->flavor == 1) { Put("{ "); PutStmt(e); Put("}"); break; }
      PutEx(e->xs[0]); Put("("); for (int i = 1; i < e->n; ++i) { if (i > 1) Put(", "); PutEx(e->xs[i]); } Put(")"); break;
    case LIST: PutEx(e->xs[0]); Put("["); for (int i = 1; i < e->n; ++i) { if (i > 1) Put(", "); PutEx(e->xs[i]); } Put("]"); break;
    case LIT: PutEx(e->xs[0]); Put("|'"); Put(e->name); Put("'"); break;
    case POLY:
      if (e->flavor == 0) { Put("<@ Q@> { (Q@ i) { i; }; }<"); PutTy(e->ty); Put(">("); PutEx(e->xs[0]); Put(")"); }
      else if (e->flavor == 1) { Put("<@ Q@>(Q@ i) { i; }("); PutEx(e->xs[0]); Put(")"); }
      else { Put("{ <@ Q@>(Q@) { Q@; } i = <@ Q@>(Q@ i) { i; }; i(i<"); PutTy(e->ty); Put(">("); PutEx(e->xs[0]); Put(")); }"); }
      break;
    case ABS:
      usesTok = true;
      if (e->flavor == 0) { Put("Tok@.<"); PutTy(e->ty); Put(">(Tok@.<Tok@<"); PutTy(e->ty); Put(">>("); PutEx(e->xs[0]); Put("))"); }
      else { Put("Tok@.<Tok@<"); PutTy(e->ty); Put(">>("); PutEx(e->xs[0]); Put(").%"); }
      break;
    case BLOCK: Put("{ "); PutStmt(e->xs[0]); Put("}"); break;
  }
}
// The definitions the printed text needs, before it.
static void PutPrelude(void) {
  Put("@ Unit@ = *(); Unit@ Unit = Unit@();\n@ N@ = +(Unit@ a, Unit@ b, Unit@ c);\n@ P@ = *(N@ x, N@ y);\n");
  if (MT.used) Put("@ M@ = +(N@ j, N@ k, P@ l, Unit@ m);\n");
  if (TT.used || DT.used) Put("@ T@ = +(T@ l, D@ d, Unit@ e), @ D@ = *(T@ l, T@ r);\n");
  if (usesL) Put("@ L@ = +(LP@ cons, Unit@ nil), @ LP@ = *(N@ head, L@ tail);\n");
  if (usesTok) Put("@ Tok@ = %(/Foo%);\n");
}

// ---- reference type checker: NULL if ill-typed ----
typedef struct Sc { const char* name; Ty* ty; struct Sc* up; } Sc;
static Sc scpool[600]; static int nsc;
static Sc* Bind(Sc* up, const char* name, Ty* ty) { Sc* s = scpool + nsc++; s->name = name; s->ty = ty; s->up = up; return s; }
static Ty* TypeOf(Ex* e, Sc* sc) {
  switch (e->k) {
    case VAR: for (; sc; sc = sc->up) if (!strcmp(sc->name, e->name)) return sc->ty; return NULL;
    case UNITV: return &UnitT;
    case TAG: return FieldOf(&NT, e->name) >= 0 ? &NT : NULL;
    case MK:
      if (e->ty->k != T_STRUCT || e->ty->n != e->n) return NULL;
      for (int i = 0; i < e->n; ++i) { Ty* t = TypeOf(e->xs[i], sc); if (!t || !TyEq(t, e->ty->tys[i])) return NULL; }
      return e->ty;
    case MKI: {
      Ty* r = NewTy(T_STRUCT);
      r->n = e->n;
      for (int i = 0; i < e->n; ++i) {
        r->names[i] = e->names[i];
        for (int j = 0; j < i; ++j) if (!strcmp(r->names[i], r->names[j])) return NULL;
        if (!(r->tys[i] = TypeOf(e->xs[i], sc))) return NULL;
      }
      return r;
    }
    case GET: {
      Ty* t = TypeOf(e->xs[0], sc);
      if (!t || t->k == T_FN) return NULL;
      int i = FieldOf(t, e->name);
      return i < 0 ? NULL : t->tys[i];
    }
    case COPY: {
      Ty* t = TypeOf(e->xs[0], sc);
      if (!t || t->k != T_STRUCT) return NULL;
      int next = 0;                                          // the new fields come in the order of the type
      for (int i = 1; i < e->n; ++i) {
        while (next < t->n && strcmp(t->names[next], e->names[i])) next++;
        if (next >= t->n) return NULL;
        Ty* a = TypeOf(e->xs[i], sc);
        if (!a || !TyEq(a, t->tys[next])) return NULL;
        next++;
      }
      return t;
    }
    case INJ: {
      if (e->ty->k != T_UNION) return NULL;
      int f = FieldOf(e->ty, e->name);
      if (f < 0) return NULL;
      Ty* a = TypeOf(e->xs[0], sc);
      return a && TyEq(a, e->ty->tys[f]) ? e->ty : NULL;
    }
    case SEL: {
      Ty* t = TypeOf(e->xs[0], sc);
      if (!t || t->k != T_UNION) return NULL;
      Ty* r = e->dflt ? TypeOf(e->dflt, sc) : NULL;
      if (e->dflt && !r) return NULL;
      int f = 0;
      for (int i = 1; i < e->n; ++i) {                       // branches in field order
        while (f < t->n && strcmp(t->names[f], e->names[i])) { if (!e->dflt) return NULL; f++; }
        if (f >= t->n) return NULL;
        f++;
        Ty* b = TypeOf(e->xs[i], sc);
        if (!b || (r && !TyEq(b, r))) return NULL;
        if (!r) r = b;
      }
      if (f < t->n && !e->dflt) return NULL;
      return r;
    }
    case LET: {
      Sc* in = sc;
      for (int i = 0; i < e->n; ++i) {
        for (int j = 0; j < i; ++j) if (!strcmp(e->names[i], e->names[j])) return NULL;
        int fl = (e->flavor >> (2 * i)) & 3;
        in = Bind(in, e->names[i], fl == 0 ? e->tys[i] : fl == 2 ? TypeOf(e->xs[i], sc) : NULL);
        if (fl == 2 && !in->ty) return NULL;
      }
      Sc* at = in;
      Ty* ts[6];
      for (int i = 0; i < e->n; ++i) {
        int fl = (e->flavor >> (2 * i)) & 3;
        ts[i] = TypeOf(e->xs[i], in);
        if (!ts[i]) return NULL;
        if (fl == 0 && !TyEq(ts[i], e->tys[i])) return NULL;
      }
      for (int i = e->n - 1; i >= 0; --i, at = at->up) if (!at->ty) at->ty = ts[i];
      return TypeOf(e->body, in);
    }
    case LAM: {
      Sc* in = sc;
      for (int i = 0; i < e->n; ++i) in = Bind(in, e->names[i], e->tys[i]);
      Ty* r = TypeOf(e->body, in);
      if (!r) return NULL;
      for (int i = e->n - 1; i >= 0; --i) r = Fn(e->tys[i], r);
      return r;
    }
    case APP: {
      Ty* f = TypeOf(e->xs[0], sc);
      if (!f) return NULL;
      if (e->flavor == 1) {
        Ty* b = TypeOf(e->body, Bind(sc, e->names[0], e->tys[0]));
        if (!b || f->k != T_FN) return NULL;
        return TyEq(f->tys[0], Fn(e->tys[0], b)) ? f->tys[1] : NULL;
      }
      for (int i = 1; i < e->n; ++i) {
        Ty* a = TypeOf(e->xs[i], sc);
        if (!a || f->k != T_FN || !TyEq(f->tys[0], a)) return NULL;
        f = f->tys[1];
      }
      return f;
    }
    case LIST: {
      Ty* f = TypeOf(e->xs[0], sc);
      if (!f || f->k != T_FN || f->tys[0] != &LT) return NULL;
      for (int i = 1; i < e->n; ++i) { Ty* a = TypeOf(e->xs[i], sc); if (!a || !TyEq(a, &NT)) return NULL; }
      return f->tys[1];
    }
    case LIT: {
      Ty* f = TypeOf(e->xs[0], sc);
      if (!f || f->k != T_FN || f->tys[0] != &LT) return NULL;
      for (const char* p = e->name; *p; ++p) { char s[2] = { *p, 0 }; if (FieldOf(&NT, s) < 0) return NULL; }
      return f->tys[1];
    }
    case POLY: { Ty* t = TypeOf(e->xs[0], sc); return t && (e->flavor == 1 || TyEq(t, e->ty)) ? t : NULL; }
    case ABS: { Ty* t = TypeOf(e->xs[0], sc); return t && TyEq(t, e->ty) ? e->ty : NULL; }
    case BLOCK: return TypeOf(e->xs[0], sc);
  }
  return NULL;
}

// ---- reference evaluator: NULL if evaluation aborts ----
typedef struct V V; typedef struct Env Env;
enum { V_STRUCT, V_UNION, V_CLO, V_REF };
// A profiling block: its name and how often it is entered.
typedef struct { char name[96]; int count; } Blk;
static Blk blks[200]; static int nblks;
static Blk mainblk = { "main" };
static Blk* cur = &mainblk;
static Blk* Sub(Blk* b, const char* dot, const char* name) {
  char s[96];
  if (strlen(b->name) + strlen(name) + 2 >= sizeof s) sx_assume(false);
  strcpy(s, b->name); strcat(s, dot); strcat(s, name);
  for (int i = 0; i < nblks; ++i) if (!strcmp(blks[i].name, s)) return blks + i;
  if (nblks >= 199) sx_assume(false);
  strcpy(blks[nblks].name, s);
  return blks + nblks++;
}
struct V { int k, n, tag; V* xs[8]; Ex* lam; Env* env; Blk* at; int thunks; };    // V_CLO: n arguments supplied so far; V_REF: xs[0]
struct Env { const char* name; V* v; Env* up; };
static V vpool[4000]; static int nv;
static Env envpool[3000]; static int nenv;
static long fuel;
static V* NewV(int k) { if (nv >= 3990) sx_assume(false); V* v = vpool + nv++; v->k = k; v->n = v->tag = 0; v->xs[0] = NULL; return v; }
static Env* BindV(Env* up, const char* name, V* v) { if (nenv >= 2990) sx_assume(false); Env* e = envpool + nenv++; e->name = name; e->v = v; e->up = up; return e; }
static V* Force(V* v) { while (v && v->k == V_REF) v = v->xs[0]; return v; }      // NULL if undefined
static V UnitVal = { V_STRUCT };
static V* Enum(int tag) { V* v = NewV(V_UNION); v->tag = tag; v->xs[0] = &UnitVal; return v; }
static V* Eval(Ex* e, Env* env);
static V* EvalIn(const char* dot, const char* name, Ex* e, Env* env) {
  Blk* save = cur;
  cur = Sub(cur, dot, name);
  cur->count++;
  V* v = Eval(e, env);
  cur = save;
  return v;
}
static V* ApplyV(V* f, int n, V** xs) {
  while (n > 0) {
    f = Force(f);
    if (!f) return NULL;
    V* g = NewV(V_CLO);
    g->lam = f->lam; g->env = f->env; g->at = f->at; g->thunks = f->thunks; g->n = f->n;
    for (int i = 0; i < f->n; ++i) g->xs[i] = f->xs[i];
    while (n > 0 && g->n < g->lam->n) { g->xs[g->n++] = *xs++; n--; }
    f = g;
    if (g->n == g->lam->n) {
      if (fuel-- <= 0) sx_assume(false);       // nonterminating: outside the bounds
      Env* env = g->env;
      for (int i = 0; i < g->n; ++i) env = BindV(env, g->lam->names[i], g->xs[i]);
      Blk* save = cur;
      cur = g->at;
      bool curried = g->lam->body->k == LAM;       // curried functions are one block
      if (!curried) { cur = Sub(cur, "!", ""); cur->count += 1 + g->thunks; }   // completing a partial application is an entry too
      f = Eval(g->lam->body, env);
      cur = save;
      if (!f) return NULL;
      if (curried) f->thunks = g->thunks + (n == 0);
    } else g->thunks++;
  }
  return f;
}
static Ty* NormTy[1];
static V* MakeList(int n, V** xs) {
  V* tail = NewV(V_UNION); tail->tag = 1; tail->xs[0] = &UnitVal;
  for (int i = n - 1; i >= 0; --i) {
    V* p = NewV(V_STRUCT); p->n = 2; p->xs[0] = xs[i]; p->xs[1] = tail;
    V* u = NewV(V_UNION); u->tag = 0; u->xs[0] = p;
    tail = u;
  }
  return tail;
}
// Evaluation of type-checked expressions; e->ty of GET/COPY/SEL objects is
// recorded by Annotate.
static V* Eval(Ex* e, Env* env) {
  switch (e->k) {
    case VAR: for (; env; env = env->up) if (!strcmp(env->name, e->name)) return env->v; return NULL;
    case UNITV: return &UnitVal;
    case TAG: return Enum(FieldOf(&NT, e->name));
    case MK: case MKI: { V* v = NewV(V_STRUCT); v->n = e->n; for (int i = 0; i < e->n; ++i) if (!(v->xs[i] = Eval(e->xs[i], env))) return NULL; return v; }
    case GET: {
      V* v = Eval(e->xs[0], env);
      if (!v || !(v = Force(v))) return NULL;
      int f = FieldOf(e->ty, e->name);
      if (v->k == V_STRUCT) return v->xs[f];
      return v->tag == f ? v->xs[0] : NULL;
    }
    case COPY: {
      V* v = Eval(e->xs[0], env);
      if (!v) return NULL;
      V* r = NewV(V_STRUCT);
      V* new[6] = {0};
      for (int i = 1; i < e->n; ++i) if (!(new[FieldOf(e->ty, e->names[i])] = Eval(e->xs[i], env))) return NULL;
      bool all = true;
      for (int i = 0; i < e->ty->n; ++i) all = all && new[i];
      V* s = Force(v);
      if (!s && !all) return NULL;
      r->n = e->ty->n;
      for (int i = 0; i < r->n; ++i) r->xs[i] = new[i] ? new[i] : s->xs[i];
      return r;
    }
    case INJ: { V* v = Eval(e->xs[0], env); if (!v) return NULL; V* u = NewV(V_UNION); u->tag = FieldOf(e->ty, e->name); u->xs[0] = v; return u; }
    case SEL: {
      V* v = Eval(e->xs[0], env);
      if (!v || !(v = Force(v))) return NULL;
      for (int i = 1; i < e->n; ++i) if (v->tag == FieldOf(e->ty, e->names[i])) return EvalIn(".", e->names[i], e->xs[i], env);
      return EvalIn(".", ":", e->dflt, env);
    }
    case LET: {
      V* refs[6]; V* vals[6];
      Env* in = env;
      for (int i = 0; i < e->n; ++i) { refs[i] = NewV(V_REF); in = BindV(in, e->names[i], refs[i]); }
      for (int i = 0; i < e->n; ++i) if (!(vals[i] = EvalIn(".", e->names[i], e->xs[i], in))) return NULL;
      for (int i = 0; i < e->n; ++i) {
        V* v = vals[i];
        while (v->k == V_REF && v->xs[0]) v = v->xs[0];
        if (v == refs[i]) return NULL;                // defined as itself
        refs[i]->xs[0] = v;
      }
      return Eval(e->body, in);
    }
    case LAM: { V* v = NewV(V_CLO); v->lam = e; v->env = env; v->at = cur; v->thunks = 0; return v; }
    case APP: {
      Ex* all[12]; int n = 0;                     // f(a)(b) is f(a, b)
      Ex* g = e;
      for (; g->k == APP && g->flavor == 0; g = g->xs[0]) for (int i = g->n - 1; i >= 1; --i) all[n++] = g->xs[i];
      if (e->flavor == 1) g = e->xs[0];
      V* f = Eval(g, env);
      if (!f) return NULL;
      V* xs[12];
      if (e->flavor == 1) {
        Ex* l = NewEx(LAM); l->n = 1; l->names[0] = e->names[0]; l->tys[0] = e->tys[0]; l->body = e->body;
        xs[0] = Eval(l, env);
        return ApplyV(f, 1, xs);
      }
      for (int i = 0; i < n; ++i) if (!(xs[i] = Eval(all[n - 1 - i], env))) return NULL;
      return ApplyV(f, n, xs);
    }
    case LIST: {
      V* f = Eval(e->xs[0], env);
      V* xs[6];
      if (!f) return NULL;
      for (int i = 1; i < e->n; ++i) if (!(xs[i - 1] = Eval(e->xs[i], env))) return NULL;
      V* l = MakeList(e->n - 1, xs);
      return ApplyV(f, 1, &l);
    }
    case LIT: {
      V* f = Eval(e->xs[0], env);
      V* xs[16]; int n = 0;
      if (!f) return NULL;
      for (const char* p = e->name; *p; ++p) { char s[2] = { *p, 0 }; xs[n++] = Enum(FieldOf(&NT, s)); }
      V* l = MakeList(n, xs);
      return ApplyV(f, 1, &l);
    }
    case POLY: {                                  // a call of an identity function
      V* v;
      if (e->flavor == 2) {
        Blk* i = Sub(cur, ".", "i");
        i->count++;
        if (!(v = Eval(e->xs[0], env))) return NULL;
        Sub(i, "!", "")->count += 2;
        return v;
      }
      if (!(v = Eval(e->xs[0], env))) return NULL;
      Sub(cur, "!", "")->count++;
      return v;
    }
    case ABS: case BLOCK: return Eval(e->xs[0], env);
  }
  return NULL;
}
// Record the object types that evaluation needs to find fields by name.
static void Annotate(Ex* e, Sc* sc) {
  if (e->k == GET || e->k == COPY || e->k == SEL) e->ty = TypeOf(e->xs[0], sc);
  if (e->k == LET) {
    Sc* in = sc;
    for (int i = 0; i < e->n; ++i) in = Bind(in, e->names[i], ((e->flavor >> (2 * i)) & 3) ? NULL : e->tys[i]);
    Sc* at = in;
    for (int i = e->n - 1; i >= 0; --i, at = at->up) if (!at->ty) at->ty = TypeOf(e->xs[i], in);
    for (int i = 0; i < e->n; ++i) Annotate(e->xs[i], in);
    Annotate(e->body, in);
    return;
  }
  if (e->k == LAM) { for (int i = 0; i < e->n; ++i) sc = Bind(sc, e->names[i], e->tys[i]); Annotate(e->body, sc); return; }
  if (e->k == APP && e->flavor == 1) { Annotate(e->xs[0], sc); Annotate(e->body, Bind(sc, e->names[0], e->tys[0])); return; }
  int n = e->k == LIT || e->k == POLY || e->k == ABS || e->k == BLOCK || e->k == GET || e->k == INJ ? 1 : e->n;
  if (e->k == VAR || e->k == UNITV || e->k == TAG) n = 0;
  for (int i = 0; i < n; ++i) Annotate(e->xs[i], sc);
  if (e->dflt) Annotate(e->dflt, sc);
}
#endif
