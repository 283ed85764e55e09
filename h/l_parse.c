// The parser on arbitrary bytes, against a reference lexer and recursive
// descent parser: the same texts are accepted, with the same syntax tree,
// names and locations, and rejected ones are reported and leave nothing behind.
#include <string.h>
#include <fble/fble-load.h>
#include <fble/fble-module-path.h>
#include <fble/fble-string.h>
#include <fble/fble-vector.h>
#include "expr.h"
#include "parse.h"
#include "sx.h"
FbleExpr* FbleParse(FbleString* filename, FbleModulePathV* deps);

// ---- the text: asked for byte by byte ----
static int text[8000]; static size_t ntext;
static int Next(void);
static int At(size_t i) { while (ntext <= i) { int c = Next(); text[ntext++] = c; } return text[i]; }

#if MODE == 2
#elif !CTX
#define PREFIXES { "" }
#define SUFFIXES { "" }
#elif MODE == 0
#define PREFIXES { "x|'", "'a", " x;#", "/A", "x.", "x\n @<", "@x = y", "<%", "''", "x(a: b).", "x\t|" }
#define SUFFIXES { ";", "';", "%;", "'\nb;", "> y; c;", "#\n;", "@;" }
#else
#define PREFIXES { "{", "x.?(a:", "x(", "<", "(x a", "@ T@ =", "x<", "% x = x,", "T@.<", "x a <-", "/A/", "x.@(", "x.?(a: x,", "< <@>@ F@,", "*(x y", "<<", "(x, x", "x a, y b", "{x.?(a: b); ", "x[", "<@>" }
#define SUFFIXES { ";", ") { x; };", "x; x;", ") x;", "> x; };", "); x; };", "> { x; };" }
#endif
#if MODE != 2
static const char* const prefixes[] = PREFIXES;
static const char* const suffixes[] = SUFFIXES;
#endif
static const char* pending; static int phase, left;
#if MODE == 1
static const char* const tokens[] = { "x", "T@", "@", "%", "*", "+", "(", ")", "{", "}", "<", ">", ",", ";", ":", ".", "?", "=", "/", "-", "[", "]", "|", "'q r'", " # c\n" };
#define NTOK (sizeof tokens / sizeof *tokens)
#endif
#if MODE == 2
static const char* const open[] = { "{", "x(", "(x a){", "x.?(a:", "@ T@ = x;", "@<", "<@ T@>{", "(x)" , "x a <- y;", "x[", "x.?(b: y); ", "x|'" , "/A%." };
static const char* const close[] = { ";}", ")", ";}", ")", "", ">", ";}", "", "", "]", "", "'.", "" };
static char big[8000];
#endif
static int Next(void) {
#if MODE == 2
  if (phase == 0) {
    size_t k = sx_pick("unit", sizeof open / sizeof *open), d = 70 + 70 * sx_pick("depth", N);
    for (size_t i = 0; i < d; ++i) strcat(big, open[k]);
    strcat(big, k == 7 ? "{x;}" : k == 12 ? "b" : k == 11 ? "q'.b" : "x");
    for (size_t i = 0; i < d && k != 11; ++i) strcat(big, close[k]);
    strcat(big, ";");
    pending = big; phase = 1;
  }
  if (*pending) return (unsigned char)*pending++;
  return EOF;
#else
  for (;;) {
    if (pending && *pending) return (unsigned char)*pending++;
    pending = NULL;
    if (phase == 0) { pending = prefixes[sizeof prefixes / sizeof *prefixes > 1 ? sx_pick("prefix", sizeof prefixes / sizeof *prefixes) : 0]; phase = 1; left = N; continue; }
    if (phase == 1) {
#if MODE == 0
      if (left-- > 0) return (int)sx_int("byte", 8);
#else
      if (left-- > 0) { pending = tokens[sx_pick("token", NTOK)]; continue; }
#endif
      phase = 2;
      pending = suffixes[sizeof suffixes / sizeof *suffixes > 1 ? sx_pick("suffix", sizeof suffixes / sizeof *suffixes) : 0];
      continue;
    }
    return EOF;
  }
#endif
}

static int AtPos(size_t i) { return At(i); }

// ---- reference lexer ----
typedef struct { int kind; size_t line, col; const char* word; } Tok;     // kind: a punctuation character, 'W', 0 at the end, -1 for what is no token
static Tok toks[4000]; static int ntoks;
static size_t lp, lline = 1, lcol = 1;
static char words[6000]; static size_t nwords;
static bool Space(int c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static bool Punct(int c) { static const char p[] = "(){}[];,:?=.<>+*-!$@~&|%/^"; bool b = false; for (size_t i = 0; p[i]; ++i) b |= c == p[i]; return b; }
static void Skip(void) { if (text[lp] == '\n') { lline++; lcol = 1; } else lcol++; lp++; }
static Tok* T(int i) {
  while (ntoks <= i) {
    Tok* t = toks + ntoks++;
    for (;;) {
      while (At(lp) != EOF && Space(At(lp))) Skip();
      if (At(lp) != '#') break;
      while (At(lp) != EOF && At(lp) != '\n') Skip();
    }
    t->line = lline; t->col = lcol; t->word = NULL;
    int c = At(lp);
    if (c == EOF) t->kind = 0;
    else if (Punct(c)) { t->kind = (int)sx_concrete((uint64_t)c); Skip(); }
    else {
      t->kind = 'W'; t->word = words + nwords;
      bool bad = false;
      if (c == '\'') {
        Skip();
        for (;;) {
          while (At(lp) != EOF && At(lp) != '\'') { bad |= At(lp) == 0; words[nwords++] = (char)At(lp); Skip(); }
          if (At(lp) == EOF) break;           // (an unterminated quote cannot be the end of a module)
          Skip();
          if (At(lp) != '\'') break;
          words[nwords++] = '\''; Skip();
        }
      } else while (At(lp) != EOF && !Space(At(lp)) && !Punct(At(lp)) && At(lp) != '\'' && At(lp) != '#') { bad |= At(lp) == 0; words[nwords++] = (char)At(lp); Skip(); }
      words[nwords++] = 0;
      if (bad) t->kind = -1;
    }
  }
  return toks + i;
}

// ---- reference parser ----
typedef struct Nd Nd;
struct Nd { int k; Tok* at; Tok* w; bool tyname; int n; Nd* xs[10]; int level; Tok* path[6]; int npath; };
enum { K_BASIC = 100, K_POLY, N_TAGGED, N_BIND };   // N_TAGGED: w names xs[0]; N_BIND: xs[0] kind or type, xs[1] value
static Nd nds[1500]; static int nnds;
static Nd* New(int k, Tok* at) { Nd* d = nds + nnds++; d->k = k; d->at = at; return d; }
static int p;                       // next token
static bool Is(int c) { return T(p)->kind == c; }
static bool Eat(int c) { if (Is(c)) { p++; return true; } return false; }
static Nd* Expr(void); static Nd* Block(void); static Nd* Stmt(void);
static Tok* deps[20]; static Nd* depn[20]; static int ndeps;
static bool Name(Nd* d) { if (!Is('W')) return false; d->w = T(p++); d->tyname = Eat('@'); return true; }
static Nd* Kind(int* lvl);
static bool KindList(Nd** ks, int* n) {    // after '<'
  for (;;) { int l; Nd* k = Kind(&l); if (!k || l != 1) return false; ks[(*n)++] = k; if (!Eat(',')) break; }
  return Eat('>');
}
static Nd* Kind(int* lvl) {
  Tok* at = T(p);
  if (Eat('%')) { *lvl = 0; Nd* d = New(K_BASIC, at); d->level = 0; return d; }
  if (Eat('@')) { *lvl = 1; Nd* d = New(K_BASIC, at); d->level = 1; return d; }
  if (!Eat('<')) return NULL;
  Nd* ks[10]; int n = 0;
  if (!KindList(ks, &n)) return NULL;
  Nd* r = Kind(lvl);
  if (!r) return NULL;
  while (n-- > 0) { Nd* d = New(K_POLY, at); d->n = 2; d->xs[0] = ks[n]; d->xs[1] = r; r = d; }
  return r;
}
static bool Path(Nd* d) {    // after '/'
  do { if (!Is('W')) return false; d->path[d->npath++] = T(p++); } while (Eat('/'));
  return Eat('%');
}
static bool Exprs(Nd* d) { do { Nd* e = Expr(); if (!e) return false; d->xs[d->n++] = e; } while (Eat(',')); return true; }
static bool Typed(Nd* d, Nd* first) {     // type name, ... ; first: the first type if already read
  do {
    Nd* t = New(N_TAGGED, NULL);
    t->n = 1; t->xs[0] = first ? first : Expr(); first = NULL;
    if (!t->xs[0] || !Name(t)) return false;
    d->xs[d->n++] = t;
  } while (Eat(','));
  return true;
}
static bool Tagged(Nd* d, bool implicit) {   // name: expr, ... up to ')' or ", :"
  do {
    if (!implicit && Is(':')) { p--; return true; }        // the default; back to the comma
    Nd* t = New(N_TAGGED, NULL); Tok* at = T(p);
    t->n = 1;
    if (!Name(t)) return false;
    if (Eat(':')) { if (!(t->xs[0] = Expr())) return false; }
    else if (implicit) { Nd* v = New(FBLE_VAR_EXPR, at); v->w = t->w; v->tyname = t->tyname; t->xs[0] = v; }
    else return false;
    d->xs[d->n++] = t;
  } while (Eat(','));
  return true;
}
static Nd* Wrap(Nd* args, int k, Tok* at, Nd* body) {
  for (int i = args->n - 1; i >= 0; --i) { Nd* d = New(k, at); d->n = 2; d->xs[0] = args->xs[i]; d->xs[1] = body; body = d; }
  return body;
}
static Nd* Block(void) {
  Tok* at = T(p);
  if (Eat('{')) { Nd* d = Stmt(); return d && Eat('}') ? d : NULL; }
  if (Eat('(')) {
    Nd* args = New(0, at);
    Nd* e = Expr();
    if (!e) return NULL;
    int k = FBLE_FUNC_TYPE_EXPR;
    if (Is('W')) { k = FBLE_FUNC_VALUE_EXPR; if (!Typed(args, e)) return NULL; }
    else { args->xs[args->n++] = e; if (Eat(',') && !Exprs(args)) return NULL; }
    if (!Eat(')')) return NULL;
    Nd* b = Block();
    return b ? Wrap(args, k, at, b) : NULL;
  }
  if (Eat('<')) {
    Nd* args = New(0, at);
    do { int l; Nd* t = New(N_TAGGED, NULL); t->n = 1; if (!(t->xs[0] = Kind(&l)) || !Name(t)) return NULL; args->xs[args->n++] = t; } while (Eat(','));
    if (!Eat('>')) return NULL;
    Nd* b = Block();
    return b ? Wrap(args, FBLE_POLY_VALUE_EXPR, at, b) : NULL;
  }
  return NULL;
}
static Nd* Primary(void) {
  Tok* at = T(p);
  Nd* d;
  switch (at->kind) {
    case 'W': d = New(FBLE_VAR_EXPR, at); Name(d); return d;
    case '@':
      p++;
      if (Eat('<')) { d = New(FBLE_TYPEOF_EXPR, at); d->n = 1; return (d->xs[0] = Expr()) && Eat('>') ? d : NULL; }
      if (!Eat('(')) return NULL;
      d = New(FBLE_STRUCT_VALUE_IMPLICIT_TYPE_EXPR, at);
      if (!Is(')') && !Tagged(d, true)) return NULL;
      return Eat(')') ? d : NULL;
    case '/':
      p++; d = New(FBLE_MODULE_PATH_EXPR, at);
      if (!Path(d)) return NULL;
      depn[ndeps++] = d;
      return d;
    case '*': case '+':
      p++; d = New(FBLE_DATA_TYPE_EXPR, at); d->level = at->kind;
      if (!Eat('(')) return NULL;
      if (!(at->kind == '*' && Is(')')) && !Typed(d, NULL)) return NULL;
      return Eat(')') ? d : NULL;
    case '%':
      p++; d = New(FBLE_PACKAGE_TYPE_EXPR, at);
      if (!Eat('(') || (Eat('/') && !Path(d))) return NULL;
      return Eat(')') ? d : NULL;
    default: return Block();
  }
}
static Nd* Expr(void) {
  Tok* at = T(p);
  Nd* e = Primary();
  while (e) {
    Nd* d = NULL;
    if (Eat('(')) {
      if (Is('W')) {       // name ':' makes it a union value
        int save = p; Nd* u = New(FBLE_UNION_VALUE_EXPR, at);
        if (Name(u) && Eat(':')) { u->n = 2; u->xs[0] = e; if (!(u->xs[1] = Expr()) || !Eat(')')) return NULL; e = u; continue; }
        p = save;
      }
      d = New(FBLE_MISC_APPLY_EXPR, at); d->n = 1; d->xs[0] = e; d->level = 0;
      if (!Is(')') && !Exprs(d)) return NULL;
      if (!Eat(')')) return NULL;
    } else if (Eat('.')) {
      if (Is('W')) { d = New(FBLE_DATA_ACCESS_EXPR, at); d->n = 1; d->xs[0] = e; Name(d); }
      else if (Eat('%')) { d = New(FBLE_ABSTRACT_ACCESS_EXPR, at); d->n = 1; d->xs[0] = e; }
      else if (Eat('@')) { d = New(FBLE_STRUCT_COPY_EXPR, at); d->n = 1; d->xs[0] = e; if (!Eat('(') || !Tagged(d, true) || !Eat(')')) return NULL; }
      else if (Eat('?')) {
        d = New(FBLE_UNION_SELECT_EXPR, at); d->n = 1; d->xs[0] = e; d->level = 0;
        if (!Eat('(') || !Tagged(d, false) || d->n == 1) return NULL;
        if (Eat(',')) { if (!Eat(':')) return NULL; Nd* x = Expr(); if (!x) return NULL; d->xs[d->n++] = x; d->level = 1; }
        if (!Eat(')')) return NULL;
      } else if (Eat('<')) {
        d = New(FBLE_ABSTRACT_CAST_EXPR, at); d->n = 3; d->xs[0] = e;
        if (!(d->xs[1] = Expr()) || !Eat('>') || !Eat('(') || !(d->xs[2] = Expr()) || !Eat(')')) return NULL;
      } else return NULL;
    } else if (Eat('<')) {
      Nd* as = New(0, NULL);
      if (!Exprs(as) || !Eat('>')) return NULL;
      for (int i = 0; i < as->n; ++i) { d = New(FBLE_POLY_APPLY_EXPR, at); d->n = 2; d->xs[0] = e; d->xs[1] = as->xs[i]; e = d; }
    } else if (Eat('[')) {
      d = New(FBLE_LIST_EXPR, at); d->n = 1; d->xs[0] = e;
      if (!Is(']') && !Exprs(d)) return NULL;
      if (!Eat(']')) return NULL;
    } else if (Eat('|')) {
      if (!Is('W')) return NULL;
      d = New(FBLE_LITERAL_EXPR, at); d->n = 1; d->xs[0] = e; d->w = T(p++);
    } else return e;
    e = d;
  }
  return NULL;
}
// Is what comes a kind followed by a name?
static bool AtKind(void) {
  int c = T(p)->kind;
  if (c == '@') { int d = T(p + 1)->kind; return d != '<' && d != '('; }
  if (c == '%') return T(p + 1)->kind != '(';
  if (c != '<') return false;
  int save = p, savend = nnds, l;
  p++;
  bool ok = Kind(&l) != NULL && !Is('W');      // a poly names its arguments
  p = save; nnds = savend; memset(nds + nnds, 0, sizeof nds - (size_t)nnds * sizeof *nds);
  return ok;
}
static Nd* Binding(Nd* type) {
  Nd* b = New(N_BIND, NULL);
  b->n = 2; int l;
  b->xs[0] = type ? type : AtKind() ? Kind(&l) : Expr();
  return b->xs[0] && Name(b) && Eat('=') && (b->xs[1] = Expr()) ? b : NULL;
}
static Nd* Stmt(void) {
  Tok* at = T(p);
  Nd* e = NULL;
  if (!AtKind()) {
    if (!(e = Expr())) return NULL;
    if (Eat(';')) {
      if (Is('}') || Is(0)) return e;
      Nd* s = Stmt();
      if (!s || e->k != FBLE_UNION_SELECT_EXPR || e->level) return NULL;
      e->xs[e->n++] = s; e->level = 1;
      return e;
    }
    int save = p, savend = nnds; Nd* nm = New(0, NULL);
    if (!Name(nm)) return NULL;
    bool eq = Is('=');
    p = save; nnds = savend; memset(nds + nnds, 0, sizeof *nds);
    if (!eq) {      // a bind
      Nd* args = New(0, at);
      if (!Typed(args, e) || !Eat('<') || !Eat('-')) return NULL;
      Nd* d = New(FBLE_MISC_APPLY_EXPR, at); d->level = 1; d->n = 2;
      if (!(d->xs[0] = Expr()) || !Eat(';')) return NULL;
      Nd* s = Stmt();
      if (!s) return NULL;
      d->xs[1] = Wrap(args, FBLE_FUNC_VALUE_EXPR, at, s);
      return d;
    }
  }
  Nd* let = New(FBLE_LET_EXPR, at);
  do { Nd* b = Binding(e); e = NULL; if (!b) return NULL; let->xs[let->n++] = b; } while (Eat(','));
  if (!Eat(';')) return NULL;
  Nd* s = Stmt();
  if (!s) return NULL;
  let->xs[let->n++] = s;
  return let;
}

// ---- comparison ----
static void Loc(FbleLoc l, Tok* t) { sx_check(l.line == t->line && l.col == t->col, "located where it was written"); }
static void NameIs(FbleName nm, Nd* d) {
  sx_check(!strcmp(nm.name->str, d->w->word), "name as written");
  sx_check(nm.space == (d->tyname ? FBLE_TYPE_NAME_SPACE : FBLE_NORMAL_NAME_SPACE), "name space as written");
  Loc(nm.loc, d->w);
}
static void PathIs(FbleModulePath* m, Nd* d) {
  sx_check(m->path.size == (size_t)d->npath, "module path components");
  for (int i = 0; i < d->npath; ++i) sx_check(!strcmp(m->path.xs[i].name->str, d->path[i]->word) && m->path.xs[i].space == FBLE_NORMAL_NAME_SPACE, "module path component as written");
}
static void KindIs(FbleKind* k, Nd* d) {
  if (d->k == K_BASIC) { sx_check(k->tag == FBLE_BASIC_KIND && ((FbleBasicKind*)k)->level == (size_t)d->level, "basic kind"); return; }
  sx_check(k->tag == FBLE_POLY_KIND, "poly kind");
  KindIs(((FblePolyKind*)k)->arg, d->xs[0]); KindIs(((FblePolyKind*)k)->rkind, d->xs[1]);
}
static void Match(FbleExpr* e, Nd* d);
#define SIZE(v, m) sx_check((v).size == (size_t)(m), "as many parts as written")
static void TaggedTypes(FbleTaggedTypeExprV v, Nd* d) { SIZE(v, d->n); for (int i = 0; i < d->n; ++i) { NameIs(v.xs[i].name, d->xs[i]); Match(v.xs[i].type, d->xs[i]->xs[0]); } }
static void TaggedExprs(FbleTaggedExprV v, Nd* d, int from, int n) { SIZE(v, n); for (int i = 0; i < n; ++i) { NameIs(v.xs[i].name, d->xs[from + i]); Match(v.xs[i].expr, d->xs[from + i]->xs[0]); } }
static void ExprsAre(FbleExprV v, Nd* d) { SIZE(v, d->n - 1); for (int i = 1; i < d->n; ++i) Match(v.xs[i - 1], d->xs[i]); }
static void Match(FbleExpr* e, Nd* d) {
  sx_check(e != NULL && (int)e->tag == d->k, "expression form as written");
  Loc(e->loc, d->at);
  switch (e->tag) {
    case FBLE_TYPEOF_EXPR: Match(((FbleTypeofExpr*)e)->expr, d->xs[0]); break;
    case FBLE_VAR_EXPR: NameIs(((FbleVarExpr*)e)->var, d); break;
    case FBLE_LET_EXPR: {
      FbleLetExpr* x = (FbleLetExpr*)e;
      SIZE(x->bindings, d->n - 1);
      for (int i = 0; i + 1 < d->n; ++i) {
        FbleBinding* b = x->bindings.xs + i; Nd* r = d->xs[i];
        bool kind = r->xs[0]->k >= K_BASIC;
        sx_check((b->kind != NULL) == kind && (b->type != NULL) != kind, "kind or type as written");
        if (kind) KindIs(b->kind, r->xs[0]); else Match(b->type, r->xs[0]);
        NameIs(b->name, r); Match(b->expr, r->xs[1]);
      }
      Match(x->body, d->xs[d->n - 1]);
      break;
    }
    case FBLE_DATA_TYPE_EXPR: sx_check((((FbleDataTypeExpr*)e)->datatype == FBLE_STRUCT_DATATYPE) == (d->level == '*'), "struct or union"); TaggedTypes(((FbleDataTypeExpr*)e)->fields, d); break;
    case FBLE_DATA_ACCESS_EXPR: Match(((FbleDataAccessExpr*)e)->object, d->xs[0]); NameIs(((FbleDataAccessExpr*)e)->field, d); break;
    case FBLE_STRUCT_VALUE_IMPLICIT_TYPE_EXPR: TaggedExprs(((FbleStructValueImplicitTypeExpr*)e)->args, d, 0, d->n); break;
    case FBLE_STRUCT_COPY_EXPR: Match(((FbleStructCopyExpr*)e)->src, d->xs[0]); TaggedExprs(((FbleStructCopyExpr*)e)->args, d, 1, d->n - 1); break;
    case FBLE_UNION_VALUE_EXPR: Match(((FbleUnionValueExpr*)e)->type, d->xs[0]); NameIs(((FbleUnionValueExpr*)e)->field, d); Match(((FbleUnionValueExpr*)e)->arg, d->xs[1]); break;
    case FBLE_UNION_SELECT_EXPR: {
      FbleUnionSelectExpr* x = (FbleUnionSelectExpr*)e;
      Match(x->condition, d->xs[0]);
      TaggedExprs(x->choices, d, 1, d->n - 1 - d->level);
      sx_check((x->default_ != NULL) == (d->level == 1), "default as written");
      if (x->default_) Match(x->default_, d->xs[d->n - 1]);
      break;
    }
    case FBLE_FUNC_TYPE_EXPR: Match(((FbleFuncTypeExpr*)e)->arg, d->xs[0]); Match(((FbleFuncTypeExpr*)e)->rtype, d->xs[1]); break;
    case FBLE_FUNC_VALUE_EXPR: NameIs(((FbleFuncValueExpr*)e)->arg.name, d->xs[0]); Match(((FbleFuncValueExpr*)e)->arg.type, d->xs[0]->xs[0]); Match(((FbleFuncValueExpr*)e)->body, d->xs[1]); break;
    case FBLE_POLY_VALUE_EXPR: NameIs(((FblePolyValueExpr*)e)->arg.name, d->xs[0]); KindIs(((FblePolyValueExpr*)e)->arg.kind, d->xs[0]->xs[0]); Match(((FblePolyValueExpr*)e)->body, d->xs[1]); break;
    case FBLE_POLY_APPLY_EXPR: Match(((FblePolyApplyExpr*)e)->poly, d->xs[0]); Match(((FblePolyApplyExpr*)e)->arg, d->xs[1]); break;
    case FBLE_LIST_EXPR: Match(((FbleListExpr*)e)->func, d->xs[0]); ExprsAre(((FbleListExpr*)e)->args, d); break;
    case FBLE_LITERAL_EXPR: Match(((FbleLiteralExpr*)e)->func, d->xs[0]); sx_check(!strcmp(((FbleLiteralExpr*)e)->word, d->w->word), "literal as written"); Loc(((FbleLiteralExpr*)e)->word_loc, d->w); break;
    case FBLE_MODULE_PATH_EXPR: PathIs(((FbleModulePathExpr*)e)->path, d); break;
    case FBLE_PACKAGE_TYPE_EXPR: PathIs(((FblePackageTypeExpr*)e)->path, d); break;
    case FBLE_ABSTRACT_CAST_EXPR: Match(((FbleAbstractCastExpr*)e)->package, d->xs[0]); Match(((FbleAbstractCastExpr*)e)->target, d->xs[1]); Match(((FbleAbstractCastExpr*)e)->value, d->xs[2]); break;
    case FBLE_ABSTRACT_ACCESS_EXPR: Match(((FbleAbstractAccessExpr*)e)->value, d->xs[0]); break;
    case FBLE_MISC_APPLY_EXPR: Match(((FbleApplyExpr*)e)->misc, d->xs[0]); sx_check(((FbleApplyExpr*)e)->bind == (d->level == 1), "bind as written"); ExprsAre(((FbleApplyExpr*)e)->args, d); break;
  }
}
static bool SamePath(Nd* a, Nd* b) {
  if (a->npath != b->npath) return false;
  for (int i = 0; i < a->npath; ++i) if (strcmp(a->path[i]->word, b->path[i]->word)) return false;
  return true;
}
void sx_main(void) {
  sx_file_gen("/m/Foo.fble", AtPos);
  FbleString* file = FbleNewString("/m/Foo.fble");
  FbleModulePathV mods;
  FbleInitVector(mods);
  FbleExpr* e = FbleParse(file, &mods);
  bool reported = sx_err_writes() != 0;
  Nd* d = Stmt();
  bool ok = d != NULL && Is(0);
  sx_check((e != NULL) == ok, "accepted exactly when it is a module");
  sx_check(reported == !ok, "an error is reported exactly when rejected");
  if (ok) {
    Match(e, d);
    size_t want = 0;
    for (int i = 0; i < ndeps; ++i) {
      bool dup = false;
      for (int j = 0; j < i; ++j) dup = dup || SamePath(depn[i], depn[j]);
      if (!dup) { sx_check(want < mods.size, "every module referred to is a dependency"); PathIs(mods.xs[want++], depn[i]); }
    }
    sx_check(want == mods.size, "only modules referred to are dependencies");
    FbleFreeExpr(e);
    sx_reach("accepted");
  } else sx_reach("rejected");
  for (size_t i = 0; i < mods.size; ++i) FbleFreeModulePath(mods.xs[i]);
  FbleFreeVector(mods);
  FbleFreeString(file);
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
