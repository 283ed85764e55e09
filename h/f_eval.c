// fbld evaluation (C13, C14). A document is made up while a reference
// evaluator of the documented language runs: what a place of the document holds
// is decided when the reference first evaluates it, and a place it never
// evaluates holds an @error, so that evaluating it shows. The real
// parser, evaluator and printer then process the text of that document.
#include <string.h>
#include "sx.h"
#include "fbld/fbld.h"

#ifndef ERRS
#define ERRS 0          // also commands that fail
#endif
enum { CHAR, EMPTY, EMPTY_LIT, TWO, VAR_X, VAR_Y, LEAVES,
       CALL_F = LEAVES, CALL_G, LET, DEF_F, DEF_G, DEF_0, HEAD, TAIL, IFEQ, IFNEQ, EVAL, PLAIN, SEQ, UNKNOWN, OK_FORMS,
       FAIL = OK_FORMS, ARITY_F, ARITY_X, ARITY_B, ALL_FORMS,
       WORD = ALL_FORMS, CALL, UNREACHED, OPEN };
typedef struct N { int k; struct N* a[5]; int na; const char* s; uint8_t ch, ch2; unsigned line, col; bool lit; } N;
static N ns[400]; static int nn;
static N* New(int k) { sx_check(nn < 400, "harness: nodes"); N* n = &ns[nn++]; n->k = k; return n; }
static N* Open(void) { return New(OPEN); }
static N* Word(const char* s) { N* n = New(WORD); n->s = s; return n; }
static N* Cmd(int k, const char* s, int na, N* a, N* b, N* c, N* d) { N* n = New(k); n->s = s; n->na = na; n->a[0] = a; n->a[1] = b; n->a[2] = c; n->a[3] = d; return n; }

// ---- reference ----
typedef struct { N* cmd; uint8_t c; } Item;
typedef struct { Item xs[24]; int n; bool bad; } V;
typedef struct E { const char* name; V* val; const char* ps[3]; int np; N* body; struct E* next; } E;
static V vs[300]; static int nv;
static E es[150]; static int ne;
static N* blames[200]; static int nb; static bool blame_any, failed;
static int budget, fuel = 120;
static N anycmd = { .k = UNREACHED };
static V* NV(void) { sx_check(nv < 300, "harness: values"); return &vs[nv++]; }
static E* NE(const char* name, E* next) { sx_check(ne < 150, "harness: env"); E* e = &es[ne++]; e->name = name; e->next = next; e->np = -1; return e; }
static void Put(V* v, N* cmd, uint8_t c) { sx_assume(v->n < 24); v->xs[v->n].cmd = cmd; v->xs[v->n++].c = c; }
static void Blame(N* n) { failed = true; if (n == &anycmd) blame_any = true; else { sx_check(nb < 200, "harness: blames"); blames[nb++] = n; } }
static void Cat(V* v, V* w) { for (int i = 0; i < w->n; ++i) Put(v, w->xs[i].cmd, w->xs[i].c); v->bad = v->bad || w->bad; }
static V* Bad(V* v) { v->bad = true; return v; }
// whether v is text (blames the commands in it otherwise)
static bool Text(V* v, int n) { bool ok = !v->bad; for (int i = 0; i < v->n && i < n; ++i) if (v->xs[i].cmd) { Blame(v->xs[i].cmd); ok = false; } return ok; }
#ifndef LEAFMASK
#define LEAFMASK 0x3f
#endif
#ifndef FORMMASK
#define FORMMASK 0xffffffu
#endif
static const char* kNames[] = { "x", "y", "f", "g" };
static const char* kParams[] = { "x y", " y\t x " };
static void Decide(N* n) {
  int opts[ALL_FORMS], no = 0;
  for (int i = 0; i < LEAVES; ++i) if (LEAFMASK >> i & 1) opts[no++] = i;
  if (budget > 0) for (int i = LEAVES; i < (ERRS ? ALL_FORMS : OK_FORMS); ++i) if (FORMMASK >> (i - LEAVES) & 1) opts[no++] = i;
  n->k = opts[sx_pick("form", no)];
  if (n->k >= LEAVES) budget--;
  switch (n->k) {
    case CHAR: case TWO: n->ch = sx_u8("char"); sx_assume(n->ch >= 'a' && n->ch <= 'c'); n->ch2 = 'b'; break;
    case VAR_X: n->k = CALL; n->s = "x"; break;
    case VAR_Y: n->k = CALL; n->s = "y"; break;
    case CALL_F: *n = *Cmd(CALL, "f", 1, Open(), 0, 0, 0); break;
    case CALL_G: *n = *Cmd(CALL, "g", 2, Open(), Open(), 0, 0); break;
    case LET: *n = *Cmd(CALL, "let", 3, sx_pick("computed name", 2) ? Cmd(CALL, "n", 0, 0, 0, 0, 0) : Word(kNames[sx_pick("name", 3)]), Open(), Open(), 0); break;
    case DEF_F: *n = *Cmd(CALL, "define", 4, Word("f"), Word(kNames[sx_pick("param", 2)]), Open(), Open()); break;
    case DEF_G: *n = *Cmd(CALL, "define", 4, Word("g"), Word(kParams[sx_pick("params", 2)]), Open(), Open()); break;
    case DEF_0: *n = *Cmd(CALL, "define", 4, Word("y"), New(sx_pick("no params", 2) ? EMPTY : EMPTY_LIT), Open(), Open()); break;
    case HEAD: *n = *Cmd(CALL, "head", 1, Open(), 0, 0, 0); break;
    case TAIL: *n = *Cmd(CALL, "tail", 1, Open(), 0, 0, 0); break;
    case IFEQ: *n = *Cmd(CALL, "ifeq", 4, Open(), Open(), Open(), Open()); break;
    case IFNEQ: *n = *Cmd(CALL, "ifneq", 4, Open(), Open(), Open(), Open()); break;
    case EVAL: *n = *Cmd(CALL, "eval", 1, Open(), 0, 0, 0); break;
    case PLAIN: *n = *Cmd(CALL, "plain", 2, Word((const char*[]){ "i", "o", "u" }[sx_pick("function", 3)]), Open(), 0, 0); break;
    case SEQ: n->na = 2; n->a[0] = Open(); n->a[1] = Open(); break;
    case UNKNOWN: *n = *Cmd(CALL, sx_pick("unknown", 2) ? "u" : "v", 1, Open(), 0, 0, 0); break;
    case FAIL: *n = *Cmd(CALL, "error", 1, Open(), 0, 0, 0); break;
    case ARITY_F: { int m = (int)sx_pick("arguments", 3); *n = *Cmd(CALL, "f", m == 1 ? 3 : m, Open(), Open(), Open(), 0); break; }
    case ARITY_X: *n = *Cmd(CALL, "x", 1, Open(), 0, 0, 0); break;
    case ARITY_B: {
      static const struct { const char* s; int na; } bs[] = { {"error", 0}, {"error", 2}, {"define", 3}, {"define", 5}, {"let", 2}, {"let", 4}, {"head", 0}, {"head", 2}, {"tail", 0}, {"tail", 2},
        {"ifeq", 3}, {"ifeq", 5}, {"ifneq", 3}, {"ifneq", 5}, {"eval", 0}, {"eval", 2}, {"plain", 1}, {"plain", 3} };
      int b = (int)sx_pick("builtin", sizeof bs / sizeof *bs);
      *n = *Cmd(CALL, bs[b].s, bs[b].na, Open(), Open(), Open(), Open()); n->a[4] = Open();
      break; }
  }
}
static V* Ref(E* env, N* n) {
  V* v = NV();
  if (n->k == OPEN) Decide(n);
  sx_assume(--fuel > 0);
  switch (n->k) {
    case CHAR: Put(v, 0, n->ch); return v;
    case TWO: Put(v, 0, n->ch); Put(v, 0, n->ch2); return v;
    case EMPTY: case EMPTY_LIT: return v;
    case WORD: for (const char* s = n->s; *s; ++s) Put(v, 0, *s); return v;
    case SEQ: Cat(v, Ref(env, n->a[0])); Put(v, 0, '-'); Cat(v, Ref(env, n->a[1])); return v;
  }
  for (E* e = env; e; e = e->next) if (!strcmp(e->name, n->s)) {
    int want = e->np < 0 ? 0 : e->np;
    if (n->na != want) { Blame(n); return Bad(v); }
    if (e->np < 0) return e->val;
    E* in = e;
    for (int i = 0; i < n->na; ++i) { V* a = Ref(env, n->a[i]); in = NE(e->ps[i], in); in->val = a; }
    return Ref(in, e->body);
  }
  static const struct { const char* s; int na; } bs[] = { {"error", 1}, {"define", 4}, {"let", 3}, {"head", 1}, {"tail", 1}, {"ifeq", 4}, {"ifneq", 4}, {"eval", 1}, {"plain", 2} };
  int b = -1;
  for (int i = 0; i < 9; ++i) if (!strcmp(bs[i].s, n->s)) b = i;
  if (b < 0) { Put(v, n, 0); return v; }
  if (n->na != bs[b].na) { Blame(n); return Bad(v); }
  V* x = Ref(env, n->a[0]);
  switch (b) {
    case 0: if (Text(x, 99)) Blame(n); return Bad(v);
    case 1: case 2: {
      V* y = Ref(env, n->a[1]);
      bool ok = Text(x, 99);
      if (b == 1 && !Text(y, 99)) ok = false;
      if (!ok) return Bad(v);
      static char names[40][8]; static int nnames;
      sx_check(nnames < 40 && x->n < 8, "harness: names");
      char* name = names[nnames++];
      int i = 0;
      for (; i < x->n; ++i) name[i] = x->xs[i].c;
      name[i] = 0;
      E* e = NE(name, env);
      if (b == 2) { e->val = y; return Ref(e, n->a[2]); }
      e->np = 0; e->body = n->a[2];
      for (i = 0; i < y->n; ++i) { uint8_t c = y->xs[i].c; if (c == 'x') e->ps[e->np++] = "x"; else if (c == 'y') e->ps[e->np++] = "y"; }
      return Ref(e, n->a[3]);
    }
    case 3: case 4: {
      if (x->bad) { Text(x, 99); return Bad(v); }
      if (!Text(x, 1)) return Bad(v);
      for (int i = 0; i < x->n; ++i) if (b == 3 ? i < 1 : i > 0) Put(v, x->xs[i].cmd, x->xs[i].c);
      return v;
    }
    case 5: case 6: {
      V* y = Ref(env, n->a[1]);
      if (x->bad || y->bad) { Text(x, 99); Text(y, 99); return Bad(v); }
      bool eq = true;
      for (int i = 0; eq; ++i) {    // decided at the first difference; commands before it cannot be compared
        N* p = i < x->n ? x->xs[i].cmd : 0; N* q = i < y->n ? y->xs[i].cmd : 0;
        if (p || q) { if (p) Blame(p); if (q) Blame(q); return Bad(v); }
        if (i >= x->n || i >= y->n) { eq = i >= x->n && i >= y->n; break; }
        if (x->xs[i].c != y->xs[i].c) eq = false;
      }
      return Ref(env, n->a[eq == (b == 5) ? 2 : 3]);
    }
    case 7: case 8: {
      V* y = x; const char* f = 0;
      if (b == 8) { f = n->a[0]->s; y = Ref(env, n->a[1]); }
      bool text = false;
      for (int i = 0; i < y->n; ++i) {
        if (y->xs[i].cmd == &anycmd) { sx_assume(*"" == 1); }
        if (y->xs[i].cmd) { Cat(v, Ref(env, y->xs[i].cmd)); text = false; continue; }
        if (!f) { Put(v, 0, y->xs[i].c); continue; }
        N* one = New(CHAR); one->ch = y->xs[i].c; one->line = 0;
        if (*f == 'u') { if (!text) Put(v, &anycmd, 0); }
        else Cat(v, Ref(env, Cmd(CALL, f, 1, one, 0, 0, 0)));
        text = true;
      }
      if (f && *f == 'u') sx_assume(y->n > 0);
      if (y->bad) v->bad = true;
      return v;
    }
  }
  return v;
}

// ---- text ----
static char doc[4000]; static size_t nd; static unsigned line = 1, col = 1;
static void C(char c) { sx_check(nd < sizeof doc, "harness: text"); doc[nd++] = c; if (c == '\n') { line++; col = 1; } else col++; }
static void S(const char* s) { while (*s) C(*s++); }
static void Write(N* n) {
  switch (n->k) {
    case OPEN: S("@error[not to be evaluated]"); return;
    case CHAR: C(n->ch); return;
    case TWO: C(n->ch); C(n->ch2); return;
    case EMPTY: case EMPTY_LIT: return;
    case WORD: S(n->s); return;
    case SEQ: Write(n->a[0]); C('-'); Write(n->a[1]); return;
  }
  C('@'); n->line = line; n->col = col; S(n->s);
  for (int i = 0; i < n->na; ++i) { bool lit = n->a[i]->k == EMPTY_LIT || n->a[i]->k == TWO; C(lit ? '{' : '['); Write(n->a[i]); C(lit ? '}' : ']'); }
}
static N* Letter(uint8_t c) { N* n = New(CHAR); n->ch = c; return n; }
static N* Seq(N* a, N* b) { N* n = New(SEQ); n->na = 2; n->a[0] = a; n->a[1] = b; return n; }
static N* Var(const char* s) { return Cmd(CALL, s, 0, 0, 0, 0, 0); }
static E* Def(E* next, const char* name, int np, const char* p, const char* q, N* body) {
  E* e = NE(name, next); e->np = np; e->ps[0] = p; e->ps[1] = q; e->body = body;
  S("@define["); S(name); S("]["); S(p); if (np > 1) { C(' '); S(q); } S("]["); Write(body); S("] @@\n");
  return e;
}
static E* Let(E* next, const char* name, N* val) {
  E* e = NE(name, next); e->val = Ref(next, val);
  S("@let["); S(name); S("]["); Write(val); S("] @@\n");
  return e;
}
static size_t Num(const char* s, size_t n, size_t* i) { size_t v = 0; while (*i < n && s[*i] >= '0' && s[*i] <= '9') v = v * 10 + (s[(*i)++] - '0'); return v; }
// The document proper is made up when the parser first asks for it.
static E* env; static N* top; static V* want; static char pre[400]; static size_t npre;
static int DocAt(size_t pos) {
  if (!top) {
    top = Open();
    want = Ref(env, top);
    Text(want, 99);
    C(':'); Write(top); C('\n');
  }
  return pos < nd ? (uint8_t)doc[pos] : EOF;
}
void sx_main(void) {
  FILE* out = sx_out(); FILE* err = sx_out();
  stdout = out; stderr = err;
  uint64_t base = sx_live_allocs();
  budget = BUDGET;
  uint8_t c0 = sx_u8("x"); sx_assume(c0 >= 'a' && c0 <= 'c');
  env = Def(0, ".block", 1, "b", 0, Var("b"));
  env = Let(env, "x", Letter(c0));
  env = Let(env, "y", Seq(Letter('b'), Letter('a')));
  env = Let(env, "n", Word("x"));
  env = Def(env, "f", 1, "x", 0, Seq(Var("x"), Var("y")));
  env = Def(env, "g", 2, "x", "y", Seq(Var("y"), Seq(Letter('c'), Var("x"))));
  env = Def(env, "i", 1, "y", 0, Var("y"));
  env = Def(env, "o", 1, "x", 0, New(EMPTY));
  sx_check(nd < sizeof pre, "harness: preamble");
  memcpy(pre, doc, npre = nd);
  nd = 0; line = col = 1;
  sx_file("pre", pre, npre);
  sx_file_gen("doc", DocAt);
  const char* inputs[] = { "pre", "doc", NULL };
  FbldMarkup* m = FbldParse(inputs);
  sx_check(m != NULL, "a well-formed document is parsed");
  FbldMarkup* r = FbldEval(m);
  FbldFreeMarkup(m);
  bool ok = r != NULL && FbldPrintMarkup(r);
  FbldFreeMarkup(r);
  size_t no, nr;
  const char* o = sx_out_data(out, &no); const char* p = sx_out_data(err, &nr);
  sx_check(ok == !failed, failed ? "a document in error is rejected" : "a document without error is accepted");
  if (ok) {
    sx_check(no == (size_t)want->n + 2 && o[0] == ':' && o[no - 1] == '\n', "output is as long as the text denoted");
    bool same = true;
    for (int i = 0; i < want->n; ++i) same = same & (o[i + 1] == want->xs[i].c);
    sx_check(same, "output is the text denoted");
    sx_check(nr == 0, "no error is reported for an accepted document");
    sx_reach("accepted");
  } else {
    // every report starts with the position of a command at fault
    size_t reports = 0;
    for (size_t i = 0; i < nr; ++i) {
      if (blame_any && nr - i >= 4 && memcmp(p + i, "pre:", 4) == 0) reports++;
      if (nr - i < 4 || memcmp(p + i, "doc:", 4) != 0) continue;
      i += 4; size_t l = Num(p, nr, &i); i++; size_t c = Num(p, nr, &i);
      bool found = blame_any;
      for (int j = 0; j < nb; ++j) found = found || (blames[j]->line == l && blames[j]->col == c);
      sx_check(found, "an error is reported at a command at fault");
      reports++;
    }
    sx_check(reports > 0, "a rejected document is reported");
    sx_reach("rejected");
  }
  sx_check(sx_live_allocs() == base, "everything released");
  sx_reach("end");
}
