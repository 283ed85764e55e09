// fbld parsing (C13, C14): FbldParse on arbitrary text against a reference
// parser of the documented syntax. Every form of argument gives the markup it
// stands for, malformed text is reported at the line it is malformed, nothing
// is left behind. With EVAL the markup is then also evaluated and printed.
#include <string.h>
#include "sx.h"
#include "fbld/fbld.h"

// ---- the text: asked for byte by byte ----
static int text[2000]; static size_t ntext;
static int Next(void);
static int At(size_t i) { while (ntext <= i) { int c = Next(); sx_check(ntext < 2000, "harness: text"); text[ntext++] = c; } return text[i]; }
static int AtPos(size_t i) { return At(i); }
#if CTX
static const char* const prefixes[] = { "@a", "@a b", "@a @\n c\n", "@a[x]\n@", "x\n", "@a\n @b\n  ", "@a @@\n", "@a\n b\n@", "@a[", "@a{", "@@a", "@a\n b\n  c\n", "@a\n @b\n@c", "@a[y", "@a b @" };
static const char* const suffixes[] = { "", "\n", "]\n", "}\n", "\n c\nd\n" };
#else
static const char* const prefixes[] = { "" };
static const char* const suffixes[] = { "" };
#endif
#define LEN(a) (sizeof a / sizeof *a)
#if MODE == 1
static const char* const tokens[] = { "a", " ", "\n", "@", "[", "]", "{", "}", "\\", "n", "-" };
#elif MODE == 2
static const char* const tokens[] = { "@let[", "@head[", "@error[", "@ifeq[", "@d", "@a[", "][", "]", "e", "{}", "@", "[]" , "\n", "@plain[", "@eval[", "@tail[", "@define[", "{", "}", " " };
#endif
static const char* pending; static int phase, left;
static int Next(void) {
  for (;;) {
    if (pending && *pending) return (unsigned char)*pending++;
    pending = NULL;
    if (phase == 0) { pending = prefixes[LEN(prefixes) > 1 ? sx_pick("prefix", LEN(prefixes)) : 0]; phase = 1; left = N; continue; }
    if (phase == 1) {
#if MODE == 0
      if (left-- > 0) {
        int c = (int)sx_int("byte", 8);
#if !EVAL
        sx_assume(c != 0 && c != 3);    // what a text document does not contain
#endif
        return c;
      }
#else
      if (left-- > 0) { pending = tokens[sx_pick("token", LEN(tokens))]; continue; }
#endif
      phase = 2;
      pending = suffixes[LEN(suffixes) > 1 ? sx_pick("suffix", LEN(suffixes)) : 0];
      continue;
    }
    return EOF;
  }
}

// ---- reference parser ----
typedef struct Mk Mk;
typedef struct { int c; Mk* cmd; } It;          // a character or a command
struct Mk { It* xs; int n; char* name; int nname; size_t line, col; Mk* args; Mk* next; bool implicit; };
static It pool[3000]; static int npool;
static Mk mks[600]; static int nmks;
static char names[1000]; static int nnames;
static size_t p, line = 1, col = 1, indent; static bool bad; static size_t bad_line;
#define END (-2)
static Mk* NewMk(void) { sx_check(nmks < 600, "harness: markup"); return &mks[nmks++]; }
// the character k characters on, where spaces of the indentation do not count
static int Look(size_t* q, size_t* c) {
  while (*c <= indent) {
    int ch = At(*q);
    if (ch == ' ') { ++*q; ++*c; } else if (ch == '\n') return ch; else return END;
  }
  return At(*q) == EOF ? END : At(*q);
}
static int Cur(void) { size_t q = p, c = col; return Look(&q, &c); }
static bool Is(const char* s) {
  size_t q = p, c = col;
  for (; *s; ++s) { if (Look(&q, &c) != (unsigned char)*s) return false; q++; c++; }
  return true;
}
static void Adv(void) {
  size_t q = p, c = col;
  int ch = Look(&q, &c);
  sx_check(ch != END, "harness: end");
  p = q + 1; col = c + 1;
  if (ch == '\n') { line++; col = 1; }
}
static void Skip(int n) { while (n-- > 0) Adv(); }
static Mk* Bad(void) { bad = true; bad_line = line; return NULL; }
// a markup under construction: items are gathered in a chain of chunks, then laid out
typedef struct Cell { It it; struct Cell* next; } Cell;
static Cell cells[3000]; static int ncells;
typedef struct { Cell* first; Cell* last; int n; } Build;
static void Put(Build* b, int c, Mk* cmd) { sx_check(ncells < 3000, "harness: cells"); Cell* l = &cells[ncells++]; l->it.c = c; l->it.cmd = cmd; if (b->last) b->last->next = l; else b->first = l; b->last = l; b->n++; }
static Mk* Lay(Build* b) { Mk* m = NewMk(); m->xs = pool + npool; for (Cell* l = b->first; l; l = l->next) pool[npool++] = l->it; m->n = b->n; return m; }
static void Arg(Mk* cmd, Mk* a) { Mk** t = &cmd->args; while (*t) t = &(*t)->next; *t = a; cmd->n++; }

typedef enum { BRACKET, PARAGRAPH, LINE } Ctx;
static Mk* Inline(Ctx ctx);
static Mk* Name(void) {
  Mk* m = NewMk(); m->line = line; m->col = col; m->name = names + nnames;
  for (;;) { int c = Cur(); if (c == END || !(c == '_' || ((unsigned)c - '0') < 10 || ((unsigned)(c | 32) - 'a') < 26)) break; names[nnames++] = (char)c; m->nname++; Adv(); }
  nnames++;
  return m->nname == 0 ? Bad() : m;     // names have one or more characters
}
static bool InlineArgs(Mk* cmd) {
  for (;;) {
    if (Is("[")) {
      Adv();
      Mk* a = Inline(BRACKET);
      if (!a) return false;
      Arg(cmd, a); Adv();
    } else if (Is("{")) {
      Adv();
      Build b = { 0 };
      for (int depth = 1;;) {
        int c = Cur();
        if (c == END) { Bad(); return false; }
        if (c == '{') depth++;
        if (c == '}' && --depth == 0) break;
        Put(&b, c, NULL); Adv();
      }
      Adv(); Arg(cmd, Lay(&b));
    } else return true;
  }
}
static Mk* Inline(Ctx ctx) {
  Build b = { 0 };
  for (;;) {
    int c = Cur();
    if (ctx == BRACKET && c == ']') break;
    if (c == END) { if (ctx == BRACKET) return Bad(); break; }
    if (ctx == LINE && (c == '\n' || Is(" @\n") || Is(" @@\n"))) break;
    if (ctx == PARAGRAPH && col == 1 && c == '\n') break;
    Adv();
    if (c == '@') {
      Mk* cmd = Name();
      if (!cmd || !InlineArgs(cmd)) return NULL;
      Put(&b, 0, cmd);
    } else if (c == '\\') {
      c = Cur();
      if (c == 'n') c = '\n'; else if (c != '@' && c != '[' && c != ']' && c != '\\') return Bad();
      Put(&b, c, NULL); Adv();
    } else Put(&b, c, NULL);
  }
  return Lay(&b);
}
static Mk* Block(void);
static Mk* BlockCommand(void) {
  Mk* cmd = Name(); Mk* a;
  if (!cmd) return NULL;
  for (;;) {
    if (!InlineArgs(cmd)) return NULL;
    if (Is(" ") && !Is(" @\n") && !Is(" @@\n")) { Adv(); if (!(a = Inline(LINE))) return NULL; Arg(cmd, a); }
    if (Is(" @@\n")) { Skip(4); if (!(a = Block())) return NULL; Arg(cmd, a); return cmd; }
    if (Is(" @\n")) {
      Skip(3);
      indent++;
      Build b = { 0 }; Cell* keep = NULL; int nkeep = 0;
      for (int c, last = '\n'; (c = Cur()) != END; last = c) {
        bool blank = c == '\n' && last == '\n' && b.n > 0;
        Put(&b, c, NULL); Adv();
        if (!blank) { keep = b.last; nkeep = b.n; }
      }
      if (keep) { keep->next = NULL; b.last = keep; b.n = nkeep; }
      indent--;
      Arg(cmd, Lay(&b));
    } else if (Is("\n")) Adv();
    else return Bad();
    if (Is(" ")) { indent++; a = Block(); indent--; if (!a) return NULL; Arg(cmd, a); }
    if (Is("@@\n")) { Skip(3); if (!(a = Block())) return NULL; Arg(cmd, a); return cmd; }
    if (Is("@\n") || Is("@ ") || Is("@[") || Is("@{")) { Adv(); continue; }
    return cmd;
  }
}
static Mk* Block(void) {
  Build b = { 0 };
  for (;;) {
    while (Is("\n")) Adv();
    if (Cur() == END) break;
    if (Is("@") && !Is("@@")) {
      Adv();
      Mk* cmd = BlockCommand();
      if (!cmd) return NULL;
      Put(&b, 0, cmd);
    } else {
      if (Is("@@")) Adv();
      Mk* cmd = NewMk(); cmd->implicit = true; cmd->line = line; cmd->name = ".block"; cmd->nname = 6;
      Mk* a = Inline(PARAGRAPH);
      if (!a) return NULL;
      Arg(cmd, a); Put(&b, 0, cmd);
    }
  }
  return Lay(&b);
}

// ---- comparison ----
static It* want; static int nwant;
static void Same(FbldMarkup* m, Mk* d);
static void Walk(FbldMarkup* m) {
  switch (m->tag) {
    case FBLD_MARKUP_PLAIN:
      for (const char* s = m->text->str; *s; ++s) { sx_check(nwant > 0 && !want->cmd, "no more text than written"); sx_check((unsigned char)*s == want->c, "text as written"); want++; nwant--; }
      break;
    case FBLD_MARKUP_SEQUENCE: for (size_t i = 0; i < m->markups.size; ++i) Walk(m->markups.xs[i]); break;
    case FBLD_MARKUP_COMMAND: {
      sx_check(nwant > 0 && want->cmd, "a command where one is written");
      Mk* d = want->cmd; want++; nwant--;
      sx_check(strlen(m->text->str) == (size_t)d->nname && !memcmp(m->text->str, d->name, d->nname), "command name as written");
      sx_check(m->text->loc.line == d->line && (d->implicit || m->text->loc.column == d->col), "command located where it was written");
      sx_check(m->markups.size == (size_t)d->n, "as many arguments as written");
      Mk* a = d->args;
      for (size_t i = 0; i < m->markups.size; ++i, a = a->next) Same(m->markups.xs[i], a);
      break;
    }
  }
}
static void Same(FbldMarkup* m, Mk* d) {
  It* w = want; int n = nwant;
  want = d->xs; nwant = d->n;
  Walk(m);
  sx_check(nwant == 0, "all the text written");
  want = w; nwant = n;
}
static bool ReportedAt(const char* e, size_t n, size_t l) {
  for (size_t i = 0; i + 4 < n; ++i) if (!memcmp(e + i, "doc:", 4)) {
    size_t v = 0;
    for (i += 4; i < n && e[i] >= '0' && e[i] <= '9'; ++i) v = v * 10 + (size_t)(e[i] - '0');
    return v == l;
  }
  return false;
}
void sx_main(void) {
  FILE* out = sx_out(); FILE* err = sx_out();
  stdout = out; stderr = err;
  uint64_t base = sx_live_allocs();
  sx_file_gen("doc", AtPos);
#if EVAL
  static const char defs[] = "@define[.block][x][@x] @@\n@define[a][b][(@b)] @@\n@let[d][e] @@\n@define[b][][@d] @@\n@define[c][][@d] @@\n";
  sx_file("defs", defs, sizeof defs - 1);
  const char* inputs[] = { "defs", "doc", NULL };
#else
  const char* inputs[] = { "doc", NULL };
#endif
  FbldMarkup* m = FbldParse(inputs);
  size_t ne;
  const char* e = sx_out_data(err, &ne);
#if !EVAL
  Mk* d = Block();
  sx_check((m != NULL) == (d != NULL), "accepted exactly when it is a document");
  if (d) { Same(m, d); sx_check(ne == 0, "no error is reported for a document"); sx_reach("accepted"); }
  else { sx_check(ReportedAt(e, ne, bad_line), "an error is reported at the line in error"); sx_reach("rejected"); }
  FbldFreeMarkup(m);
#else
  bool ok = m != NULL;
  if (ok) {
    FbldMarkup* r = FbldEval(m);
    FbldFreeMarkup(m);
    ok = r != NULL && FbldPrintMarkup(r);
    FbldFreeMarkup(r);
  }
  e = sx_out_data(err, &ne);
  sx_check((ne == 0) == ok, "an error is reported exactly when there is no result");
  if (ok) sx_reach("accepted"); else sx_reach("rejected");
#endif
  sx_check(sx_live_allocs() == base, "everything released");
  sx_reach("end");
}
