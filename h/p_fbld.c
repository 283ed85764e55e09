// The fbld processor written in fble against the one written in C: for every
// document both accept it and give the same output, or both refuse it and
// report a single error at the same place.
#include <string.h>
#include <stdlib.h>
#include <fble/fble-value.h>
#include "pkgs/core/stdio.fble.h"
#include "fbld/fbld.h"
#include "sx.h"
#include "pkgfiles.h"
#define LEN(a) (sizeof a / sizeof *a)
// ---- the document: asked for byte by byte ----
static int text[4000]; static size_t ntext;
static int Token(void);
static int At(size_t i) { while (ntext <= i) { int c = Token(); sx_check(ntext < 4000, "harness: text"); text[ntext++] = c; } return text[i]; }
static size_t mode;
// characters of block structure
static const char* const prefixes0[] = { "", "@a", "@a b", "@a @\n c\n", "@a[x]\n@", "x\n", "@a\n @b\n  ", "@a @@\n", "@a\n b\n@", "@@a", "@a\n b\n  c\n", "@a\n @b\n@c" };
static const char* const suffixes0[] = { "\n c\nd\n", "]\n", "}\n", "\n" };
static const char* const tokens0[] = { "a", " ", "\n", "@", "[", "]", "{", "}", "\\", "n", "-" };
// commands
static const char* const prefixes1[] = { "", "@head[", "@ifeq[a][a][", "@define[f][x][@x][", "@let[v][" };
static const char* const suffixes1[] = { "]\n", "\n", "]\n@v\n" };
static const char* const tokens1[] = { "@x", "][", "]", "e", "{}", "@head[ab]", "@f[c]", "@tail[ab]", "@plain[@x]", "@eval[@v]", "@error[m]", "@v", "@define[", "@let[x][1][" };
// nested evaluations: each hole is filled with one of the forms, to a depth
static const char* const forms[] = { "a", "", "@v", "@g", "@f[?][?]", "@ifeq[?][a][?][n]", "@ifneq[?][?][y][@v]", "@head[?]", "@tail[?]", "@plain[?]", "@let[v][?][?]", "@define[h][v][?][@h[?]]", "@eval[?]", "@error[?]", "@f[?]", "@let[f][?][@f]", "b?", "@u[?]", "@define[w][][b?][@w]" };
static char fill[3000]; static size_t nfill, at; static int budget = DEPTH;
static void Put(const char* s) { while (*s) fill[nfill++] = *s++; }
static void Add(const char* s) { for (; *s; ++s) { if (*s == '?') { size_t k = sx_pick("form", budget > 0 ? LEN(forms) : 3); if (k > 3) budget--; Add(forms[k]); } else fill[nfill++] = *s; } }
// documents of block structure with a count of arguments which is known, of strings, of scopes and of escapes
static const char* Pick(const char* name, const char* const* xs, size_t n) { return xs[sx_pick(name, n)]; }
#define PICK(name, ...) ({ static const char* const xs_[] = { __VA_ARGS__ }; Pick(name, xs_, LEN(xs_)); })
#define BLOCK "@define[.block][b][<@b>] @@\n"
static void Structure(void) {
  int args = 0; static char doc[500]; doc[0] = 0;
  #define ADD(s) ({ const char* s_ = (s); strcat(doc, s_); s_; })
  const char* a = ADD(PICK("inline", "", "[i]", "{l@{}}[i@b]")); args += a[0] == '[' ? 1 : a[0] ? 2 : 0;
  a = ADD(PICK("same", "", " s @b [t\\]")); args += a[0] != 0;
  a = ADD(PICK("end", "\n", " @\n r @b\n  r\n\n", " @@\n")); args += a[0] == ' ';
  if (a[0] != ' ' || a[2] != '@') {
    if (a[0] == '\n') { const char* i = ADD(PICK("next", "", " n\n\n  m\n", " @b\n x\n")); args += i[0] != 0; }
    a = ADD(PICK("cont", "", "@[c]\n", "@ c\n", "@\n c\n d\n", "@{c}[d] e\n", "@@\n", "\n")); args += a[0] != '@' ? 0 : a[1] == '{' ? 3 : 1;
  }
  ADD(PICK("tail", "", "t\nu\n\n@b\nv\n"));
  #undef ADD
  Put(BLOCK "@define[b][][B] @@\n@define[a]["); for (int i = 0; i < args; ++i) { char n[3] = { (char)('p' + i), ' ', 0 }; Put(n); } Put("][");
  for (int i = 0; i < args; ++i) { char n[4] = { '(', '@', (char)('p' + i), 0 }; Put(n); Put(")"); } Put("] @@\n@a"); Put(doc);
}
static void Strings(void) {
  static const char* const ss[] = { "", "a", "ab", "@plain[a]b", "aa", "@v", "a@tail[xb]", "@head[a]@plain[]" };
  Put("@let[v][ab] @@\n"); 
  switch (sx_pick("on", 2)) {
    case 0: { size_t a = sx_pick("a", 8); Put(a == 2 && sx_pick("not", 2) ? "@ifneq[" : "@ifeq["); Put(ss[a]); Put("]["); Put(ss[sx_pick("b", 8)]); Put("][y][n]\n"); break; }
    case 1: { Put(PICK("part", "@head[", "@tail[", "@tail[@tail[", "@head[@tail[", "@ifeq[@tail[")); size_t open = 0; for (size_t q = nfill; fill[q - 1] != '\n'; --q) open += fill[q - 1] == '[';
      Put(ss[sx_pick("a", 8)]); Put("]"); Put(strstr(fill, "ifeq") ? "][b][y][n]\n" : open == 2 ? "]\n" : "\n"); break; }
  }
}
static void Scopes(void) {
  Put("@let[x][1] @@\n@define[g][][g@x] @@\n@define[f]["); Put(PICK("params", "", "x", "x y", " y  x ")); Put("][");
  Put(PICK("body", "@x", "@g", "(@x@y)", "@define[g][][@x][@g]", "@let[x][9][@x@g]", "@ifeq[@x][1][@f[2][3]][e@x]")); Put("] @@\n");
  Put(PICK("then", "", "@define[x][][2] @@\n@let[g][h] @@\n")); Put(PICK("call", "@f", "@f[@x]", "@f[1][@g]", "@f[@f[1][5]][6]")); Put("\n");
}
static void Escapes(void) {
  Put(BLOCK "@define[a][p][(@p)] @@\n");
  const char* e = PICK("text", "\\@", "\\[", "\\]", "\\\\", "\\n", "\\x", "{", "}", "{@{}", "[", "]", "@", "@[]", " @@", "-", "@_0", "\\{");
  switch (sx_pick("where", 5)) {
    case 0: Put("x"); Put(e); Put(" y\n"); break;
    case 1: Put("@a[x"); Put(e); Put("y]\n"); break;
    case 2: Put("@a{x"); Put(e); Put("y}\n"); break;
    case 3: Put("@a @\n x"); Put(e); Put("\n y\n"); break;
    case 4: Put("@a "); Put(e); Put("\n"); break;
  }
}
static const char* pending; static int phase, left;
static int Token(void) {
  if (phase == 0) {
    phase = 1; mode = sx_pick("mode", 7);
    if (mode == 3) Structure();
    if (mode == 4) Strings();
    if (mode == 5) Scopes();
    if (mode == 6) Escapes();
    if (mode == 0) { pending = prefixes0[sx_pick("prefix", LEN(prefixes0))]; left = TOKENS; }
    if (mode == 1) { pending = prefixes1[sx_pick("prefix", LEN(prefixes1))]; left = PIECES; }
    if (mode == 2) { Put("@let[v][1] @@\n@define[f][x y][(@x@y)] @@\n@define[g][][@f[@v][2]] @@\n"); Add("?"); fill[nfill++] = '\n'; }
  }
  if (mode >= 2) return at < nfill ? (unsigned char)fill[at++] : EOF;
  for (;;) {
    if (pending && *pending) return (unsigned char)*pending++;
    pending = NULL;
    if (phase == 2) return EOF;
    if (left-- > 0) pending = mode ? tokens1[sx_pick("token", LEN(tokens1))] : tokens0[sx_pick("token", LEN(tokens0))];
    else { phase = 2; pending = mode ? suffixes1[sx_pick("suffix", ENDS1)] : suffixes0[sx_pick("suffix", ENDS0)]; }
  }
}
static const char* FileText(const char* path, size_t* n) {
  if (strncmp(path, "c/", 2)) return NULL;
  for (size_t i = 0; i < LEN(pkg_files); ++i)
    if (!strcmp(path + 2, pkg_files[i].path)) { *n = pkg_files[i].n; return pkg_files[i].text; }
  return NULL;
}
static FILE* Open(const char* path, const char* mode) {
  (void)mode; size_t n; const char* t = FileText(path, &n);
  return t ? sx_in(t, n) : !strcmp(path, "doc") ? sx_in_gen(&At) : NULL;
}
static int Access(const char* path) { size_t n; return FileText(path, &n) ? 0 : -1; }
// the place of the first error: "doc:LINE:COL: error"
static bool Place(const char* s, size_t n, size_t* line, size_t* col) {
  for (size_t i = 0; i + 4 < n; ++i) {
    if (memcmp(s + i, "doc:", 4)) continue;
    i += 4; size_t l = 0, c = 0;
    while (i < n && s[i] >= '0' && s[i] <= '9') l = l * 10 + (size_t)(s[i++] - '0');
    if (i >= n || s[i++] != ':') continue;
    while (i < n && s[i] >= '0' && s[i] <= '9') c = c * 10 + (size_t)(s[i++] - '0');
    *line = l; *col = c; return true;
  }
  return false;
}
void sx_main(void) {
  sx_fopen = &Open; sx_access = &Access;
  static char out[4000], err[4000]; size_t nout = 0, nerr = 0;
  stdout = sx_out(); stderr = sx_out(); sx_keep(stdout, out, sizeof out, &nout);
  const char* argv[] = { "prog", "-I", "c", "-m", "/Fbld/Main%", "doc", NULL };
  int status = FbleStdioMain(6, argv, NULL);
  { const char* p = sx_out_data(stderr, &nerr); sx_check(nerr <= sizeof err, "harness: output"); memcpy(err, p, nerr); }
  stdout = sx_out(); stderr = sx_out();
  const char* inputs[] = { "doc", NULL };
  FbldMarkup* m = FbldParse(inputs); bool ok = m != NULL;
  if (ok) { FbldMarkup* r = FbldEval(m); FbldFreeMarkup(m); ok = r != NULL && FbldPrintMarkup(r); if (r) FbldFreeMarkup(r); }
  size_t no, ne; const char* o = sx_out_data(stdout, &no); const char* e = sx_out_data(stderr, &ne);
  sx_check((status == 0) == ok, ok ? "a document that is accepted" : "a document that is refused");
  if (ok) { sx_check(no == nout && !memcmp(o, out, no), "the same output"); sx_reach("accepted"); }
  else {
    size_t l1, c1, l2, c2;
    bool p1 = Place(err, nerr, &l1, &c1), p2 = Place(e, ne, &l2, &c2);
    sx_check(p1, "an error is reported with its place"); (void)p2;
    if (mode == 2 && DEPTH == 1) sx_check(p2 && l1 == l2 && c1 == c2, "the error is reported at the same place");   // only one thing can be at fault
    sx_reach("refused");
  }
  sx_reach("end");
}
