// The programs of the packages: fble-sat (PKG=0) and fble-md5 (PKG=1), run
// from their sources on inputs that are decided as they are read, and the
// games (PKG=2..), called with arbitrary positions.
#include <string.h>
#include <stdlib.h>
#include <fble/fble-alloc.h>
#include <fble/fble-link.h>
#include <fble/fble-module-path.h>
#include <fble/fble-name.h>
#include <fble/fble-profile.h>
#include <fble/fble-value.h>
#include <fble/fble-vector.h>
#include "pkgs/core/char.fble.h"
#include "pkgs/core/int.fble.h"
#include "pkgs/core/stdio.fble.h"
#include "pkgs/core/string.fble.h"
#include "sx.h"
#include "pkgfiles.h"
static const char usage[] = "/Core/String%.Str|'help';";
static const char* mainprog = "";
static const char* FileText(const char* path, size_t* n) {
  if (strncmp(path, "c/", 2)) return NULL;
  const char* t = !strcmp(path, "c/Main.fble") ? mainprog : !strcmp(path, "c/Sat/Usage.fble") || !strcmp(path, "c/Md5/Usage.fble") ? usage : NULL;
  if (t) { *n = strlen(t); return t; }
  for (size_t i = 0; i < sizeof pkg_files / sizeof pkg_files[0]; ++i)
    if (!strcmp(path + 2, pkg_files[i].path)) { *n = pkg_files[i].n; return pkg_files[i].text; }
  return NULL;
}
static FILE* OpenIn(const char* path);
static FILE* Open(const char* path, const char* mode) {
  (void)mode; size_t n; const char* t = FileText(path, &n);
  return t ? sx_in(t, n) : OpenIn(path);
}
static int Access(const char* path) { size_t n; return FileText(path, &n) ? 0 : -1; }
static char in[4096]; static size_t nin; static bool decided;
static void Decide(void);
static int Next(size_t pos) { if (!decided) { decided = true; Decide(); } return pos < nin ? (uint8_t)in[pos] : -1; }
#define P(...) nin += (size_t)sprintf(in + nin, __VA_ARGS__)
#define ENDS(what) { const char* argv_[] = { "prog", "-I", "c", "-m", what, NULL }; memcpy(argv, argv_, sizeof argv_); argc = 5; }
static const char* argv[12]; static int argc;
static void CheckOut(int status, const char* out, size_t n);
#if PKG == 0
// ---- formulas ----
static int cl[16][6], ncl; static bool wrong;
static FILE* OpenIn(const char* path) { (void)path; return NULL; }
static void Args(void) { ENDS("/Sat/Main%") }
static void Lit(int l) { int i = 0; while (cl[ncl][i]) ++i; cl[ncl][i] = l; cl[ncl][i + 1] = 0; P("%d ", l); }
static void Head(int v, int c) { P("p cnf %d %d\n", v, c); }
static void Decide(void) {
  switch (sx_pick("kind", 5)) {
    case 0: {    // up to N clauses of two variables, each there or not, negated or not
      int n = (int)sx_pick("clauses", N2 + 1); Head(2, n);
      for (; ncl < n; ++ncl) {
        for (int v = 1; v <= 2; ++v) { size_t s = sx_pick("literal", 3); if (s) Lit(s == 1 ? v : -v); }
        P("0\n");
      }
      break;
    }
    case 1: {    // any of the eight clauses of three variables, in one order or the other
      bool back = sx_pick("backwards", 2); Head(3, 8);
      for (int k = 0; k < 8; ++k) {
        int c = back ? 7 - k : k;
        if (!sx_pick("clause", 2)) continue;
        for (int v = 1; v <= 3; ++v) Lit(c >> (v - 1) & 1 ? v : -v);
        P("0\n"); ncl++;
      }
      break;
    }
    case 2: {    // chains of clauses of two literals over 4 variables, and units
      Head(4, 9);
      int a = (int)sx_pick("start", 2) ? 1 : -1;
      Lit(a * 1); P("0\n"); ncl++;
      int s = a;
      for (int v = 1; v < 4; ++v) { int t = sx_pick("sign", 2) ? 1 : -1; Lit(-s * v); Lit(t * (v + 1)); P("0\n"); ncl++; s = t; }
      size_t k = sx_pick("last", 9); if (k < 8) { int v = 1 + (int)k / 2; Lit(k & 1 ? v : -v); P("0\n"); ncl++; }
      break;
    }
    case 3: {    // clauses with literals that repeat or exclude each other, and comments and spaces
      if (sx_pick("comment", 2)) P("c p cnf 0 0\nc\n");
      Head(2, 2);
      for (; ncl < 2; ++ncl) { int n = (int)sx_pick("literals", N3 + 1); for (int i = 0; i < n; ++i) { static const int ls[] = { 1, -1, 2 }; Lit(ls[sx_pick("literal", 3)]); } P("0\n"); }
      break;
    }
    default: {   // not a formula
      static const char* const bad[] = { "", "\n", "c only\n", "x\n", "p cnf 1\n1 0\n", "q cnf 1 1\n1 0\n", "p dnf 1 1\n1 0\n", "p cnf 1 1\n1\n", "p cnf 2 2\n1 0\n2 1\n", "1 0\n" };
      P("%s", bad[sx_pick("text", 10)]); wrong = true;
    }
  }
}
static bool Satisfies(const bool* val) {
  for (int i = 0; i < ncl; ++i) {
    bool ok = false;
    for (int j = 0; cl[i][j]; ++j) ok |= cl[i][j] > 0 ? val[cl[i][j]] : !val[-cl[i][j]];
    if (!ok) return false;
  }
  return true;
}
static void CheckOut(int status, const char* out, size_t n) {
  if (wrong) { sx_check(status == 1 && n == 0 && sx_err_writes() != 0, "text that is not a formula is reported"); sx_reach("wrong"); return; }
  sx_check(status == 0 && n > 0 && out[n - 1] == '\n' && sx_err_writes() == 0, "answers");
  bool sat = false;
  for (int m = 0; m < 16 && !sat; ++m) { bool val[5]; for (int v = 1; v < 5; ++v) val[v] = m >> (v - 1) & 1; sat = Satisfies(val); }
  if (!sat) { sx_check(n == 6 && !memcmp(out, "unsat\n", 6), "no assignment, so unsatisfiable"); sx_reach("unsat"); return; }
  sx_check(n > 7 && !memcmp(out, "sat: [", 6), "satisfiable");
  int val[5] = { 0 };
  for (size_t i = 6; out[i] != ']'; ++i) {
    int s = out[i++] == '+' ? 1 : -1, v = out[i++] - '0';
    sx_check(v >= 1 && v <= 4 && val[v] == 0, "each variable once");
    val[v] = s; if (out[i] == ']') break; sx_check(out[i] == ',' && out[i + 1] == ' ', "a list"); i++;
  }
  for (int i = 0; i < ncl; ++i) { bool ok = false; for (int j = 0; cl[i][j]; ++j) for (int k = 0; k < j; ++k) ok |= cl[i][j] == -cl[i][k]; for (int j = 0; cl[i][j]; ++j) ok |= cl[i][j] > 0 ? val[cl[i][j]] > 0 : val[-cl[i][j]] < 0; sx_check(ok, "the assignment satisfies every clause"); }
  sx_reach("sat");
}
#elif PKG == 1
// ---- messages ----
static uint32_t Rol(uint32_t x, int k) { return x << k | x >> (32 - k); }
static void Hash(const uint8_t* msg, size_t n, char* hex) {
  static const uint32_t K[64] = { 0xd76aa478, 0xe8c7b756, 0x242070db, 0xc1bdceee, 0xf57c0faf, 0x4787c62a, 0xa8304613, 0xfd469501, 0x698098d8, 0x8b44f7af, 0xffff5bb1, 0x895cd7be, 0x6b901122, 0xfd987193, 0xa679438e, 0x49b40821,
    0xf61e2562, 0xc040b340, 0x265e5a51, 0xe9b6c7aa, 0xd62f105d, 0x02441453, 0xd8a1e681, 0xe7d3fbc8, 0x21e1cde6, 0xc33707d6, 0xf4d50d87, 0x455a14ed, 0xa9e3e905, 0xfcefa3f8, 0x676f02d9, 0x8d2a4c8a,
    0xfffa3942, 0x8771f681, 0x6d9d6122, 0xfde5380c, 0xa4beea44, 0x4bdecfa9, 0xf6bb4b60, 0xbebfbc70, 0x289b7ec6, 0xeaa127fa, 0xd4ef3085, 0x04881d05, 0xd9d4d039, 0xe6db99e5, 0x1fa27cf8, 0xc4ac5665,
    0xf4292244, 0x432aff97, 0xab9423a7, 0xfc93a039, 0x655b59c3, 0x8f0ccc92, 0xffeff47d, 0x85845dd1, 0x6fa87e4f, 0xfe2ce6e0, 0xa3014314, 0x4e0811a1, 0xf7537e82, 0xbd3af235, 0x2ad7d2bb, 0xeb86d391 };
  static const int R[16] = { 7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21 };
  static uint8_t m[1024]; memcpy(m, msg, n); size_t len = n; m[n++] = 0x80; while (n % 64 != 56) m[n++] = 0;
  for (int i = 0; i < 8; ++i) m[n++] = (uint8_t)((uint64_t)len * 8 >> (8 * i));
  uint32_t h[4] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476 };
  for (size_t o = 0; o < n; o += 64) {
    uint32_t w[16]; for (int i = 0; i < 16; ++i) w[i] = m[o + 4 * i] | (uint32_t)m[o + 4 * i + 1] << 8 | (uint32_t)m[o + 4 * i + 2] << 16 | (uint32_t)m[o + 4 * i + 3] << 24;
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 64; ++i) {
      uint32_t f; int g;
      if (i < 16) { f = (b & c) | (~b & d); g = i; } else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; }
      else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); g = 7 * i % 16; }
      uint32_t t = d; d = c; c = b; b += Rol(a + f + K[i] + w[g], R[i / 16 * 4 + i % 4]); a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
  }
  for (int i = 0; i < 16; ++i) sprintf(hex + 2 * i, "%02x", h[i / 4] >> (i % 4 * 8) & 0xff);
}
static int files = 0;
static FILE* OpenIn(const char* path) { if (strcmp(path, "msg")) return NULL; return sx_in_gen(&Next); }
static void Args(void) {
  ENDS("/Md5/Main%")
  files = FILES;     // 0: standard input; 1: by the name -; 2: a file; 3: a file that is not there and then a file
  if (files == 1) argv[argc++] = "-";
  if (files == 3) argv[argc++] = "none";
  if (files >= 2) argv[argc++] = "msg";
}
static void Decide(void) {
  static const uint8_t lens[] = { 0, 56, 64, 3, 55, 119, 1, 63, 57, 65, 120, 2, 62, 4, 128, 127, 58, 121, 61, 129, 33 };
  size_t n = lens[sx_pick("length", LENS)];
  size_t p = n ? sx_pick("pattern", PATTERNS) : 0;
  for (size_t i = 0; i < n; ++i) in[nin++] = (char)(p == 0 ? i * 37 + 11 : p == 1 ? 0xff : p == 2 ? 0 : p == 3 ? 0x80 : 255 - i);
}
static void CheckOut(int status, const char* out, size_t n) {
  char want[64]; Hash((const uint8_t*)in, nin, want);
  sprintf(want + 32, "  %s\n", files < 2 ? "-" : "msg");
  sx_check(status == (files == 3), "succeeds exactly if all files could be read");
  sx_check((sx_err_writes() != 0) == (files == 3), "a file that cannot be read is reported");
  sx_check(n == strlen(want) && !memcmp(out, want, n), "the digest of the message and its name");
  sx_reach(files == 3 ? "no file" : "hashed");
}
#elif PKG == 2
// ---- tic-tac-toe, played through its interface ----
static FILE* OpenIn(const char* path) { (void)path; return NULL; }
static void Args(void) { ENDS("/Games/TicTacToe/Stdio%") }
static int Won(const char* b) {
  static const char ls[8][3] = { {0,1,2}, {3,4,5}, {6,7,8}, {0,3,6}, {1,4,7}, {2,5,8}, {0,4,8}, {2,4,6} };
  for (int i = 0; i < 8; ++i) if (b[ls[i][0]] != '_' && b[ls[i][0]] == b[ls[i][1]] && b[ls[i][0]] == b[ls[i][2]]) return b[ls[i][0]];
  return 0;
}
static bool Full(const char* b) { return !memchr(b, '_', 9); }
static int Best(char* b, char p) {     // 1 if p can win, 0 draw, -1
  char q = p == 'X' ? 'O' : 'X';
  if (Won(b)) return -1;
  if (Full(b)) return 0;
  int best = -1;
  for (int i = 0; i < 9 && best < 1; ++i) if (b[i] == '_') { b[i] = p; int r = Won(b) ? 1 : -Best(b, q); b[i] = '_'; if (r > best) best = r; }
  return best;
}
static void Line(const char* s) { P("%s", s); }
static void Cell(int c) { P("%c%c\n", "ABC"[c / 3], "123"[c % 3]); }
// Which lines to give depends on the game so far only through what is free.
static void Decide(void) {
  char b[10] = "_________"; char p = 'X'; int left = 9;
  size_t form = sx_pick("form", 4);
  if (form == 3) {                       // the computer, a reply, the computer: what it remembers of mirrored boards
    static const char* const bs[] = { "OX__XX__O", "__OXO_XX_", "_XX__XO_O", "___X_XOXO", "X_OOX_X__", "OXO___X_X", "XOXO__X__", "_XOOXX___" };
    const char* want = bs[sx_pick("board", 8)];
    for (int k = 0, x = 0, o = 0; k < 5; ++k) { int* at = k % 2 ? &o : &x; while (want[*at] != "XO"[k % 2]) ++*at; Cell((*at)++); }
    Line("P\n");
    int c = (int)sx_pick("reply", 4); for (int i = 0; i < 9; ++i) if (want[i] == '_' && c-- == 0) Cell(i);
    Line("P\nP\n");
    return;
  }
  int plies = form == 0 ? OPEN + 1 : 9 - AIFREE + (int)sx_pick("plies", AIFREE + 1);
  for (int k = 0; k < plies; ++k) {
    int c;
    if (form == 0) {                     // any opening
      c = (int)sx_pick("cell", (size_t)left);
    } else if (form == 1) {              // each game that is filled from one side with some swaps
      c = k % 4 == 1 ? (int)sx_pick("swap", 2) : 0; if (c >= left) c = 0;
    } else {                             // filled from the end, to the end
      c = left - 1 - (k % 3 == 1 ? (int)sx_pick("swap", 2) : 0); if (c < 0) c = 0;
    }
    int i = 0; for (; ; ++i) if (b[i] == '_' && c-- == 0) break;
    Cell(i);
    if (Won(b)) continue;
    b[i] = p; p = p == 'X' ? 'O' : 'X'; left--;
    if (Won(b) || left == 0) break;
  }
  switch (sx_pick("then", form == 0 ? 2 : 5)) {
    case 0: if (left <= AIFREE) { for (int i = 0; i < left + 1; ++i) Line("P\n"); } else Line("B2"); break;
    case 1: Line("B2\nB2\nA1x\n"); break;
    case 2: Line("R\nC3\nB1"); break;
    case 3: Line("Q\nA1\n"); break;
    case 4: { static const char* const bad[] = { "A4\n", "A\n", "D1\n", "a1\n", " \n", "\n", "B" }; Line(bad[sx_pick("line", 7)]); Line("C1\n"); break; }
  }
}
static void Show(char* to, const char* b, char p) {
  int w = Won(b);
  sprintf(to, "  1 2 3\nA %c %c %c\nB %c %c %c\nC %c %c %c\n", b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8]);
  to += strlen(to);
  if (w) sprintf(to, "GAME OVER: Player %c wins.\n", w); else if (Full(b)) sprintf(to, "GAME OVER: Draw.\n"); else sprintf(to, "Player %c move:\n", p);
}
static void CheckOut(int status, const char* text, size_t len) {
  sx_check(status == 0 && sx_err_writes() == 0, "succeeds");
  static char out[4096]; size_t n = 0;
  for (size_t i = 0; i < len; ++i) if (text[i] != '\n' || (i && text[i - 1] != '\n')) out[n++] = text[i];   // but for empty lines
  char b[10] = "_________"; char p = 'X', want[256]; size_t o = 0, i = 0;
  while (true) {
    Show(want, b, p); size_t m = strlen(want);
    sx_check(n - o >= m && !memcmp(out + o, want, m), "shows the board, and who moves or how the game ended"); o += m;
    if (i >= nin) break;
    char l[8] = { 0 }; size_t k = 0; bool nl = false;
    while (i < nin && !nl) { nl = in[i] == '\n'; if (k < 7) l[k++] = in[i]; ++i; }
    bool over = Won(b) || Full(b);
    if (l[0] >= 'A' && l[0] <= 'C' && l[1] >= '1' && l[1] <= '3') {
      int c = (l[0] - 'A') * 3 + l[1] - '1';
      if (!over && b[c] == '_') { b[c] = p; p = p == 'X' ? 'O' : 'X'; sx_reach("move"); } else sx_reach(over ? "over" : "taken");
    } else if (l[0] == 'P') {
      if (over) continue;
      int at = -1;
      for (int c = 0; c < 9; ++c) {      // what it shows tells what it played
        if (b[c] != '_') continue;
        char nb[10]; memcpy(nb, b, 10); nb[c] = p; Show(want, nb, p == 'X' ? 'O' : 'X');
        if (n - o >= strlen(want) && !memcmp(out + o, want, strlen(want))) at = c;
      }
      sx_check(at >= 0, "the computer plays a free square");
      int best = Best(b, p); b[at] = p; char q = p == 'X' ? 'O' : 'X';
      sx_check((Won(b) ? 1 : Full(b) ? 0 : -Best(b, q)) == best, "no other move gives a better result against the best play");
      p = q; sx_reach("computer");
    } else if (l[0] == 'Q') { break; }
    else if (l[0] == 'R') { memcpy(b, "_________", 9); p = 'X'; sx_reach("reset"); }
    else { const char* e = "invalid input: expected {A,B,C}{1,2,3}, P, Q, or R\n"; sx_check(n - o >= strlen(e) && !memcmp(out + o, e, strlen(e)), "other input is refused"); o += strlen(e); sx_reach("invalid"); }
  }
  sx_check(o == n, "and no more");
}
#else
// ---- functions of the packages ----
static FILE* OpenIn(const char* path) { (void)path; return NULL; }
static void Decide(void) { }
static FbleValueHeap* heap; static FbleProfile* profile;
static struct { const char* name; size_t n; } known[40]; static size_t nknown;   // in the struct the program makes
static void Names(void) {
  const char* p = strstr(mainprog, "@(name"); int depth = 0;
  do {
    if (depth == 1 && (p[-1] == ' ' || p[-1] == '(')) { size_t k = strcspn(p, " :(),;<>[]{}"); if (k > 0 && p[k] == ':') { known[nknown].name = p; known[nknown++].n = k; } }
    if (*p == '(' || *p == '<' || *p == '[' || *p == '{') depth++;
    if (*p == ')' || *p == '>' || *p == ']' || *p == '}') depth--;
  } while (*++p && (depth > 0 || p[-1] == '@'));
}
static FbleValue* Fn(FbleValue* fs, const char* name) {
  size_t k = 0; while (k < nknown && (strncmp(known[k].name, name, known[k].n) || name[known[k].n])) ++k;
  sx_check(k < nknown, "harness: no such function");
  return FbleStructValueField(fs, k);
}
static FbleValue* Do(FbleValue* fs, const char* name, size_t n, FbleValue** args) {
  FbleValue* r = FbleApply(heap, Fn(fs, name), n, args, profile);
  sx_check(r != NULL, "is defined");
  return r;
}
#define DO(name, ...) ({ FbleValue* as_[] = { __VA_ARGS__ }; Do(fs, name, sizeof as_ / sizeof as_[0], as_); })
#define INT(x) FbleNewIntValue(heap, (int64_t)(x))
#if PKG == 3
static const char prog[] =
  "% G = /Games/GameOfLife%; @ I@ = /Core/Int%.Int@; <@>@ L@ = /Core/List%.List@; % L = /Core/List%; @ C@ = G.Coord@;"
  "@(name: /Core/Unit%.Unit, nil: L.Nil<C@>, cons: (I@ r, I@ c, L@<C@> l) { L.Cons(C@(r, c), l); }, world: G.World, step: G.Step, stepn: G.StepN,"
  "  cells: (G.World@ w) { G.ForWorld(w, L.Nil<I@>, (C@ c, L@<I@> l) { L.Cons(c.row, L.Cons(c.col, l)); }); },"
  "  eq: (G.World@ a, G.World@ b) { G.EqWorld(a, b); });";
static bool Live(uint64_t w, int r, int c) { return r >= 0 && r < 8 && c >= 0 && c < 8 && (w >> (r * 8 + c) & 1); }
static uint64_t Next1(uint64_t w) {
  uint64_t n = 0;
  for (int r = 0; r < 8; ++r) for (int c = 0; c < 8; ++c) {
    int k = 0;
    for (int i = -1; i <= 1; ++i) for (int j = -1; j <= 1; ++j) if ((i || j) && Live(w, r + i, c + j)) ++k;
    if (k == 3 || (k == 2 && Live(w, r, c))) n |= (uint64_t)1 << (r * 8 + c);
  }
  return n;
}
static FbleValue* World(FbleValue* fs, uint64_t w, int64_t r0, int64_t c0, bool back) {
  FbleValue* l = Fn(fs, "nil");
  for (int k = 0; k < 64; ++k) { int i = back ? 63 - k : k; if (w >> i & 1) l = DO("cons", INT(r0 + i / 8), INT(c0 + i % 8), l); }
  return DO("world", l);
}
static void CheckFns(FbleValue* fs) {
  static const int64_t at[] = { -4, 0, -1000, 250 };
  uint64_t w = 0; size_t form = sx_pick("form", 2); int steps = 1;
  int64_t r0 = at[sx_pick("place", form ? 1 : PLACES)], c0 = -r0 / 2;
  if (form == 0) { for (int r = 3; r < 3 + H_; ++r) for (int c = 2; c < 2 + W_; ++c) if (sx_pick("cell", 2)) w |= (uint64_t)1 << (r * 8 + c); }
  else { static const uint64_t pats[] = { 0x38200800000000ull >> 32, 0x0000001c00000000ull, 0x0000040c1c000000ull, 0x00000c1830000000ull, 0x0000183c18000000ull, 0x00001c1c1c000000ull }; w = pats[sx_pick("pattern", 6)]; steps = (int)sx_pick("steps", 3); }
  uint64_t want = w; for (int i = 0; i < steps; ++i) want = Next1(want);
  FbleValue* a = World(fs, w, r0, c0, sx_pick("order", form ? 2 : 1));
  FbleValue* b = form ? DO("stepn", INT(steps), a) : DO("step", a);
  FbleValue* l = DO("cells", b); uint64_t got = 0;
  while (FbleUnionValueTag(l) == 0) {
    FbleValue* x = FbleUnionValueArg(l); int64_t r = FbleIntValueAccess(FbleStructValueField(x, 0)) - r0; l = FbleStructValueField(x, 1);
    x = FbleUnionValueArg(l); int64_t c = FbleIntValueAccess(FbleStructValueField(x, 0)) - c0; l = FbleStructValueField(x, 1);
    sx_check(r >= 0 && r < 8 && c >= 0 && c < 8, "only cells next to living ones come alive");
    uint64_t bit = (uint64_t)1 << (r * 8 + c);
    sx_check(!(got & bit), "each cell once"); got |= bit;
  }
  sx_check(got == want, "the next generation");
  sx_check(FbleUnionValueTag(DO("eq", b, World(fs, want, r0, c0, true))) == 0, "the world equals one with the same cells");
  if (form) sx_check((FbleUnionValueTag(DO("eq", b, a)) == 0) == (w == want), "and no other");
  sx_reach(form ? "pattern" : "world");
}
#elif PKG == 4
static const char prog[] =
  "@ I@ = /Core/Int%.Int@; % M = /Hwdg/Memory%; % D = /Hwdg/Design%; % A = /Hwdg/Adder%; % C = /Hwdg/Coord%; <@>@ L@ = /Core/List%.List@; % L = /Core/List%; @ P@ = D.Placed@;"
  "@(name: /Core/Unit%.Unit, empty: M.Empty, set: (M.Memory@ m, I@ x, I@ y, I@ b) { /Core/Int/Eq%.IsZero(b).?(true: M.Set(m, C.Coord@(x, y), /Hwdg/Data%.0), false: M.Set(m, C.Coord@(x, y), /Hwdg/Data%.1)); },"
  "  clear: (M.Memory@ m, I@ x, I@ y) { M.Clear(m, C.Coord@(x, y)); },"
  "  get: (M.Memory@ m, I@ x, I@ y) { M.Get(m, C.Coord@(x, y)).?(nothing: /Core/Int%.2); M.Get(m, C.Coord@(x, y)).just.?(0: /Core/Int%.0, 1: /Core/Int%.1); },"
  "  count: (M.Memory@ m) { M.ForEach(m, /Core/Int%.0, (C.Coord@ _c, /Hwdg/Data%.Data@ _d, I@ n) { /Core/Int%.Incr(n); }); },"
  "  adder1: A.Adder1, adder2: A.Adder2, adder4: A.Adder4, run: D.Run, step: D.Step, eq: M.Eq,"
  "  nil: L.Nil<P@>, rule: (I@ x, I@ y, /Core/String%.String@ r, L@<P@> l) { L.Cons(D.PlacedRule(x, y, D.Rule(r)), l); }, designs: D.Designs,"
  "  sub: (I@ x, I@ y, D.Design@ d, L@<P@> l) { L.Cons(P@(C.Coord@(x, y), d), l); });";
static FbleValue* Mem(FbleValue* fs, const signed char (*m)[18], int h, int w) {
  FbleValue* r = Fn(fs, "empty");
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (m[y][x] >= 0) r = DO("set", r, INT(x - 1), INT(y - 1), INT(m[y][x]));
  return r;
}
static void Same(FbleValue* fs, FbleValue* got, const signed char (*m)[18], int h, int w) {
  int64_t n = 0;
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
    int64_t v = FbleIntValueAccess(DO("get", got, INT(x - 1), INT(y - 1)));
    sx_check(v == (m[y][x] < 0 ? 2 : m[y][x]), "what the memory holds there"); n += m[y][x] >= 0;
  }
  sx_check(FbleIntValueAccess(DO("count", got)) == n, "and it holds nothing else");
}
static void CheckFns(FbleValue* fs) {
  static signed char m[18][18], to[18][18]; memset(m, -1, sizeof m);
  if (ADD) {
    int w = ADD > 1 ? 4 : 1 + (int)sx_pick("width", 2);
    const char* name = w == 1 ? "adder1" : w == 2 ? "adder2" : "adder4"; unsigned a, b;
    if (w == 4) { static const uint8_t some[] = { 0, 15, 5, 10, 9, 6, 1, 8, 3, 12, 7, 14, 2, 13, 4, 11 }; a = some[sx_pick("a", ADDS)]; b = some[sx_pick("b", ADDS)]; }
    else { a = (unsigned)sx_pick("a", 1u << w); b = (unsigned)sx_pick("b", 1u << w); }
    unsigned c = (unsigned)sx_pick("carry", 2), sum = a + b + c;
    for (int i = 0; i < w; ++i) { m[1][1 + 4 * i] = a >> (w - 1 - i) & 1; m[1][4 + 4 * i] = b >> (w - 1 - i) & 1; }
    m[3][1 + 4 * w] = (signed char)c;
    FbleValue* r = DO("run", Fn(fs, name), Mem(fs, m, 4, 18));
    memset(to, -1, sizeof to);
    for (int i = 0; i < w; ++i) to[5][4 + 4 * i] = sum >> (w - 1 - i) & 1;
    to[3][1] = sum >> w & 1;
    Same(fs, r, to, 6, 18);
    sx_reach("sum"); return;
  }
  // rules at the corners of a field of 3 by 3, and what one step does
  static const char* const rules[] = { "1... => ...1", "0... => .0..", ".1.. => 1.1.", "1..0 => 0..1", ".... => 1...", "11.. => ....", "..1. => ..1.", "..0. => 1...", ".... => ....", "10.1 => ..0.", "...1 => 1..0" };
  const char* rs[3]; int rx[3], ry[3]; size_t n = sx_pick("rules", RULES + 1); bool some = PAIRS && n == 2, nested = !some && sx_pick("nested", 2);
  FbleValue* l = Fn(fs, "nil");
  for (size_t i = n; i-- > 0; ) {
    rs[i] = rules[sx_pick("rule", KINDS)]; rx[i] = i == 0 ? 0 : (int)sx_pick("x", 2); ry[i] = i == 0 ? 0 : (int)sx_pick("y", 2);
    if (nested) { FbleValue* d = DO("designs", DO("rule", INT(1), INT(-2), FbleNewStringValue(heap, rs[i]), Fn(fs, "nil"))); l = DO("sub", INT(rx[i] - 1), INT(ry[i] + 2), d, l); }
    else l = DO("rule", INT(rx[i]), INT(ry[i]), FbleNewStringValue(heap, rs[i]), l);
  }
  for (int k = 0; k < 4; ++k) {            // with two rules, only where the first applies
    int x = 1 + (k & 1), y = 1 + (k >> 1); char a = some ? rs[0][k] : '.', b = some ? rs[0][8 + k] : '.';
    m[y][x] = a != '.' ? (signed char)(a - '0') : b != '.' ? -1 : (signed char)sx_pick("cell", 3) - 1;
  }
  FbleValue* before = Mem(fs, m, 5, 5);
  if (!some && sx_pick("clear", 2)) { int y = (int)sx_pick("y", 2); before = DO("clear", before, INT(0), INT(y)); m[1 + y][1] = -1; }
  memcpy(to, m, sizeof m); bool used[5][5] = { { false } }, any = false;
  for (size_t i = 0; i < n; ++i) {
    bool can = true;
    for (int k = 0; k < 4 && can; ++k) {
      int x = 1 + rx[i] + (k & 1), y = 1 + ry[i] + (k >> 1); char a = rs[i][k], b = rs[i][8 + k];
      if (a != '.' || b != '.') can = !used[y][x] && (a != '.' ? to[y][x] == a - '0' : to[y][x] < 0);
    }
    if (!can) { sx_reach("blocked"); continue; }
    for (int k = 0; k < 4; ++k) {
      int x = 1 + rx[i] + (k & 1), y = 1 + ry[i] + (k >> 1); char a = rs[i][k], b = rs[i][8 + k];
      if (a != '.' || b != '.') { to[y][x] = b == '.' ? -1 : (signed char)(b - '0'); used[y][x] = any = true; }
    }
    sx_reach("rule");
  }
  FbleValue* after = DO("step", DO("designs", l), before);
  Same(fs, after, to, 5, 5);
  sx_check((FbleUnionValueTag(DO("eq", before, after)) == 0) == !memcmp(m, to, sizeof m), "the memories are equal exactly if they hold the same");
  (void)any;
}
#endif
#endif
#if PKG <= 2
void sx_main(void) {
  Args();
  static char text[4096]; size_t n = 0;
  stdout = sx_out(); sx_keep(stdout, text, sizeof text, &n); stdin = sx_in_gen(&Next);
  sx_fopen = &Open; sx_access = &Access;
  int status = FbleStdioMain(argc, argv, NULL);
  if (!decided) { decided = true; Decide(); }
  CheckOut(status, text, n);
  sx_reach("end");
}
#else
void sx_main(void) {
  mainprog = prog; sx_fopen = &Open; sx_access = &Access;
  heap = FbleNewValueHeap(); profile = FbleNewProfile(false);
  FbleSearchPath* sp = FbleNewSearchPath(); FbleAppendToSearchPath(sp, "c");
  FbleModulePath* mp = FbleParseModulePath("/Main%");
  FbleValue* linked = FbleLink(heap, profile, NULL, sp, mp);
  sx_check(linked != NULL, "the package loads");
  FbleValue* fs = FbleEval(heap, linked, profile);
  sx_check(fs != NULL, "and evaluates");
  FblePushFrame(heap);
  Names(); CheckFns(fs);
  FblePopFrame(heap, FbleNewStructValue_(heap, 0));
  FbleFreeValueHeap(heap); FbleFreeProfile(profile); FbleFreeModulePath(mp); FbleFreeSearchPath(sp);
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
#endif
