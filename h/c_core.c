// Core library conversions and stdio. MODE 0: integers. MODE 1: characters and
// strings. MODE 2: the stdio functions. MODE 3: command lines of FbleStdioMain.
// MODE 4: the core package's own fble code, on the numbers and strings it is given.
#include <string.h>
#include <stdlib.h>
#include <fble/fble-alloc.h>
#include <fble/fble-function.h>
#include <fble/fble-generate.h>
#include <fble/fble-link.h>
#include <fble/fble-module-path.h>
#include <fble/fble-name.h>
#include <fble/fble-profile.h>
#include <fble/fble-value.h>
#include <fble/fble-vector.h>
#include "pkgs/core/char.fble.h"
#include "pkgs/core/int.fble.h"
#include "pkgs/core/stdio.fble.h"
#include "pkgs/core/string.fble.h"
#include "sx.h"
// What the core package writes down: Char@ has the characters in this order.
static int Tag(uint8_t c) { return c == '\n' ? 0 : c == '\t' ? 1 : c >= ' ' && c <= '~' ? c - ' ' + 2 : '?' - ' ' + 2; }
static char Shown(uint8_t c) { return c == '\n' || c == '\t' || (c >= ' ' && c <= '~') ? (char)c : '?'; }
// Whether v is the string s, by its shape alone.
static bool IsText(FbleValue* v, const char* s, size_t n) {
  for (size_t i = 0; i < n; ++i) {
    if (FbleUnionValueTag(v) != 0) return false;
    FbleValue* p = FbleUnionValueArg(v);
    if (FbleUnionValueTag(FbleStructValueField(p, 0)) != (size_t)Tag((uint8_t)s[i])) return false;
    v = FbleStructValueField(p, 1);
  }
  return FbleUnionValueTag(v) == 1;
}
static bool IsInt(FbleValue* v, int64_t x) {
  if (x == 0) return FbleUnionValueTag(v) == 1;
  if (FbleUnionValueTag(v) != (x < 0 ? 0 : 2)) return false;
  uint64_t m = x < 0 ? -(uint64_t)x : (uint64_t)x;
  for (v = FbleUnionValueArg(v); m > 1; m >>= 1, v = FbleUnionValueArg(v))
    if (FbleUnionValueTag(v) != 1 + (m & 1)) return false;
  return FbleUnionValueTag(v) == 0;
}
#if MODE == 0
void sx_main(void) {
  FbleValueHeap* heap = FbleNewValueHeap();
  static const uint64_t bases[4] = { 0, ~(uint64_t)0, 0xaaaaaaaaaaaaaaaaull, 0x5555555555555555ull };
  uint64_t base = bases[sx_pick("pattern", 4)];
  unsigned w = (unsigned)sx_pick("window", (64 + STEP - 1) / STEP) * STEP;
  uint64_t mask = ((1ull << BITS) - 1) << w;
  int64_t x = (int64_t)((base & ~mask) | (((uint64_t)sx_int("bits", BITS) << w) & mask));
  FblePushFrame(heap);
  FbleValue* v = FbleNewIntValue(heap, x);
  sx_check(IsInt(v, x), "the number written in binary");
  sx_check(FbleIntValueAccess(v) == x, "reads back the same");
  if (x == INT64_MIN) sx_reach("min");
  if (x == INT64_MAX) sx_reach("max");
  if (x == 0) sx_reach("zero");
  FbleValue* f[2] = { v, v };
  v = FblePopFrame(heap, FbleNewStructValue(heap, 2, f));
  sx_check(FbleIntValueAccess(FbleStructValueField(v, 1)) == x, "and again inside of a value");
  FbleFreeValueHeap(heap);
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
#elif MODE == 1
void sx_main(void) {
  FbleValueHeap* heap = FbleNewValueHeap();
  char s[12]; size_t n = 0;
  size_t before = sx_pick("before", 3), len = sx_pick("len", LEN + 1), after = sx_pick("after", 2) * 5;
  for (size_t i = 0; i < before; ++i) s[n++] = "?b"[i];
  for (size_t i = 0; i < len; ++i) { uint8_t c = sx_u8("char"); sx_assume(c != 0); s[n++] = (char)c; }
  for (size_t i = 0; i < after; ++i) s[n++] = "\tzz\n~"[i];
  s[n] = 0;
  FblePushFrame(heap);
  FbleValue* v = FbleNewStringValue(heap, s);
  sx_check(IsText(v, s, n), "its characters in order");
  for (size_t i = 0; i < n && len < 2; ++i) {
    FbleValue* c = FbleNewCharValue(heap, s[i]);
    sx_check(FbleUnionValueTag(c) == (size_t)Tag((uint8_t)s[i]), "the tag of the character");
    sx_check(FbleCharValueAccess(c) == Shown((uint8_t)s[i]), "the character again");
  }
  v = FblePopFrame(heap, v);
  char* r = FbleStringValueAccess(v);
  sx_check(strlen(r) == n, "of the same length");
  for (size_t i = 0; i < n; ++i) {
    sx_check(r[i] == Shown((uint8_t)s[i]), "the same text");
    if (r[i] != s[i]) sx_reach("unsupported");
  }
  FbleFree(r);
  FbleFreeValueHeap(heap);
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
#elif MODE == 2
// Every order of operations on the streams a program is given.
static char in0[3], inf[3]; static size_t nin0, ninf, at0, atf;
static FILE* outf; static int fails; static char opened[8], openmode;
static FILE* Open(const char* path, const char* mode) {
  sx_check(strlen(path) < 8, "the name given");
  strcpy(opened, path); openmode = mode[0];
  if (fails) return NULL;
  if (mode[0] == 'r') { atf = 0; return sx_in(inf, ninf); }
  return outf = sx_out();
}
static FbleProfileThread* thread;
static FbleValueHeap* heap; static FbleProfile* profile; static FbleValue* world;
static FbleValue* Do(FbleValue* f, FbleValue* a) {
  FbleValue* args[2] = { a ? a : world, world };
  FbleValue* r = FbleApply(heap, f, a ? 2 : 1, args, profile);
  sx_check(r != NULL, "succeeds");
  world = FbleStructValueField(r, 0);
  return FbleStructValueField(r, 1);
}
static void Byte(FbleValue* m, const char* data, size_t n, size_t* at) {
  if (*at < n) {
    sx_check(FbleUnionValueTag(m) == 0, "a byte is there");
    sx_check(FbleIntValueAccess(FbleUnionValueArg(m)) == (uint8_t)data[*at], "the byte");
    ++*at;
    sx_reach("byte");
  } else { sx_check(FbleUnionValueTag(m) == 1, "the end"); sx_reach("eof"); }
}
static const uint8_t some[] = { 0, 0x80, 0xff };
static bool full;      // one byte of a history takes every value, the others some
static uint8_t AnyByte(void) { if (!full) { full = true; return sx_u8("byte"); } return some[sx_pick("byte", 3)]; }
static char exp1[8], exp2[8], expf[8]; static size_t n1, n2, nf;
static void Same(FILE* f, const char* want, size_t n) {
  size_t m; const char* d = sx_out_data(f, &m);
  sx_check(m == n && memcmp(d, want, n) == 0, "exactly the bytes written");
}
void sx_main(void) {
  sx_fopen = &Open;
  nin0 = sx_pick("stdin", 3); ninf = sx_pick("file", 2);
  for (size_t i = 0; i < nin0; ++i) in0[i] = (char)AnyByte();
  for (size_t i = 0; i < ninf; ++i) inf[i] = (char)AnyByte();
  FILE* out = stdout = sx_out(); FILE* err = sx_out();
  FILE* err0 = stderr; stderr = err; stdin = sx_in(in0, nin0);
  heap = FbleNewValueHeap(); profile = FbleNewProfile(false);
  FblePushFrame(heap);
  FbleValue* io = FbleNewStdioIO(heap, profile);
  FbleValue* fs[6]; for (int i = 0; i < 6; ++i) fs[i] = FbleStructValueField(io, (size_t)i);
  world = FbleNewStructValue_(heap, 0);
  FbleValue *is = NULL, *os = NULL;
  for (int k = 0; k < OPS; ++k) {
    size_t op = sx_pick("op", 8);
    if (op == 7) break;
    fails = 0;
    switch (op) {
      case 0: Byte(Do(fs[0], NULL), in0, nin0, &at0); break;
      case 1: case 2: {
        uint8_t c = AnyByte();
        FbleValue* u = Do(fs[op], FbleNewIntValue(heap, c)); (void)u;
        if (op == 1) exp1[n1++] = (char)c; else exp2[n2++] = (char)c;
        break;
      }
      case 3: case 4: {
        fails = (int)sx_pick("fails", 2);
        static const char* const names[3] = { "f", "", "a/b c" };
        const char* name = names[sx_pick("name", 3)];
        openmode = 0;
        if (op == 4) { sx_assume(os == NULL); nf = 0; }
        FbleValue* m = Do(fs[op], FbleNewStringValue(heap, name));
        sx_check(!strcmp(opened, name) && openmode == (op == 3 ? 'r' : 'w'), "the file named is opened");
        sx_check(FbleUnionValueTag(m) == (size_t)fails, "just a stream, if it can be opened");
        if (!fails) { if (op == 3) is = FbleUnionValueArg(m); else os = FbleUnionValueArg(m); }
        break;
      }
      case 5: {
        static const char* const names[3] = { "A", "AB", "B" };
        size_t i = sx_pick("name", 3);
        char val[2] = { 'v', 0 };
        sx_setenv("AB", val);
        FbleValue* m = Do(fs[5], FbleNewStringValue(heap, names[i]));
        sx_check(FbleUnionValueTag(m) == (i == 1 ? 0 : 1), "just the value, if it is set");
        if (i == 1) sx_check(IsText(FbleUnionValueArg(m), "v", 1), "the value");
        break;
      }
      default: {
        sx_assume(is != NULL || os != NULL);
        bool r = is != NULL && (os == NULL || sx_pick("which", 2) == 0);
        if (r) Byte(Do(is, NULL), inf, ninf, &atf);
        else { uint8_t c = AnyByte(); Do(os, FbleNewIntValue(heap, c)); expf[nf++] = (char)c; Same(outf, expf, nf); sx_reach("file"); }
      }
    }
    Same(out, exp1, n1); Same(err, exp2, n2);
  }
  FblePopFrame(heap, FbleNewStructValue_(heap, 0));
  FbleFreeValueHeap(heap);
  FbleFreeProfile(profile);
  if (stderr == err) fclose(err);
  stderr = err0;
  sx_check(sx_live_allocs() == 0, "everything released, every file closed");
  sx_reach("end");
}
#elif MODE == 3
static const char prog[] =
  "@ U@ = *(); @ B@ = +(U@ true, U@ false); @ C@ = +(U@ a, U@ b);"
  "@ S@ = +(SP@ cons, U@ nil), @ SP@ = *(C@ head, S@ tail);"
  "@ L@ = +(LP@ cons, U@ nil), @ LP@ = *(S@ head, L@ tail);"
  "@ M@ = +(U@ just, U@ nothing); @ R@ = *(U@ s, M@ x); @ Q@ = *(U@ s, B@ x);"
  "@ F@ = (S@, U@) { R@; };"
  "@ I@ = *(U@ in, U@ out, U@ err, F@ read, F@ write, F@ getenv);"
  "(I@, L@, U@) { Q@; } Main = (I@ io, L@ a, U@ w) {"
  "  a.?(nil: Q@(w, B@(true: U@())));"
  "  R@ r = io.read(a.cons.head, w);"
  "  r.x.?(just: Main(io, a.cons.tail, r.s));"
  "  R@ q = io.write(a.cons.head, r.s);"
  "  q.x.?(nothing: Q@(w, B@(true: a.nil)));"
  "  Q@(w, B@(false: U@())); }; Main;";
static char seen[16][12]; static int nseen; static int fail = -1, failw; static bool in_d, prof; static FILE* report; static int nreports; static bool running;
static FILE* Open(const char* path, const char* mode) {
  if (!strcmp(path, "d/M.fble") && mode[0] == 'r') { running = true; return sx_in(prog, strlen(prog)); }
  if (!running && mode[0] == 'w') {       // the profile
    sx_check(!strcmp(path, "p"), "the profile file named"); nreports++;
    if (prof) return NULL;
    return report = sx_out();
  }
  sx_check(nseen < 16 && strlen(path) < 12, "a file named by an argument");
  if (mode[0] == 'w') return failw ? NULL : sx_out();
  strcpy(seen[nseen++], path);
  return nseen - 1 == fail ? NULL : sx_in("", 0);
}
static int Access(const char* path) { return !strcmp(path, "d/M.fble") ? 0 : -1; }
// the same program, as if compiled
static FbleValue* Main(FbleValueHeap* heap, FbleProfileThread* t, FbleFunction* f, FbleValue** args) {
  (void)t; (void)f;
  FbleValue* a = args[1];
  size_t tag = 0;
  while (FbleUnionValueTag(a) == 0) {
    a = FbleUnionValueArg(a);
    char* s = FbleStringValueAccess(FbleStructValueField(a, 0));
    FILE* fp = Open(s, "r"); FbleFree(s);
    if (!fp) { tag = 1; if (failw) return NULL; break; }
    fclose(fp);
    a = FbleStructValueField(a, 1);
  }
  FbleValue* r = FbleNewEnumValue(heap, tag);
  FbleValue* xs[2] = { args[2], r };
  return FbleNewStructValue(heap, 2, xs);
}
static FbleValue* RunMod(FbleValueHeap* heap, FbleProfileThread* t, FbleFunction* f, FbleValue** args) {
  (void)t; (void)args;
  running = true;
  static FbleExecutable exe = { .num_args = 3, .num_statics = 0, .run = &Main };
  return FbleNewFuncValue(heap, &exe, f->profile_block_id, NULL);
}
static FbleExecutable modexe = { .num_args = 0, .num_statics = 0, .run = &RunMod };
static bool Has(FILE* f, const char* s) { size_t n; const char* d = sx_out_data(f, &n); size_t l = strlen(s); for (size_t i = 0; i + l <= n; ++i) if (!memcmp(d + i, s, l)) return true; return false; }
void sx_main(void) {
  const char* argv[20] = { "prog" }; int argc = 1;
  bool compiled = sx_pick("compiled", 2) != 0;
  // Reference: what the words mean, decided along with them.
  enum { OPTIONS, ARGS, HELP, VERSION, USAGE } st = OPTIONS;
  bool has_m = false, has_I = false, has_p = false; int first = -1;
  bool dash = compiled && sx_pick("has --", 2) != 0;
  if (compiled && !dash) { st = ARGS; first = 1; }
  bool wrote = false;
  for (int k = 0; k < ITEMS; ++k) {
    static const char* const words[] = { "-h", "--help", "-v", "--version", "-m", "--module", "-I", "--profile", "--", "a", "-x", "", "?\x80" };
    size_t w = sx_pick("word", st == OPTIONS ? 14 : 5);
    if (st != OPTIONS && w < 4) w = (size_t[]){ 0, 8, 9, 10 }[w]; else if (st != OPTIONS) w = 13;
    if (w == 13) break;
    argv[argc++] = words[w];
    if (w == 8) { if (compiled && !dash) sx_assume(false); wrote = true; }
    if (st != OPTIONS) continue;
    if (w < 4) st = w < 2 ? HELP : VERSION;
    else if ((w == 4 || w == 5 || w == 6) && !(compiled)) {
      static const char* const vals[] = { NULL, "/M%", "/M", "d" };
      size_t v = w == 6 ? 3 * sx_pick("dir", 2) : sx_pick("module", 3);
      if (v == 0) { st = USAGE; break; }
      argv[argc++] = vals[v];
      if (w == 6) has_I = true; else { if (has_m || v == 2) st = USAGE; has_m = true; }
    } else if (w == 7) {
      if (sx_pick("file", 2) == 0) { st = USAGE; break; }
      argv[argc++] = "p";
      if (has_p) st = USAGE;
      has_p = true;
    } else { st = ARGS; first = w == 8 ? argc : argc - 1; }
  }
  if (dash) sx_assume(wrote);
  argv[argc] = NULL;
  if (st == OPTIONS) first = argc;
  bool run = st == OPTIONS || st == ARGS;
  int want = 0; int nargs = run ? argc - first : 0;
  prof = has_p && run && sx_pick("cannot write", 2) != 0;
  if (st == USAGE || (run && !compiled && !has_m)) { want = 2; run = false; }
  else if (run && prof) { want = 3; run = false; }
  else if (run && !compiled && !has_I) { want = 3; run = false; }
  else if (run) {
    fail = (int)sx_pick("fail", (size_t)nargs + 1) - 1;
    failw = fail >= 0 && sx_pick("undefined", 2);
    want = fail < 0 ? 0 : failw ? 3 : 1;
  }
  FILE* out = stdout = sx_out();
  sx_fopen = &Open; sx_access = &Access;
  FbleGeneratedModule mod; memset(&mod, 0, sizeof mod);
  stdin = sx_in("", 0);
  if (compiled) {
    mod.path = FbleParseModulePath("/M%");
    FbleInitVector(mod.deps); FbleInitVector(mod.profile_blocks);
    FbleName* nm = FbleExtendVector(mod.profile_blocks); *nm = FbleModulePathName(mod.path);
    mod.executable = &modexe;
  }
  int ret = FbleStdioMain(argc, argv, compiled ? &mod : NULL);
  sx_check(ret == want, "the exit status documented");
  if (run) {
    sx_check(nseen == (fail < 0 ? nargs : fail + 1), "the program is given every argument");
    for (int i = 0; i < nseen; ++i) {
      const char* a = argv[first + i]; size_t n = strlen(a);
      sx_check(strlen(seen[i]) == n, "the argument");
      for (size_t j = 0; j < n; ++j) sx_check(seen[i][j] == Shown((uint8_t)a[j]), "the argument");
    }
    sx_check(nreports == (has_p ? 1 : 0), "a profile exactly if asked for");
    sx_reach(compiled ? "ran compiled" : "ran");
    if (want == 3) sx_reach("undefined");
    if (want == 0 && nargs > 1) sx_reach("args");
  } else sx_check(nseen == 0, "the program does not run");
  sx_check((sx_err_writes() != 0) == (want >= 2 && !(compiled && run)), "errors are reported");
  if (st == HELP || st == VERSION) {
    sx_check(Has(out, st == HELP ? "help for fble-stdio" : "fble-stdio"), "asked to print about itself");
    sx_reach(st == HELP ? "help" : "version");
  }
  if (want == 2) sx_reach("usage");
  sx_reach("end");
}
#else
#include "corefiles.h"
#if LIB == 0
static const char mainprog[] =
  "% Int = /Core/Int%; % E = /Core/Int/Eq%;"
  "@(a0: Int.Add, a1: Int.Sub, a2: Int.Mul, a3: E.Max, a4: E.Min, b0: E.Eq, b1: E.Lt, b2: E.Le, b3: E.Gt, b4: E.Ge,"
  "  o: /Core/Int/Ord%.Ord, d: /Core/Int/Div%.Div, u0: Int.Incr, u1: Int.Decr, u2: Int.Neg, u3: Int.Abs, e2: Int.Exp2, z: E.IsZero, sq: /Core/Int/Sqrt%.Sqrt,"
  "  s: /Core/Int/Show%.Show, r: /Core/Int/Show%.Read,"
  "  sum: (/Core/Int%.Int@ a, /Core/Int%.Int@ b) { /Core/Iter%.For(/Core/Int/Iter%.Range(a, b), Int.0, Int.Add); });";
#elif LIB == 1
static const char mainprog[] =
  "@ S@ = /Core/String%.String@; % A = /Core/Char/Ascii%; % T = /Core/Char/Type%; % S = /Core/String%;"
  "@(ord: A.Ord, chr: A.Chr, t0: T.IsUpper, t1: T.IsLower, t2: T.IsAlpha, t3: T.IsDigit, t4: T.IsAlNum, t5: T.IsSpace, t6: T.IsNewline,"
  "  ceq: /Core/Char/Eq%.Eq, co: /Core/Char/Ord%.Ord, eq: /Core/String/Eq%.Eq, so: /Core/String/Ord%.Ord, sw: /Core/String/Eq%.StartsWith, co2: /Core/String/Eq%.Contains,"
  "  ap: (S@ a, S@ b) { S.Strs[a, S.Str|'--', b]; }, jn: (S@ a, S@ b) { S.Join(/Core/List%.List<S@>[a, b, a], b); }, ln: (S@ a, S@ b) { S.Lines[a, b]; });";
#else
static const char mainprog[] =
  "@ I@ = /Core/Int%.Int@; <@>@ L@ = /Core/List%.List@; % L = /Core/List%; % N = /Core/List/Length%; % M = /Core/Map%; % S = /Core/Set%; % F = /Core/Fifo%; % O = /Core/Int/Ord%.Ord;"
  "@ LI@ = L@<I@>; @ MI@ = M.Map@<I@, I@>; @ SI@ = S.Set@<I@>; @ FI@ = F.Fifo@<I@>;"
  "@(nil: L.Nil<I@>, cons: L.Cons<I@>, rev: L.Reverse<I@>, ap: L.Append<I@>, len: N.Length<I@>, take: (I@ n, LI@ l) { N.Take(n)(l); }, drop: (I@ n, LI@ l) { N.Drop(n)(l); },"
  "  sort: (LI@ l) { /Core/List/Sort%.Sort(/Core/Int/Eq%.Le, l); }, last: L.Last<I@>, init: L.Init<I@>, map: (LI@ l) { L.Map(l, /Core/Int%.Incr); },"
  "  me: M.Empty<I@, I@>, mi: M.Insert(O)<I@>, md: M.Delete(O)<I@>, ml: M.Lookup(O)<I@>, mz: M.IsEmpty<I@, I@>,"
  "  mf: (MI@ m) { L.Reverse(M.ForEach(m, L.Nil<I@>, (I@ k, I@ v, LI@ l) { L.Cons(v, L.Cons(k, l)); })); },"
  "  mu: M.Union(O)<I@>,"
  "  se: S.Empty<I@>, si: S.Insert<I@>(O), sd: S.Delete<I@>(O), sc: (SI@ s, I@ k) { S.Contains(O, s, k); }, sz: S.IsEmpty<I@>,"
  "  sf: (SI@ s) { L.Reverse(S.ForEach(s, L.Nil<I@>, L.Cons<I@>)); },"
  "  fe: F.Empty<I@>, fp: F.Put<I@>, fn: F.Next<I@>, ff: F.First<I@>);";
#endif
static FILE* Open(const char* path, const char* mode) {
  (void)mode;
  if (!strcmp(path, "c/Main.fble")) return sx_in(mainprog, strlen(mainprog));
  for (size_t i = 0; i < sizeof core_files / sizeof core_files[0]; ++i)
    if (!strncmp(path, "c/Core/", 7) && !strcmp(path + 7, core_files[i].path)) return sx_in(core_files[i].text, core_files[i].n);
  return NULL;
}
static int Access(const char* path) {
  if (!strcmp(path, "c/Main.fble")) return 0;
  for (size_t i = 0; i < sizeof core_files / sizeof core_files[0]; ++i) if (!strncmp(path, "c/Core/", 7) && !strcmp(path + 7, core_files[i].path)) return 0;
  return -1;
}
static FbleValueHeap* heap; static FbleProfile* profile;
static FbleValue* Call(FbleValue* fs, size_t i, FbleValue* a, FbleValue* b) {
  FbleValue* args[2] = { a, b };
  return FbleApply(heap, FbleStructValueField(fs, i), b ? 2 : 1, args, profile);
}
static FbleValue* Fn(FbleValue* fs, const char* name) {   // by its place in the struct the program makes
  const char* p = strstr(mainprog, "@("); size_t i = 0; int depth = 0;
  while (!(depth == 1 && !strncmp(p, name, strlen(name)) && p[strlen(name)] == ':' && (p[-1] == ' ' || p[-1] == '('))) {
    if (*p == '(' || *p == '<' || *p == '[' || *p == '{') depth++;
    if (*p == ')' || *p == '>' || *p == ']' || *p == '}') depth--;
    if (*p == ',' && depth == 1) ++i;
    ++p;
    sx_check(*p, "harness: no such function");
  }
  return FbleStructValueField(fs, i);
}
static FbleValue* Do2(FbleValue* fs, const char* name, FbleValue* a, FbleValue* b) {
  FbleValue* args[2] = { a, b };
  FbleValue* r = FbleApply(heap, Fn(fs, name), b ? 2 : 1, args, profile);
  sx_check(r != NULL, "is defined");
  return r;
}
static FbleValue* Do3(FbleValue* fs, const char* name, FbleValue* a, FbleValue* b, FbleValue* c) {
  FbleValue* args[3] = { a, b, c };
  FbleValue* r = FbleApply(heap, Fn(fs, name), 3, args, profile);
  sx_check(r != NULL, "is defined");
  return r;
}
#if LIB == 0
static int64_t Num(size_t small) {
  static const int64_t from[] = { 0, 255, -70001, 6000000000 };
  int64_t x = (int64_t)sx_int("x", BITS) - (1 << (BITS - 1));
  return from[sx_pick("from", 4 - small)] + x;
}
static void Check(FbleValue* fs) {
  static const char* const fn[] = { "a0", "a1", "a2", "a3", "a4", "b0", "b1", "b2", "b3", "b4", "o", "d", "u0", "u1", "u2", "u3", "e2", "z", "sq", "s", "r", "sum" };
  size_t f = sx_pick("function", 22);
  int64_t a = f == 16 ? (int64_t)sx_int("x", BITS) : Num(0), b = f < 12 ? Num(2) : 0;
  if (f == 18 && a < 0) a = -a;
  if (f == 11) sx_assume(b != 0);
  FbleValue* x = FbleNewIntValue(heap, a); FbleValue* y = f < 12 ? FbleNewIntValue(heap, b) : NULL;
  if (f == 21) { b = a + (int64_t)sx_pick("count", 4); y = FbleNewIntValue(heap, b); }
  char text[24]; size_t n = 0;
  { uint64_t m = a < 0 ? -(uint64_t)a : (uint64_t)a, q = 1; if (a < 0) text[n++] = '-'; while (q <= m / 10) q *= 10; for (; q; q /= 10) text[n++] = (char)('0' + m / q % 10); text[n] = 0; }
  FbleValue* r = Do2(fs, fn[f], f == 20 ? FbleNewStringValue(heap, text) : x, y);
  bool lt = a < b, eq = a == b;
  switch (f) {
    case 0: sx_check(IsInt(r, a + b), "sum"); break;
    case 1: sx_check(IsInt(r, a - b), "difference"); break;
    case 2: sx_check(FbleIntValueAccess(r) == a * b, "product"); break;
    case 3: sx_check(IsInt(r, lt ? b : a), "maximum"); break;
    case 4: sx_check(IsInt(r, lt ? a : b), "minimum"); break;
    case 5: sx_check(FbleUnionValueTag(r) == !eq, "="); break;
    case 6: sx_check(FbleUnionValueTag(r) == !lt, "<"); break;
    case 7: sx_check(FbleUnionValueTag(r) == !(lt || eq), "<="); break;
    case 8: sx_check(FbleUnionValueTag(r) == (lt || eq), ">"); break;
    case 9: sx_check(FbleUnionValueTag(r) == lt, ">="); break;
    case 10: sx_check(FbleUnionValueTag(r) == (size_t)(lt ? 0 : eq ? 1 : 2), "order"); break;
    case 11: {
      int64_t q = FbleIntValueAccess(FbleStructValueField(r, 0)), m = FbleIntValueAccess(FbleStructValueField(r, 1));
      sx_check(q * b + m == a && (b > 0 ? m >= 0 && m < b : m <= 0 && m > b), "floored quotient and remainder");
      break;
    }
    case 12: sx_check(IsInt(r, a + 1), "a + 1"); break;
    case 13: sx_check(IsInt(r, a - 1), "a - 1"); break;
    case 14: sx_check(IsInt(r, -a), "-a"); break;
    case 15: sx_check(IsInt(r, a < 0 ? -a : a), "|a|"); break;
    case 16: sx_check(IsInt(r, (int64_t)1 << a), "2^a"); break;
    case 17: sx_check(FbleUnionValueTag(r) == (a != 0), "is zero"); break;
    case 18: {
      int64_t q = FbleIntValueAccess(FbleStructValueField(r, 0)), m = FbleIntValueAccess(FbleStructValueField(r, 1));
      sx_check(q >= 0 && m >= 0 && m < 2 * q + 1 && q * q + m == a, "square root");
      break;
    }
    case 19: sx_check(IsText(r, text, n), "in decimal"); break;
    case 20: sx_check(IsInt(r, a), "from decimal"); break;
    default: { volatile int64_t sum = 0; for (int64_t i = a; i < b; ++i) sum += i; sx_check(IsInt(r, sum), "the numbers in between"); }
  }
}
#elif LIB == 1
static uint8_t AnyChar(void) { uint8_t c = sx_u8("char"); sx_assume(c == 9 || c == 10 || (c >= ' ' && c <= '~')); return c; }
static bool In(uint8_t c, uint8_t a, uint8_t b) { return c >= a && c <= b; }
static int Cmp(const char* a, const char* b) { int r = strcmp(a, b); return r < 0 ? 0 : r == 0 ? 1 : 2; }
static void Check(FbleValue* fs) {
  size_t f = sx_pick("function", 18);
  if (f < 11) {
    uint8_t c = AnyChar();
    FbleValue* x = FbleNewCharValue(heap, (char)c);
    bool up = In(c, 'A', 'Z'), lo = In(c, 'a', 'z'), di = In(c, '0', '9'), nl = c == '\n';
    static const char* const ts[] = { "t0", "t1", "t2", "t3", "t4", "t5", "t6" };
    if (f == 0) sx_check(IsInt(Do2(fs, "ord", x, NULL), c), "its code");
    else if (f == 1) { FbleValue* m = Do2(fs, "chr", FbleNewIntValue(heap, c), NULL); sx_check(FbleCharValueAccess(m) == (char)c, "of its code"); }
    else if (f == 2) { static const int no[] = { 0, 8, 11, 31, 127, 128, 256 + 'a', -1 }; int k = no[sx_pick("no", 8)]; FbleValue* m = Do2(fs, "chr", FbleNewIntValue(heap, k), NULL); sx_check(FbleUnionValueTag(m) == 97 && IsInt(FbleUnionValueArg(m), k), "no such character"); }
    else if (f < 10) { bool want[] = { up, lo, up || lo, di, up || lo || di, nl || c == 9 || c == ' ', nl }; sx_check(FbleUnionValueTag(Do2(fs, ts[f - 3], x, NULL)) == !want[f - 3], ts[f - 3]); }
    else {
      static const uint8_t others[] = { 9, 10, ' ', '0', '9', 'A', 'Z', 'a', 'm', 'z', '~' };
      uint8_t d = sx_pick("same", 2) ? c : others[sx_pick("other", 11)];
      FbleValue* y = FbleNewCharValue(heap, (char)d);
      sx_check(FbleUnionValueTag(Do2(fs, "ceq", x, y)) == (c != d), "equal");
      sx_check(FbleUnionValueTag(Do2(fs, "co", x, y)) == (size_t)(c < d ? 0 : c == d ? 1 : 2), "in order");
    }
    return;
  }
  char a[8], b[8]; size_t na = sx_pick("length", LEN + 1), nb = sx_pick("length", LEN + 1);
  for (size_t i = 0; i < na; ++i) a[i] = "ab\n"[sx_pick("char", 3)];
  for (size_t i = 0; i < nb; ++i) b[i] = "ab\n"[sx_pick("char", 3)];
  a[na] = 0; b[nb] = 0;
  FbleValue* x = FbleNewStringValue(heap, a); FbleValue* y = FbleNewStringValue(heap, b);
  char t[64] = "";
  switch (f) {
    case 11: sx_check(FbleUnionValueTag(Do2(fs, "eq", x, y)) == (strcmp(a, b) != 0), "equal"); break;
    case 12: sx_check(FbleUnionValueTag(Do2(fs, "so", x, y)) == (size_t)Cmp(a, b), "in order"); break;
    case 13: sx_check(FbleUnionValueTag(Do2(fs, "sw", x, y)) == (strncmp(a, b, nb) != 0), "starts with"); break;
    case 14: sx_check(FbleUnionValueTag(Do2(fs, "co2", x, y)) == (strstr(a, b) == NULL), "contains"); break;
    case 15: strcat(t, a); strcat(t, "--"); strcat(t, b); sx_check(IsText(Do2(fs, "ap", x, y), t, strlen(t)), "strings together"); break;
    case 16: strcat(t, a); strcat(t, b); strcat(t, b); strcat(t, b); strcat(t, a); sx_check(IsText(Do2(fs, "jn", x, y), t, strlen(t)), "joined"); break;
    default: strcat(t, a); strcat(t, "\n"); strcat(t, b); strcat(t, "\n"); sx_check(IsText(Do2(fs, "ln", x, y), t, strlen(t)), "lines"); break;
  }
}
#else
static FbleValue* K(int64_t k) { return FbleNewIntValue(heap, k); }
static void IsList(FbleValue* v, const int64_t* xs, size_t n) {
  for (size_t i = 0; i < n; ++i) {
    sx_check(FbleUnionValueTag(v) == 0, "long enough");
    v = FbleUnionValueArg(v);
    sx_check(IsInt(FbleStructValueField(v, 0), xs[i]), "the element");
    v = FbleStructValueField(v, 1);
  }
  sx_check(FbleUnionValueTag(v) == 1, "no longer");
}
static void Check(FbleValue* fs) {
  static const char* const kinds[] = { "list", "map", "set", "fifo" };
  int64_t xs[40], ys[40]; size_t n = 0;
  size_t kind = KINDS == 0 ? 0 : KINDS == 1 ? 1 : 2 + sx_pick("kind", 2);
  sx_reach(kinds[kind]);
  if (kind == 0) {
    FbleValue* l = Fn(fs, "nil");
    size_t len = sx_pick("length", STEPS + 1);
    for (size_t i = 0; i < len; ++i) { int64_t k = (int64_t)sx_pick("element", 4) - 1; xs[n++] = k; }
    for (size_t i = 0; i < n; ++i) l = Do2(fs, "cons", K(xs[n - 1 - i]), l);
    IsList(l, xs, n);
    switch (sx_pick("function", 9)) {
      case 0: for (size_t i = 0; i < n; ++i) ys[i] = xs[n - 1 - i]; IsList(Do2(fs, "rev", l, NULL), ys, n); break;
      case 1: memcpy(ys, xs, sizeof xs); memcpy(ys + n, xs, n * sizeof xs[0]); IsList(Do2(fs, "ap", l, l), ys, 2 * n); break;
      case 2: sx_check(IsInt(Do2(fs, "len", l, NULL), (int64_t)n), "length"); break;
      case 3: { int64_t k = (int64_t)sx_pick("n", STEPS + 3) - 1; size_t m = k < 0 ? 0 : (size_t)k > n ? n : (size_t)k; IsList(Do2(fs, "take", K(k), l), xs, m); IsList(Do2(fs, "drop", K(k), l), xs + m, n - m); break; }
      case 4: { memcpy(ys, xs, sizeof xs); for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) if (ys[j] < ys[i]) { int64_t t = ys[i]; ys[i] = ys[j]; ys[j] = t; } IsList(Do2(fs, "sort", l, NULL), ys, n); break; }
      case 5: sx_assume(n > 0); sx_check(IsInt(Do2(fs, "last", l, NULL), xs[n - 1]), "last"); break;
      case 6: IsList(Do2(fs, "init", l, NULL), xs, n ? n - 1 : 0); break;
      case 7: for (size_t i = 0; i < n; ++i) ys[i] = xs[i] + 1; IsList(Do2(fs, "map", l, NULL), ys, n); break;
      default: IsList(l, xs, n);
    }
    return;
  }
  bool set = kind == 2;
  FbleValue* m = Fn(fs, kind == 3 ? "fe" : set ? "se" : "me");
  if (kind == 3) {
    size_t at = 0;
    for (int step = 0; step < STEPS + 2; ++step) {
      size_t op = sx_pick("op", 3);
      if (op == 2) break;
      if (op == 0) { m = Do2(fs, "fp", K(step), m); xs[n++] = step; }
      else { m = Do2(fs, "fn", m, NULL); if (at < n) at++; }
      FbleValue* f = Do2(fs, "ff", m, NULL);
      sx_check(FbleUnionValueTag(f) == (at == n), "something in it");
      if (at < n) sx_check(IsInt(FbleUnionValueArg(f), xs[at]), "first in, first out");
    }
    return;
  }
  // ordered keys, any history of insertions and deletions
  int64_t val[KEYS]; bool has[KEYS] = { false };
  bool grow = sx_pick("grow", 2);         // first some insertions in one order or the other, then anything
  size_t g0 = grow ? 1 + sx_pick("count", KEYS) : 0; bool up = grow && sx_pick("up", 2);
  int total = STEPS + (int)g0; size_t last = KEYS; bool uni = !set && sx_pick("union", 2) != 0;
  if (uni) total -= STEPS - 1;
  for (int step = 0; step < total; ++step) {
    size_t op = 0, k;
    if ((size_t)step < g0) k = up ? (size_t)step : KEYS - 1 - (size_t)step;
    else { op = sx_pick("op", 2); k = sx_pick("key", KEYS); last = k; }
    if (op == 0) { m = set ? Do2(fs, "si", m, K((int64_t)k)) : Do3(fs, "mi", m, K((int64_t)k), K(step)); has[k] = true; val[k] = step; }
    else { m = Do2(fs, set ? "sd" : "md", m, K((int64_t)k)); has[k] = false; }
  }
  for (size_t i = 0; i < KEYS; ++i) if (has[i]) { xs[n++] = (int64_t)i; if (!set) xs[n++] = val[i]; }
  IsList(Do2(fs, set ? "sf" : "mf", m, NULL), xs, n);
  sx_check(FbleUnionValueTag(Do2(fs, set ? "sz" : "mz", m, NULL)) == (n != 0), "empty");
  for (size_t i = 0; i < KEYS; ++i) {     // the keys around the last one
    if (i + 1 < last || i > last + 1) continue;
    FbleValue* l = Do2(fs, set ? "sc" : "ml", m, K((int64_t)i));
    sx_check(FbleUnionValueTag(l) == !has[i], "whether it is there");
    if (!set && has[i]) sx_check(IsInt(FbleUnionValueArg(l), val[i]), "the value last inserted");
  }
  if (uni) {
    FbleValue* o = Do3(fs, "mi", Fn(fs, "me"), K(1), K(77));
    FbleValue* u = Do2(fs, "mu", m, o);
    sx_check(IsInt(FbleUnionValueArg(Do2(fs, "ml", u, K(1))), 77), "the second map wins");
    for (size_t i = 0; i < KEYS; ++i) if (i != 1) sx_check(FbleUnionValueTag(Do2(fs, "ml", u, K((int64_t)i))) == !has[i], "and the first map's");
  }
}
#endif
void sx_main(void) {
  sx_fopen = &Open; sx_access = &Access;
  heap = FbleNewValueHeap(); profile = FbleNewProfile(false);
  FbleSearchPath* sp = FbleNewSearchPath(); FbleAppendToSearchPath(sp, "c");
  FbleModulePath* mp = FbleParseModulePath("/Main%");
  FbleValue* linked = FbleLink(heap, profile, NULL, sp, mp);
  sx_check(linked != NULL, "the core package loads");
  FbleValue* fs = FbleEval(heap, linked, profile);
  sx_check(fs != NULL, "and evaluates");
  FblePushFrame(heap);
  Check(fs);
  FblePopFrame(heap, FbleNewStructValue_(heap, 0));
  FbleFreeValueHeap(heap); FbleFreeProfile(profile); FbleFreeModulePath(mp); FbleFreeSearchPath(sp);
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
#endif
