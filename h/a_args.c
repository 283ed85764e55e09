// Command lines. MODE 0: one step of each option parser on words of arbitrary
// characters. MODE 1: whole command lines of the tools against a reference.
#include <string.h>
#include <fble/fble-arg-parse.h>
#include <fble/fble-compile.h>
#include <fble/fble-generate.h>
#include <fble/fble-load.h>
#include <fble/fble-module-path.h>
#include <fble/fble-vector.h>
#include "sx.h"
// The directories the search path names show in what is looked for.
static char looked[64][40]; static int nlooked;
static int Access(const char* path) {
  sx_check(strlen(path) < 40 && nlooked < 60, "looks for few files");
  strcpy(looked[nlooked++], path);
  return !strcmp(path, "/pp/x") || !strcmp(path, "y/A.fble") ? 0 : -1;
}
static int at;
static void Dir(const char* d) {      // adds to the expected lookups
  char want[40]; strcpy(want, d); strcat(want, "/A.fble");
  sx_check(at < nlooked && !strcmp(looked[at], want), "search path as given, in order");
  at++;
}
#if MODE == 0
static char w[2][8];
static bool Is(const char* s, const char* t) { return !strcmp(s, t); }
void sx_main(void) {
  const char* words[4] = { w[0], w[1], "rest", NULL };
  for (int i = 0; i < 2; ++i) {
    sx_bytes(w[i], i ? 3 : LEN, "char");
  }
  int argc = 1 + (int)sx_pick("more words", 3);
  int argc0 = argc;
  const char** argv = words;
  if (argc < 3) words[argc] = NULL;
  static const char* const names[] = { "-", "-t", "--x", "-tt", "" };
  const char* name = names[sx_pick("name", 5)];
  bool error = false;
  sx_access = &Access;
  sx_setenv("FBLE_PACKAGE_PATH", "/pp");
  switch (sx_pick("parser", 4)) {
    case 0: {
      bool b = sx_pick("was set", 2) != 0, was = b;
      bool r = FbleParseBoolArg(name, &b, &argc, &argv, &error);
      bool is = Is(w[0], name);
      sx_check(r == is, "recognised exactly by its name");
      sx_check(!error && b == (was || is), "set exactly when given");
      sx_check(argc == argc0 - is && argv == words + is, "one word consumed");
      sx_check(sx_err_writes() == 0, "no error");
      break;
    }
    case 1: {
      const char* const olds[] = { NULL, "old", "" };
      const char* s = olds[sx_pick("was set", 3)]; const char* was = s;
      bool r = FbleParseStringArg(name, &s, &argc, &argv, &error);
      bool is = Is(w[0], name), ok = is && argc0 >= 2 && was == NULL;
      sx_check(r == is, "recognised exactly by its name");
      sx_check(error == (is && !ok), "an error exactly for a missing value or a second one");
      sx_check(s == (ok ? words[1] : was), "takes the following word");
      if (!is || ok) sx_check(argc == argc0 - 2 * ok && argv == words + 2 * ok, "two words consumed");
      sx_check((sx_err_writes() != 0) == error, "errors are reported");
      sx_reach(ok ? "string" : "no string");
      break;
    }
    case 2: {
      bool r = FbleParseInvalidArg(&argc, &argv, &error);
      sx_check(r && error && sx_err_writes() != 0, "reported as an error");
      break;
    }
    default: {
      // -I x, -Ix, -p x, --package x, -m x, --module x
      FbleModuleArg arg = FbleNewModuleArg();
      bool had = sx_pick("had a module", 2) != 0;
      if (had) arg.module_path = FbleParseModulePath("/Q%");
      bool r = FbleParseModuleArg(&arg, &argc, &argv, &error);
      const char* dir = NULL; bool module = false, package = false;
      if (Is(w[0], "-I")) dir = w[1];
      else if (w[0][0] == '-' && w[0][1] == 'I') dir = w[0] + 2;
      else if (Is(w[0], "-p")) package = true;
      else if (Is(w[0], "-m")) module = true;
      bool two = dir == w[1] || package || module;
      bool missing = two && argc0 < 2;
      sx_check(r == (dir || package || module), "recognised exactly in its documented forms");
      if (missing) { sx_check(error, "a missing value is an error"); dir = NULL; }
      bool isx = package && !missing && Is(w[1], "x");
      FbleModulePath* want = NULL;
      if (module && !missing && !had) want = FbleParseModulePath(w[1]);
      if (!missing) {
        if (dir) sx_check(!error, "accepted");
        if (package) sx_check(error == !isx, "an error exactly if there is no such package");
        if (module) sx_check(error == (want == NULL), "an error exactly if it is no module path or not the first");
      }
      if (!r) sx_check(!error, "not at fault");
      if (!error) sx_check(argc == argc0 - r - two && argv == words + r + two, "exactly the words used are consumed");
      if (had) sx_check(arg.module_path->path.size == 1 && Is(arg.module_path->path.xs[0].name->str, "Q"), "the first module stays");
      else sx_check(want == NULL ? arg.module_path == NULL : arg.module_path != NULL && FbleModulePathsEqual(want, arg.module_path), "the module named");
      if (!module) sx_check((sx_err_writes() != 0) == error, "errors are reported");
      else if (error) sx_check(sx_err_writes() != 0, "errors are reported");
      if (want) FbleFreeModulePath(want);
      FbleModulePath* mp = FbleParseModulePath("/A%");
      nlooked = 0;
      FbleFreeLoadedProgram(FbleLoad(arg.search_path, mp, NULL));
      FbleFreeModulePath(mp);
      if (dir) Dir(dir);
      if (isx) Dir("/pp/x");
      sx_check(nlooked == (dir || isx), "nothing else in the search path");
      FbleFreeModuleArg(arg);
      sx_reach("module arg");
    }
  }
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
#else
int DepsMain(int argc, const char** argv);
int CompileMain(int argc, const char** argv);
int DisassembleMain(int argc, const char** argv);
enum { DEPS, COMPILE, DISASSEMBLE };
// Stand-ins for the code generators (renamed when fble-compile.c is compiled)
typedef struct { int what; const char* name; } Gen;
static Gen gens[8]; static int ngens;
static void IsA(FbleModulePath* p) { sx_check(p->path.size == 1 && !strcmp(p->path.xs[0].name->str, "A"), "the module given"); }
static void Add(int what, const char* name, FbleModulePath* p) { IsA(p); gens[ngens].what = what; gens[ngens++].name = name; }
void StubA(FILE* f, FbleCompiledModule* m) { Add(0, NULL, m->path); }
void StubC(FILE* f, FbleCompiledModule* m) { Add(1, NULL, m->path); }
void StubAE(FILE* f, const char* name, FbleModulePath* p) { Add(2, name, p); }
void StubCE(FILE* f, const char* name, FbleModulePath* p) { Add(3, name, p); }
void StubAM(FILE* f, const char* name, FbleModulePath* p) { Add(4, name, p); }
void StubCM(FILE* f, const char* name, FbleModulePath* p) { Add(5, name, p); }

static const char* argv_[16]; static int argc_ = 1;
static const char* dirs_[16]; static int ndirs;
static const char *target, *export_, *main_, *module;
static bool compile_;
static const char* Value(const char* const* xs, int n) { const char* v = xs[sx_pick("value", (size_t)n)]; argv_[argc_++] = v; return v; }
void sx_main(void) {
  int tool = TOOL;
  enum { GOING, HELP, VERSION, ERROR } state = GOING;
  sx_access = &Access;
  sx_setenv("FBLE_PACKAGE_PATH", "/pp");
  static const char src[] = "@ U@ = *(); U@();";
  sx_file("y/A.fble", src, strlen(src));
  argv_[0] = "tool";
  static const char* const dvals[] = { "y", "-h", "" };
  static const char* const pvals[] = { "x", "y" };
  static const char* const mvals[] = { "/A%", "A" };
  static const char* const tvals[] = { "c", "aarch64", "C", "" };
  static const char* const svals[] = { "n" , "-c", "" };
  static const char* const opts[] = { "-h", "--help", "-v", "--version", "-x", "-I", "-Iq", "-p", "--package", "-m", "--module",
    "-t", "--target", "-c", "--compile", "-e", "--export", "--main" };
  bool common_only = tool == DISASSEMBLE;
  while (state == GOING && argc_ < WORDS) {
    int o = (int)sx_pick("option", common_only ? 12 : tool == DEPS ? 14 : 19) - 1;
    if (o < 0) break;                 // the end of the command line
    const char* op = argv_[argc_++] = opts[o];
    bool takes = o >= 5 && o != 6 && o != 13 && o != 14;
    if (o < 2) state = HELP;
    else if (o < 4) state = VERSION;
    else if (o == 4) state = ERROR;
    else if (takes && sx_pick("value missing", 2)) { state = ERROR; break; }
    else if (o == 5) dirs_[ndirs++] = Value(dvals, 3);
    else if (o == 6) dirs_[ndirs++] = "q";
    else if (o < 9) { if (!strcmp(Value(pvals, 2), "x")) dirs_[ndirs++] = "/pp/x"; else state = ERROR; }
    else if (o < 11) { const char* m = Value(mvals, 2); if (module || strcmp(m, "/A%")) state = ERROR; else module = m; }
    else if (o < 13) { const char* t = Value(tool == DEPS ? svals : tvals, tool == DEPS ? 3 : 4); if (target) state = ERROR; else target = t; }
    else if (o < 15) compile_ = true;
    else if (o < 17) { const char* t = Value(svals, 3); if (export_) state = ERROR; else export_ = t; }
    else { const char* t = Value(svals, 3); if (main_) state = ERROR; else main_ = t; }
    (void)op;
  }
  if (state != GOING && argc_ < WORDS && sx_pick("junk", 2) && state != ERROR) argv_[argc_++] = "junk";   // not looked at any more
  FILE* out = stdout = sx_out();
  const char* copy[16]; memcpy(copy, argv_, sizeof copy);
  int (*const mains[])(int, const char**) = { DepsMain, CompileMain, DisassembleMain };
  int status = mains[tool](argc_, argv_);
  size_t n; const char* text = sx_out_data(out, &n);
  sx_check(!memcmp(copy, argv_, sizeof copy), "the command line is not changed");
  // packages are looked up while parsing; what follows are the directories
  int k = 0; for (int i = 0; i < nlooked; ++i) if (!strstr(looked[i], "/A.fble") == 0) memmove(looked[k++], looked[i], 40);
  nlooked = k;
  static const char* const toolnames[] = { "fble-deps", "fble-compile", "fble-disassemble" };
  bool usage = state == ERROR;
  if (state == GOING) {
    if (tool == DEPS && !target) usage = true;
    if (tool == COMPILE && ((target && (!strcmp(target, "C") || !*target)) || (!compile_ && !export_ && !main_))) usage = true;
    if (!module) usage = true;
  }
  bool found = false;
  if (state == HELP) { sx_check(status == 0 && !strncmp(text, "help for ", 9), "help is printed"); sx_reach("help"); }
  else if (state == VERSION) { sx_check(status == 0 && n > 9 && !strncmp(text, toolnames[tool], strlen(toolnames[tool])), "the version is printed"); sx_reach("version"); }
  else if (usage) { sx_check(status == 2 && sx_err_writes() != 0, "a usage error is reported"); sx_reach("usage"); }
  else {
    int c = target && !strcmp(target, "c"), g = 0;
    if (tool == COMPILE && export_) { sx_check(gens[g].what == 2 + c && gens[g].name == export_, "exports by the name given"); g++; }
    if (tool == COMPILE && main_) { sx_check(g < ngens && gens[g].what == 4 + c && gens[g].name == main_, "main function by the name given"); g++; }
    if (tool != COMPILE || compile_) {
      for (int i = 0; i < ndirs && !found; ++i) { Dir(dirs_[i]); found = !strcmp(dirs_[i], "y"); }
      sx_check(nlooked == at, "nothing else in the search path");
      sx_check(status == (found || tool == DEPS ? 0 : 1), "succeeds exactly if the module is found");
      if (tool == DEPS) {
        char want[40]; strcpy(want, target); strcat(want, ":"); if (found) strcat(want, " y/A.fble"); strcat(want, "\n");
        sx_check(n == strlen(want) && !memcmp(text, want, n), "target and dependencies");
      }
      if (tool == COMPILE && found) { sx_check(g < ngens && gens[g].what == c, "code for the target"); g++; }
      if (tool == DISASSEMBLE && found) sx_check(n > 0, "prints code");
    } else sx_check(status == 0, "succeeds");
    sx_check(g == ngens, "generates what was asked for and nothing else");
    sx_check((sx_err_writes() != 0) == ((tool != COMPILE || compile_) && !found), "an error is reported exactly if the module is not found");
    sx_reach("works");
  }
  if (state != GOING || usage) sx_check(ngens == 0 && nlooked == 0, "nothing is done");
  fclose(out);
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
#endif
