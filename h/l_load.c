// Loading and linking: every graph of imports over search directories.
// MODE 0: M modules in one directory. MODE 1: several directories, any of
// which has each module. MODE 2: modules linked from generated code.
#include <string.h>
#include <fble/fble-alloc.h>
#include <fble/fble-compile.h>
#include <fble/fble-function.h>
#include <fble/fble-generate.h>
#include <fble/fble-link.h>
#include <fble/fble-load.h>
#include <fble/fble-module-path.h>
#include <fble/fble-name.h>
#include <fble/fble-profile.h>
#include <fble/fble-value.h>
#include <fble/fble-vector.h>
#include "expr.h"
#include "sx.h"
#ifndef DIRS
#define DIRS 1
#endif
#ifndef IMPORTS
#define IMPORTS 2
#endif
static const char* const paths[] = { "/A%", "/A/B%", "/B%", "/B/A%", "/'A/B'%" };   // the last one has no file
static const char* const files[4] = { "/A.fble", "/A/B.fble", "/B.fble", "/B/A.fble" };
static const char* const dirs[3] = { "lib/x", "/y", "." };
#define NONE 4
typedef struct { bool known, bad, read; int n, imp[IMPORTS + 1]; char text[300]; char name[24]; } File;
static File fs[3][4];
static int exists[4];       // mask of directories
static int Where(int m) { if (m == NONE) return -1; for (int d = 0; d < DIRS; ++d) if (exists[m] & (1 << d)) return d; return -1; }
static char opened[64][24]; static int nopened;

static void Decide(int d, int m) {
  File* f = &fs[d][m];
  if (f->known) return;
  f->known = true;
  strcpy(f->text, "@ U@ = *(); @ T@ = +(U@ a, U@ b, U@ c, U@ d, U@ e, U@ f, U@ g, U@ h, U@ i, U@ j, U@ k, U@ l); @(id: T@(_: U@()), ");
  *strchr(f->text, '_') = (char)('a' + m + 4 * d);
  int k = (int)sx_pick("imports", IMPORTS + 2);
  f->bad = k == IMPORTS + 1;
  int written = f->bad ? 1 : k;
  for (int i = 0; i < written; ++i) {
    int x = (int)sx_pick("import", M + 1); if (x == M) x = NONE;
    char t[] = "i_: "; t[1] = (char)('0' + i);
    strcat(f->text, t); strcat(f->text, paths[x]); strcat(f->text, ", ");
    bool dup = false;
    for (int j = 0; j < f->n; ++j) dup = dup || f->imp[j] == x;
    if (!dup) f->imp[f->n++] = x;
  }
  f->text[strlen(f->text) - 2] = 0;
  strcat(f->text, f->bad ? "};" : ");");
}
static int Next(int d, int m, size_t pos) {
  if (pos == 0) {
    Decide(d, m);
    sx_check(nopened < 60, "few files are read");
    strcpy(opened[nopened++], fs[d][m].name);
    fs[d][m].read = true;
  }
  const char* t = fs[d][m].text;
  return pos < strlen(t) ? (unsigned char)t[pos] : EOF;
}
#define F(d, m) static int Next##d##m(size_t pos) { return Next(d, m, pos); }
F(0,0) F(0,1) F(0,2) F(0,3) F(1,0) F(1,1) F(1,2) F(1,3) F(2,0) F(2,1) F(2,2) F(2,3)
static int (*const nexts[3][4])(size_t) = { { Next00, Next01, Next02, Next03 }, { Next10, Next11, Next12, Next13 }, { Next20, Next21, Next22, Next23 } };

// The reference: a depth first walk.
static int state[5]; static int order[4], norder;
static bool Walk(int m) {
  int d = Where(m);
  if (d < 0) return false;
  if (state[m] == 2) return true;
  if (state[m] == 1) return false;
  state[m] = 1;
  Decide(d, m);
  if (fs[d][m].bad) return false;
  for (int i = 0; i < fs[d][m].n; ++i) if (!Walk(fs[d][m].imp[i])) return false;
  state[m] = 2; order[norder++] = m;
  return true;
}
static int Index(FbleModulePath* p) {
  for (int m = 0; m < 5; ++m) {
    FbleModulePath* q = FbleParseModulePath(paths[m]);
    bool eq = FbleModulePathsEqual(p, q);
    FbleFreeModulePath(q);
    if (eq) return m;
  }
  return -1;
}
// The value of a module shows which module it is and what it imported.
static void Shape(FbleValue* v, int m) {
  int d = Where(m);
  File* f = &fs[d][m];
  sx_check(v != NULL, "a module has a value");
  sx_check(FbleUnionValueTag(FbleStructValueField(v, 0)) == (size_t)(m + 4 * d), "the value of that module");
  // imports are written in order, possibly the same one twice
  const char* t = f->text; size_t at = 1;
  while ((t = strstr(t, ": /"))) {
    t += 2;
    int x = -1;
    for (int i = 0; i < 4; ++i) if (!strncmp(t, paths[i], strlen(paths[i]))) x = i;
    Shape(FbleStructValueField(v, at++), x);
  }
}

#if MODE < 2
void sx_main(void) {
  for (int d = 0; d < DIRS; ++d) for (int m = 0; m < M; ++m) {
    strcpy(fs[d][m].name, dirs[d]); strcat(fs[d][m].name, files[m]);
  }
  for (int m = 0; m < M; ++m) exists[m] = MODE == 0 ? 1 : (int)sx_pick("exists", 1 << DIRS);
  for (int d = 0; d < DIRS; ++d) for (int m = 0; m < M; ++m) if (exists[m] & (1 << d)) sx_file_gen(fs[d][m].name, nexts[d][m]);
  FbleSearchPath* sp = FbleNewSearchPath();
  for (int d = 0; d < DIRS; ++d) {
    if (d == 1) { FbleString* s = FbleNewString(dirs[d]); FbleAppendStringToSearchPath(sp, s); FbleFreeString(s); }
    else FbleAppendToSearchPath(sp, dirs[d]);
  }
  int root = MODE == 0 ? 0 : (int)sx_pick("main", 2);
  FbleModulePath* mp = FbleParseModulePath(paths[root]);
  FbleStringV deps; FbleInitVector(deps);
  FbleLoadedProgram* p = FbleLoad(sp, mp, &deps);
  sx_check(deps.size == (size_t)nopened, "every file that was read is listed once");
  for (int i = 0; i < nopened; ++i) sx_check(!strcmp(deps.xs[i]->str, opened[i]), "files listed in the order they were read");
  bool ok = Walk(root);
  sx_check((p != NULL) == ok, "loads exactly if everything reachable is there, is well formed and has no cycle");
  sx_check((sx_err_writes() != 0) == !ok, "an error is reported exactly when it fails");
  if (ok) {
    sx_check(p->modules.size == (size_t)norder, "every reachable module once, and no other");
    int idx[4];
    for (int i = 0; i < norder; ++i) {
      FbleLoadedModule* x = p->modules.xs + i;
      int m = idx[i] = Index(x->path);
      sx_check(m >= 0 && m != NONE && state[m] == 2, "a reachable module");
      for (int j = 0; j < i; ++j) sx_check(idx[j] != m, "only once");
      File* f = &fs[Where(m)][m];
      sx_check(x->value != NULL && x->type == NULL, "loaded with its value");
      sx_check(x->deps.size == (size_t)f->n, "the imports of its file");
      for (int j = 0; j < f->n; ++j) {
        int dm = Index(x->deps.xs[j]);
        sx_check(dm == f->imp[j], "imports in the order written");
        bool before = false;
        for (int b = 0; b < i; ++b) before = before || idx[b] == dm;
        sx_check(before, "after what it depends on");
      }
      sx_check(!strcmp(x->value->loc.source->str, f->name), "read from the first directory that has it");
    }
    sx_check(idx[norder - 1] == root, "the main module last");
    for (int i = 0; i < norder; ++i) {
      int read = 0;
      for (int j = 0; j < nopened; ++j) read += !strcmp(opened[j], fs[Where(idx[i])][idx[i]].name);
      sx_check(read == 1, "each file read once");
    }
    sx_reach("loaded");
  } else sx_reach("failed");
  FbleFreeLoadedProgram(p);
  for (size_t i = 0; i < deps.size; ++i) FbleFreeString(deps.xs[i]);
  FbleFreeVector(deps);
  FbleValueHeap* heap = FbleNewValueHeap();
  FbleProfile* profile = FbleNewProfile(true);
  FbleValue* linked = FbleLink(heap, profile, NULL, sp, mp);
  sx_check((linked != NULL) == ok, "links exactly if it loads");
  if (linked) {
    FbleValue* v = FbleEval(heap, linked, profile);
    Shape(v, root);
    for (int i = 0; i < norder; ++i) {
      uint64_t n = 0;
      for (size_t b = 0; b < profile->blocks.size; ++b) if (!strcmp(profile->blocks.xs[b]->name.name->str, paths[order[i]])) n += profile->blocks.xs[b]->block.count;
      sx_check(n == 1, "each module evaluated once");
    }
    sx_reach("linked");
  }
  FbleFreeValueHeap(heap);
  FbleFreeProfile(profile);
  FbleFreeModulePath(mp);
  FbleFreeSearchPath(sp);
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
#else
// Modules linked from generated code: any acyclic graph, any order of imports.
static FbleGeneratedModule mods[4]; static FbleExecutable exes[4]; static int imp[4][4], nimp[4], ran[4];
static FbleValue* Run(FbleValueHeap* heap, FbleProfileThread* t, FbleFunction* f, FbleValue** args, int m) {
  ran[m]++;
  sx_check(f->executable.num_args == (size_t)nimp[m], "the module's own function");
  FbleValue* xs[8];
  FbleValue* tag = FbleNewEnumValue(heap, (size_t)m);
  xs[0] = tag;
  for (int i = 0; i < nimp[m]; ++i) xs[1 + i] = args[i];
  (void)t;
  return FbleNewStructValue(heap, (size_t)(1 + nimp[m]), xs);
}
#define R(m) static FbleValue* Run##m(FbleValueHeap* h, FbleProfileThread* t, FbleFunction* f, FbleValue** a) { return Run(h, t, f, a, m); }
R(0) R(1) R(2) R(3)
static FbleRunFunction* const runs[4] = { Run0, Run1, Run2, Run3 };
static void ShapeG(FbleValue* v, int m) {
  sx_check(FbleUnionValueTag(FbleStructValueField(v, 0)) == (size_t)m, "the value of that module");
  for (int i = 0; i < nimp[m]; ++i) ShapeG(FbleStructValueField(v, (size_t)i + 1), imp[m][i]);
}
void sx_main(void) {
  bool used[4] = { 1 };
  for (int m = 0; m < M; ++m) {
    mods[m].path = FbleParseModulePath(paths[m]);
    FbleInitVector(mods[m].deps);
    FbleInitVector(mods[m].profile_blocks);
    FbleName* nm = FbleExtendVector(mods[m].profile_blocks);
    *nm = FbleModulePathName(mods[m].path);
    exes[m].num_statics = 0; exes[m].run = runs[m];
    mods[m].executable = &exes[m];
  }
  for (int m = 0; m < M; ++m) {
    if (!used[m]) continue;
    int left = M - 1 - m;
    int k = (int)sx_pick("imports", (size_t)left + 1);
    for (int i = 0; i < k; ++i) {
      int x = m + 1 + (int)sx_pick("import", (size_t)left);
      for (int j = 0; j < i; ++j) sx_assume(imp[m][j] != x);
      imp[m][i] = x; used[x] = true;
      FbleAppendToVector(mods[m].deps, &mods[x]);
    }
    nimp[m] = k; exes[m].num_args = (size_t)k;
  }
  FbleValueHeap* heap = FbleNewValueHeap();
  FbleProfile* profile = FbleNewProfile(true);
  FbleValue* linked = FbleLink(heap, profile, &mods[0], NULL, NULL);
  FbleValue* v = FbleEval(heap, linked, profile);
  ShapeG(v, 0);
  for (int m = 0; m < M; ++m) {
    sx_check(ran[m] == (used[m] ? 1 : 0), "each module evaluated once");
    uint64_t n = 0;
    for (size_t b = 0; b < profile->blocks.size; ++b) if (!strcmp(profile->blocks.xs[b]->name.name->str, paths[m])) n += profile->blocks.xs[b]->block.count;
    sx_check(n == (used[m] ? 1 : 0), "entered once");
  }
  FbleFreeValueHeap(heap);
  FbleFreeProfile(profile);
  for (int m = 0; m < M; ++m) {
    FbleFreeModulePath(mods[m].path);
    FbleFreeVector(mods[m].deps);
    FbleFreeName(mods[m].profile_blocks.xs[0]);
    FbleFreeVector(mods[m].profile_blocks);
  }
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
#endif
