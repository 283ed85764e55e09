// MODE 0: dependency files read back by the build tool as the names given.
// MODE 1: packages are found in the first directory of the package path.
#include <string.h>
#include <fble/fble-load.h>
#include <fble/fble-string.h>
#include <fble/fble-vector.h>
#include "sx.h"
#if MODE == 0
static char names[6][400];
static void Name(int k, bool arbitrary) {
  static const int lens[] = { 1, 3, 37, 76, 77, 78, 79, 80, 81, 160, 300 };
  int l = arbitrary ? 1 + (int)sx_pick("length", 3) : lens[sx_pick("length", LENS)];
  if (arbitrary) {
    sx_bytes(names[k], (size_t)l, "char");
    for (int i = 0; i < l; ++i) { char c = names[k][i]; sx_assume((c > ' ' || c < 0) && c != '\\' && c != '#' && c != '$' && c != ':' && c != '%' && c != 127); }
  } else for (int i = 0; i < l; ++i) names[k][i] = (char)('a' + (i * 7 + k) % 26);
  names[k][l] = 0;
}
void sx_main(void) {
  int n = (int)sx_pick("files", DEPS + 1);
  int arb = (int)sx_pick("arbitrary", (size_t)n + 2) - 1;
  for (int i = 0; i <= n; ++i) Name(i, i == arb);
  FbleStringV deps; FbleInitVector(deps);
  for (int i = 1; i <= n; ++i) FbleAppendToVector(deps, FbleNewString(names[i]));
  FILE* f = sx_out();
  FbleSaveBuildDeps(f, names[0], deps);
  size_t size; const char* t = sx_out_data(f, &size);
  size_t at = strlen(names[0]);
  sx_check(size > at && !memcmp(t, names[0], at) && t[at] == ':', "the target first");
  at++;
  for (int i = 1; i <= n; ++i) {
    size_t start = at;
    while (at < size && (t[at] == ' ' || t[at] == '\t' || (t[at] == '\\' && at + 1 < size && t[at + 1] == '\n' && (t[at - 1] == ' ' || t[at - 1] == '\t')))) at += t[at] == '\\' ? 2 : 1;
    sx_check(at > start, "names are kept apart");
    size_t l = strlen(names[i]);
    sx_check(at + l <= size && !memcmp(t + at, names[i], l), "every file in order, as it is");
    at += l;
  }
  while (at < size && (t[at] == ' ' || t[at] == '\t')) at++;
  sx_check(at + 1 == size && t[at] == '\n', "one rule and nothing else");
  fclose(f);
  for (size_t i = 0; i < deps.size; ++i) FbleFreeString(deps.xs[i]);
  FbleFreeVector(deps);
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
#else
static char cands[6][40]; static int ncands, exists[6];
static bool looks(const char* p, int i) { return !strcmp(p, cands[i]); }
static int Access(const char* path) {
  for (int i = 0; i < ncands; ++i) if (looks(path, i)) {
    if (exists[i] < 0) exists[i] = (int)sx_pick("exists", 2);
    return exists[i] ? 0 : -1;
  }
  return -1;
}
void sx_main(void) {
  char pkg[4] = ""; static char env[40]; size_t n = 0;
  int pl = 1 + (int)sx_pick("package length", 2);
  sx_bytes(pkg, (size_t)pl, "char");
  for (int i = 0; i < pl; ++i) sx_assume(pkg[i] != 0 && pkg[i] != '/');
  pkg[pl] = 0;
  int k = (int)sx_pick("directories", DIRS + 2) - 1;
  for (int i = 0; i < k; ++i) {
    int l = (int)sx_pick("length", LEN + 1);
    if (i) env[n++] = ':';
    sx_bytes(env + n, (size_t)l, "char");
    for (int j = 0; j < l; ++j) sx_assume(env[n + (size_t)j] != 0 && env[n + (size_t)j] != ':');
    if (l) { memcpy(cands[ncands], env + n, (size_t)l); cands[ncands][l] = 0; strcat(cands[ncands], "/"); strcat(cands[ncands], pkg); exists[ncands++] = -1; }
    n += (size_t)l;
  }
  env[n] = 0;
  strcpy(cands[ncands], "/sx/datadir/fble/"); strcat(cands[ncands], pkg); exists[ncands++] = -1;
  if (k >= 0) sx_setenv("FBLE_PACKAGE_PATH", env);
  sx_access = &Access;
  FbleString* s = FbleFindPackage(pkg);
  // the first directory that has it
  int first = -1;
  for (int i = ncands; i-- > 0;) if (Access(cands[i]) == 0) first = i;
  if (first < 0) { sx_check(s == NULL, "not found if no directory has it"); sx_reach("not found"); }
  else { sx_check(s != NULL && !strcmp(s->str, cands[first]), "found in the first directory that has it"); sx_reach("found"); FbleFreeString(s); }
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
#endif
