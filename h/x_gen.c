// Runs natively, before the bitcode of x_comp.c is built: writes the programs
// x_comp.c is about and what the real code generator makes of them.
//   x_gen DIR TARGET SETS  (TARGET c or aarch64)
// writes DIR/g<n>.c or .s, one per module, and DIR/progs.h.
#define _GNU_SOURCE
#ifndef DEPTH
#define DEPTH 1
#endif
#ifndef LEAVES
#define LEAVES 1
#endif
#include "gen.h"
#include "x_progs.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include <fble/fble-alloc.h>
#include <fble/fble-compile.h>
#include <fble/fble-load.h>
#include <fble/fble-generate.h>
#include <fble/fble-module-path.h>
#include "code.h"
int sx_rand_fixed; bool sx_rand_symbolic;
void sx_check_(bool c, const char* m) { if (!c) { fprintf(stderr, "x_gen: %s\n", m); _exit(3); } }
void sx_fail(const char* m) { sx_check_(false, m); }
uint64_t sx_choose(const char* n, uint64_t k);
uint64_t sx_concrete(uint64_t v) { return v; }
// odometer over all choices of the generator
static size_t at[64], lim[64]; static int nat, pos;
uint64_t sx_choose(const char* n, uint64_t k) {
  (void)n;
  if (pos == nat) { at[nat] = 0; nat++; }
  lim[pos] = k;
  return at[pos++];
}
static bool Next(void) {
  while (nat > 0 && at[nat - 1] + 1 == lim[nat - 1]) nat--;
  if (nat == 0) return false;
  at[nat - 1]++;
  return true;
}
#include <setjmp.h>
static jmp_buf diverged;
void sx_assume(bool c) { if (!c) longjmp(diverged, 1); }
// For which arguments the program does not finish (bit 9p + 3q + x).
static unsigned Diverges(Ex* body) {
  Sc* sc = Bind(Bind(Bind(NULL, "p", &NT), "q", &NT), "s", &PT);
  sx_check_(TypeOf(body, sc) == &NT, "well typed");
  Annotate(body, sc);
  volatile unsigned mask = 0;
  for (volatile int i = 0; i < 27; ++i) {
    nv = nenv = nblks = 0;
    fuel = 60;
    if (setjmp(diverged)) { mask |= 1u << i; continue; }
    V* s = NewV(V_STRUCT); s->n = 2; s->xs[0] = Enum(i % 3); s->xs[1] = Enum((i + 1) % 3);
    cur = blks; strcpy(cur->name, "/Foo%!"); nblks = 1;
    Eval(body, BindV(BindV(BindV(NULL, "p", Enum(i / 9)), "q", Enum(i / 3 % 3)), "s", s));
  }
  return mask;
}
static const char* files[16][2]; static int nfiles;
static const char* dir;
FILE* __real_fopen(const char*, const char*);
FILE* __wrap_fopen(const char* p, const char* m) {
  for (int i = 0; i < nfiles; ++i) if (!strcmp(files[i][0], p)) return fmemopen((char*)files[i][1], strlen(files[i][1]), m);
  return NULL;
}
int __wrap_access(const char* p, int mode) { (void)mode; for (int i = 0; i < nfiles; ++i) if (!strcmp(files[i][0], p)) return 0; return -1; }
static void PutC(FILE* f, const char* s) { fputc('"', f); for (; *s; ++s) fprintf(f, "\\%03o", (unsigned char)*s); fputc('"', f); }
static int nmod, nprog;
// s, with ~ replaced by the number of the program
static const char* Num(const char* s) {
  static char* out; static size_t used, cap;
  size_t n = strlen(s) * 3 + 1;
  if (used + n > cap) { cap = n + (1 << 20); out = malloc(cap); used = 0; }
  char* r = out + used, *o = r;
  for (; *s; ++s) o += *s == '~' ? sprintf(o, "%d", nprog) : sprintf(o, "%c", *s);
  used += (size_t)(o - r) + 1;
  return r;
}
static FILE *tab;
// Generates module number m of the files.
static void Generate(const char* path, const char* target, bool is_main, int prog) {
  char name[400];
  snprintf(name, sizeof name, "%s/g%d.%s", dir, nmod++, !strcmp(target, "c") ? "c" : "s");
  char sname[420]; snprintf(sname, sizeof sname, "%s.src", name);
  FILE* sf = __real_fopen(sname, "w");
  for (int i = 0; i < nfiles; ++i) fprintf(sf, "%s:\n%s\n", files[i][0], files[i][1]);
  fclose(sf);
  fflush(NULL);
  pid_t pid = fork();
  if (pid == 0) {
    FILE* out = __real_fopen(name, "w");
    FbleSearchPath* sp = FbleNewSearchPath();
    FbleAppendToSearchPath(sp, "/m");
    FbleModulePath* mp = FbleParseModulePath(path);
    sx_check(mp != NULL, "path");
    FbleLoadedProgram* prgm = FbleLoad(sp, mp, NULL);
    sx_check(prgm != NULL, "loads");
    FbleCompiledModule* module = FbleCompileModule(prgm);
    sx_check(module != NULL, "compiles");
    FbleFreeLoadedProgram(prgm);
    FbleFreeModulePath(module->path);
    module->path = FbleCopyModulePath(mp);
    char ex[40]; snprintf(ex, sizeof ex, "Export%d", prog);
    if (!strcmp(target, "c")) {
      FbleGenerateC(out, module);
      if (is_main) FbleGenerateCExport(out, ex, mp);
    } else {
      FbleGenerateAArch64(out, module);
      if (is_main) FbleGenerateAArch64Export(out, ex, mp);
    }
    fclose(out);
    _exit(0);
  }
  int st; waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    fprintf(stderr, "GENERATOR-FAILED status %d on module %s:\n%s\n", st, path, files[nfiles - 1][1]);
    exit(4);
  }
}
static void Program(const char* path, unsigned diverges) {
  for (int i = 0; i < nfiles; ++i) {
    fprintf(tab, "static const char p%d_%d[] = ", nprog, i); PutC(tab, files[i][1]); fprintf(tab, ";\n");
    fprintf(tab, "static const char f%d_%d[] = ", nprog, i); PutC(tab, files[i][0]); fprintf(tab, ";\n");
  }
  fprintf(tab, "extern FbleGeneratedModule* Export%d;\n", nprog);
  fprintf(tab, "static const Program prog%d = { &Export%d, ", nprog, nprog); PutC(tab, path); fprintf(tab, ", %uu, %d, {", diverges, nfiles);
  for (int i = 0; i < nfiles; ++i) fprintf(tab, "{f%d_%d, p%d_%d},", nprog, i, nprog, i);
  fprintf(tab, "} };\n");
  nprog++;
}
int main(int argc, char** argv) {
  dir = argv[1];
  const char* target = argv[2];
  bool special = argc > 3 && !strcmp(argv[3], "special");
  char name[400]; snprintf(name, sizeof name, "%s/progs.h", dir);
  tab = __real_fopen(name, "w");
  fprintf(tab, "typedef struct { FbleGeneratedModule** module; const char* path; unsigned diverges; int n; struct { const char *path, *text; } files[8]; } Program;\n");
  if (special) {
    for (size_t i = 0; i < sizeof specials / sizeof specials[0]; ++i) {
      const Special* s = specials + i;
      nfiles = 0;
      for (int j = 0; s->m[j].path; ++j) { files[nfiles][0] = Num(s->m[j].file); files[nfiles++][1] = Num(s->m[j].text ? s->m[j].text : Big(s->m[j].big)); }
      for (int j = 0; s->m[j].path; ++j) Generate(Num(s->m[j].path), target, !s->m[j + 1].path, nprog);
      int last = 0; while (s->m[last + 1].path) last++;
      Program(Num(s->m[last].path), s->m[0].big == 5 ? 0x7ffffffu & ~(1u | 1u << 9 | 1u << 18) : 0);   // a long one: only with different p
    }
  } else do {
    // one program per process: the generator keeps what it made in static memory
    int fd[2]; if (pipe(fd)) return 3;
    fflush(NULL);
    pid_t pid = fork();
    if (pid == 0) {
      pos = 0;
      Ex* body = GenProgram(DEPTH);
      static char text[SRCMAX];
      PutEx(body);
      strcpy(text, src); nsrc = 0;
      PutPrelude();
      Put("(N@ p, N@ q, P@ s) { "); Put(text); Put("; };\n");
      unsigned diverges = Diverges(body);
      if (write(fd[1], &diverges, sizeof diverges) < 0) _exit(3);
      if (write(fd[1], &nat, sizeof nat) < 0 || write(fd[1], lim, sizeof lim) < 0 || write(fd[1], at, sizeof at) < 0) _exit(3);
      size_t n = 0; while (n < (size_t)nsrc) { ssize_t k = write(fd[1], src + n, (size_t)nsrc - n); if (k <= 0) _exit(3); n += (size_t)k; }
      _exit(0);
    }
    close(fd[1]);
    FILE* in = fdopen(fd[0], "r");
    static char text[SRCMAX], path[40], file[40];
    unsigned diverges;
    if (fread(&diverges, sizeof diverges, 1, in) != 1) return 3;
    if (fread(&nat, sizeof nat, 1, in) != 1 || fread(lim, sizeof lim, 1, in) != 1 || fread(at, sizeof at, 1, in) != 1) return 3;
    size_t n = fread(text, 1, sizeof text - 1, in); text[n] = 0;
    fclose(in);
    int st; waitpid(pid, &st, 0);
    if (st) return 3;
    snprintf(path, sizeof path, "/G%d%%", nprog); snprintf(file, sizeof file, "/m/G%d.fble", nprog);
    char* foo; while ((foo = strstr(text, "/Foo%"))) { memmove(foo + strlen(path), foo + 5, strlen(foo + 5) + 1); memcpy(foo, path, strlen(path)); }
    nfiles = 1; files[0][0] = file; files[0][1] = text;
    Generate(path, target, true, nprog);
    Program(path, diverges);
  } while (Next());
  fprintf(tab, "#define NPROGS %d\nstatic const Program* const progs[NPROGS] = {", nprog);
  for (int i = 0; i < nprog; ++i) fprintf(tab, "&prog%d,", i);
  fprintf(tab, "};\n");
  fclose(tab);
  return 0;
}
