// The printed profile report and the perf converter. The report is read back
// and has to agree with the profile it was made from; the converter's report
// has to agree with a direct count over its input lines.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fble/fble-alloc.h>
#include <fble/fble-name.h>
#include <fble/fble-profile.h>
#include <fble/fble-vector.h>
#include "sx.h"
int PerfMain(int argc, const char* argv[]);
#define MAXB 12
// ---- reading a report ----
static const char* s; static const char* end;
static size_t nb;                                    // number of blocks
static char name[MAXB][24]; static bool have[MAXB], haves[MAXB], haveg[MAXB], havel[MAXB];
static uint64_t count[MAXB], time_[MAXB], self[MAXB];
static uint64_t pcount[MAXB][MAXB], ptime[MAXB][MAXB]; static int pup[MAXB][MAXB], pdown[MAXB][MAXB];
static uint64_t total; static char loc[MAXB][24];
static void Is(const char* t) {
  size_t k = strlen(t);
  sx_check((size_t)(end - s) >= k && memcmp(s, t, k) == 0, "layout of the report");
  s += k;
}
static void Skip(void) { while (s < end && *s == ' ') s++; }
static uint64_t Num(void) {
  Skip();
  sx_check(s < end && *s >= '0' && *s <= '9', "a number in the report");
  uint64_t v = 0;
  while (s < end && *s >= '0' && *s <= '9') v = v * 10 + (uint64_t)(*s++ - '0');
  return v;
}
static uint64_t Hundredths(void) { uint64_t w = Num(); Is("."); sx_check(end - s >= 2, "two decimals"); uint64_t v = w * 100 + (uint64_t)(s[0] - '0') * 10 + (uint64_t)(s[1] - '0'); s += 2; return v; }
// name[000dX]
static size_t Block(void) {
  Skip();
  const char* b = s;
  while (s < end && *s != '[' && *s != '\n') s++;
  size_t len = (size_t)(s - b);
  Is("[");
  size_t id = 0;
  while (s < end && *s != 'X') { int c = *s++; id = id * 16 + (size_t)(c <= '9' ? c - '0' : c - 'a' + 10); }
  Is("X]");
  sx_check(id < nb && len < sizeof name[0], "a block of the profile");
  if (name[id][0]) sx_check(strlen(name[id]) == len && memcmp(name[id], b, len) == 0, "block name");
  else { memcpy(name[id], b, len); name[id][len] = 0; }
  return id;
}
static void Title(const char* t, char u) { Is(t); Is("\n"); for (size_t i = 0; i < strlen(t); ++i) { sx_check(s < end && *s == u, "underlined"); s++; } Is("\n"); }
// A line for a block: counts, time, self, name.
static size_t Own(bool first) {
  Is("** "); uint64_t c = Num(), t = Num(), f = Num(); size_t b = Block(); Is(" **\n");
  if (first) { sx_check(!have[b], "each block once"); have[b] = true; count[b] = c; time_[b] = t; self[b] = f; }
  else sx_check(count[b] == c && time_[b] == t && self[b] == f, "sections agree");
  return b;
}
static void Read(const char* data, size_t n) {
  s = data; end = data + n;
  Title("Profile Report", '=');
  Is("blocks executed: "); uint64_t cover = Hundredths(); Is("% of "); nb = Num(); Is("\n\n");
  sx_check(nb <= MAXB, "number of blocks");
  Title("Flat Profile by Overall Time", '-');
  while (s < end && *s != '*') s++;
  uint64_t last = UINT64_MAX, executed = 0; size_t order[MAXB];
  for (size_t i = 0; i < nb; ++i) { size_t b = Own(true); sx_check(time_[b] <= last, "by falling time"); last = time_[b]; order[i] = b; executed += count[b] > 0; total += self[b]; }
  Is("\n");
  uint64_t exact = executed * 10000;
  sx_check(cover * nb <= exact + nb && exact <= cover * nb + nb, "share of blocks executed");
  Title("Flat Profile by Self Time", '-');
  while (s < end && *s != '\n') s++;
  Is("\n");
  last = UINT64_MAX;
  for (size_t i = 0; i < nb; ++i) {
    if (total > 0) { Skip(); uint64_t p = Hundredths(), f = Num(); size_t b = Block();
      sx_check(f == self[b] && !haves[b], "self time"); haves[b] = true;
      sx_check(p * total <= 10000 * f + total && 10000 * f <= p * total + total, "share of self time");
      sx_check(f <= last, "by falling self time"); last = f;
    } else while (s < end && *s != '\n') s++;
    Is("\n");
  }
  Is("\n");
  Title("Call Graph", '-');
  while (s < end && *s != '\n') s++;
  Is("\n");
  for (size_t i = 0; i < nb; ++i) {
    if (count[order[i]] == 0) continue;
    size_t cs[MAXB], k = 0; uint64_t cc[MAXB], ct[MAXB];
    last = 0;
    while (s < end && *s == ' ') { sx_check(k < MAXB, "callers"); cc[k] = Num(); ct[k] = Num(); sx_check(ct[k] >= last, "callers by rising time"); last = ct[k]; cs[k] = Block(); k++; Is("   \n"); }
    size_t b = Own(false);
    sx_check(b == order[i] && !haveg[b], "blocks by falling time"); haveg[b] = true;
    for (size_t j = 0; j < k; ++j) { pcount[cs[j]][b] = cc[j]; ptime[cs[j]][b] = ct[j]; sx_check(pup[cs[j]][b]++ == 0, "a caller once"); }
    last = UINT64_MAX;
    while (s < end && *s == ' ') { uint64_t c = Num(), t = Num(); size_t e = Block(); Is("   \n"); sx_check(t <= last, "callees by falling time"); last = t;
      sx_check(pdown[b][e]++ == 0, "a callee once");
      if (pup[b][e]) sx_check(pcount[b][e] == c && ptime[b][e] == t, "callers and callees agree");
      pcount[b][e] = c; ptime[b][e] = t;
    }
    Is("-------------------------------\n");
  }
  for (size_t a = 0; a < nb; ++a) for (size_t b = 0; b < nb; ++b) sx_check(pup[a][b] == pdown[a][b], "a pair under its caller and under its callee");
  Is("\n");
  Title("Block Locations", '-');
  for (size_t i = 0; i < nb; ++i) { size_t b = Block(); sx_check(!havel[b], "each block once"); havel[b] = true; Is(": "); const char* l = s; while (s < end && *s != '\n') s++; size_t k = (size_t)(s - l); if (k > 23) k = 23; memcpy(loc[b], l, k); loc[b][k] = 0; Is("\n"); }
  Is("\n");
  sx_check(s == end, "end of the report");
}
#if MODE == 0
static uint64_t Time(void) { static const uint64_t ts[] = { 1, 4, 0, 100000000 }; return ts[sx_pick("time", TIMES)]; }
void sx_main(void) {
  sx_rand_fixed = 7;
  FbleProfile* profile = FbleNewProfile(true);
  static const char* const names[] = { "f", "a b", "(g)", "h" };
  for (size_t i = 0; i < BLOCKS; ++i) {
    FbleName nm = { .name = FbleNewString(names[i]), .space = FBLE_NORMAL_NAME_SPACE, .loc = { .source = FbleNewString("x.fble"), .line = 3 + i, .col = 10 * i } };
    FbleAddBlockToProfile(profile, nm);
  }
  FbleProfileThread* th = FbleNewProfileThread(profile);
  int depth = 0;
  for (int i = 0; i < STEPS; ++i) {
    size_t op = sx_pick("op", BLOCKS + 1);
    if (op < BLOCKS) { FbleProfileEnterBlock(th, op + 1); depth++; uint64_t t = Time(); if (t) FbleProfileSample(th, t); }
    else { sx_assume(depth > 0); FbleProfileExitBlock(th); depth--; FbleProfileSample(th, 2); }
  }
  FbleFreeProfileThread(th);
  FILE* out = sx_out();
  FbleGenerateProfileReport(out, profile);
  size_t n; const char* d = sx_out_data(out, &n);
  Read(d, n);
  sx_check(nb == profile->blocks.size, "number of blocks");
  for (size_t b = 0; b < nb; ++b) {
    FbleBlockProfile* p = profile->blocks.xs[b];
    sx_check(strcmp(name[b], p->name.name->str) == 0, "name");
    sx_check(count[b] == p->block.count && time_[b] == p->block.time && self[b] == p->self, "numbers of a block");
    uint64_t c[MAXB] = { 0 }, t[MAXB] = { 0 };
    for (size_t i = 0; i < p->callees.size; ++i) { FbleCallData* x = p->callees.xs[i]; c[x->id] = x->count; t[x->id] = x->time; sx_check(pdown[b][x->id], "every pair"); }
    for (size_t k = 0; k < nb; ++k) if (pdown[b][k]) sx_check(pcount[b][k] == c[k] && ptime[b][k] == t[k] && c[k] > 0, "numbers of a pair");
    if (b > 0) { char want[24]; snprintf(want, sizeof want, "x.fble:%d:%d", (int)b + 2, 10 * ((int)b - 1)); sx_check(strcmp(loc[b], want) == 0, "location"); }
  }
  fclose(out);
  FbleFreeProfile(profile);
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
#elif MODE == 1
// The perf converter on well-formed input.
static const char* const fn[] = { "f", "g h", "main" };
static char text[400]; static size_t tn;
static void Put(const char* t) { while (*t) text[tn++] = *t++; }
static int lines[3][8], len[3]; static const int cost[] = { 5, 12, 300 };
static int Id(const char* t) { if (strcmp(t, "<root>") == 0) return 3; for (int i = 0; i < 3; ++i) if (strcmp(fn[i], t) == 0) return i; sx_fail("an unknown function in the report"); return 0; }
void sx_main(void) {
  sx_rand_fixed = 7;
  Put("100.00%     0.00%  cmd  exe        [.] _start\n");
  for (int l = 0; l < LINES; ++l) {
    len[l] = 1 + (int)sx_pick("frames", l == 0 ? FRAMES : FRAMES - 1);
    Put(l == 0 ? "5 " : l == 1 ? "12 " : "300 ");
    for (int i = 0; i < len[l]; ++i) { lines[l][i] = (int)sx_pick("function", 3); if (i) Put(";"); Put(fn[lines[l][i]]); }
    Put("\n");
  }
  switch (sx_pick("then", 3)) {
    case 0: break;
    case 1: Put("\n"); Put("9 f\n"); break;
    case 2: Put("    50.00%  x\n"); Put("9 f\n"); break;
  }
  bool squashed[4] = { false };
  const char* argv[8] = { "fble-perf-profile" }; int argc = 1;
  size_t q = sx_pick("squash", 5);
  if (q == 1) { argv[argc++] = "-s"; argv[argc++] = "f"; squashed[0] = true; }
  if (q == 2) { argv[argc++] = "--squash"; argv[argc++] = "g h"; squashed[1] = true; }
  if (q == 3) { argv[argc++] = "-s"; argv[argc++] = "g h"; argv[argc++] = "-s"; argv[argc++] = "f"; squashed[0] = squashed[1] = true; }
  if (q == 4) { argv[argc++] = "-s"; argv[argc++] = "other"; }
  FILE* in = sx_in(text, tn); FILE* out = sx_out();
  stdin = in; stdout = out;
  int r = PerfMain(argc, argv);
  sx_check(r == 0, "well formed input is converted");
  size_t n; const char* d = sx_out_data(out, &n);
  Read(d, n);
  // Direct count; index 3 is the root.
  uint64_t wt[4] = { 0 }, ws[4] = { 0 }, wp[4][4] = { { 0 } };
  bool appears[4] = { false, false, false, true };
  for (int l = 0; l < LINES; ++l) {
    bool in_[4] = { false }, pr[4][4] = { { false } }; int prev = 3;
    for (int i = 0; i < len[l]; ++i) { int f = lines[l][i]; if (squashed[f]) continue; in_[f] = true; appears[f] = true; pr[prev][f] = true; prev = f; }
    ws[prev] += (uint64_t)cost[l]; wt[3] += (uint64_t)cost[l];
    for (int a = 0; a < 4; ++a) { if (a < 3 && in_[a]) wt[a] += (uint64_t)cost[l]; for (int b = 0; b < 4; ++b) if (pr[a][b]) wp[a][b] += (uint64_t)cost[l]; }
  }
  uint64_t gp[4][4] = { { 0 } }; bool got[4] = { false };
  for (size_t b = 0; b < nb; ++b) {
    int i = Id(name[b]);
    sx_check(!got[i], "a function once"); got[i] = true;
    sx_check(time_[b] == wt[i], "number of samples of a function");
    sx_check(self[b] == ws[i], "number of samples in a function itself");
    for (size_t c = 0; c < nb; ++c) if (pdown[b][c]) gp[i][Id(name[c])] = ptime[b][c];
  }
  for (int a = 0; a < 4; ++a) { sx_check(got[a] == appears[a], "every function of the samples"); for (int b = 0; b < 4; ++b) sx_check(gp[a][b] == wp[a][b], "number of samples of a pair"); }
  fclose(in); fclose(out);
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
#else
// The perf converter on arbitrary input.
#ifndef MAXLEN
#define MAXLEN 0
#endif
static int Byte(size_t i) { if (i >= MAXLEN || sx_pick("eof", 2)) return EOF; return sx_u8("byte"); }
static const char* const words[] = { "-s", "f", "--squash", "--oops", "-v", "-h", "-" };
void sx_main(void) {
  sx_rand_fixed = 7;
  const char* argv[4] = { "fble-perf-profile" }; int argc = 1;
#if MODE == 3
  argc += (int)sx_pick("words", 3);
  for (int i = 1; i < argc; ++i) argv[i] = words[sx_pick("word", 7)];
  FILE* in = sx_in("x\n2 a;b\n", 8);
#else
  FILE* in = sx_in_gen(&Byte);
#endif
  stdin = in;
  int r = PerfMain(argc, argv);
  sx_check(r == 0 || r == 1 || r == 2, "exit status");
#if MODE == 3
  bool bad = false, info = false;
  for (int i = 1; i < argc && !bad && !info; ++i) {
    const char* w = argv[i];
    if (strcmp(w, "-s") == 0 || strcmp(w, "--squash") == 0) { if (i + 1 == argc) bad = true; i++; }
    else if (strcmp(w, "-v") == 0 || strcmp(w, "-h") == 0) info = true;
    else bad = true;
  }
  sx_check((r == 2) == bad, "other words are usage errors");
#endif
  fclose(in);
  if (r != 1) sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach(r == 0 ? "converted" : "refused");
  sx_reach("end");
}
#endif
