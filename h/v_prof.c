// The profiler against a direct model of what profiling means: every history
// of entering, replacing and leaving blocks, samples of arbitrary length, and
// blocks added on the way.
#include <string.h>
#include <fble/fble-alloc.h>
#include <fble/fble-name.h>
#include <fble/fble-profile.h>
#include <fble/fble-vector.h>
#include "sx.h"
#define MAXB 6
#define MAXD 64
// A frame is the current block and all calls that end when it ends.
static struct { int block; bool pair[MAXB][MAXB]; } st[MAXD]; static int depth;
static uint64_t count[MAXB], self[MAXB], time_[MAXB], pcount[MAXB][MAXB], ptime[MAXB][MAXB];
static int nblocks;
static FbleProfile* profile; static FbleProfileThread* th;
static void AddBlock(void) {
  FbleName nm = { .name = FbleNewString("b"), .space = FBLE_NORMAL_NAME_SPACE, .loc = { .source = FbleNewString("s"), .line = 1, .col = 1 } };
  sx_check(FbleAddBlockToProfile(profile, nm) == (size_t)nblocks, "block ids count up");
  nblocks++;
}
static void Enter(int b, bool replace) {
  int from = st[depth].block;
  if (replace) FbleProfileReplaceBlock(th, (size_t)b); else FbleProfileEnterBlock(th, (size_t)b);
  if (!replace) { depth++; memset(&st[depth], 0, sizeof st[depth]); }
  st[depth].block = b;
  st[depth].pair[from][b] = true;
  count[b]++; pcount[from][b]++;
}
static void Exit(void) { FbleProfileExitBlock(th); depth--; }
static int ttrs;
static void Tick(uint64_t t) {
  self[st[depth].block] += t;
  time_[0] += t;
  for (int b = 1; b < nblocks; ++b) {
    bool in = false;
    for (int a = 0; a < nblocks; ++a) {
      bool on = false;
      for (int d = 0; d <= depth; ++d) on = on || st[d].pair[a][b];
      if (on) ptime[a][b] += t;
      in = in || on;
    }
    if (in) time_[b] += t;
  }
}
static void Sample(uint64_t t) { FbleProfileSample(th, t); Tick(t); }
static void Compare(void) {
  sx_check(profile->blocks.size == (size_t)nblocks, "blocks");
  for (int a = 0; a < nblocks; ++a) {
    FbleBlockProfile* p = profile->blocks.xs[a];
    sx_check(p->block.id == (size_t)a && p->block.count == count[a], "calls of a block");
    sx_check(p->self == self[a], "self time of a block");
    sx_check(p->block.time == time_[a], "time of a block");
    int seen = 0, want = 0;
    for (int b = 0; b < nblocks; ++b) want += pcount[a][b] > 0;
    for (size_t i = 0; i < p->callees.size; ++i) {
      FbleCallData* c = p->callees.xs[i];
      sx_check(c->id < (size_t)nblocks && (i == 0 || p->callees.xs[i - 1]->id < c->id), "callees in order, once each");
      sx_check(c->count == pcount[a][c->id], "calls of a pair");
      sx_check(c->time == ptime[a][c->id], "time of a pair");
      seen++;
    }
    sx_check(seen == want, "every pair that happened");
  }
}
void sx_main(void) {
  sx_rand_fixed = 7;
  profile = FbleNewProfile(true);
  nblocks = 1;
  for (int i = 0; i < BLOCKS; ++i) AddBlock();
  count[0] = THREADS;
  for (int k = 0; k < THREADS; ++k) {
    th = FbleNewProfileThread(profile);
    ttrs = 7;
    depth = 0; memset(st, 0, sizeof st);
    static const int pre[] = { 0, 6, 7, 8, 22 };          // around the sizes at which the stacks grow
    int n = pre[sx_pick("deep", PRE)];
    for (int i = 0; i < n; ++i) Enter(1 + i % 2, false);
    for (int s = 0; s < STEPS; ++s) {
      size_t ops = 2 * (size_t)(nblocks - 1) + 4, op = sx_pick("op", ops);
      if (op < (size_t)nblocks - 1) Enter((int)op + 1, false);
      else if (op < 2 * ((size_t)nblocks - 1)) { sx_assume(depth > 0); Enter((int)(op - (size_t)nblocks) + 2, true); }
      else if (op == ops - 4) { sx_assume(depth > 0); Exit(); }
      else if (op == ops - 3) {                            // the sampler takes one tick for every 7 steps here
        FbleProfileRandomSample(th, 10);
        for (ttrs -= 10; ttrs <= 0; ttrs += 7) Tick(1);
      }
      else if (op == ops - 2) Sample(sx_u32("time"));
      else { sx_assume(nblocks < MAXB - 1 && s < STEPS - 1); AddBlock(); }
    }
    if (THREADS > 1 || sx_pick("unwind", 2)) while (depth > 0) { Exit(); Sample(sx_u32("time")); }
    FbleFreeProfileThread(th);
  }
  uint64_t c0 = profile->blocks.xs[0]->block.count;
  sx_check(c0 == THREADS, "the root is entered once per thread");
  Compare();
  FbleFreeProfile(profile);
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
