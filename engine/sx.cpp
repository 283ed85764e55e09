// sx - a bit-precise symbolic executor for LLVM 18 IR, deciding with Z3.
//
// The engine executes a linked bitcode module (the real sources of /repo plus
// a harness) from function `sx_main`.  Integers are either concrete or
// bit-vector terms over the symbolic inputs the harness introduced.  A branch
// on a symbolic condition is decided by Z3 and explored on every feasible
// side; an assertion, memory access, free, division or call is checked for
// every value the path condition admits.  Memory is byte precise, with one
// guard gap per object, so out-of-bounds, use-after-free, double-free and
// null accesses are errors; reads of uninitialised bytes yield fresh unknowns.
//
// Exploration is depth first with an undo trail; idle cores take over the
// oldest pending branch of a running process via fork().
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <z3.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>

using namespace llvm;
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sext64(u64 v, unsigned w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w))) >> (64 - w); }

// ---------------------------------------------------------------- shared stats
enum { MAXREACH = 512, MAXFN = 8192, MAXVIOL = 64 };
struct Shared {
  std::atomic<int> tokens, lock, stop, engineErr;
  std::atomic<u64> paths, pathsOk, pathsKilled, pathsErr, forks, branches, queries, qsat, qunsat, qcached, solver_us,
      insts, checksSym, checksConc, memchecks, maxPathInsts, samples, fibers, rlimit;
  std::atomic<u64> reach[MAXREACH];
  std::atomic<u8> fn[MAXFN];
  u64 violKey[MAXVIOL]; int nviol; double firstViol;
  char errmsg[512];
};
static Shared *sh;
static void lockSh() { int e = 0; while (!sh->lock.compare_exchange_weak(e, 1)) { e = 0; usleep(10); } }
static void unlockSh() { sh->lock = 0; }

[[noreturn]] static void engineError(const std::string &m) {
  lockSh();
  if (!sh->engineErr) { sh->engineErr = 1; snprintf(sh->errmsg, sizeof sh->errmsg, "%s", m.c_str()); }
  sh->stop = 1;
  unlockSh();
  fprintf(stderr, "sx: engine error: %s\n", m.c_str());
  _exit(3);
}

// ---------------------------------------------------------------- expressions
enum Op : u8 { OConst, OVar, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr,
               OConcat, OExtract, OZExt, OSExt, OEq, OUlt, OUle, OSlt, OSle, OIte };
struct VarSet { std::vector<u32> v; };
struct Expr {
  Op op; u8 w; u32 id; u64 c; const Expr *a, *b, *d; const VarSet *vars;
  mutable Z3_ast z; mutable u32 gen; mutable u64 val;
};
typedef const Expr *E;
struct EKey { Op op; u8 w; u64 c; E a, b, d; bool operator==(const EKey &o) const { return op == o.op && w == o.w && c == o.c && a == o.a && b == o.b && d == o.d; } };
struct EHash { size_t operator()(const EKey &k) const {
  u64 h = k.op * 0x9E3779B97F4A7C15ull + k.w; auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix(k.c); mix((u64)k.a); mix((u64)k.b); mix((u64)k.d); return h; } };
static std::unordered_map<EKey, E, EHash> etab;
static u32 nextExprId = 1;
static const VarSet emptySet;

struct SymVar { std::string name; unsigned w; bool internal; };
static std::vector<SymVar> symvars;            // all variables of the current path, in creation order
static std::vector<E> symexprs;                // var id -> expr (reused across paths: id,width)

static const VarSet *unionSet(const VarSet *a, const VarSet *b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  VarSet *n = new VarSet;
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(n->v));
  if (n->v.size() == a->v.size()) { delete n; return a; }
  if (n->v.size() == b->v.size()) { delete n; return b; }
  return n;
}
static E raw(Op op, unsigned w, u64 c, E a = nullptr, E b = nullptr, E d = nullptr) {
  EKey k{op, (u8)w, c, a, b, d};
  auto it = etab.find(k);
  if (it != etab.end()) return it->second;
  Expr *e = new Expr; e->op = op; e->w = w; e->c = c; e->a = a; e->b = b; e->d = d; e->id = nextExprId++; e->z = nullptr; e->gen = 0; e->val = 0;
  const VarSet *vs = &emptySet;
  if (op == OVar) { VarSet *n = new VarSet; n->v.push_back((u32)c); vs = n; }
  if (a) vs = a->vars;
  if (b) vs = unionSet(vs, b->vars);
  if (d) vs = unionSet(vs, d->vars);
  e->vars = vs;
  etab.emplace(k, e);
  return e;
}
static E mkc(u64 v, unsigned w) { return raw(OConst, w, v & maskw(w)); }
static bool isc(E e) { return e->op == OConst; }
static u64 foldbin(Op op, u64 x, u64 y, unsigned w) {
  u64 m = maskw(w); x &= m; y &= m;
  i64 sx = sext64(x, w), sy = sext64(y, w);
  switch (op) {
    case OAdd: return (x + y) & m; case OSub: return (x - y) & m; case OMul: return (x * y) & m;
    case OUDiv: return y ? (x / y) & m : m;
    case OURem: return y ? (x % y) & m : x;
    case OSDiv: if (!y) return sx >= 0 ? m : 1; if (sy == -1) return (0 - x) & m; return (u64)(sx / sy) & m;
    case OSRem: if (!y) return x; if (sy == -1) return 0; return (u64)(sx % sy) & m;
    case OAnd: return x & y; case OOr: return x | y; case OXor: return x ^ y;
    case OShl: return y >= w ? 0 : (x << y) & m;
    case OLShr: return y >= w ? 0 : (x >> y);
    case OAShr: return y >= w ? (sx < 0 ? m : 0) : (u64)(sx >> y) & m;
    case OEq: return x == y; case OUlt: return x < y; case OUle: return x <= y; case OSlt: return sx < sy; case OSle: return sx <= sy;
    default: abort();
  }
}
static E mkExtract(E a, unsigned lo, unsigned w);
static E mkIte(E c, E a, E b);
static E mkBin(Op op, E a, E b);
static E mkNot(E a) { return mkBin(OXor, a, mkc(~0ull, a->w)); }
static E mkZExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isc(a)) return mkc(a->c, w);
  if (a->op == OZExt) return mkZExt(a->a, w);
  if (a->op == OIte && isc(a->b) && isc(a->d)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->d, w));
  return raw(OZExt, w, 0, a);
}
static E mkSExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isc(a)) return mkc((u64)sext64(a->c, a->w), w);
  if (a->op == OZExt) return mkZExt(a->a, w);
  if (a->op == OIte && isc(a->b) && isc(a->d)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->d, w));
  return raw(OSExt, w, 0, a);
}
static E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isc(hi) && isc(lo)) return mkc((hi->c << lo->w) | lo->c, w);
  if (isc(hi) && hi->c == 0) return mkZExt(lo, w);
  if (hi->op == OExtract && lo->op == OExtract && hi->a == lo->a && hi->c == lo->c + lo->w) return mkExtract(hi->a, lo->c, w);
  if (lo->op == OConcat && hi->op == OExtract && lo->a->op == OExtract && hi->a == lo->a->a && hi->c == lo->a->c + lo->a->w)
    return mkConcat(mkExtract(hi->a, lo->a->c, hi->w + lo->a->w), lo->b);
  if (hi->op == OExtract && hi->a == lo && hi->c == lo->w) return hi->a->w == w ? hi->a : raw(OConcat, w, 0, hi, lo);
  return raw(OConcat, w, 0, hi, lo);
}
static E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isc(a)) return mkc(a->c >> lo, w);
  switch (a->op) {
    case OExtract: return mkExtract(a->a, lo + a->c, w);
    case OZExt:
      if (lo >= a->a->w) return mkc(0, w);
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
    case OSExt:
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      break;
    case OConcat:
      if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
      if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
    case OIte: if (isc(a->b) || isc(a->d)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w)); break;
    case OAnd: case OOr: case OXor: if (isc(a->a)) return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w)); break;
    case OAdd: if (lo == 0 && isc(a->a)) return mkBin(OAdd, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    default: break;
  }
  return raw(OExtract, w, lo, a);
}
static E mkIte(E c, E a, E b) {
  if (isc(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->w == 1 && isc(a) && isc(b)) return a->c ? c : mkNot(c);
  if (c->op == OXor && isc(c->a)) return mkIte(c->b, b, a); // not
  return raw(OIte, a->w, 0, c, a, b);
}
static bool commut(Op o) { return o == OAdd || o == OMul || o == OAnd || o == OOr || o == OXor || o == OEq; }
static E mkBin(Op op, E a, E b) {
  unsigned w = a->w;
  bool cmp = op >= OEq && op <= OSle;
  if (a->w != b->w) engineError("width mismatch in mkBin");
  if (isc(a) && isc(b)) return mkc(foldbin(op, a->c, b->c, w), cmp ? 1 : w);
  if (commut(op)) { if (isc(b)) std::swap(a, b); else if (!isc(a) && a->id > b->id) std::swap(a, b); }
  u64 m = maskw(w);
  if (isc(a) && b->op == OIte && isc(b->b) && isc(b->d)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->d));
  if (isc(b) && a->op == OIte && isc(a->b) && isc(a->d)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->d, b));
  switch (op) {
    case OAdd:
      if (isc(a) && a->c == 0) return b;
      if (isc(a) && b->op == OAdd && isc(b->a)) return mkBin(OAdd, mkc(a->c + b->a->c, w), b->b);
      break;
    case OSub:
      if (a == b) return mkc(0, w);
      if (isc(b)) return mkBin(OAdd, mkc(0 - b->c, w), a);
      break;
    case OMul:
      if (isc(a)) { if (a->c == 0) return a; if (a->c == 1) return b; }
      break;
    case OAnd:
      if (a == b) return a;
      if (isc(a)) {
        if (a->c == 0) return a; if (a->c == m) return b;
        if (b->op == OZExt) { u64 sm = maskw(b->a->w); if ((a->c & sm) == sm) return b; return mkZExt(mkBin(OAnd, mkc(a->c, b->a->w), b->a), w); }
        if (b->op == OAnd && isc(b->a)) return mkBin(OAnd, mkc(a->c & b->a->c, w), b->b);
        if (b->op == OConcat && (a->c & maskw(b->b->w)) == 0)
          return mkConcat(mkBin(OAnd, mkc(a->c >> b->b->w, b->a->w), b->a), mkc(0, b->b->w));
        if (((a->c + 1) & a->c) == 0) { unsigned k = 64 - __builtin_clzll(a->c); return mkZExt(mkExtract(b, 0, k), w); }
      }
      break;
    case OOr:
      if (a == b) return a;
      if (isc(a)) { if (a->c == 0) return b; if (a->c == m) return a; }
      break;
    case OXor:
      if (a == b) return mkc(0, w);
      if (isc(a)) { if (a->c == 0) return b; if (b->op == OXor && isc(b->a)) return mkBin(OXor, mkc(a->c ^ b->a->c, w), b->b);
        if (w == 1) {
          if (b->op == OUlt) return mkBin(OUle, b->b, b->a);
          if (b->op == OUle) return mkBin(OUlt, b->b, b->a);
          if (b->op == OSlt) return mkBin(OSle, b->b, b->a);
          if (b->op == OSle) return mkBin(OSlt, b->b, b->a);
        } }
      break;
    case OShl:
      if (isc(b)) { if (b->c == 0) return a; if (b->c >= w) return mkc(0, w); return mkConcat(mkExtract(a, 0, w - b->c), mkc(0, b->c)); }
      break;
    case OLShr:
      if (isc(b)) { if (b->c == 0) return a; if (b->c >= w) return mkc(0, w); return mkZExt(mkExtract(a, b->c, w - b->c), w); }
      break;
    case OAShr:
      if (isc(b) && b->c == 0) return a;
      if (a->op == OZExt) return mkBin(OLShr, a, b);
      break;
    case OEq:
      if (a == b) return mkc(1, 1);
      if (isc(a)) {
        if (w == 1) return a->c ? b : mkNot(b);
        if (b->op == OZExt) { if (a->c & ~maskw(b->a->w)) return mkc(0, 1); return mkBin(OEq, mkc(a->c, b->a->w), b->a); }
        if (b->op == OSExt) { u64 lo = a->c & maskw(b->a->w); if (((u64)sext64(lo, b->a->w) & m) != a->c) return mkc(0, 1); return mkBin(OEq, mkc(lo, b->a->w), b->a); }
        if (b->op == OAdd && isc(b->a)) return mkBin(OEq, mkc(a->c - b->a->c, w), b->b);
        if (b->op == OXor && isc(b->a)) return mkBin(OEq, mkc(a->c ^ b->a->c, w), b->b);
        if (b->op == OConcat && (isc(b->a) || isc(b->b)))
          return mkBin(OAnd, mkBin(OEq, mkc(a->c >> b->b->w, b->a->w), b->a), mkBin(OEq, mkc(a->c, b->b->w), b->b));
      } else if (a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkBin(OEq, a->a, b->a);
      break;
    case OUlt:
      if (a == b) return mkc(0, 1);
      if (isc(b)) { if (b->c == 0) return mkc(0, 1); if (b->c == 1) return mkBin(OEq, mkc(0, w), a);
        if (a->op == OZExt) { if (b->c > maskw(a->a->w)) return mkc(1, 1); return mkBin(OUlt, a->a, mkc(b->c, a->a->w)); } }
      if (isc(a)) { if (a->c == m) return mkc(0, 1);
        if (b->op == OZExt) { if (a->c >= maskw(b->a->w)) return mkc(0, 1); return mkBin(OUlt, mkc(a->c, b->a->w), b->a); } }
      if (a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkBin(OUlt, a->a, b->a);
      break;
    case OUle:
      if (a == b) return mkc(1, 1);
      if (isc(b)) { if (b->c == m) return mkc(1, 1); return mkBin(OUlt, a, mkc(b->c + 1, w)); }
      if (isc(a)) { if (a->c == 0) return mkc(1, 1); return mkBin(OUlt, mkc(a->c - 1, w), b); }
      if (a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkBin(OUle, a->a, b->a);
      break;
    case OSlt: case OSle:
      if (a == b) return mkc(op == OSle, 1);
      if (a->op == OZExt && isc(b)) { if (sext64(b->c, w) < 0) return mkc(0, 1); return mkBin(op == OSlt ? OUlt : OUle, a, b); }
      if (b->op == OZExt && isc(a)) { if (sext64(a->c, w) < 0) return mkc(1, 1); return mkBin(op == OSlt ? OUlt : OUle, a, b); }
      if (a->op == OZExt && b->op == OZExt) return mkBin(op == OSlt ? OUlt : OUle, a, b);
      break;
    default: break;
  }
  return raw(op, cmp ? 1 : w, 0, a, b);
}

// ---------------------------------------------------------------- models and evaluation
static std::vector<u64> model;   // var id -> value on the current path
static u32 evalGen = 1;
static const std::vector<u64> *evalM;
static u64 evalRec(E e) {
  if (e->op == OConst) return e->c;
  if (e->gen == evalGen) return e->val;
  u64 r;
  switch (e->op) {
    case OVar: r = e->c < evalM->size() ? (*evalM)[e->c] & maskw(e->w) : 0; break;
    case OConcat: r = (evalRec(e->a) << e->b->w) | evalRec(e->b); break;
    case OExtract: r = (evalRec(e->a) >> e->c) & maskw(e->w); break;
    case OZExt: r = evalRec(e->a); break;
    case OSExt: r = (u64)sext64(evalRec(e->a), e->a->w) & maskw(e->w); break;
    case OIte: r = evalRec(e->a) ? evalRec(e->b) : evalRec(e->d); break;
    default: r = foldbin(e->op, evalRec(e->a), evalRec(e->b), e->a->w); break;
  }
  e->gen = evalGen; e->val = r;
  return r;
}
static u64 evalIn(E e, const std::vector<u64> &m) { evalGen++; evalM = &m; return evalRec(e); }

// ---------------------------------------------------------------- solver
static Z3_context ctx; static Z3_solver slv; static Z3_sort sorts[65];
static std::vector<E> constraints;   // path condition
static unsigned solverTimeoutMs = 120000; static double graceS = 10;
static Z3_sort sortOf(unsigned w) { return sorts[w]; }
static void initZ3() {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { engineError(std::string("z3: ") + Z3_get_error_msg(c, e)); });
  for (int i = 1; i <= 64; i++) sorts[i] = Z3_mk_bv_sort(ctx, i);
  slv = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, slv);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), solverTimeoutMs);
  Z3_solver_set_params(ctx, slv, p);
}
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, sorts[1]), Z3_mk_unsigned_int64(ctx, 0, sorts[1])); }
static Z3_ast toZ3(E e) {
  if (e->z) return e->z;
  Z3_ast r;
  switch (e->op) {
    case OConst: r = Z3_mk_unsigned_int64(ctx, e->c, sortOf(e->w)); break;
    case OVar: { char n[48]; snprintf(n, sizeof n, "v%llu_%u", (unsigned long long)e->c, e->w); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), sortOf(e->w)); break; }
    case OConcat: r = Z3_mk_concat(ctx, toZ3(e->a), toZ3(e->b)); break;
    case OExtract: r = Z3_mk_extract(ctx, e->c + e->w - 1, e->c, toZ3(e->a)); break;
    case OZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, toZ3(e->a)); break;
    case OSExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, toZ3(e->a)); break;
    case OIte: r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, toZ3(e->a), Z3_mk_unsigned_int64(ctx, 1, sorts[1])), toZ3(e->b), toZ3(e->d)); break;
    default: {
      Z3_ast x = toZ3(e->a), y = toZ3(e->b);
      switch (e->op) {
        case OAdd: r = Z3_mk_bvadd(ctx, x, y); break; case OSub: r = Z3_mk_bvsub(ctx, x, y); break; case OMul: r = Z3_mk_bvmul(ctx, x, y); break;
        case OUDiv: r = Z3_mk_bvudiv(ctx, x, y); break; case OSDiv: r = Z3_mk_bvsdiv(ctx, x, y); break;
        case OURem: r = Z3_mk_bvurem(ctx, x, y); break; case OSRem: r = Z3_mk_bvsrem(ctx, x, y); break;
        case OAnd: r = Z3_mk_bvand(ctx, x, y); break; case OOr: r = Z3_mk_bvor(ctx, x, y); break; case OXor: r = Z3_mk_bvxor(ctx, x, y); break;
        case OShl: r = Z3_mk_bvshl(ctx, x, y); break; case OLShr: r = Z3_mk_bvlshr(ctx, x, y); break; case OAShr: r = Z3_mk_bvashr(ctx, x, y); break;
        case OEq: r = b2bv(Z3_mk_eq(ctx, x, y)); break;
        case OUlt: r = b2bv(Z3_mk_bvult(ctx, x, y)); break; case OUle: r = b2bv(Z3_mk_bvule(ctx, x, y)); break;
        case OSlt: r = b2bv(Z3_mk_bvslt(ctx, x, y)); break; case OSle: r = b2bv(Z3_mk_bvsle(ctx, x, y)); break;
        default: abort();
      }
    }
  }
  Z3_inc_ref(ctx, r);
  e->z = r;
  return r;
}
static Z3_ast toBool(E e) {
  switch (e->op) {
    case OEq: return Z3_mk_eq(ctx, toZ3(e->a), toZ3(e->b));
    case OUlt: return Z3_mk_bvult(ctx, toZ3(e->a), toZ3(e->b));
    case OUle: return Z3_mk_bvule(ctx, toZ3(e->a), toZ3(e->b));
    case OSlt: return Z3_mk_bvslt(ctx, toZ3(e->a), toZ3(e->b));
    case OSle: return Z3_mk_bvsle(ctx, toZ3(e->a), toZ3(e->b));
    case OXor: if (e->w == 1 && isc(e->a) && e->a->c) return Z3_mk_not(ctx, toBool(e->b)); break;
    case OAnd: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; return Z3_mk_and(ctx, 2, x); }
    case OOr: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; return Z3_mk_or(ctx, 2, x); }
    default: break;
  }
  return Z3_mk_eq(ctx, toZ3(e), Z3_mk_unsigned_int64(ctx, 1, sorts[1]));
}
struct QRes { bool sat; std::vector<std::pair<u32, u64>> m; };
static std::unordered_map<std::string, QRes> qcache;
static std::unordered_map<u32, Z3_ast> named;
// Is (constraints && cond) satisfiable?  On sat, *out becomes a full model.
static bool query(E cond, std::vector<u64> *out) {
  if (isc(cond)) { if (cond->c && out) *out = model; return cond->c; }
  std::vector<E> slice; slice.push_back(cond);
  std::vector<u32> vars = cond->vars->v;
  {
    std::vector<bool> used(constraints.size(), false);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < constraints.size(); i++) {
        if (used[i]) continue;
        const auto &cv = constraints[i]->vars->v;
        bool inter = false;
        size_t x = 0, y = 0;
        while (x < cv.size() && y < vars.size()) { if (cv[x] == vars[y]) { inter = true; break; } if (cv[x] < vars[y]) x++; else y++; }
        if (inter) {
          used[i] = true; slice.push_back(constraints[i]);
          std::vector<u32> nv; std::set_union(cv.begin(), cv.end(), vars.begin(), vars.end(), std::back_inserter(nv));
          if (nv.size() != vars.size()) { vars.swap(nv); ch = true; }
        }
      }
    }
  }
  std::vector<u32> ids; for (E e : slice) ids.push_back(e->id);
  std::sort(ids.begin() + 1, ids.end());
  std::string key((char *)ids.data(), ids.size() * 4);
  auto it = qcache.find(key);
  QRes *r;
  if (it != qcache.end()) { r = &it->second; sh->qcached++; }
  else {
    double t0 = now();
    // Each condition is asserted once under a name of its own; a query assumes the names.
    if (named.size() > 400 + 2 * slice.size()) { Z3_solver_reset(ctx, slv); for (auto &x : named) Z3_dec_ref(ctx, x.second); named.clear(); }
    std::vector<Z3_ast> as;
    for (E e : slice) {
      Z3_ast &lit = named[e->id];
      if (!lit) {
        char n[32]; snprintf(n, sizeof n, "p%u", e->id);
        lit = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), Z3_mk_bool_sort(ctx));
        Z3_inc_ref(ctx, lit);
        Z3_solver_assert(ctx, slv, Z3_mk_implies(ctx, lit, toBool(e)));
      }
      as.push_back(lit);
    }
    Z3_lbool res = Z3_solver_check_assumptions(ctx, slv, as.size(), as.data());
    QRes q;
    if (res == Z3_L_UNDEF) engineError("solver returned unknown (timeout)");
    q.sat = res == Z3_L_TRUE;
    if (q.sat) {
      Z3_model m = Z3_solver_get_model(ctx, slv); Z3_model_inc_ref(ctx, m);
      for (u32 v : vars) {
        Z3_ast val; u64 x = 0;
        if (Z3_model_eval(ctx, m, toZ3(symexprs[v]), true, &val)) { if (!Z3_get_numeral_uint64(ctx, val, (uint64_t *)&x)) x = 0; }
        q.m.push_back({v, x});
      }
      Z3_model_dec_ref(ctx, m);
    }
    sh->queries++; if (q.sat) sh->qsat++; else sh->qunsat++;
    sh->solver_us += (u64)((now() - t0) * 1e6);
    if (qcache.size() > 200000) qcache.clear();
    r = &qcache.emplace(std::move(key), std::move(q)).first->second;
  }
  if (r->sat && out) {
    *out = model;
    for (auto &p : r->m) { if (out->size() <= p.first) out->resize(p.first + 1, 0); (*out)[p.first] = p.second; }
  }
  return r->sat;
}

// ---------------------------------------------------------------- memory
struct Val { u64 c; E e; };
static inline Val cv(u64 c) { return Val{c, nullptr}; }
static inline Val ev(E e) { return isc(e) ? Val{e->c, nullptr} : Val{0, e}; }
static inline E asE(Val v, unsigned w) { return v.e ? v.e : mkc(v.c, w); }

enum { PSH = 8, PSZ = 256 };
enum ObjKind : u8 { KHeap, KStack, KGlobal, KConst };
struct Obj { u64 base, size; ObjKind kind; bool live; u32 tag; };
struct Page { u32 epoch; u32 cap; bool hasSym, allInit; u8 *data, *st; E *sym; };
struct Slot { Obj *obj; Page *page; u32 epoch; };
struct Region { u64 base; std::vector<Slot> slots; u64 top; };
static Region heap{0x100000000ull, {}, 0}, stk{0x7f0000000000ull, {}, 0};
static u32 curEpoch = 1;
static u64 liveHeap = 0, liveBytes = 0;

struct TrailEnt { u8 kind; Region *rg; u64 idx; Slot slot; Obj *obj; Obj old; E e; };
static std::vector<TrailEnt> trail;
static bool haveChoices();

static Page *newPage(u32 cap) {
  Page *p = (Page *)malloc(sizeof(Page) + 2 * cap);
  p->epoch = curEpoch; p->cap = cap; p->hasSym = false; p->allInit = false;
  p->data = (u8 *)(p + 1); p->st = p->data + cap; p->sym = nullptr;
  memset(p->data, 0, 2 * cap);
  return p;
}
static void delPage(Page *p) { if (!p) return; if (p->sym) free(p->sym); free(p); }
static Page *clonePage(Page *o) {
  Page *p = newPage(o->cap);
  memcpy(p->data, o->data, 2 * o->cap);
  p->allInit = o->allInit; p->hasSym = o->hasSym;
  if (o->sym) { p->sym = (E *)malloc(sizeof(E) * o->cap); memcpy(p->sym, o->sym, sizeof(E) * o->cap); }
  return p;
}
static void logSlot(Region &rg, u64 i) {
  Slot &s = rg.slots[i];
  if (s.epoch == curEpoch || !haveChoices()) return;
  TrailEnt t{}; t.kind = 0; t.rg = &rg; t.idx = i; t.slot = s; trail.push_back(t);
  s.epoch = curEpoch;
}
static u64 allocObj(Region &rg, u64 size, ObjKind k, u32 tag) {
  u64 np = (size + PSZ - 1) >> PSH; if (np == 0) np = 1;
  u64 first = rg.top, need = rg.top + np + 1;
  if (rg.slots.size() < need) rg.slots.resize(std::max<u64>(need, rg.slots.size() + rg.slots.size() / 2), Slot{nullptr, nullptr, 0});
  Obj *o = new Obj{rg.base + (first << PSH), size, k, true, curEpoch};
  for (u64 i = 0; i <= np; i++) { logSlot(rg, first + i); Slot &s = rg.slots[first + i]; s.obj = i < np ? o : nullptr; s.page = nullptr; s.epoch = curEpoch; }
  rg.top = need;
  return o->base;
}
static inline Region *regionOf(u64 a) { return a >= stk.base ? &stk : a >= heap.base ? &heap : nullptr; }
static inline Slot *slotOf(u64 a) {
  Region *r = regionOf(a); if (!r) return nullptr;
  u64 i = (a - r->base) >> PSH;
  return i < r->top ? &r->slots[i] : nullptr;
}
static Page *wpage(Region *rg, u64 i) {
  Slot &s = rg->slots[i];
  if (!s.page) {
    u64 off = ((rg->base + (i << PSH))) - s.obj->base;
    logSlot(*rg, i);
    s.page = newPage((u32)std::min<u64>(PSZ, s.obj->size - off));
  } else if (s.page->epoch != curEpoch) {
    if (!haveChoices()) { s.page->epoch = curEpoch; return s.page; }
    logSlot(*rg, i);
    s.page = clonePage(s.page);
  }
  return s.page;
}
static void undoTo(size_t n) {
  while (trail.size() > n) {
    TrailEnt t = trail.back(); trail.pop_back();
    if (t.kind == 0) {
      Slot &s = t.rg->slots[t.idx];
      if (s.page && s.page != t.slot.page) delPage(s.page);
      if (s.obj && s.obj != t.slot.obj && s.obj->base == t.rg->base + (t.idx << PSH)) delete s.obj;
      s = t.slot;
    } else if (t.kind == 1) *t.obj = t.old;
    else if (t.kind == 2) { extern void eqErase(E); eqErase(t.e); }
  }
}
static std::unordered_map<E, u64> eqmap;
void eqErase(E e) { eqmap.erase(e); }
static void eqSet(E e, u64 v) {
  if (isc(e)) return;
  if (eqmap.emplace(e, v).second && haveChoices()) { TrailEnt t{}; t.kind = 2; t.e = e; trail.push_back(t); }
}
static void logObj(Obj *o) { if (!haveChoices()) return; TrailEnt t{}; t.kind = 1; t.obj = o; t.old = *o; trail.push_back(t); }

// ---------------------------------------------------------------- decoded program
struct Opd { bool k; u32 reg; u64 c; };
enum IK : u8 { IBin, ICmp, ISel, ICast, IGep, ILoad, IStore, IAlloca, IBr, ICondBr, ISwitch, IRet, ICall, IExtractV, IInsertV, IFreeze, IUnreach, IFBin, IFCmp, IFCast, IFNeg, ICopy };
struct Blk;
struct FuncInfo;
struct Inst {
  IK k; u8 w, w2, sub; u32 dst, nslots; std::vector<Opd> ops; std::vector<u64> aux; std::vector<unsigned> ws;
  Blk *t0, *t1; std::vector<Blk *> targets; FuncInfo *callee; int builtin; const Instruction *src; std::vector<u64> byval;
  std::vector<std::pair<u32,u32>> argspans;
};
struct PhiCopy { u32 dst; Opd src; };
struct Blk { u32 idx; std::vector<Inst> insts; std::map<Blk *, std::vector<PhiCopy>> phis; bool hasPhi; };
struct FuncInfo { Function *f; bool decoded = false; std::vector<Blk *> blks; u32 nregs = 0; std::vector<std::pair<u32, u32>> params; std::vector<u64> byval; u32 id; u64 addr; int builtin = -1; bool vararg; };

static Module *mod; static const DataLayout *DL;
static std::unordered_map<const GlobalValue *, u64> gaddr;
static std::unordered_map<u64, FuncInfo *> fbyaddr;
static std::unordered_map<const Function *, FuncInfo *> finfo;
static std::vector<FuncInfo *> fall;

struct Frame { FuncInfo *f; u32 rb; const Inst *pc; Blk *blk; u64 stkTop; u64 va; };
static std::vector<Frame> frames;
static std::vector<Val> regs;
static u64 pathInsts = 0, instLimit = 20000000, totalInsts = 0;

struct Alt { std::vector<E> conds; std::vector<u64> m; E known = nullptr; u64 kv = 0; };
struct Choice { std::vector<Frame> frames; std::vector<Val> regs; size_t trailN, consN, symN; u64 heapTop, stkTop, live, liveB, insts; std::vector<Alt> alts; };
static std::vector<Choice> choices;
static bool haveChoices() { return !choices.empty(); }

struct PathEnd { int kind; };      // C++ exceptions are off (llvm builds): use flags instead
static bool pathDone; static int pathKind; // 0 ok, 1 killed, 2 error
static int maxWorkers = 8; static std::string outDir; static double deadline = 1e300;
static std::vector<std::string> reachNames;
static bool uninitWarn = false;
static pid_t rootPid;
static std::vector<pid_t> kids;

static E newVar(const std::string &name, unsigned w, bool internal) {
  u32 id = symvars.size();
  symvars.push_back({name, w, internal});
  E e = raw(OVar, w, id);
  if (symexprs.size() <= id) symexprs.resize(id + 1, nullptr);
  symexprs[id] = e;
  if (model.size() <= id) model.resize(id + 1, 0);
  model[id] = 0;
  return e;
}
static void addConstraint(E c) {
  if (isc(c)) return;
  if (c->op == OAnd && c->w == 1) { addConstraint(c->a); addConstraint(c->b); return; }
  constraints.push_back(c);
  eqSet(c, 1);
  if (c->op == OXor && isc(c->a)) eqSet(c->b, 0);
  else if (c->op == OEq && isc(c->a)) eqSet(c->b, c->a->c);
  // complementary comparisons
  E n = mkNot(c); eqSet(n, 0);
}
static bool known(E e, u64 *v) {
  if (isc(e)) { *v = e->c; return true; }
  auto it = eqmap.find(e); if (it != eqmap.end()) { *v = it->second; return true; }
  if (e->w == 1) {
    if (e->op == OXor && isc(e->a)) { u64 x; if (known(e->b, &x)) { *v = !x; return true; } }
    if (e->op == OEq && isc(e->a)) { auto i2 = eqmap.find(e->b); if (i2 != eqmap.end()) { *v = i2->second == e->a->c; return true; } }
    if (e->op == OAnd) { u64 x, y; bool kx = known(e->a, &x), ky = known(e->b, &y); if ((kx && !x) || (ky && !y)) { *v = 0; return true; } if (kx && ky) { *v = 1; return true; } }
    if (e->op == OOr) { u64 x, y; bool kx = known(e->a, &x), ky = known(e->b, &y); if ((kx && x) || (ky && y)) { *v = 1; return true; } if (kx && ky) { *v = 0; return true; } }
  }
  return false;
}

// ---------------------------------------------------------------- reporting
static std::string locOf(const Instruction *I) {
  if (!I) return "?";
  std::string s;
  if (const DebugLoc &d = I->getDebugLoc()) {
    const DILocation *l = d.get();
    s = l->getFilename().str() + ":" + std::to_string(l->getLine()) + " (" + l->getScope()->getSubprogram()->getName().str() + ")";
    while ((l = l->getInlinedAt())) s += " < " + l->getFilename().str() + ":" + std::to_string(l->getLine()) + " (" + l->getScope()->getSubprogram()->getName().str() + ")";
  } else s = "in " + I->getFunction()->getName().str();
  return s;
}
static void writeInputs(FILE *f, const std::vector<u64> &m) {
  for (size_t i = 0; i < symvars.size(); i++) if (!symvars[i].internal)
    fprintf(f, "in %u %llu %s\n", symvars[i].w, (unsigned long long)(i < m.size() ? m[i] & maskw(symvars[i].w) : 0), symvars[i].name.c_str());
}
static void endPath(int kind) { pathDone = true; pathKind = kind; }
static void violation(const std::string &kind, const std::string &msg, const std::vector<u64> &m, const Instruction *I) {
  std::string where = locOf(I);
  std::string keys = kind + "|" + msg + "|" + where;
  u64 key = std::hash<std::string>()(keys);
  lockSh();
  bool dup = false; int n = sh->nviol;
  for (int i = 0; i < n; i++) if (sh->violKey[i] == key) dup = true;
  if (!dup && n < MAXVIOL) { if (!n) sh->firstViol = now(); sh->violKey[sh->nviol++] = key; }
  unlockSh();
  if (dup || n >= MAXVIOL) return;
  char fn[32]; snprintf(fn, sizeof fn, "/viol-%d.txt", n);
  FILE *f = fopen((outDir + fn).c_str(), "w");
  if (!f) engineError("cannot write violation file");
  fprintf(f, "kind %s\nmsg %s\nat %s\n", kind.c_str(), msg.c_str(), where.c_str());
  for (size_t i = frames.size(); i-- > 0;) fprintf(f, "stack %s\n", i + 1 == frames.size() ? where.c_str() : locOf((frames[i].pc)->src).c_str());
  writeInputs(f, m);
  fclose(f);
}
static void fail(const std::string &kind, const std::string &msg, const Instruction *I) {
  violation(kind, msg, model, I);
  endPath(2);
}

// ---------------------------------------------------------------- choice points
static void doRollback(Choice &c) {
  undoTo(c.trailN);
  // drop heap slots above the mark
  for (u64 i = heap.top; i-- > c.heapTop;) {
    Slot &s = heap.slots[i];
    delPage(s.page); s.page = nullptr;
    if (s.obj && s.obj->base == heap.base + (i << PSH)) delete s.obj;
    s.obj = nullptr; s.epoch = 0;
  }
  heap.top = c.heapTop; stk.top = c.stkTop;
  frames = c.frames; regs = c.regs;
  constraints.resize(c.consN); symvars.resize(c.symN);
  liveHeap = c.live; liveBytes = c.liveB; pathInsts = c.insts;
  curEpoch++;
}
static void applyAlt(Alt &a) {
  model = a.m;
  if (model.size() < symvars.size()) model.resize(symvars.size(), 0);
  for (E e : a.conds) addConstraint(e);
  if (a.known) eqSet(a.known, a.kv);
}
static jmp_buf mainJmp;
static void tryShare() {
  if (sh->tokens <= 0) return;
  for (size_t i = 0; i < choices.size(); i++) {
    if (choices[i].alts.empty()) continue;
    int t = sh->tokens;
    while (t > 0 && !sh->tokens.compare_exchange_weak(t, t - 1)) {}
    if (t <= 0) return;
    sh->insts += totalInsts; totalInsts = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { sh->tokens++; return; }
    if (p == 0) {
      kids.clear();
      Alt a = choices[i].alts.back();
      Choice c = std::move(choices[i]);
      doRollback(c);
      choices.clear(); trail.clear(); curEpoch++;
      applyAlt(a);
      sh->fibers++;
      pathDone = false;
      longjmp(mainJmp, 1);
    }
    kids.push_back(p);
    choices[i].alts.pop_back();
    return;
  }
}
// Fork on a set of alternatives; returns with alternative 0 applied.
static void forkAlts(std::vector<Alt> &alts) {
  if (alts.size() > 1) {
    sh->forks += alts.size() - 1;
    Choice c;
    c.frames = frames; c.regs = regs; c.trailN = trail.size(); c.consN = constraints.size(); c.symN = symvars.size();
    c.heapTop = heap.top; c.stkTop = stk.top; c.live = liveHeap; c.liveB = liveBytes; c.insts = pathInsts;
    for (size_t i = alts.size(); i-- > 1;) c.alts.push_back(std::move(alts[i]));
    choices.push_back(std::move(c));
    curEpoch++;
  }
  applyAlt(alts[0]);
  if (alts.size() > 1) tryShare();
}
static bool backtrack() {
  while (!choices.empty()) {
    Choice &c = choices.back();
    if (c.alts.empty()) { // restore so that ownership of pages is consistent, then drop
      doRollback(c); choices.pop_back(); continue;
    }
    Alt a = std::move(c.alts.back()); c.alts.pop_back();
    doRollback(c);
    if (c.alts.empty()) { choices.pop_back(); }
    applyAlt(a);
    return true;
  }
  return false;
}
static bool fromUninit(E e);
static const Instruction *curI;
static void fail2(const char *kind, const char *msg) { violation(kind, msg, model, curI); endPath(2); }
// Decide a 1-bit condition, forking when both are feasible.
// NOTE: when this forks the current instruction is re-executed for the other side.
static bool decide(E c) {
  u64 v;
  if (known(c, &v)) return v;
  sh->branches++;
  bool cur = evalIn(c, model);
  E nc = mkNot(c);
  std::vector<u64> om;
  bool other = query(cur ? nc : c, &om);
  if (other && fromUninit(c)) fail2("uninit", "behaviour depends on uninitialised memory");
  if (!other) { addConstraint(cur ? c : nc); eqSet(c, cur); return cur; } // implied; recording it is sound and speeds later lookups
  std::vector<Alt> alts(2);
  alts[0].conds = {cur ? c : nc}; alts[0].m = model; alts[0].known = c; alts[0].kv = cur;
  alts[1].conds = {cur ? nc : c}; alts[1].m = om; alts[1].known = c; alts[1].kv = !cur;
  forkAlts(alts);
  u64 r; if (!known(c, &r)) engineError("decide: undecided after fork");
  return r;
}
// All feasible values of e (forks).
static u64 concretize(E e, unsigned limit = 4096) {
  u64 v;
  if (known(e, &v)) return v;
  sh->branches++;
  std::vector<Alt> alts;
  size_t base = constraints.size();
  u64 v0 = evalIn(e, model);
  Alt a0; a0.conds = {mkBin(OEq, mkc(v0, e->w), e)}; a0.m = model; a0.known = e; a0.kv = v0; alts.push_back(a0);
  std::vector<E> saved = constraints;
  constraints.push_back(mkNot(mkBin(OEq, mkc(v0, e->w), e)));
  std::vector<u64> om;
  while (true) {
    E last = constraints.back(); constraints.pop_back();
    bool s = isc(last) ? last->c : query(last, &om);
    if (!s) break;
    constraints.push_back(last);
    if (fromUninit(e)) { fail2("uninit", "behaviour depends on uninitialised memory"); break; }
    u64 x = evalIn(e, om);
    Alt a; a.conds = {mkBin(OEq, mkc(x, e->w), e)}; a.m = om; a.known = e; a.kv = x; alts.push_back(a);
    if (alts.size() > limit) engineError("too many values to concretise at " + locOf(frames.back().pc->src));
    constraints.push_back(mkNot(mkBin(OEq, mkc(x, e->w), e)));
  }
  constraints = saved; (void)base;
  forkAlts(alts);
  if (!known(e, &v)) engineError("concretize: undecided");
  return v;
}
static bool fromUninit(E e) {
  for (u32 v : e->vars->v) if (symvars[v].internal && symvars[v].name == "uninit") return true;
  return false;
}
static u64 conc(Val v) { return v.e ? concretize(v.e) : v.c; }

// ---------------------------------------------------------------- loads and stores
static bool access(u64 a, u64 n, bool wr, const char *what) {
  sh->memchecks.fetch_add(1, std::memory_order_relaxed);
  Slot *s = slotOf(a);
  if (!s || !s->obj) { fail(a < 4096 ? "null-deref" : "out-of-bounds", std::string(what) + (a < 4096 ? " through null pointer" : " outside any object"), curI); return false; }
  Obj *o = s->obj;
  if (!o->live) { fail("use-after-free", std::string(what) + " of freed memory", curI); return false; }
  if (a < o->base || a + n > o->base + o->size) { fail("out-of-bounds", std::string(what) + " past the end of an object", curI); return false; }
  if (wr && o->kind == KConst) { fail("write-const", "write to constant", curI); return false; }
  return true;
}
static inline E byteAt(Region *rg, u64 i, u32 off) { // returns expr for symbolic/uninit byte; null + *c for concrete
  Slot &s = rg->slots[i];
  Page *p = s.page;
  if (!p || p->st[off] == 0) {
    p = wpage(rg, i);
    if (!p->sym) p->sym = (E *)calloc(p->cap, sizeof(E));
    p->sym[off] = newVar("uninit", 8, true); p->st[off] = 2; p->hasSym = true;
    return p->sym[off];
  }
  if (p->st[off] == 2) return p->sym[off];
  return nullptr;
}
static bool loadBytes(u64 a, unsigned n, Val *out) { // n <= 8, checked already
  Region *rg = regionOf(a);
  u64 i = (a - rg->base) >> PSH; u32 off = a & (PSZ - 1);
  Page *p = rg->slots[i].page;
  if (p && off + n <= p->cap && !p->hasSym) {
    bool ok = true;
    for (unsigned k = 0; k < n; k++) if (p->st[off + k] != 1) { ok = false; break; }
    if (ok) { u64 v = 0; memcpy(&v, p->data + off, n); *out = cv(v); return true; }
  }
  E acc = nullptr; u64 cacc = 0;
  for (unsigned k = 0; k < n; k++) {
    u64 ad = a + k; u64 ii = (ad - rg->base) >> PSH; u32 oo = ad & (PSZ - 1);
    E b = byteAt(rg, ii, oo);
    u8 c = b ? 0 : rg->slots[ii].page->data[oo];
    if (!acc && !b) cacc |= (u64)c << (8 * k);
    else {
      E be = b ? b : mkc(c, 8);
      if (!acc) acc = k ? mkConcat(be, mkc(cacc, 8 * k)) : be;
      else acc = mkConcat(be, acc);
    }
  }
  *out = acc ? ev(acc) : cv(cacc);
  return true;
}
static void storeBytes(u64 a, unsigned n, Val v) {
  Region *rg = regionOf(a);
  u64 i = (a - rg->base) >> PSH; u32 off = a & (PSZ - 1);
  if (!v.e) {
    if (off + n <= PSZ) {
      Page *p = wpage(rg, i);
      memcpy(p->data + off, &v.c, n); memset(p->st + off, 1, n);
      return;
    }
    for (unsigned k = 0; k < n; k++) { u64 ad = a + k; Page *p = wpage(rg, (ad - rg->base) >> PSH); p->data[ad & (PSZ - 1)] = v.c >> (8 * k); p->st[ad & (PSZ - 1)] = 1; }
    return;
  }
  E e = v.e; if (e->w < 8 * n) e = mkZExt(e, 8 * n);
  for (unsigned k = 0; k < n; k++) {
    u64 ad = a + k; Page *p = wpage(rg, (ad - rg->base) >> PSH); u32 oo = ad & (PSZ - 1);
    E b = mkExtract(e, 8 * k, 8);
    if (isc(b)) { p->data[oo] = b->c; p->st[oo] = 1; continue; }
    if (!p->sym) p->sym = (E *)calloc(p->cap, sizeof(E));
    p->sym[oo] = b; p->st[oo] = 2; p->hasSym = true;
  }
}
static void copyBytes(u64 d, u64 s, u64 n) {
  if (!n) return;
  struct B { u8 st, c; E e; };
  std::vector<B> buf(n);
  Region *rs = regionOf(s), *rd = regionOf(d);
  for (u64 k = 0; k < n; k++) {
    u64 ad = s + k; Slot &sl = rs->slots[(ad - rs->base) >> PSH]; u32 oo = ad & (PSZ - 1);
    if (!sl.page) buf[k] = {0, 0, nullptr};
    else buf[k] = {sl.page->st[oo], sl.page->data[oo], sl.page->st[oo] == 2 ? sl.page->sym[oo] : nullptr};
  }
  for (u64 k = 0; k < n; k++) {
    u64 ad = d + k; u64 i = (ad - rd->base) >> PSH; u32 oo = ad & (PSZ - 1);
    if (buf[k].st == 0) { Slot &sl = rd->slots[i]; if (!sl.page || sl.page->st[oo] == 0) continue; Page *p = wpage(rd, i); p->st[oo] = 0; continue; }
    Page *p = wpage(rd, i);
    p->st[oo] = buf[k].st; p->data[oo] = buf[k].c;
    if (buf[k].st == 2) { if (!p->sym) p->sym = (E *)calloc(p->cap, sizeof(E)); p->sym[oo] = buf[k].e; p->hasSym = true; }
  }
}
static void setBytes(u64 d, Val v, u64 n) {
  for (u64 k = 0; k < n;) {
    if (!v.e) { u64 ad = d + k; Region *rg = regionOf(ad); u32 oo = ad & (PSZ - 1); u64 m = std::min<u64>(n - k, PSZ - oo); Page *p = wpage(rg, (ad - rg->base) >> PSH); memset(p->data + oo, (u8)v.c, m); memset(p->st + oo, 1, m); k += m; }
    else { storeBytes(d + k, 1, v); k++; }
  }
}
static void popStack(u64 to) {
  for (u64 i = stk.top; i-- > to;) {
    Slot &s = stk.slots[i];
    bool owned = s.epoch == curEpoch || !haveChoices();
    if (owned) {
      // pages older than this epoch are still referenced from the trail
      if (s.page && (s.page->epoch == curEpoch || !haveChoices())) delPage(s.page);
      if (s.obj && s.obj->base == stk.base + (i << PSH) && (s.obj->tag == curEpoch || !haveChoices())) delete s.obj;
      s.page = nullptr; s.obj = nullptr;
    } else { logSlot(stk, i); s.page = nullptr; s.obj = nullptr; }
  }
  stk.top = to;
}
static std::string cstr(u64 a) {
  std::string s;
  for (int k = 0; k < 4000; k++) { Val v; if (!slotOf(a + k) || !slotOf(a + k)->obj) break; loadBytes(a + k, 1, &v); if (v.e) { s += '?'; continue; } if (!v.c) break; s += (char)v.c; }
  return s;
}
static u64 mallocN(u64 n) { liveHeap++; liveBytes += n; return allocObj(heap, n, KHeap, 0); }
static bool freeN(u64 p) {
  if (!p) return true;
  Slot *s = slotOf(p);
  if (!s || !s->obj) { fail("bad-free", "free of a pointer to no object", curI); return false; }
  Obj *o = s->obj;
  if (!o->live) { fail("double-free", "free of freed memory", curI); return false; }
  if (o->kind != KHeap || o->base != p) { fail("bad-free", "free of a pointer malloc did not return", curI); return false; }
  logObj(o); o->live = false; liveHeap--; liveBytes -= o->size;
  u64 i0 = (p - heap.base) >> PSH, np = (o->size + PSZ - 1) >> PSH; if (!np) np = 1;
  for (u64 i = i0; i < i0 + np; i++) {
    Slot &sl = heap.slots[i]; if (!sl.page) continue;
    if (!haveChoices() || sl.page->epoch == curEpoch) { delPage(sl.page); sl.page = nullptr; }
    else { logSlot(heap, i); sl.page = nullptr; }
  }
  return true;
}

// ---------------------------------------------------------------- decoding
static unsigned bitsOf(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) engineError("integer wider than 64 bits"); return w; }
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  std::string s; raw_string_ostream o(s); t->print(o); engineError("unsupported type " + o.str());
}
static void flatTypes(Type *t, std::vector<Type *> &out) {
  if (auto *st = dyn_cast<StructType>(t)) { for (Type *e : st->elements()) flatTypes(e, out); }
  else if (auto *at = dyn_cast<ArrayType>(t)) { for (u64 i = 0; i < at->getNumElements(); i++) flatTypes(at->getElementType(), out); }
  else if (!t->isVoidTy()) out.push_back(t);
}
static u32 slotsOf(Type *t) { std::vector<Type *> v; flatTypes(t, v); return v.size(); }
static u64 constVal(const Constant *c);
static u64 gepOffset(const GEPOperator *g) {
  APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) engineError("non-constant constant gep"); return off.getZExtValue();
}
static u64 constVal(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getValue().getZExtValue();
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    if (auto *al = dyn_cast<GlobalAlias>(gv)) return constVal(al->getAliasee());
    auto it = gaddr.find(gv); if (it == gaddr.end()) engineError("no address for global " + gv->getName().str()); return it->second; }
  if (auto *fp = dyn_cast<ConstantFP>(c)) return fp->getValueAPF().bitcastToAPInt().getZExtValue();
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: return constVal(ce->getOperand(0)) + gepOffset(cast<GEPOperator>(ce));
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast:
        return constVal(ce->getOperand(0)) & maskw(bitsOf(ce->getType()));
      case Instruction::Add: return constVal(ce->getOperand(0)) + constVal(ce->getOperand(1));
      case Instruction::Sub: return constVal(ce->getOperand(0)) - constVal(ce->getOperand(1));
      case Instruction::Trunc: return constVal(ce->getOperand(0)) & maskw(bitsOf(ce->getType()));
      case Instruction::ZExt: return constVal(ce->getOperand(0));
      case Instruction::ICmp: {
        u64 a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
        if (ce->getPredicate() == CmpInst::ICMP_EQ) return a == b; if (ce->getPredicate() == CmpInst::ICMP_NE) return a != b; break; }
      default: break;
    }
  }
  std::string s; raw_string_ostream o(s); c->print(o); engineError("unsupported constant " + o.str());
}
static void constFlat(const Constant *c, std::vector<Opd> &out) {
  Type *t = c->getType();
  if (t->isStructTy() || t->isArrayTy()) {
    u64 n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (u64 i = 0; i < n; i++) constFlat(c->getAggregateElement(i), out);
  } else out.push_back({true, 0, constVal(c)});
}
static void initGlobalMem(u64 a, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { setBytes(a, cv(0), DL->getTypeAllocSize(t)); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    const StructLayout *sl = DL->getStructLayout(cs->getType());
    setBytes(a, cv(0), DL->getTypeAllocSize(t));
    for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobalMem(a + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobalMem(a + i * es, ca->getOperand(i)); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    u64 es = cd->getElementByteSize();
    for (unsigned i = 0; i < cd->getNumElements(); i++) storeBytes(a + i * es, es, cv(cd->getElementType()->isIntegerTy() ? cd->getElementAsInteger(i) : cd->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue()));
    return;
  }
  storeBytes(a, DL->getTypeStoreSize(t), cv(constVal(c)));
}

enum BI { B_none = -1, B_malloc, B_calloc, B_realloc, B_free, B_memcpy, B_memmove, B_memset, B_abort, B_exit, B_assertfail,
  B_sx_int, B_sx_choose, B_sx_assume, B_sx_check, B_sx_reach, B_sx_bytes, B_sx_fail, B_sx_live, B_sx_conc, B_sx_trace, B_sx_symbolic, B_sx_livebytes, B_sx_depth, B_sx_prefer,
  B_memcmp0, B_nop, B_vastart, B_vaend, B_vacopy, B_minmax, B_abs, B_ctpop, B_ctlz, B_cttz, B_bswap, B_fshl, B_fshr, B_ovf, B_sat, B_expect, B_trap, B_objsize, B_fmuladd, B_fabs, B_stacksave, B_isconst };
static std::map<std::string, int> builtins = {
  {"malloc", B_malloc}, {"calloc", B_calloc}, {"realloc", B_realloc}, {"free", B_free}, {"memcpy", B_memcpy}, {"memmove", B_memmove}, {"memset", B_memset},
  {"abort", B_abort}, {"exit", B_exit}, {"_exit", B_exit}, {"__assert_fail", B_assertfail}, {"sx_int", B_sx_int}, {"sx_choose", B_sx_choose}, {"sx_assume", B_sx_assume},
  {"sx_check_", B_sx_check}, {"sx_reach", B_sx_reach}, {"sx_bytes", B_sx_bytes}, {"sx_fail", B_sx_fail}, {"sx_live_allocs", B_sx_live}, {"sx_concrete", B_sx_conc},
  {"sx_trace", B_sx_trace}, {"sx_is_symbolic", B_sx_symbolic}, {"sx_live_bytes", B_sx_livebytes}, {"sx_stack_depth", B_sx_depth}};

static FuncInfo *infoOf(Function *f);
static void decode(FuncInfo *fi) {
  fi->decoded = true;
  Function *F = fi->f;
  std::unordered_map<const Value *, u32> reg;
  u32 n = 0;
  for (auto &A : F->args()) { u32 s = slotsOf(A.getType()); reg[&A] = n; fi->params.push_back({n, s}); fi->byval.push_back(A.hasByValAttr() ? DL->getTypeAllocSize(A.getParamByValType()).getFixedValue() : 0); n += s; }
  for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) { reg[&I] = n; n += slotsOf(I.getType()); }
  fi->nregs = n;
  std::unordered_map<const BasicBlock *, Blk *> bm;
  for (auto &B : *F) { Blk *b = new Blk; b->idx = fi->blks.size(); fi->blks.push_back(b); bm[&B] = b; b->hasPhi = false; }
  auto opsOf = [&](const Value *v, std::vector<Opd> &out) {
    if (auto *c = dyn_cast<Constant>(v)) { constFlat(c, out); return; }
    if (isa<MetadataAsValue>(v)) { return; }
    auto it = reg.find(v); if (it == reg.end()) engineError("no register for operand in " + F->getName().str());
    u32 s = slotsOf(v->getType());
    for (u32 i = 0; i < s; i++) out.push_back({false, it->second + i, 0});
  };
  auto typeWs = [&](Type *t) { std::vector<Type *> v; flatTypes(t, v); std::vector<unsigned> r; for (Type *x : v) r.push_back(bitsOf(x)); return r; };
  for (auto &B : *F) {
    Blk *b = bm[&B];
    for (auto &I : B) {
      if (auto *P = dyn_cast<PHINode>(&I)) {
        b->hasPhi = true;
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
          std::vector<Opd> o; opsOf(P->getIncomingValue(i), o);
          auto &lst = b->phis[bm[P->getIncomingBlock(i)]];
          bool dupEdge = false; for (auto &pc : lst) if (pc.dst == reg[P]) dupEdge = true;
          if (dupEdge) continue;
          for (u32 k = 0; k < o.size(); k++) lst.push_back({reg[P] + k, o[k]});
        }
        continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
        switch (ii->getIntrinsicID()) { case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::prefetch: continue; default: break; }
      }
      Inst x; x.k = IUnreach; x.w = x.w2 = x.sub = 0; x.dst = ~0u; x.nslots = 0; x.t0 = x.t1 = nullptr; x.callee = nullptr; x.builtin = -1; x.src = &I;
      if (!I.getType()->isVoidTy()) { x.dst = reg[&I]; x.nslots = slotsOf(I.getType()); }
      if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
        opsOf(bo->getOperand(0), x.ops); opsOf(bo->getOperand(1), x.ops); x.w = bitsOf(bo->getType()); x.k = IBin;
        if (bo->getType()->isFloatingPointTy()) { x.k = IFBin; x.sub = bo->getOpcode(); }
        else switch (bo->getOpcode()) {
          case Instruction::Add: x.sub = OAdd; break; case Instruction::Sub: x.sub = OSub; break; case Instruction::Mul: x.sub = OMul; break;
          case Instruction::UDiv: x.sub = OUDiv; break; case Instruction::SDiv: x.sub = OSDiv; break; case Instruction::URem: x.sub = OURem; break; case Instruction::SRem: x.sub = OSRem; break;
          case Instruction::And: x.sub = OAnd; break; case Instruction::Or: x.sub = OOr; break; case Instruction::Xor: x.sub = OXor; break;
          case Instruction::Shl: x.sub = OShl; break; case Instruction::LShr: x.sub = OLShr; break; case Instruction::AShr: x.sub = OAShr; break;
          default: engineError("binop");
        }
      } else if (auto *ic = dyn_cast<ICmpInst>(&I)) {
        x.k = ICmp; opsOf(ic->getOperand(0), x.ops); opsOf(ic->getOperand(1), x.ops); x.w = bitsOf(ic->getOperand(0)->getType()); x.sub = ic->getPredicate();
      } else if (auto *fc = dyn_cast<FCmpInst>(&I)) {
        x.k = IFCmp; opsOf(fc->getOperand(0), x.ops); opsOf(fc->getOperand(1), x.ops); x.w = bitsOf(fc->getOperand(0)->getType()); x.sub = fc->getPredicate();
      } else if (auto *se = dyn_cast<SelectInst>(&I)) {
        x.k = ISel; opsOf(se->getCondition(), x.ops); opsOf(se->getTrueValue(), x.ops); opsOf(se->getFalseValue(), x.ops); x.ws = typeWs(se->getType());
      } else if (auto *ca = dyn_cast<CastInst>(&I)) {
        opsOf(ca->getOperand(0), x.ops); x.w = bitsOf(ca->getDestTy()); x.w2 = bitsOf(ca->getSrcTy());
        switch (ca->getOpcode()) {
          case Instruction::Trunc: case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: x.k = ICast; x.sub = 0; break;
          case Instruction::SExt: x.k = ICast; x.sub = 1; break;
          default: x.k = IFCast; x.sub = ca->getOpcode();
        }
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        x.k = IGep; opsOf(g->getPointerOperand(), x.ops);
        u64 off = 0;
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          Value *idx = gi.getOperand();
          if (StructType *st = gi.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
          u64 sc = DL->getTypeAllocSize(gi.getIndexedType());
          if (auto *cidx = dyn_cast<ConstantInt>(idx)) { off += (u64)cidx->getSExtValue() * sc; continue; }
          opsOf(idx, x.ops); x.aux.push_back(sc); x.ws.push_back(bitsOf(idx->getType()));
        }
        x.aux.push_back(off);
      } else if (auto *l = dyn_cast<LoadInst>(&I)) {
        x.k = ILoad; opsOf(l->getPointerOperand(), x.ops); x.ws = typeWs(l->getType()); x.w = x.ws.size() == 1 ? x.ws[0] : 0;
        if (x.ws.size() != 1) engineError("aggregate load");
        x.aux.push_back(DL->getTypeStoreSize(l->getType()));
      } else if (auto *s = dyn_cast<StoreInst>(&I)) {
        x.k = IStore; opsOf(s->getPointerOperand(), x.ops); size_t q = x.ops.size(); opsOf(s->getValueOperand(), x.ops); if (x.ops.size() != q + 1) engineError("aggregate store");
        x.w = bitsOf(s->getValueOperand()->getType()); x.aux.push_back(DL->getTypeStoreSize(s->getValueOperand()->getType()));
      } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
        x.k = IAlloca; opsOf(al->getArraySize(), x.ops); x.aux.push_back(DL->getTypeAllocSize(al->getAllocatedType())); x.w = bitsOf(al->getArraySize()->getType());
      } else if (auto *br = dyn_cast<BranchInst>(&I)) {
        if (br->isConditional()) { x.k = ICondBr; opsOf(br->getCondition(), x.ops); x.t0 = bm[br->getSuccessor(0)]; x.t1 = bm[br->getSuccessor(1)]; }
        else { x.k = IBr; x.t0 = bm[br->getSuccessor(0)]; }
      } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
        x.k = ISwitch; opsOf(sw->getCondition(), x.ops); x.w = bitsOf(sw->getCondition()->getType()); x.t0 = bm[sw->getDefaultDest()];
        for (auto &cs : sw->cases()) { x.aux.push_back(cs.getCaseValue()->getZExtValue()); x.targets.push_back(bm[cs.getCaseSuccessor()]); }
      } else if (auto *r = dyn_cast<ReturnInst>(&I)) {
        x.k = IRet; if (r->getReturnValue()) opsOf(r->getReturnValue(), x.ops);
      } else if (isa<UnreachableInst>(&I)) x.k = IUnreach;
      else if (auto *evi = dyn_cast<ExtractValueInst>(&I)) {
        x.k = ICopy; std::vector<Opd> o; opsOf(evi->getAggregateOperand(), o);
        Type *t = evi->getAggregateOperand()->getType(); u32 off = 0;
        for (unsigned ix : evi->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += slotsOf(st->getElementType(i)); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); off += ix * slotsOf(t); } }
        for (u32 i = 0; i < slotsOf(t); i++) x.ops.push_back(o[off + i]);
      } else if (auto *ivi = dyn_cast<InsertValueInst>(&I)) {
        x.k = ICopy; opsOf(ivi->getAggregateOperand(), x.ops); std::vector<Opd> o; opsOf(ivi->getInsertedValueOperand(), o);
        Type *t = ivi->getType(); u32 off = 0;
        for (unsigned ix : ivi->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += slotsOf(st->getElementType(i)); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); off += ix * slotsOf(t); } }
        for (u32 i = 0; i < o.size(); i++) x.ops[off + i] = o[i];
      } else if (isa<FreezeInst>(&I)) { x.k = ICopy; opsOf(I.getOperand(0), x.ops); }
      else if (I.getOpcode() == Instruction::FNeg) { x.k = IFNeg; opsOf(I.getOperand(0), x.ops); x.w = bitsOf(I.getType()); }
      else if (auto *cb = dyn_cast<CallInst>(&I)) {
        x.k = ICall;
        if (cb->isInlineAsm()) engineError("inline asm");
        Value *cvv = cb->getCalledOperand()->stripPointerCasts();
        Function *cf = dyn_cast<Function>(cvv);
        if (auto *al = dyn_cast<GlobalAlias>(cvv)) cf = dyn_cast<Function>(al->getAliasee());
        if (cf && cf->isIntrinsic()) {
          x.ws.clear();
          for (auto &a : cb->args()) { size_t q = x.ops.size(); opsOf(a, x.ops); x.argspans.push_back({q, x.ops.size() - q}); if (!a->getType()->isMetadataTy()) x.ws.push_back(a->getType()->isAggregateType() ? 0 : bitsOf(a->getType())); else x.ws.push_back(0); }
          if (!I.getType()->isVoidTy()) { auto ws = typeWs(I.getType()); x.w = ws[0]; }
          switch (cf->getIntrinsicID()) {
            case Intrinsic::memcpy: x.builtin = B_memcpy; break; case Intrinsic::memmove: x.builtin = B_memmove; break; case Intrinsic::memset: x.builtin = B_memset; break;
            case Intrinsic::vastart: x.builtin = B_vastart; break; case Intrinsic::vaend: x.builtin = B_nop; break; case Intrinsic::vacopy: x.builtin = B_vacopy; break;
            case Intrinsic::umin: x.builtin = B_minmax; x.sub = 0; break; case Intrinsic::umax: x.builtin = B_minmax; x.sub = 1; break;
            case Intrinsic::smin: x.builtin = B_minmax; x.sub = 2; break; case Intrinsic::smax: x.builtin = B_minmax; x.sub = 3; break;
            case Intrinsic::abs: x.builtin = B_abs; break; case Intrinsic::ctpop: x.builtin = B_ctpop; break; case Intrinsic::ctlz: x.builtin = B_ctlz; break; case Intrinsic::cttz: x.builtin = B_cttz; break;
            case Intrinsic::bswap: x.builtin = B_bswap; break; case Intrinsic::fshl: x.builtin = B_fshl; break; case Intrinsic::fshr: x.builtin = B_fshr; break;
            case Intrinsic::uadd_with_overflow: x.builtin = B_ovf; x.sub = 0; break; case Intrinsic::usub_with_overflow: x.builtin = B_ovf; x.sub = 1; break; case Intrinsic::umul_with_overflow: x.builtin = B_ovf; x.sub = 2; break;
            case Intrinsic::sadd_with_overflow: x.builtin = B_ovf; x.sub = 3; break; case Intrinsic::ssub_with_overflow: x.builtin = B_ovf; x.sub = 4; break;
            case Intrinsic::usub_sat: x.builtin = B_sat; x.sub = 0; break; case Intrinsic::uadd_sat: x.builtin = B_sat; x.sub = 1; break;
            case Intrinsic::expect: x.builtin = B_expect; break; case Intrinsic::trap: x.builtin = B_trap; break; case Intrinsic::stacksave: x.builtin = B_stacksave; break;
            case Intrinsic::fmuladd: x.builtin = B_fmuladd; break; case Intrinsic::is_constant: x.builtin = B_isconst; break;
            default: engineError("intrinsic " + cf->getName().str());
          }
        } else {
          for (unsigned i = 0; i < cb->arg_size(); i++) {
            Value *a = cb->getArgOperand(i);
            if (a->getType()->isMetadataTy()) continue;
            size_t q = x.ops.size(); opsOf(a, x.ops); x.argspans.push_back({(u32)q, (u32)(x.ops.size() - q)});
            x.ws.push_back(a->getType()->isAggregateType() ? 0 : bitsOf(a->getType()));
            x.byval.push_back(cb->isByValArgument(i) ? DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue() : 0);
          }
          if (!I.getType()->isVoidTy()) { auto ws = typeWs(I.getType()); x.w = ws.size() ? ws[0] : 0; }
          if (cf) { x.callee = infoOf(cf); x.builtin = x.callee->builtin;
            if (x.builtin < 0 && cf->isDeclaration()) x.builtin = 1000; /* error if executed */ }
          else { x.builtin = 2000; x.aux.push_back(0); std::vector<Opd> o; opsOf(cb->getCalledOperand(), o); x.ops.push_back(o[0]); }
        }
      } else { std::string s; raw_string_ostream o(s); I.print(o); engineError("unsupported instruction " + o.str()); }
      b->insts.push_back(std::move(x));
    }
  }
}
static FuncInfo *infoOf(Function *f) {
  auto it = finfo.find(f); if (it != finfo.end()) return it->second;
  engineError("unknown function " + f->getName().str());
}

// ---------------------------------------------------------------- interpreter
static inline Val rd(const Opd &o, u32 rb) { return o.k ? Val{o.c, nullptr} : regs[rb + o.reg]; }
static void jumpTo(Frame &fr, Blk *b) {
  if (b->hasPhi) {
    auto &cp = b->phis[fr.blk];
    Val tmp[64]; std::vector<Val> big; Val *t = tmp;
    if (cp.size() > 64) { big.resize(cp.size()); t = big.data(); }
    for (size_t i = 0; i < cp.size(); i++) t[i] = rd(cp[i].src, fr.rb);
    for (size_t i = 0; i < cp.size(); i++) regs[fr.rb + cp[i].dst] = t[i];
  }
  fr.blk = b; fr.pc = b->insts.data();
}
static void pushFrame(FuncInfo *fi, const std::vector<std::vector<Val>> &args, const std::vector<unsigned> &ws, const std::vector<u64> &byval) {
  if (!fi->decoded) decode(fi);
  if (fi->id < MAXFN) sh->fn[fi->id].store(1, std::memory_order_relaxed);
  if (frames.size() > 20000) { fail("stack-overflow", "call depth exceeds 20000", curI); return; }
  Frame nf; nf.f = fi; nf.rb = regs.size(); nf.stkTop = stk.top; nf.va = 0;
  regs.resize(regs.size() + fi->nregs, Val{0, nullptr});
  size_t np = fi->params.size();
  if (args.size() < np) { // tolerate missing args as zero
    if (!fi->f->isVarArg()) engineError("too few arguments calling " + fi->f->getName().str());
  }
  for (size_t i = 0; i < np && i < args.size(); i++) {
    std::vector<Val> a = args[i];
    if (fi->byval[i]) {
      u64 src = conc(a[0]); u64 dst = allocObj(stk, fi->byval[i], KStack, 0);
      if (!access(src, fi->byval[i], false, "read")) return;
      copyBytes(dst, src, fi->byval[i]); a[0] = cv(dst);
    }
    for (u32 k = 0; k < fi->params[i].second && k < a.size(); k++) regs[nf.rb + fi->params[i].first + k] = a[k];
  }
  if (fi->f->isVarArg()) {
    u64 n = 0; for (size_t i = np; i < args.size(); i++) n += byval[i] ? (byval[i] + 7) / 8 : args[i].size();
    u64 area = allocObj(stk, n * 8 + 8, KStack, 0); u64 p = area;
    for (size_t i = np; i < args.size(); i++) {
      if (byval[i]) { u64 src = conc(args[i][0]); if (!access(src, byval[i], false, "read")) return; copyBytes(p, src, byval[i]); p += (byval[i] + 7) / 8 * 8; }
      else for (auto &v : args[i]) { Val q = v; if (q.e && q.e->w < 64) q.e = mkZExt(q.e, 64); storeBytes(p, 8, q); p += 8; }
    }
    nf.va = area;
  }
  nf.blk = fi->blks[0]; nf.pc = nf.blk->insts.data();
  frames.push_back(nf);
}
static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static u64 ackReach(const std::string &s) {
  for (size_t i = 0; i < reachNames.size(); i++) if (reachNames[i] == s) return i;
  reachNames.push_back(s); return reachNames.size() - 1;
}
static void writeReach(const std::string &s) { // shared by name via file marker
  static std::set<std::string> seen;
  if (seen.insert(s).second) { std::string fn = outDir + "/reach/" + s; FILE *f = fopen(fn.c_str(), "a"); if (f) fclose(f); }
}

static bool memAccess(Val pv, u64 n, bool wr, u64 *addr) {
  u64 a = pv.e ? concretize(pv.e) : pv.c;
  if (!access(a, n, wr, wr ? "write" : "read")) return false;
  *addr = a; return true;
}

static void doCheck(Val v, unsigned w, const std::string &msg) {
  if (!v.e) { sh->checksConc++; if (!v.c) fail("check", msg, curI); return; }
  E c = v.e; if (w > 1) c = mkNot(mkBin(OEq, mkc(0, c->w), c));
  u64 k; if (known(c, &k)) { sh->checksConc++; if (!k) fail("check", msg, curI); return; }
  sh->checksSym++;
  std::vector<u64> m;
  E n = mkNot(c);
  if (!evalIn(c, model)) { violation("check", msg, model, curI); if (!query(c, &m)) { endPath(2); return; } model = m; }
  else if (query(n, &m)) { violation("check", msg, m, curI); }
  addConstraint(c);
}

static void callBuiltin(const Inst &I, Frame &fr) {
  u32 rb = fr.rb;
  auto A = [&](unsigned i) { return rd(I.ops[I.argspans[i].first], rb); };
  auto R = [&](Val v) { if (I.dst != ~0u) regs[rb + I.dst] = v; };
  switch (I.builtin) {
    case B_nop: case B_vaend: break;
    case B_stacksave: R(cv(0)); break;
    case B_malloc: { u64 n = conc(A(0)); R(cv(mallocN(n))); break; }
    case B_calloc: { u64 n = conc(A(0)) * conc(A(1)); u64 p = mallocN(n); setBytes(p, cv(0), n); R(cv(p)); break; }
    case B_realloc: {
      u64 p = conc(A(0)), n = conc(A(1));
      if (!p) { R(cv(mallocN(n))); break; }
      Slot *s = slotOf(p);
      if (!s || !s->obj || s->obj->base != p || s->obj->kind != KHeap) { fail("bad-free", "realloc of a pointer malloc did not return", curI); return; }
      if (!s->obj->live) { fail("use-after-free", "realloc of freed memory", curI); return; }
      u64 os = s->obj->size; u64 q = mallocN(n); copyBytes(q, p, std::min(os, n)); if (!freeN(p)) return; R(cv(q)); break; }
    case B_free: { u64 p = conc(A(0)); if (!freeN(p)) return; break; }
    case B_memcpy: case B_memmove: {
      u64 n = conc(A(2)), d = conc(A(0)), s = conc(A(1));
      if (n) { if (!access(d, n, true, "write")) return; if (!access(s, n, false, "read")) return;
        if (I.builtin == B_memcpy && d != s && ((d < s && d + n > s) || (s < d && s + n > d))) { fail("overlap", "memcpy with overlapping buffers", curI); return; }
        copyBytes(d, s, n); }
      R(cv(d)); break; }
    case B_memset: { u64 n = conc(A(2)), d = conc(A(0)); Val v = A(1); if (v.e && v.e->w > 8) v = ev(mkExtract(v.e, 0, 8)); if (n) { if (!access(d, n, true, "write")) return; setBytes(d, v, n); } R(cv(d)); break; }
    case B_abort: fail("abort", "call to abort", curI); return;
    case B_exit: fail("exit", "unexpected call to exit", curI); return;
    case B_trap: fail("trap", "trap", curI); return;
    case B_assertfail: fail("assert", "assertion `" + cstr(conc(A(0))) + "' failed", curI); return;
    case B_sx_int: { std::string nm = cstr(conc(A(0))); u64 w = conc(A(1)); E v = newVar(nm, w, false); R(ev(mkZExt(v, 64))); break; }
    case B_sx_choose: { // re-executed after a fork, so the variable must be created once: use a two-step protocol
      std::string nm = cstr(conc(A(0))); u64 n = conc(A(1));
      if (n == 0) { endPath(1); return; }
      E v = newVar(nm, 32, false);
      std::vector<Alt> alts;
      for (u64 i = 0; i < n; i++) { Alt a; a.conds = {mkBin(OEq, mkc(i, 32), v)}; a.m = model; a.m[v->c] = i; a.known = v; a.kv = i; alts.push_back(std::move(a)); }
      // symN must include v; pc must be advanced before the snapshot so that the
      // choice is not re-executed: store the expression, resolved by sx_concrete.
      R(ev(mkZExt(v, 64)));
      fr.pc++;
      forkAlts(alts);
      { Frame &f2 = frames.back(); u64 val; if (!known(v, &val)) engineError("choose"); (void)f2; }
      return; }
    case B_sx_assume: {
      Val v = A(0); if (!v.e) { if (!v.c) endPath(1); break; }
      E c = v.e->w > 1 ? mkNot(mkBin(OEq, mkc(0, v.e->w), v.e)) : v.e;
      u64 k; if (known(c, &k)) { if (!k) endPath(1); break; }
      std::vector<u64> m;
      if (evalIn(c, model)) { addConstraint(c); break; }
      if (!query(c, &m)) { endPath(1); return; }
      model = m; addConstraint(c); break; }
    case B_sx_check: { doCheck(A(0), I.ws[0], cstr(conc(A(1)))); if (pathDone) return; break; }
    case B_sx_reach: { std::string s = cstr(conc(A(0))); writeReach(s); break; }
    case B_sx_bytes: {
      u64 p = conc(A(0)), n = conc(A(1)); std::string nm = cstr(conc(A(2)));
      if (n && !access(p, n, true, "write")) return;
      for (u64 i = 0; i < n; i++) storeBytes(p + i, 1, ev(newVar(nm, 8, false)));
      break; }
    case B_sx_fail: fail("check", cstr(conc(A(0))), curI); return;
    case B_sx_live: R(cv(liveHeap)); break;
    case B_sx_livebytes: R(cv(liveBytes)); break;
    case B_sx_depth: R(cv(frames.size())); break;
    case B_sx_symbolic: R(cv(A(0).e ? 1 : 0)); break;
    case B_sx_conc: { Val v = A(0); R(cv(conc(v))); break; }
    case B_sx_trace: { Val v = A(1); fprintf(stderr, "[sx %d] %s: %s0x%llx\n", getpid(), cstr(conc(A(0))).c_str(), v.e ? "sym, e.g. " : "", (unsigned long long)(v.e ? evalIn(v.e, model) : v.c)); break; }
    case B_vastart: {
      u64 ap = conc(A(0)); if (!access(ap, 24, true, "write")) return;
      storeBytes(ap, 4, cv(48)); storeBytes(ap + 4, 4, cv(304)); storeBytes(ap + 8, 8, cv(fr.va)); storeBytes(ap + 16, 8, cv(0)); break; }
    case B_vacopy: { u64 d = conc(A(0)), s = conc(A(1)); if (!access(d, 24, true, "write") || !access(s, 24, false, "read")) return; copyBytes(d, s, 24); break; }
    case B_minmax: {
      Val x = A(0), y = A(1); unsigned w = I.w;
      if (!x.e && !y.e) { bool lt = I.sub < 2 ? x.c < y.c : sext64(x.c, w) < sext64(y.c, w); bool mn = !(I.sub & 1); R(lt == mn ? x : y); break; }
      E a = asE(x, w), b = asE(y, w); E c = mkBin(I.sub < 2 ? OUlt : OSlt, a, b); R(ev((I.sub & 1) ? mkIte(c, b, a) : mkIte(c, a, b))); break; }
    case B_abs: { Val x = A(0); unsigned w = I.w; E a = asE(x, w); R(ev(mkIte(mkBin(OSlt, a, mkc(0, w)), mkBin(OSub, mkc(0, w), a), a))); break; }
    case B_ctpop: { u64 x = conc(A(0)); R(cv(__builtin_popcountll(x))); break; }
    case B_ctlz: case B_cttz: {
      Val x = A(0); unsigned w = I.w;
      if (!x.e) { u64 r = x.c == 0 ? w : I.builtin == B_cttz ? __builtin_ctzll(x.c) : __builtin_clzll(x.c) - (64 - w); R(cv(r)); break; }
      E a = x.e, r = mkc(w, w);
      if (I.builtin == B_cttz) { for (unsigned k = w; k-- > 0;) r = mkIte(mkExtract(a, k, 1), mkc(k, w), r); }
      else { for (unsigned k = 0; k < w; k++) r = mkIte(mkExtract(a, k, 1), mkc(w - 1 - k, w), r); }
      R(ev(r)); break; }
    case B_bswap: { unsigned w = I.w; E a = asE(A(0), w), r = nullptr; for (unsigned k = 0; k < w; k += 8) { E b = mkExtract(a, k, 8); r = r ? mkConcat(r, b) : b; } R(ev(r)); break; }
    case B_fshl: case B_fshr: {
      unsigned w = I.w; u64 s = conc(A(2)) % w; E a = asE(A(0), w), b = asE(A(1), w);
      if (I.builtin == B_fshl) R(s == 0 ? A(0) : ev(mkBin(OOr, mkBin(OShl, a, mkc(s, w)), mkBin(OLShr, b, mkc(w - s, w)))));
      else R(s == 0 ? A(1) : ev(mkBin(OOr, mkBin(OShl, a, mkc(w - s, w)), mkBin(OLShr, b, mkc(s, w))))); break; }
    case B_ovf: {
      unsigned w = I.w; E a = asE(A(0), w), b = asE(A(1), w), r, o;
      if (I.sub == 0) { r = mkBin(OAdd, a, b); o = mkBin(OUlt, r, a); }
      else if (I.sub == 1) { r = mkBin(OSub, a, b); o = mkBin(OUlt, a, b); }
      else if (I.sub == 2) { r = mkBin(OMul, a, b); o = mkBin(OAnd, mkNot(mkBin(OEq, mkc(0, w), a)), mkNot(mkBin(OEq, mkBin(OUDiv, r, a), b))); }
      else { r = mkBin(I.sub == 3 ? OAdd : OSub, a, b); E sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1), sr = mkExtract(r, w - 1, 1);
        if (I.sub == 4) sb = mkNot(sb); o = mkBin(OAnd, mkBin(OEq, sa, sb), mkNot(mkBin(OEq, sa, sr))); }
      regs[rb + I.dst] = ev(r); regs[rb + I.dst + 1] = ev(o); break; }
    case B_sat: {
      unsigned w = I.w; E a = asE(A(0), w), b = asE(A(1), w);
      if (I.sub == 0) R(ev(mkIte(mkBin(OUlt, a, b), mkc(0, w), mkBin(OSub, a, b))));
      else { E r = mkBin(OAdd, a, b); R(ev(mkIte(mkBin(OUlt, r, a), mkc(~0ull, w), r))); } break; }
    case B_expect: R(A(0)); break;
    case B_isconst: R(cv(0)); break;
    case B_fmuladd: { Val a = A(0), b = A(1), c = A(2); if (a.e || b.e || c.e) { R(ev(newVar("fp", 64, true))); break; } R(cv(fromD(asD(a.c) * asD(b.c) + asD(c.c)))); break; }
    default: engineError("builtin " + std::to_string(I.builtin) + " at " + locOf(I.src));
  }
  fr.pc++;
}
static const std::vector<unsigned> noWs; static const std::vector<u64> noBy;

static void step() {
  Frame *fr = &frames.back();
  const Inst &I = *fr->pc;
  u32 rb = fr->rb;
  curI = I.src;
  switch (I.k) {
    case IBin: {
      Val a = rd(I.ops[0], rb), b = rd(I.ops[1], rb); unsigned w = I.w; Op op = (Op)I.sub;
      if (op == OUDiv || op == OSDiv || op == OURem || op == OSRem) {
        if (!b.e) { if (b.c == 0) { fail("div-by-zero", "division by zero", curI); return; } }
        else if (decide(mkBin(OEq, mkc(0, w), b.e))) { fail("div-by-zero", "division by zero", curI); return; }
        fr = &frames.back();
      }
      if (op == OShl || op == OLShr || op == OAShr) { // x86 semantics for oversized shifts, on power-of-two widths
        if (!b.e) { if (b.c >= w) b.c &= (w > 32 ? 63 : 31); }
        else if (w == 64 || w == 32) b = ev(mkBin(OAnd, mkc(w - 1, w), b.e));
      }
      if (!a.e && !b.e) regs[rb + I.dst] = cv(foldbin(op, a.c, b.c, w));
      else regs[rb + I.dst] = ev(mkBin(op, asE(a, w), asE(b, w)));
      break; }
    case ICmp: {
      Val a = rd(I.ops[0], rb), b = rd(I.ops[1], rb); unsigned w = I.w; Op op; bool sw = false, neg = false;
      switch (I.sub) {
        case CmpInst::ICMP_EQ: op = OEq; break; case CmpInst::ICMP_NE: op = OEq; neg = true; break;
        case CmpInst::ICMP_ULT: op = OUlt; break; case CmpInst::ICMP_ULE: op = OUle; break; case CmpInst::ICMP_UGT: op = OUlt; sw = true; break; case CmpInst::ICMP_UGE: op = OUle; sw = true; break;
        case CmpInst::ICMP_SLT: op = OSlt; break; case CmpInst::ICMP_SLE: op = OSle; break; case CmpInst::ICMP_SGT: op = OSlt; sw = true; break; default: op = OSle; sw = true; break;
      }
      if (sw) std::swap(a, b);
      if (!a.e && !b.e) regs[rb + I.dst] = cv(foldbin(op, a.c, b.c, w) ^ (neg ? 1 : 0));
      else { E r = mkBin(op, asE(a, w), asE(b, w)); if (neg) r = mkNot(r); u64 k; if (known(r, &k)) regs[rb + I.dst] = cv(k); else regs[rb + I.dst] = ev(r); }
      break; }
    case ISel: {
      Val c = rd(I.ops[0], rb); u32 n = I.nslots;
      u64 k; bool kn = !c.e || known(c.e, &k); if (!c.e) k = c.c;
      if (kn) { for (u32 i = 0; i < n; i++) regs[rb + I.dst + i] = rd(I.ops[1 + (k ? 0 : n) + i], rb); }
      else {
        bool ptr = I.src->getType()->isPointerTy();
        if (ptr) { bool d = decide(c.e); fr = &frames.back(); for (u32 i = 0; i < n; i++) regs[rb + I.dst + i] = rd(I.ops[1 + (d ? 0 : n) + i], rb); }
        else for (u32 i = 0; i < n; i++) { Val x = rd(I.ops[1 + i], rb), y = rd(I.ops[1 + n + i], rb); regs[rb + I.dst + i] = ev(mkIte(c.e, asE(x, I.ws[i]), asE(y, I.ws[i]))); }
      }
      break; }
    case ICast: {
      Val a = rd(I.ops[0], rb);
      if (!a.e) { u64 v = I.sub ? (u64)sext64(a.c, I.w2) : a.c; regs[rb + I.dst] = cv(v & maskw(I.w)); }
      else if (I.w == I.w2) regs[rb + I.dst] = a;
      else if (I.w < I.w2) regs[rb + I.dst] = ev(mkExtract(a.e, 0, I.w));
      else regs[rb + I.dst] = ev(I.sub ? mkSExt(a.e, I.w) : mkZExt(a.e, I.w));
      break; }
    case IGep: {
      Val p = rd(I.ops[0], rb); u64 off = I.aux.back(); E se = p.e; u64 c = p.c + off; if (p.e) c = off;
      for (size_t i = 1; i < I.ops.size(); i++) {
        Val x = rd(I.ops[i], rb); unsigned w = I.ws[i - 1]; u64 sc = I.aux[i - 1];
        if (!x.e) c += (u64)sext64(x.c, w) * sc;
        else { E t = mkBin(OMul, mkc(sc, 64), mkSExt(x.e, 64)); if ((sc & (sc - 1)) == 0) t = mkBin(OShl, mkSExt(x.e, 64), mkc(__builtin_ctzll(sc), 64)); se = se ? mkBin(OAdd, se, t) : t; }
      }
      regs[rb + I.dst] = se ? ev(mkBin(OAdd, mkc(c, 64), se)) : cv(c);
      break; }
    case ILoad: {
      u64 a; if (!memAccess(rd(I.ops[0], rb), I.aux[0], false, &a)) return;
      fr = &frames.back();
      Val v; loadBytes(a, I.aux[0], &v);
      if (v.e) { if (v.e->w > I.w) v = ev(mkExtract(v.e, 0, I.w)); u64 k; if (v.e && known(v.e, &k)) v = cv(k); } else v.c &= maskw(I.w);
      regs[rb + I.dst] = v; break; }
    case IStore: {
      u64 a; if (!memAccess(rd(I.ops[0], rb), I.aux[0], true, &a)) return;
      fr = &frames.back();
      storeBytes(a, I.aux[0], rd(I.ops[1], rb)); break; }
    case IAlloca: {
      u64 n = conc(rd(I.ops[0], rb)); fr = &frames.back();
      regs[rb + I.dst] = cv(allocObj(stk, n * I.aux[0], KStack, 0)); break; }
    case IBr: jumpTo(*fr, I.t0); return;
    case ICondBr: {
      Val c = rd(I.ops[0], rb); bool d = c.e ? decide(c.e) : c.c; fr = &frames.back();
      jumpTo(*fr, d ? I.t0 : I.t1); return; }
    case ISwitch: {
      Val c = rd(I.ops[0], rb);
      if (!c.e) { Blk *t = I.t0; for (size_t i = 0; i < I.aux.size(); i++) if (I.aux[i] == c.c) { t = I.targets[i]; break; } jumpTo(*fr, t); return; }
      u64 k; if (known(c.e, &k)) { Blk *t = I.t0; for (size_t i = 0; i < I.aux.size(); i++) if (I.aux[i] == k) { t = I.targets[i]; break; } jumpTo(*fr, t); return; }
      sh->branches++;
      std::vector<Alt> alts; Alt def; std::vector<Alt> first;
      E none = mkc(1, 1); u64 cur = evalIn(c.e, model); bool curIsCase = false;
      bool allKnownFalse = true;
      for (size_t i = 0; i < I.aux.size(); i++) {
        E q = mkBin(OEq, mkc(I.aux[i], I.w), c.e); u64 kk;
        if (known(q, &kk) && !kk) continue;
        allKnownFalse = false;
        def.conds.push_back(mkNot(q)); none = mkBin(OAnd, none, mkNot(q));
        Alt a; a.conds = {q}; a.known = c.e; a.kv = I.aux[i];
        if (cur == I.aux[i]) { a.m = model; curIsCase = true; alts.insert(alts.begin(), a); }
        else { std::vector<u64> m; if (query(q, &m)) { a.m = m; alts.push_back(a); } }
      }
      if (allKnownFalse) { jumpTo(*fr, I.t0); return; }
      if (!curIsCase) { def.m = model; alts.insert(alts.begin(), def); }
      else { std::vector<u64> m; if (query(none, &m)) { def.m = m; alts.push_back(def); } }
      forkAlts(alts);
      return; } // re-executed with the value known (or all cases excluded)
    case IRet: {
      std::vector<Val> rv; Val r1{0, nullptr}; size_t n = I.ops.size();
      if (n == 1) r1 = rd(I.ops[0], rb); else for (auto &o : I.ops) rv.push_back(rd(o, rb));
      popStack(fr->stkTop); regs.resize(rb); frames.pop_back();
      if (frames.empty()) { endPath(0); return; }
      fr = &frames.back();
      const Inst &C = *fr->pc;
      if (C.dst != ~0u) { if (n == 1) regs[fr->rb + C.dst] = r1; else for (size_t i = 0; i < n; i++) regs[fr->rb + C.dst + i] = rv[i]; }
      fr->pc++;
      return; }
    case ICall: {
      if (I.builtin == 1000) engineError("call to undefined function " + I.callee->f->getName().str() + " at " + locOf(I.src));
      FuncInfo *ci = I.callee;
      if (I.builtin == 2000) {
        Val t = rd(I.ops.back(), rb); u64 ta = conc(t); fr = &frames.back();
        auto it = fbyaddr.find(ta);
        if (it == fbyaddr.end()) { fail("bad-call", "call through a pointer to no function", curI); return; }
        ci = it->second;
        if (ci->builtin >= 0) { Inst J = I; J.builtin = ci->builtin; callBuiltin(J, *fr); return; }
        if (ci->f->isDeclaration()) engineError("indirect call to undefined function " + ci->f->getName().str());
      } else if (I.builtin >= 0) { callBuiltin(I, *fr); return; }
      std::vector<std::vector<Val>> args; args.reserve(I.argspans.size());
      for (auto &sp : I.argspans) { std::vector<Val> v; for (u32 k = 0; k < sp.second; k++) v.push_back(rd(I.ops[sp.first + k], rb)); args.push_back(std::move(v)); }
      pushFrame(ci, args, I.ws, I.byval);
      return; }
    case ICopy: { // parallel-safe: source registers differ from destination
      for (size_t i = 0; i < I.ops.size(); i++) regs[rb + I.dst + i] = rd(I.ops[i], rb); break; }
    case IUnreach: fail("unreachable", "unreachable code reached", curI); return;
    case IFBin: {
      Val a = rd(I.ops[0], rb), b = rd(I.ops[1], rb);
      if (a.e || b.e) { regs[rb + I.dst] = ev(newVar("fp", I.w, true)); break; }
      double x = asD(a.c), y = asD(b.c), r = 0; if (I.w != 64) engineError("float");
      switch (I.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: engineError("fp op"); }
      regs[rb + I.dst] = cv(fromD(r)); break; }
    case IFNeg: { Val a = rd(I.ops[0], rb); if (a.e) { regs[rb + I.dst] = ev(newVar("fp", I.w, true)); break; } regs[rb + I.dst] = cv(fromD(-asD(a.c))); break; }
    case IFCmp: {
      Val a = rd(I.ops[0], rb), b = rd(I.ops[1], rb);
      if (a.e || b.e) { regs[rb + I.dst] = ev(newVar("fp", 1, true)); break; }
      double x = asD(a.c), y = asD(b.c); bool r = false, un = x != x || y != y;
      switch (I.sub) {
        case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
        case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break;
        case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; }
      regs[rb + I.dst] = cv(r); break; }
    case IFCast: {
      Val a = rd(I.ops[0], rb);
      if (a.e) { regs[rb + I.dst] = ev(newVar("fp", I.w, true)); break; }
      switch (I.sub) {
        case Instruction::UIToFP: regs[rb + I.dst] = cv(fromD((double)a.c)); break;
        case Instruction::SIToFP: regs[rb + I.dst] = cv(fromD((double)sext64(a.c, I.w2))); break;
        case Instruction::FPToUI: regs[rb + I.dst] = cv((u64)asD(a.c) & maskw(I.w)); break;
        case Instruction::FPToSI: regs[rb + I.dst] = cv((u64)(i64)asD(a.c) & maskw(I.w)); break;
        default: engineError("fp cast");
      }
      break; }
    default: engineError("bad instruction");
  }
  fr->pc++;
}

// ---------------------------------------------------------------- path driver
static u64 nPathsHere = 0;
static void endOfPath() {
  sh->paths++;
  if (pathKind == 0) {
    u64 n = ++sh->pathsOk;
    bool pick = n <= 4 || (n & (n - 1)) == 0;
    if (pick) {
      u64 k = sh->samples++;
      if (k < 40) { FILE *f = fopen((outDir + "/sample-" + std::to_string(k) + ".txt").c_str(), "w"); if (f) { fprintf(f, "kind ok\nmsg path %llu insts %llu constraints %zu\n", (unsigned long long)n, (unsigned long long)pathInsts, constraints.size()); writeInputs(f, model); fclose(f); } }
    }
  } else if (pathKind == 1) sh->pathsKilled++;
  else sh->pathsErr++;
  u64 m = sh->maxPathInsts; while (pathInsts > m && !sh->maxPathInsts.compare_exchange_weak(m, pathInsts)) {}
}
static void runAll() {
  static u64 poll = 0;
  setjmp(mainJmp);
  for (;;) {
    if (pathDone) {
      endOfPath();
      if (sh->stop || !backtrack()) return;
      pathDone = false;
      tryShare();
    }
    step();
    pathInsts++; totalInsts++;
    if (!pathDone && pathInsts > instLimit) { curI = frames.back().pc->src; fail("hang", "path exceeds the instruction bound", nullptr); }
    if ((++poll & 0x3fff) == 0) { if (now() > deadline || (sh->nviol && now() > sh->firstViol + graceS)) { lockSh(); if (!sh->stop) { sh->stop = 2; } unlockSh(); return; } if (sh->stop) return; }
  }
}
static void finishProcess(bool child) {
  sh->insts += totalInsts; totalInsts = 0;
  sh->tokens++;
  for (pid_t k : kids) { int st; if (waitpid(k, &st, 0) == k) { if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0)) { if (!sh->engineErr) { sh->engineErr = 1; snprintf(sh->errmsg, sizeof sh->errmsg, "worker died: status %x", st); } sh->stop = 1; } } }
  if (child) _exit(0);
}

int main(int argc, char **argv) {
  std::string bc; std::string entry = "sx_main";
  double tmo = 600;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "-o") outDir = val(); else if (a == "-j") maxWorkers = atoi(val().c_str());
    else if (a == "-t") tmo = atof(val().c_str()); else if (a == "-e") entry = val();
    else if (a == "-n") instLimit = strtoull(val().c_str(), 0, 10);
    else bc = a;
  }
  if (bc.empty() || outDir.empty()) { fprintf(stderr, "usage: sx -o OUTDIR [-j N] [-t SECS] [-n INSTLIMIT] module.bc\n"); return 2; }
  mkdir(outDir.c_str(), 0777); mkdir((outDir + "/reach").c_str(), 0777);
  double t0 = now(); deadline = t0 + tmo;
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (sh) Shared(); sh->tokens = maxWorkers - 1; sh->lock = 0; sh->stop = 0; sh->engineErr = 0; sh->nviol = 0;
  LLVMContext lctx; SMDiagnostic err;
  std::unique_ptr<Module> M = parseIRFile(bc, err, lctx);
  if (!M) { err.print("sx", errs()); return 2; }
  mod = M.get(); DL = &mod->getDataLayout();
  u64 fa = 0x10000;
  for (auto &F : *mod) {
    FuncInfo *fi = new FuncInfo; fi->f = &F; fi->id = fall.size(); fi->addr = fa; fa += 16; fi->vararg = F.isVarArg();
    fall.push_back(fi); finfo[&F] = fi; gaddr[&F] = fi->addr; fbyaddr[fi->addr] = fi;
    auto it = builtins.find(F.getName().str()); if (it != builtins.end() && (F.isDeclaration())) fi->builtin = it->second;
  }
  for (auto &G : mod->globals()) {
    u64 sz = DL->getTypeAllocSize(G.getValueType());
    gaddr[&G] = allocObj(heap, sz, KGlobal, 0);
  }
  for (auto &G : mod->globals()) {
    if (!G.hasInitializer()) { continue; }
    initGlobalMem(gaddr[&G], G.getInitializer());
    if (G.isConstant()) slotOf(gaddr[&G])->obj->kind = KConst;
  }
  initZ3();
  Function *mf = mod->getFunction(entry);
  if (!mf || mf->isDeclaration()) { fprintf(stderr, "no entry function\n"); return 2; }
  rootPid = getpid();
  liveHeap = 0;
  pushFrame(infoOf(mf), {}, noWs, noBy);
  runAll();
  if (getpid() != rootPid) finishProcess(true);
  finishProcess(false);
  // results
  FILE *f = fopen((outDir + "/stats.json").c_str(), "w");
  auto U = [](std::atomic<u64> &x) { return (unsigned long long)x.load(); };
  fprintf(f, "{\"paths\":%llu,\"paths_ok\":%llu,\"paths_assumed_away\":%llu,\"paths_error\":%llu,\"forks\":%llu,\"branch_decisions\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"cached\":%llu,\"solver_s\":%.3f,\"instructions\":%llu,\"checks_symbolic\":%llu,\"checks_concrete\":%llu,\"memory_checks\":%llu,\"max_path_instructions\":%llu,\"violations\":%d,\"complete\":%s,\"engine_error\":%d,\"wall_s\":%.3f,\"functions\":[",
          U(sh->paths), U(sh->pathsOk), U(sh->pathsKilled), U(sh->pathsErr), U(sh->forks), U(sh->branches), U(sh->queries), U(sh->qsat), U(sh->qunsat), U(sh->qcached), sh->solver_us / 1e6, U(sh->insts), U(sh->checksSym), U(sh->checksConc), U(sh->memchecks), U(sh->maxPathInsts), sh->nviol, sh->stop == 0 ? "true" : "false", (int)sh->engineErr, now() - t0);
  bool firstf = true;
  for (auto *fi : fall) if (fi->id < MAXFN && sh->fn[fi->id]) {
    std::string file = "?"; if (auto *sp = fi->f->getSubprogram()) file = sp->getFilename().str();
    fprintf(f, "%s\"%s:%s\"", firstf ? "" : ",", file.c_str(), fi->f->getName().str().c_str()); firstf = false; }
  fprintf(f, "]}\n"); fclose(f);
  if (sh->engineErr) { fprintf(stderr, "sx: %s\n", sh->errmsg); return 3; }
  if (sh->stop == 2) { fprintf(stderr, "sx: deadline reached, exploration incomplete\n"); return 4; }
  return sh->nviol ? 1 : 0;
}
