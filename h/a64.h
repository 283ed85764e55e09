// Registers, stack and calling convention for code lifted by engine/a64.py.
#ifndef A64_H
#define A64_H
#include <stdio.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <fble/fble-alloc.h>
#include <fble/fble-function.h>
#include <fble/fble-generate.h>
#include <fble/fble-link.h>
#include <fble/fble-profile.h>
#include <fble/fble-value.h>
#include "sx.h"
typedef uint64_t __attribute__((may_alias)) m64;
typedef uint32_t __attribute__((may_alias)) m32;
typedef uint16_t __attribute__((may_alias)) m16;
typedef uint8_t __attribute__((may_alias)) m8;
#define A64_JUNK(n) (0xdeadbeef00000001ull + 0x1000 * (n))
#define A64_ENTRY(total) \
  enum { total_ = (total) }; uint8_t stack[total_ ? total_ : 16] __attribute__((aligned(16))); \
  uint64_t x0 = (uint64_t)a0, x1 = (uint64_t)a1, x2 = (uint64_t)a2, x3 = (uint64_t)a3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18; \
  uint64_t x19 = A64_JUNK(19), x20 = A64_JUNK(20), x21 = A64_JUNK(21), x22 = A64_JUNK(22), x23 = A64_JUNK(23), x24 = A64_JUNK(24), x25 = A64_JUNK(25), x26 = A64_JUNK(26), x27 = A64_JUNK(27), x28 = A64_JUNK(28), x29 = A64_JUNK(29), x30 = A64_JUNK(30); \
  bool fn = true, fz = false, fc = true, fv = false; uint64_t sp = (uint64_t)stack + (total), fr = 0; \
  (void)fn; (void)fz; (void)fc; (void)fv; (void)fr; \
  A64_OTHERS;
#define A64_OTHERS x4 = A64_JUNK(4); x5 = A64_JUNK(5); x6 = A64_JUNK(6); x7 = A64_JUNK(7); x8 = A64_JUNK(8); x9 = A64_JUNK(9); x10 = A64_JUNK(10); x11 = A64_JUNK(11); x12 = A64_JUNK(12); x13 = A64_JUNK(13); x14 = A64_JUNK(14); x15 = A64_JUNK(15); x16 = A64_JUNK(16); x17 = A64_JUNK(17); x18 = A64_JUNK(18)
#define A64_CLOBBER x0 = A64_JUNK(0); x1 = A64_JUNK(1); x2 = A64_JUNK(2); x3 = A64_JUNK(3); A64_OTHERS; x30 = A64_JUNK(31); fn = !fn; fz = !fz; fc = !fc; fv = !fv
#define A64_SP sx_check((sp & 15) == 0, "stack pointer is aligned")
#define A64_SAVED(r) sx_check(x##r == A64_JUNK(r), "callee-saved register x" #r " is restored")
#define A64_RETURN { sx_check(sp == (uint64_t)stack + total_, "stack pointer is restored"); \
  A64_SAVED(19); A64_SAVED(20); A64_SAVED(21); A64_SAVED(22); A64_SAVED(23); A64_SAVED(24); A64_SAVED(25); A64_SAVED(26); A64_SAVED(27); A64_SAVED(28); A64_SAVED(29); \
  sx_check(x30 == A64_JUNK(30), "returns to its caller"); return (void*)x0; }
#define A64_SUBS(U, S, a, b) { U p_ = (U)(a), q_ = (U)(b), r_ = p_ - q_; fr = r_; fz = r_ == 0; fn = (S)r_ < 0; fc = p_ >= q_; fv = (S)((p_ ^ q_) & (p_ ^ r_)) < 0; }
#define A64_ADDS(U, S, a, b) { U p_ = (U)(a), q_ = (U)(b), r_ = p_ + q_; fr = r_; fz = r_ == 0; fn = (S)r_ < 0; fc = r_ < p_; fv = (S)(~(p_ ^ q_) & (p_ ^ r_)) < 0; }
#define A64_TST(U, S, a, b) { U r_ = (U)(a) & (U)(b); fr = r_; fz = r_ == 0; fn = (S)r_ < 0; fc = fv = false; }
#endif
