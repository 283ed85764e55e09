// Growable arrays (C16): two arrays grown in turns hold exactly what was put
// in, in order, at every size; both the library's and fbld's.
#include <string.h>
#if FBLD
#include "fbld/vector.h"
#else
#include <fble/fble-alloc.h>
#include <fble/fble-vector.h>
#endif
#include "sx.h"
typedef struct { uint64_t a; uint8_t b; } Wide;
typedef struct { char c[3]; } Odd;
#define RUN(T, P, MK, EQ) { \
  struct { size_t size; T* xs; } v, w; T a[NMAX], b[NMAX]; \
  P##InitVector(v); P##InitVector(w); \
  sx_check(v.size == 0, "a new array is empty"); \
  size_t step = 1 + sx_pick("step", 2); \
  for (size_t i = 0; i < NMAX; ++i) { \
    uint8_t x = sx_u8("element"); \
    a[i] = (T)MK(x, i); \
    if (i % 3 == 2) *P##ExtendVector(v) = a[i]; else P##AppendToVector(v, a[i]); \
    if (i % step == 0) { T* e = P##ExtendVector(w); b[w.size - 1] = (T)MK(x, 100 + i); *e = b[w.size - 1]; } \
    sx_check(v.size == i + 1 && w.size == i / step + 1, "the size is the number of elements appended"); \
    bool same = true; \
    for (size_t j = 0; j < v.size; ++j) same &= EQ(v.xs[j], a[j]); \
    for (size_t j = 0; j < w.size; ++j) same &= EQ(w.xs[j], b[j]); \
    sx_check(same, "the elements are those appended, in order"); \
  } \
  P##FreeVector(v); P##FreeVector(w); }
// Long arrays: the elements are compared when the size is near a power of two
// (in the middle, too, every 5000) and at the end.
#define LONG(T, P, MK, EQ) { \
  struct { size_t size; T* xs; } v; P##InitVector(v); \
  uint8_t x = sx_u8("element"); \
  for (size_t i = 0; i < NLONG; ++i) { \
    T e = (T)MK(i % 977 == 5 ? x : (uint8_t)(i % 251), i); \
    if (i % 3 == 2) *P##ExtendVector(v) = e; else P##AppendToVector(v, e); \
    if (v.size != i + 1) sx_check(false, "the size is the number of elements appended"); \
    size_t n = v.size; \
    if ((n & (n - 1)) == 0 || ((n - 1) & (n - 2)) == 0 || n == NLONG || n % 5000 == 0) { \
      bool same = true; \
      for (size_t j = n > 300 && n != NLONG ? n - 300 : 0; j < n; ++j) { T w = (T)MK(j % 977 == 5 ? x : (uint8_t)(j % 251), j); same &= EQ(v.xs[j], w); } \
      sx_check(same, "the elements are those appended, in order"); \
    } \
  } \
  P##FreeVector(v); sx_reach("long"); }
#define MKINT(x, i) ((x) + (i))
#define EQINT(p, q) ((p) == (q))
#define MKWIDE(x, i) { .a = (i) * 1000003u, .b = (x) }
#define EQWIDE(p, q) (((p).a == (q).a) & ((p).b == (q).b))
#define MKODD(x, i) { { (char)(x), (char)(i), (char)((x) ^ (i)) } }
#define EQODD(p, q) (((p).c[0] == (q).c[0]) & ((p).c[1] == (q).c[1]) & ((p).c[2] == (q).c[2]))
void sx_main(void) {
#if FBLD
#define P_(T, MK, EQ) if (sx_pick("long", 2)) LONG(T, Fbld, MK, EQ) else RUN(T, Fbld, MK, EQ)
#else
#define P_(T, MK, EQ) if (sx_pick("long", 2)) LONG(T, Fble, MK, EQ) else RUN(T, Fble, MK, EQ)
#endif
  switch (sx_pick("element type", 4)) {
    case 0: P_(char, MKINT, EQINT) break;
    case 1: P_(uint64_t, MKINT, EQINT) break;
    case 2: P_(Wide, MKWIDE, EQWIDE) break;
    case 3: P_(Odd, MKODD, EQODD) break;
  }
  sx_check(sx_live_allocs() == 0, "everything released");
  sx_reach("end");
}
