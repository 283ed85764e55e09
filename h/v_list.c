// List and literal values: cons/nil structure for every length and letter.
#include <fble/fble-value.h>
#include "sx.h"
void sx_main(void) {
  FbleValueHeap* heap = FbleNewValueHeap();
  size_t n = sx_pick("n", NMAX + 1);
  size_t lit = sx_pick("literal", 2);
  size_t letters[NMAX + 1];
  FbleValue* args[NMAX + 1];
  int data[NMAX + 1];
  size_t special = n ? sx_pick("special", n) : 0;
  size_t t = n ? sx_pick("tag", 68) : 0;
  for (size_t i = 0; i < n; ++i) letters[i] = i == special ? t : i % 5;
  size_t nat = lit ? 0 : sx_pick("native", 2);
  for (size_t i = 0; i < n; ++i) args[i] = nat ? FbleNewNativeValue(heap, data + i, NULL) : FbleNewEnumValue(heap, letters[i]);
  FbleValue* v = lit ? FbleNewLiteralValue(heap, n, letters) : FbleNewListValue(heap, n, args);
  FblePushFrame(heap);
  v = FblePopFrame(heap, v);
  for (size_t i = 0; i < n; ++i) {
    sx_check(FbleUnionValueTag(v) == 0, "cons");
    FbleValue* c = FbleUnionValueArg(v);
    FbleValue* e = FbleStructValueField(c, 0);
    if (nat) sx_check(FbleNativeValueData(e) == data + i, "element");
    else {
      sx_check(FbleUnionValueTag(e) == letters[i], "element tag");
      FbleUnionValueArg(e);
    }
    v = FbleStructValueField(c, 1);
  }
  sx_check(FbleUnionValueTag(v) == 1, "nil");
  FbleFreeValueHeap(heap);
  sx_check(sx_live_allocs() == 0, "memory returned");
  sx_reach("end");
}
