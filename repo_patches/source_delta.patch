From 4a538847b9ab2d6b733e3c654127f9936b4c6589 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 01/26] fix: initialise the chunk list of a value heap's bottom
 frame

FbleNewValueHeap set heap->chunks twice and never set heap->top->chunks, so
FbleFreeValueHeap walked an uninitialised list.
---
 lib/value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/value.c b/lib/value.c
index 0c64381..a2a7ebd 100644
--- a/lib/value.c
+++ b/lib/value.c
@@ -994,7 +994,7 @@ FbleValueHeap* FbleNewValueHeap()
   Clear(&heap->top->alloced);
   heap->top->top = (intptr_t)(heap->top + 1);
   heap->top->max = CHUNK_SIZE + (intptr_t)heap->stack;
-  heap->chunks = NULL;
+  heap->top->chunks = NULL;
 
   heap->gc.min_gen = heap->top->min_gen;
   heap->gc.gen = heap->top->gen;
-- 
2.43.0


From a41757921fc5247cb40d882417bcc428d96d6b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 02/26] fix: make a full collection finish the collection in
 progress

FbleValueFullGc stopped as soon as the pending lists of the frame were
empty, which is also the case right after they were handed to the
collector: unreachable objects were left allocated.
---
 lib/value.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/value.c b/lib/value.c
index a2a7ebd..cbd1d58 100644
--- a/lib/value.c
+++ b/lib/value.c
@@ -1828,7 +1828,10 @@ void FbleValueFullGc(FbleValueHeap* heap)
 {
   while (!(heap->gc.next == NULL
       && IsEmpty(&heap->gc.frame->marked)
-      && IsEmpty(&heap->gc.frame->unmarked))) {
+      && IsEmpty(&heap->gc.frame->unmarked)
+      && IsEmpty(&heap->gc.marked)
+      && IsEmpty(&heap->gc.unmarked)
+      && IsEmpty(&heap->gc.free))) {
     IncrGc(heap);
   }
 }
-- 
2.43.0


From d21fb6a7697457244f90eadfbddca86e29a544b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 03/26] fix: stop checking a struct copy whose arguments do not
 typecheck

The field initialisers of a failed argument are NULL and were copied.
---
 lib/typecheck.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/typecheck.c b/lib/typecheck.c
index 4464903..505bbba 100644
--- a/lib/typecheck.c
+++ b/lib/typecheck.c
@@ -1318,6 +1318,10 @@ static Tc TypeCheckExprWithCleaner(FbleTypeHeap* th, Scope* scope, FbleExpr* exp
         error = error || (args[j].type == NULL);
       }
 
+      if (error) {
+        return TC_FAILED;
+      }
+
       size_t fieldc = struct_type->fields.size;
       FbleStructCopyTc* struct_copy = FbleNewTc(FbleStructCopyTc, FBLE_STRUCT_COPY_TC, expr->loc);
       struct_copy->source = FbleCopyTc(src.tc);
-- 
2.43.0


From b4c08458a27f8913ec7691726af73856bc568050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:29 +0000
Subject: [PATCH 04/26] fix: give the main block of an interpreted program its
 own profiling block

It was run under the root block, so <main> was never counted and time of
the root was counted twice.
---
 lib/link.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/link.c b/lib/link.c
index 7a331f7..b7fb27a 100644
--- a/lib/link.c
+++ b/lib/link.c
@@ -99,7 +99,7 @@ static FbleValue* LinkInterpreted(FbleValueHeap* heap, FbleProfile* profile, Fbl
   FbleAppendToVector(code->instrs, &return_instr->_base);
 
   // Wrap that all up into an FbleFuncValue.
-  FbleValue* linked = FbleNewInterpretedFuncValue(heap, code, 0, funcs);
+  FbleValue* linked = FbleNewInterpretedFuncValue(heap, code, main_id, funcs);
   FbleFreeCode(code);
   FbleFreeCompiledProgram(compiled);
   return linked;
-- 
2.43.0


From 1de1489c7319a4f167c354d12c25c3480b8ab721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 05/26] fix: run tail calls through partial and excess
 applications in constant space

A tail call of a partially applied function, or with more arguments than the
function takes, nested a new call on the stack.
---
 lib/value.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/value.c b/lib/value.c
index cbd1d58..b2a8a8f 100644
--- a/lib/value.c
+++ b/lib/value.c
@@ -1483,7 +1483,9 @@ static FbleValue* PartialApplyImpl(
   FbleValue* nargs[argc];
   memcpy(nargs, function->statics + 1, s * sizeof(FbleValue*));
   memcpy(nargs + s, args, a * sizeof(FbleValue*));
-  return FbleCall(heap, profile, function->statics[0], argc, nargs);
+
+  FbleValue* func = function->statics[0];
+  return FbleTailCall(heap, FbleFuncValueFunction(func), func, argc, nargs);
 }
 
 /**
@@ -1572,7 +1574,14 @@ static FbleValue* TailCall(FbleValueHeap* heap, FbleProfileThread* profile)
       memcpy(gTailCallData.func_and_args + 1 + gTailCallData.argc, unused, num_unused * sizeof(FbleValue*));
       gTailCallData.argc += num_unused;
     } else if (num_unused > 0 && result != NULL) {
-      return FblePopFrame(heap, FbleCall(heap, profile, result, num_unused, unused));
+      // Continue with a tail call of the result to the unused args.
+      if (FbleFuncValueFunction(result) == NULL) {
+        FbleLoc loc = FbleNewLoc(__FILE__, __LINE__ + 1, 9);
+        FbleReportError("called undefined function\n", loc);
+        FbleFreeLoc(loc);
+        return FblePopFrame(heap, NULL);
+      }
+      FbleTailCall(heap, FbleFuncValueFunction(result), result, num_unused, unused);
     } else {
       return FblePopFrame(heap, result);
     }
-- 
2.43.0


From e0655a48e6534b77cb132cf44cbab72f8054aad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:45 +0000
Subject: [PATCH 06/26] fix: remember the body a polymorphic type application
 reduces to

Normalizing a recursive type defined as an application of a polymorphic
type, such as T@ = F@<T@>, created a fresh type each time, so comparing it
to another type recursed without end.
---
 lib/type.c | 15 +++++++++++----
 lib/type.h |  5 +++++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/type.c b/lib/type.c
index 39bc904..09175b8 100644
--- a/lib/type.c
+++ b/lib/type.c
@@ -160,6 +160,7 @@ void FbleTypeRefs(FbleTypeHeap* heap, FbleType* type)
       FblePolyApplyType* pat = (FblePolyApplyType*)type;
       Ref(heap, type, pat->poly);
       Ref(heap, type, pat->arg);
+      Ref(heap, type, pat->subst);
       break;
     }
 
@@ -277,17 +278,21 @@ static FbleType* Normal(FbleTypeHeap* heap, FbleType* type, TypeList* normalizin
 
     case FBLE_POLY_APPLY_TYPE: {
       FblePolyApplyType* pat = (FblePolyApplyType*)type;
+      if (pat->subst != NULL) {
+        return Normal(heap, pat->subst, &nn);
+      }
+
       FblePolyType* poly = (FblePolyType*)Normal(heap, pat->poly, &nn);
       if (poly == NULL) {
         return NULL;
       }
 
       if (poly->_base.tag == FBLE_POLY_TYPE) {
-        FbleType* subst = Subst(heap, poly->body, poly->arg, pat->arg, NULL);
-        FbleType* result = Normal(heap, subst, &nn);
+        pat->subst = Subst(heap, poly->body, poly->arg, pat->arg, NULL);
+        FbleTypeAddRef(heap, &pat->_base, pat->subst);
+        FbleReleaseType(heap, pat->subst);
         FbleReleaseType(heap, &poly->_base);
-        FbleReleaseType(heap, subst);
-        return result;
+        return Normal(heap, pat->subst, &nn);
       }
 
       // Don't bother simplifying at all if we can't do a substituion.
@@ -505,6 +510,7 @@ static FbleType* Subst(FbleTypeHeap* heap, FbleType* type, FbleType* param, Fble
       FbleTypeAddRef(heap, &spat->_base, spat->poly);
       spat->arg = sarg;
       FbleTypeAddRef(heap, &spat->_base, spat->arg);
+      spat->subst = NULL;
       assert(spat->poly->tag != FBLE_TYPE_TYPE);
 
       FbleReleaseType(heap, poly);
@@ -1015,6 +1021,7 @@ FbleType* FbleNewPolyApplyType(FbleTypeHeap* heap, FbleLoc loc, FbleType* poly,
   FbleTypeAddRef(heap, &pat->_base, pat->poly);
   pat->arg = arg;
   FbleTypeAddRef(heap, &pat->_base, pat->arg);
+  pat->subst = NULL;
 
   assert(pat->poly->tag != FBLE_TYPE_TYPE);
   return &pat->_base;
diff --git a/lib/type.h b/lib/type.h
index 13ccaa6..6825305 100644
--- a/lib/type.h
+++ b/lib/type.h
@@ -188,11 +188,16 @@ typedef struct {
  *  @field[FbleType][_base] FbleType base class.
  *  @field[FbleType*][poly] The poly to apply.
  *  @field[FbleType*][arg] Argument to the poly.
+ *  @field[FbleType*][subst]
+ *   The result of substituting the argument into the body of the poly. NULL
+ *   until it is first needed. Remembered so that normalizing a recursive type
+ *   such as @l{T@ = F@<T@>} gives the same type each time.
  */
 typedef struct {
   FbleType _base;
   FbleType* poly;
   FbleType* arg;
+  FbleType* subst;
 } FblePolyApplyType;
 
 /**
-- 
2.43.0


From efa400f293f5b6d5a2517fc8ae32ccebc3da5e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:14 +0000
Subject: [PATCH 07/26] fix: do not cast to and from vacuous abstract types

A type that is abstract in itself, such as T@ = Tok@<T@>, was taken to be
equal to every type inside a cast for the package Tok@, which let a value
of any type be used as a value of any other type.
---
 lib/type.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/type.c b/lib/type.c
index 09175b8..8a65107 100644
--- a/lib/type.c
+++ b/lib/type.c
@@ -43,11 +43,15 @@ typedef struct TypeList {
  * @struct[TypePairs] A set of pairs of types.
  *  @field[FbleType*][a] The first type of the current pair.
  *  @field[FbleType*][b] The second type of the current pair.
+ *  @field[bool][unwrap]
+ *   For type equality, true if all that has been done to compare the pair is
+ *   to look through an abstract type.
  *  @field[TypePairs*][next] The rest of the pairs in the set.
  */
 typedef struct TypePairs {
   FbleType* a;
   FbleType* b;
+  bool unwrap;
   struct TypePairs* next;
 } TypePairs;
 
@@ -620,11 +624,15 @@ static bool TypesEqual(FbleTypeHeap* heap, FbleTypeAssignmentV vars, FbleType* a
 
   b = FbleNormalType(heap, b);
 
+  // If we get back to the same pair of types by only looking through abstract
+  // types, we haven't compared anything yet: one of the types is vacuous.
+  bool vacuous = true;
   for (TypePairs* pairs = eq; pairs != NULL; pairs = pairs->next) {
+    vacuous = vacuous && pairs->unwrap;
     if (a == pairs->a && b == pairs->b) {
       FbleReleaseType(heap, a);
       FbleReleaseType(heap, b);
-      return true;
+      return !vacuous;
     }
   }
 
@@ -639,6 +647,7 @@ static bool TypesEqual(FbleTypeHeap* heap, FbleTypeAssignmentV vars, FbleType* a
   if (a->tag == FBLE_ABSTRACT_TYPE) {
     FbleAbstractType* aa = (FbleAbstractType*)a;
     if (!aa->package->opaque) {
+      neq.unwrap = true;
       bool equal = TypesEqual(heap, vars, aa->type, b, &neq);
       FbleReleaseType(heap, a);
       FbleReleaseType(heap, b);
@@ -649,6 +658,7 @@ static bool TypesEqual(FbleTypeHeap* heap, FbleTypeAssignmentV vars, FbleType* a
   if (b->tag == FBLE_ABSTRACT_TYPE) {
     FbleAbstractType* ab = (FbleAbstractType*)b;
     if (!ab->package->opaque) {
+      neq.unwrap = true;
       bool equal = TypesEqual(heap, vars, a, ab->type, &neq);
       FbleReleaseType(heap, a);
       FbleReleaseType(heap, b);
-- 
2.43.0


From 724d9700b582309f65f39e689e7becaa30ee9f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 08/26] fix: reject input with a syntax error after a complete
 module

The result was set as soon as the statement or module path was complete,
so trailing garbage was reported but the module was accepted anyway.
---
 lib/parse.y | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/parse.y b/lib/parse.y
index 247419c..b9ca9fa 100644
--- a/lib/parse.y
+++ b/lib/parse.y
@@ -933,7 +933,11 @@ FbleExpr* FbleParse(FbleString* filename, FbleModulePathV* deps)
     .start_token = PARSE_PROGRAM
   };
   FbleExpr* result = NULL;
-  yyparse(&lex, &result, deps);
+  if (yyparse(&lex, &result, deps) != 0) {
+    // The result is set before we know whether anything follows it.
+    FbleFreeExpr(result);
+    result = NULL;
+  }
   fclose(fin);
   return result;
 }
@@ -957,7 +961,7 @@ FbleModulePath* FbleParseModulePath(const char* string)
 
   FbleModulePathV path;
   FbleInitVector(path);
-  yyparse(&lex, NULL, &path);
+  bool ok = (yyparse(&lex, NULL, &path) == 0);
   FbleFreeLoc(lex.loc);
 
   FbleModulePath* result = NULL;
@@ -966,5 +970,11 @@ FbleModulePath* FbleParseModulePath(const char* string)
     result = path.xs[0];
   }
   FbleFreeVector(path);
+
+  if (!ok && result != NULL) {
+    // The path is set before we know whether anything follows it.
+    FbleFreeModulePath(result);
+    result = NULL;
+  }
   return result;
 }
-- 
2.43.0


From 56597a9ed609dd19ea0af4d4d1d14d580c3ad668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 09/26] fix: do not take a NUL character for the end of a
 module

Anything after a NUL character between tokens was silently ignored, and a
name or literal was cut short at a NUL character.
---
 lib/parse.y | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/parse.y b/lib/parse.y
index b9ca9fa..8f17096 100644
--- a/lib/parse.y
+++ b/lib/parse.y
@@ -749,7 +749,7 @@ static bool IsSpaceChar(int c)
  */
 static bool IsPunctuationChar(int c)
 {
-  return c == EOF || strchr("(){}[];,:?=.<>+*-!$@~&|%/^", c) != NULL;
+  return c == EOF || (c != '\0' && strchr("(){}[];,:?=.<>+*-!$@~&|%/^", c) != NULL);
 }
 
 /**
@@ -879,6 +879,12 @@ static int yylex(YYSTYPE* lvalp, YYLTYPE* llocp, Lex* lex)
       ReadNextChar(lex);
     }
   }
+
+  if (wordv.size > 0 && memchr(wordv.xs, '\0', wordv.size) != NULL) {
+    // We can't represent words with NUL characters in them.
+    FbleFreeVector(wordv);
+    return YYUNDEF;
+  }
   FbleAppendToVector(wordv, '\0');
 
   lvalp->word = wordv.xs;
-- 
2.43.0


From 98a0c25994d8ebcd7074083b5c214df431aff1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 10/26] fix: read the characters of module path strings as
 unsigned

A character 0xFF in a module path given as a string was taken for its end.
---
 lib/parse.y | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/parse.y b/lib/parse.y
index 8f17096..a2d0de1 100644
--- a/lib/parse.y
+++ b/lib/parse.y
@@ -793,7 +793,7 @@ static void ReadNextChar(Lex* lex)
     if (*lex->sin == '\0') {
       lex->c = EOF;
     } else {
-      lex->c = *lex->sin;
+      lex->c = (unsigned char)*lex->sin;
       lex->sin++;
     }
   }
@@ -915,7 +915,7 @@ static void yyerror(YYLTYPE* llocp, Lex* lex, FbleExpr** result, FbleModulePathV
 bool FbleIsPlainWord(const char* word)
 {
   for (const char* c = word; *c != '\0'; c++) {
-    if (!IsWordChar(*c)) {
+    if (!IsWordChar((unsigned char)*c)) {
       return false;
     }
   }
-- 
2.43.0


From eed938d0bf7ed53982d945da2a5f60ff6f9f6544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 11/26] fix: fbld @tail and @plain of markup that failed to
 evaluate

The argument is NULL, or contains NULL, when evaluating it gave an error.
---
 fbld/eval.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fbld/eval.c b/fbld/eval.c
index cdf9f07..1af5dcc 100644
--- a/fbld/eval.c
+++ b/fbld/eval.c
@@ -320,6 +320,11 @@ static bool HeadOf(FbldMarkup* m, char* out)
  */
 static bool TailOf(FbldMarkup* m, FbldMarkup** out)
 {
+  if (m == NULL) {
+    // There must have already been some error message reported. Bail out.
+    return false;
+  }
+
   switch (m->tag) {
     case FBLD_MARKUP_PLAIN: {
       if (m->text->str[0] == '\0') {
@@ -460,6 +465,11 @@ static bool Eq(FbldMarkup* a, FbldMarkup* b, bool* eq)
  */
 static FbldMarkup* MapPlain(const char* f, FbldMarkup* m)
 {
+  if (m == NULL) {
+    // There must have already been some error message reported. Bail out.
+    return NULL;
+  }
+
   switch (m->tag) {
     case FBLD_MARKUP_PLAIN: {
       FbldMarkup* n = FbldAlloc(FbldMarkup);
-- 
2.43.0


From 1957462fcea15fe110c8ab14f93ebab1ccc75c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 12/26] fix: fbld text made of more than one empty piece

Growing the text for an empty piece after an empty one left no space for the
terminating nul.
---
 fbld/markup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbld/markup.c b/fbld/markup.c
index 0149f9d..7029743 100644
--- a/fbld/markup.c
+++ b/fbld/markup.c
@@ -153,7 +153,7 @@ static bool TextOfMarkup(FbldMarkup* markup, FbldText** text, size_t* capacity)
       size_t src_size = strlen(markup->text->str);
       if (src_size >= *capacity) {
         size_t size = strlen((*text)->str) + *capacity;
-        size_t nsize = 2 * (strlen((*text)->str) + src_size);
+        size_t nsize = 2 * (strlen((*text)->str) + src_size) + 1;
         *text = FbldReAllocRaw(*text, sizeof(FbldText) + nsize);
         *capacity = nsize - size;
         assert(src_size < *capacity);
-- 
2.43.0


From 24407ae8f2ac3c66eaae40de157686208555fc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 13/26] fix: fbld same line argument at the end of input

The end of input ends the argument; that the newline is missing is then
reported as an error.
---
 fbld/parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbld/parse.c b/fbld/parse.c
index 8de0cc5..4aed3e6 100644
--- a/fbld/parse.c
+++ b/fbld/parse.c
@@ -416,7 +416,8 @@ static FbldMarkup* ParseInline(Lex* lex, InlineContext context)
     }
 
     if (context == SAME_LINE_ARG
-        && (Is(lex, "\n") || Is(lex, " @\n") || Is(lex, " @@\n"))) {
+        && (Is(lex, "\n") || Is(lex, " @\n") || Is(lex, " @@\n")
+          || IsEnd(lex))) {
       break;
     }
 
-- 
2.43.0


From b9675b294413984ee29983065881d7ecf3ec2a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:09 +0000
Subject: [PATCH 14/26] fix: fbld white space at the start of an input file

Whether the first character of a file is indentation was decided from the
location before the file was opened, so a leading space was dropped.
---
 fbld/parse.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fbld/parse.c b/fbld/parse.c
index 4aed3e6..b2b4e22 100644
--- a/fbld/parse.c
+++ b/fbld/parse.c
@@ -126,6 +126,18 @@ static char NextFetched(Lex* lex, size_t* i)
   // should not be giving random indexes for i.
   assert(*i <= lex->next_size);
 
+  // Fetch the first character before looking at the location, because that
+  // may take us to the start of the next input file.
+  if (lex->next_size == 0) {
+    char c = GetC(lex);
+    if (c == END) {
+      return END;
+    }
+
+    lex->next[lex->next_size] = c;
+    lex->next_size++;
+  }
+
   // Compute the current column.
   // TODO: Should we make this more efficient?
   size_t col = lex->loc.column;
-- 
2.43.0


From 6bce3edcb064942d590421adb9c3df0797af693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:27 +0000
Subject: [PATCH 15/26] fix: conversion of the least 64 bit integer to an Int@
 value

---
 pkgs/core/int.fble.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pkgs/core/int.fble.c b/pkgs/core/int.fble.c
index 06c9ed0..5e8406b 100644
--- a/pkgs/core/int.fble.c
+++ b/pkgs/core/int.fble.c
@@ -9,13 +9,13 @@
 
 #include <fble/fble-value.h>   // for FbleValue, etc.
 
-static FbleValue* MakeIntP(FbleValueHeap* heap, int64_t x);
-static int64_t ReadIntP(FbleValue* num);
+static FbleValue* MakeIntP(FbleValueHeap* heap, uint64_t x);
+static uint64_t ReadIntP(FbleValue* num);
 
 /**
  * @func[MakeIntP] Makes an FbleValue of type @l{/Core/Int/Core/IntP%.IntP@}.
  *  @arg[FbleValueHeap*][heap] The heap to use for allocations.
- *  @arg[int64_t][x] The integer value. Must be greater than 0.
+ *  @arg[uint64_t][x] The integer value. Must be greater than 0.
  *
  *  @returns[FbleValue*]
  *   An FbleValue for the integer.
@@ -23,7 +23,7 @@ static int64_t ReadIntP(FbleValue* num);
  *  @sideeffects
  *   Allocates a value on the heap.
  */
-static FbleValue* MakeIntP(FbleValueHeap* heap, int64_t x)
+static FbleValue* MakeIntP(FbleValueHeap* heap, uint64_t x)
 {
   assert(x > 0);
   if (x == 1) {
@@ -38,14 +38,14 @@ static FbleValue* MakeIntP(FbleValueHeap* heap, int64_t x)
  * @func[ReadIntP] Reads a number of type @l{/Core/Int/Core/IntP%.IntP@}.
  *  @arg[FbleValue*][x] The value of the number.
  *
- *  @returns[int64_t]
+ *  @returns[uint64_t]
  *   The number x represented as an integer.
  *
  *  @sideeffects
  *   Behavior is undefined if the int value cannot be represented using the C
- *   int64_t type, for example because it is too large.
+ *   uint64_t type, for example because it is too large.
  */
-static int64_t ReadIntP(FbleValue* x)
+static uint64_t ReadIntP(FbleValue* x)
 {
   switch (FbleUnionValueTag(x)) {
     case 0: return 1;
@@ -59,7 +59,7 @@ static int64_t ReadIntP(FbleValue* x)
 FbleValue* FbleNewIntValue(FbleValueHeap* heap, int64_t x)
 {
   if (x < 0) {
-    FbleValue* p = MakeIntP(heap, -x);
+    FbleValue* p = MakeIntP(heap, -(uint64_t)x);
     FbleValue* result = FbleNewUnionValue(heap, 0, p);
     return result;
   }
@@ -76,9 +76,9 @@ FbleValue* FbleNewIntValue(FbleValueHeap* heap, int64_t x)
 int64_t FbleIntValueAccess(FbleValue* x)
 {
   switch (FbleUnionValueTag(x)) {
-    case 0: return -ReadIntP(FbleUnionValueArg(x));
+    case 0: return (int64_t)(-ReadIntP(FbleUnionValueArg(x)));
     case 1: return 0;
-    case 2: return ReadIntP(FbleUnionValueArg(x));
+    case 2: return (int64_t)ReadIntP(FbleUnionValueArg(x));
     default: assert(false && "Invalid Int@ tag"); abort();
   }
 }
-- 
2.43.0


From 44655f712749691c197541ccc143a9b073b11f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:22 +0000
Subject: [PATCH 16/26] fix: eta-reduction of type functions where the argument
 occurs free in the function

---
 lib/type.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/type.c b/lib/type.c
index 8a65107..f81dd90 100644
--- a/lib/type.c
+++ b/lib/type.c
@@ -264,16 +264,19 @@ static FbleType* Normal(FbleTypeHeap* heap, FbleType* type, TypeList* normalizin
     case FBLE_POLY_TYPE: {
       FblePolyType* poly = (FblePolyType*)type;
 
-      // eta-reduce (\x -> f x) ==> f
+      // eta-reduce (\x -> f x) ==> f, where x does not occur free in f.
       FblePolyApplyType* pat = (FblePolyApplyType*)Normal(heap, poly->body, &nn);
       if (pat == NULL) {
         return NULL;
       }
 
       if (pat->_base.tag == FBLE_POLY_APPLY_TYPE && pat->arg == poly->arg) {
-        FbleType* normal = FbleRetainType(heap, pat->poly);
-        FbleReleaseType(heap, &pat->_base);
-        return normal;
+        FbleType* normal = Normal(heap, pat->poly, &nn);
+        if (normal == NULL || !HasParam(normal, poly->arg)) {
+          FbleReleaseType(heap, &pat->_base);
+          return normal;
+        }
+        FbleReleaseType(heap, normal);
       }
 
       FbleReleaseType(heap, &pat->_base);
-- 
2.43.0


From 52bf0da2837fa18c93623afb7b1b64add4d0f4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:17 +0000
Subject: [PATCH 17/26] fix: stack allocation of values larger than half a
 chunk

---
 lib/value.c | 55 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/lib/value.c b/lib/value.c
index b2a8a8f..08f193d 100644
--- a/lib/value.c
+++ b/lib/value.c
@@ -345,6 +345,7 @@ typedef struct {
 #define NewGcValueExtra(heap, frame, T, tag, count) ((T*) NewGcValueRaw(heap, frame, tag, sizeof(T) + count * sizeof(FbleValue*)))
 
 static void* StackAlloc(FbleValueHeap* heap, size_t size);
+static void RecycleChunks(FbleValueHeap* heap, Frame* frame);
 static FbleValue* NewValueRaw(FbleValueHeap* heap, ValueTag tag, size_t size);
 static FbleValue* NewGcValueRaw(FbleValueHeap* heap, Frame* frame, ValueTag tag, size_t size);
 static void FreeGcValue(FbleValue* value);
@@ -361,9 +362,11 @@ static FbleValue* StrictValue(FbleValue* value);
 /**
  * @struct[Chunk] A chunk of allocated stack space.
  *  @field[Chunk*][next] The next chunk in the list.
+ *  @field[size_t][size] The number of bytes allocated for the chunk.
  */
 typedef struct Chunk {
   struct Chunk* next;
+  size_t size;
 } Chunk;
 
 /**
@@ -610,23 +613,53 @@ static void* StackAlloc(FbleValueHeap* heap, size_t size)
 {
   Frame* frame = heap->top;
   if (frame->max < frame->top + size) {
+    // Chunks larger than CHUNK_SIZE are for single allocations that don't fit
+    // in a normal chunk.
+    size_t chunk_size = CHUNK_SIZE;
+    if (chunk_size < sizeof(Chunk) + size) {
+      chunk_size = sizeof(Chunk) + size;
+    }
+
     Chunk* chunk = heap->chunks;
-    if (chunk == NULL) {
-      chunk = (Chunk*)FbleAllocRaw(CHUNK_SIZE);
+    if (chunk == NULL || chunk_size > CHUNK_SIZE) {
+      chunk = (Chunk*)FbleAllocRaw(chunk_size);
     } else {
       heap->chunks = chunk->next;
     }
 
+    chunk->size = chunk_size;
     chunk->next = frame->chunks;
     frame->chunks = chunk;
-    frame->top = size + (intptr_t)(chunk + 1);
-    frame->max = CHUNK_SIZE + (intptr_t)chunk;
+    frame->top = (intptr_t)(chunk + 1);
+    frame->max = chunk_size + (intptr_t)chunk;
   }
 
   void* result = (void*)frame->top;
   frame->top += size;
   return result;
 }
+
+/**
+ * @func[RecycleChunks] Releases a frame's additional stack chunks.
+ *  @arg[FbleValueHeap*][heap] The heap to release the chunks to.
+ *  @arg[Frame*][frame] The frame to release the chunks of.
+ *  @sideeffects
+ *   Moves normal sized chunks to the heap's list of available chunks and frees
+ *   any other chunks.
+ */
+static void RecycleChunks(FbleValueHeap* heap, Frame* frame)
+{
+  while (frame->chunks != NULL) {
+    Chunk* chunk = frame->chunks;
+    frame->chunks = chunk->next;
+    if (chunk->size > CHUNK_SIZE) {
+      FbleFree(chunk);
+    } else {
+      chunk->next = heap->chunks;
+      heap->chunks = chunk;
+    }
+  }
+}
 
 /**
  * @func[NewValueRaw] Allocates a new value on the stack.
@@ -1123,12 +1156,7 @@ FbleValue* FblePopFrame(FbleValueHeap* heap, FbleValue* value)
     }
   }
 
-  while (top->chunks != NULL) {
-    Chunk* chunk = top->chunks;
-    top->chunks = chunk->next;
-    chunk->next = heap->chunks;
-    heap->chunks = chunk;
-  }
+  RecycleChunks(heap, top);
 
   if (heap->gc.next == NULL || heap->gc.next == top) {
     heap->gc.next = heap->top;
@@ -1180,12 +1208,7 @@ static void CompactFrame(FbleValueHeap* heap, bool merge, size_t n, FbleValue**
 
   heap->top->top = (intptr_t)(heap->top + 1);
   heap->top->max = heap->top->caller->max;
-  while (heap->top->chunks != NULL) {
-    Chunk* chunk = heap->top->chunks;
-    heap->top->chunks = chunk->next;
-    chunk->next = heap->chunks;
-    heap->chunks = chunk;
-  }
+  RecycleChunks(heap, heap->top);
 
   MoveAllTo(&heap->top->unmarked, &heap->top->marked);
   MoveAllTo(&heap->top->unmarked, &heap->top->alloced);
-- 
2.43.0


From e1ef0e4bd7a196891f52a78fab8a93c7a9273412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 18/26] fix: equality of a type function with the eta-expansion
 of its equal

Normalization eta-reduces only when the argument is passed on by name, so
<@ X@> { M@<Id@<X@>>; } was considered different from M@.
---
 lib/type.c | 53 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/lib/type.c b/lib/type.c
index f81dd90..479b07f 100644
--- a/lib/type.c
+++ b/lib/type.c
@@ -63,6 +63,7 @@ static FbleType* Normal(FbleTypeHeap* heap, FbleType* type, TypeList* normalizin
 static bool HasParam(FbleType* type, FbleType* param);
 static bool HasParam_(FbleType* type, FbleType* param);
 static FbleType* Subst(FbleTypeHeap* heap, FbleType* src, FbleType* param, FbleType* arg, TypePairs* tps);
+static bool EtaEqual(FbleTypeHeap* heap, FbleTypeAssignmentV vars, FbleType* a, FbleType* b, TypePairs* eq);
 static bool TypesEqual(FbleTypeHeap* heap, FbleTypeAssignmentV vars, FbleType* a, FbleType* b, TypePairs* eq);
 
 /**
@@ -589,6 +590,48 @@ static FbleType* Subst(FbleTypeHeap* heap, FbleType* type, FbleType* param, Fble
   return NULL;
 }
 
+/**
+ * @func[EtaEqual] Checks whether a poly equals the eta-expansion of a type.
+ *  @arg[FbleTypeHeap*][heap] Heap to use for allocations
+ *  @arg[FbleTypeAssignmentV][vars] Variables for type inference.
+ *  @arg[FbleType*][a] The first type, in normal form. Borrowed.
+ *  @arg[FbleType*][b]
+ *   The second type, in normal form. Exactly one of @a[a] and @a[b] should be
+ *   an FblePolyType. Borrowed.
+ *  @arg[TypePairs*][eq]
+ *   A set of pairs of types that should be assumed to be equal
+ *
+ *  @returns[bool]
+ *   True if the first type equals the second type, false otherwise.
+ *
+ *  @sideeffects
+ *   Sets value of assignments to type variables to make the types equal.
+ */
+static bool EtaEqual(FbleTypeHeap* heap, FbleTypeAssignmentV vars, FbleType* a, FbleType* b, TypePairs* eq)
+{
+  FblePolyType* poly = (FblePolyType*)(a->tag == FBLE_POLY_TYPE ? a : b);
+  FbleType* other = (a->tag == FBLE_POLY_TYPE ? b : a);
+  if (other->tag != FBLE_VAR_TYPE && other->tag != FBLE_POLY_APPLY_TYPE) {
+    return false;
+  }
+
+  FbleKind* poly_kind = FbleGetKind(&poly->_base);
+  FbleKind* other_kind = FbleGetKind(other);
+  bool equal = FbleKindsEqual(poly_kind, other_kind);
+  FbleFreeKind(poly_kind);
+  FbleFreeKind(other_kind);
+  if (!equal) {
+    return false;
+  }
+
+  FbleType* apply = FbleNewPolyApplyType(heap, other->loc, other, poly->arg);
+  equal = (a->tag == FBLE_POLY_TYPE)
+    ? TypesEqual(heap, vars, poly->body, apply, eq)
+    : TypesEqual(heap, vars, apply, poly->body, eq);
+  FbleReleaseType(heap, apply);
+  return equal;
+}
+
 /**
  * @func[TypesEqual] Infers types and checks for type equality.
  *  @arg[FbleTypeHeap*][heap] Heap to use for allocations
@@ -669,6 +712,16 @@ static bool TypesEqual(FbleTypeHeap* heap, FbleTypeAssignmentV vars, FbleType* a
     }
   }
 
+  if ((a->tag == FBLE_POLY_TYPE) != (b->tag == FBLE_POLY_TYPE)) {
+    // eta-expand: (\x -> body) == f if body == f x. Normalization doesn't
+    // reduce \x -> f x to f when x is written as something that evaluates to
+    // x or occurs in f only until f is evaluated.
+    bool equal = EtaEqual(heap, vars, a, b, &neq);
+    FbleReleaseType(heap, a);
+    FbleReleaseType(heap, b);
+    return equal;
+  }
+
   if (a->tag != b->tag) {
     FbleReleaseType(heap, a);
     FbleReleaseType(heap, b);
-- 
2.43.0


From 28db81735afa6b20e276eeb5e064be4cbc364abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 19/26] fix: fble-perf-profile does not terminate on an unknown
 argument

---
 bin/fble-perf-profile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/fble-perf-profile.c b/bin/fble-perf-profile.c
index cb4d1b3..054a93d 100644
--- a/bin/fble-perf-profile.c
+++ b/bin/fble-perf-profile.c
@@ -165,6 +165,7 @@ int main(int argc, const char* argv[])
     }
     if (FbleParseBoolArg("-v", &version, &argc, &argv, &error)) continue;
     if (FbleParseBoolArg("--version", &version, &argc, &argv, &error)) continue;
+    if (FbleParseInvalidArg(&argc, &argv, &error)) continue;
   }
 
   if (version) {
-- 
2.43.0


From 9b7a50ec9356a73fe3b214c95dd83999fab1e31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 20/26] fix: fble-perf-profile writes past the end of the line
 it reads

The terminating byte had no room when a line's length hit the capacity, and
no memory at all when the input is empty.
---
 bin/fble-perf-profile.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bin/fble-perf-profile.c b/bin/fble-perf-profile.c
index 054a93d..dc70de4 100644
--- a/bin/fble-perf-profile.c
+++ b/bin/fble-perf-profile.c
@@ -48,13 +48,18 @@ static bool GetLine(FILE* file, String* line)
 
   int c = fgetc(file);
   while (c != EOF && c != '\n') {
-    if (line->size == line->capacity) {
+    // Leave room for the terminating '\0'.
+    if (line->size + 1 >= line->capacity) {
       line->capacity = 2 * (line->capacity + 1);
       line->chars = realloc(line->chars, line->capacity * sizeof(char));
     }
     line->chars[line->size++] = c;
     c = fgetc(file);
   }
+  if (line->chars == NULL) {
+    line->capacity = 1;
+    line->chars = malloc(line->capacity * sizeof(char));
+  }
   line->chars[line->size] = '\0';
   return c == '\n';
 }
-- 
2.43.0


From be2d7d18dfa6b481c12766cf0578c0017274f41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:54 +0000
Subject: [PATCH 21/26] fix: compiling a module with a non-ASCII name overflows
 a buffer

SanitizeString and LabelForPath format each byte as _%02x_ from a plain
char, which is negative for non-ASCII bytes where char is signed and gets
sign extended to eight hex digits.
---
 lib/aarch64.c | 4 ++--
 lib/c.c       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/aarch64.c b/lib/aarch64.c
index 0ef546c..e3cbdec 100644
--- a/lib/aarch64.c
+++ b/lib/aarch64.c
@@ -1118,7 +1118,7 @@ static void SanitizeString(const char* str, char* dst)
   dst[0] = '\0';
   for (const char* p = str; *p != '\0'; p++) {
     char x[5];
-    sprintf(x, isalnum((unsigned char)*p) ? "%c" : "_%02x_", *p);
+    sprintf(x, isalnum((unsigned char)*p) ? "%c" : "_%02x_", (unsigned char)*p);
     strcat(dst, x);
   }
 }
@@ -1172,7 +1172,7 @@ static FbleString* LabelForPath(FbleModulePath* path)
         sprintf(translated, "%c", *p);
         strcat(name, translated);
       } else {
-        sprintf(translated, "_%02x_", *p);
+        sprintf(translated, "_%02x_", (unsigned char)*p);
         strcat(name, translated);
       }
     }
diff --git a/lib/c.c b/lib/c.c
index b8510b5..08f13f9 100644
--- a/lib/c.c
+++ b/lib/c.c
@@ -613,7 +613,7 @@ static void SanitizeString(const char* str, char* dst)
   dst[0] = '\0';
   for (const char* p = str; *p != '\0'; p++) {
     char x[5];
-    sprintf(x, isalnum((unsigned char)*p) ? "%c" : "_%02x_", *p);
+    sprintf(x, isalnum((unsigned char)*p) ? "%c" : "_%02x_", (unsigned char)*p);
     strcat(dst, x);
   }
 }
@@ -666,7 +666,7 @@ static FbleString* LabelForPath(FbleModulePath* path)
         sprintf(translated, "%c", *p);
         strcat(name, translated);
       } else {
-        sprintf(translated, "_%02x_", *p);
+        sprintf(translated, "_%02x_", (unsigned char)*p);
         strcat(name, translated);
       }
     }
-- 
2.43.0


From 16dd87b959a446fcc8e5ec216d351009695283b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:54 +0000
Subject: [PATCH 22/26] fix: generated C code for a module is wrong if names or
 paths have special characters

The source path was put unescaped into a printf format string, so a path with
a quote, backslash or percent broke the generated code or its error messages.
And a ?? sequence in a name or path turned into a trigraph.
---
 lib/c.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/c.c b/lib/c.c
index 08f13f9..95cddbb 100644
--- a/lib/c.c
+++ b/lib/c.c
@@ -102,6 +102,7 @@ static void StringLit(FILE* fout, const char* string)
       case '\v': fprintf(fout, "\\v"); break;
       case '"': fprintf(fout, "\\\""); break;
       case '\\': fprintf(fout, "\\\\"); break;
+      case '?': fprintf(fout, "\\?"); break;   // avoids forming trigraphs
       default: fprintf(fout, "%c", *p); break;
     }
   }
@@ -700,8 +701,9 @@ void FbleGenerateC(FILE* fout, FbleCompiledModule* module)
 
   fprintf(fout, "static void ReportAbort(const char* msg, int line, int col)\n");
   fprintf(fout, "{\n");
-  fprintf(fout, "  fprintf(stderr, \"%s:%%d:%%d: error: %%s\\n\", line, col, msg);\n",
-      module->path->loc.source->str);
+  fprintf(fout, "  fprintf(stderr, \"%%s:%%d:%%d: error: %%s\\n\", ");
+  StringLit(fout, module->path->loc.source->str);
+  fprintf(fout, ", line, col, msg);\n");
   fprintf(fout, "}\n");
 
   // Generate prototypes for all the run functions.
-- 
2.43.0


From 8fbada067c0ed1962082a5fd3fb90ae1d6c0caae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:54 +0000
Subject: [PATCH 23/26] fix: AArch64 code for a module is malformed if names or
 paths have special characters

The source file name, compilation directory and function names were put in
the assembly unescaped.
---
 lib/aarch64.c | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/lib/aarch64.c b/lib/aarch64.c
index e3cbdec..ed4e4b0 100644
--- a/lib/aarch64.c
+++ b/lib/aarch64.c
@@ -66,6 +66,7 @@ typedef struct {
 static void AddLoc(const char* source, LocV* locs);
 static void CollectBlocksAndLocs(FbleCodeV* blocks, LocV* locs, FbleCode* code);
 
+static void Quoted(FILE* fout, const char* string);
 static void StringLit(FILE* fout, const char* string);
 static LabelId StaticString(FILE* fout, LabelId* label_id, const char* string);
 static LabelId StaticNames(FILE* fout, LabelId* label_id, FbleNameV names);
@@ -216,16 +217,16 @@ static void CollectBlocksAndLocs(FbleCodeV* blocks, LocV* locs, FbleCode* code)
 }
 
 /**
- * @func[StringLit] Declares a string literal.
+ * @func[Quoted] Outputs a quoted string.
  *  @arg[FILE*][fout] The file to write to.
  *  @arg[const char*][string] The contents of the string to write.
- *  
+ *
  *  @sideeffects
- *   Adds a .string statement to the output file.
+ *   Outputs the string with quotes, escaped as needed for the assembler.
  */
-static void StringLit(FILE* fout, const char* string)
+static void Quoted(FILE* fout, const char* string)
 {
-  fprintf(fout, "  .string \"");
+  fprintf(fout, "\"");
   for (const char* p = string; *p; p++) {
     switch (*p) {
       case '\n': fprintf(fout, "\\n"); break;
@@ -234,9 +235,24 @@ static void StringLit(FILE* fout, const char* string)
       default: fprintf(fout, "%c", *p); break;
     }
   }
-  fprintf(fout, "\"\n");
+  fprintf(fout, "\"");
 }
-
+
+/**
+ * @func[StringLit] Declares a string literal.
+ *  @arg[FILE*][fout] The file to write to.
+ *  @arg[const char*][string] The contents of the string to write.
+ *  
+ *  @sideeffects
+ *   Adds a .string statement to the output file.
+ */
+static void StringLit(FILE* fout, const char* string)
+{
+  fprintf(fout, "  .string ");
+  Quoted(fout, string);
+  fprintf(fout, "\n");
+}
+
 /**
  * @func[StaticString] Outputs code to declare a static FbleString value.
  *  @arg[FILE*][fout] The file to write to
@@ -1194,7 +1210,9 @@ void FbleGenerateAArch64(FILE* fout, FbleCompiledModule* module)
 
   CollectBlocksAndLocs(&blocks, &locs, module->code);
 
-  fprintf(fout, "  .file 1 \"%s\"\n", module->path->loc.source->str);
+  fprintf(fout, "  .file 1 ");
+  Quoted(fout, module->path->loc.source->str);
+  fprintf(fout, "\n");
 
   // Common things we hold in callee saved registers for Run and Abort
   // functions.
@@ -1228,7 +1246,8 @@ void FbleGenerateAArch64(FILE* fout, FbleCompiledModule* module)
   for (size_t i = 0; i < locs.size; ++i) {
     char label[SizeofSanitizedString(locs.xs[i])];
     SanitizeString(locs.xs[i], label);
-    fprintf(fout, ".L.loc.%s:\n  .string \"%s\"\n", label, locs.xs[i]);
+    fprintf(fout, ".L.loc.%s:\n", label);
+    StringLit(fout, locs.xs[i]);
   }
 
   fprintf(fout, "  .text\n");
@@ -1262,10 +1281,9 @@ void FbleGenerateAArch64(FILE* fout, FbleCompiledModule* module)
   fprintf(fout, "  .uleb128 1\n");       // abbrev code for compile_unit
   fprintf(fout, "  .8byte .L.low_pc\n");  // low_pc value.
   fprintf(fout, "  .8byte .L.high_pc\n"); // high_pc value.
-  fprintf(fout, "  .string \"%s\"\n",    // source file name.
-      module->path->loc.source->str);    
+  StringLit(fout, module->path->loc.source->str);  // source file name.
   fprintf(fout, "  .4byte .L.debug_line\n");          // stmt_list offset.
-  fprintf(fout, "  .string \"%s\"\n", cwd); // compilation directory.
+  StringLit(fout, cwd);                 // compilation directory.
   fprintf(fout, "  .string \"FBLE\"\n"); // producer.
 
   // FbleValue* type entry
@@ -1289,8 +1307,7 @@ void FbleGenerateAArch64(FILE* fout, FbleCompiledModule* module)
     SanitizeString(function_block.name->str, function_label);
 
     fprintf(fout, "  .uleb128 2\n");       // abbrev code for subprogram.
-    fprintf(fout, "  .string \"%s\"\n",    // source function name.
-        function_block.name->str);
+    StringLit(fout, function_block.name->str);  // source function name.
 
     // low_pc and high_pc attributes.
     fprintf(fout, "  .8byte %s.%04zx\n", function_label, func_id);
-- 
2.43.0


From 60ad34ba0e766a6120a38e660dd7dc2efb5d8147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:57 +0000
Subject: [PATCH 24/26] fix: AArch64 code for large functions and modules does
 not assemble

Frame sizes, offsets, counts, tags, block ids, lines and columns were used
directly as immediate operands, which can only hold 12 or 16 bits.
---
 lib/aarch64.c | 134 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 100 insertions(+), 34 deletions(-)

diff --git a/lib/aarch64.c b/lib/aarch64.c
index ed4e4b0..72559ad 100644
--- a/lib/aarch64.c
+++ b/lib/aarch64.c
@@ -73,6 +73,9 @@ static LabelId StaticNames(FILE* fout, LabelId* label_id, FbleNameV names);
 static LabelId StaticModulePath(FILE* fout, LabelId* label_id, FbleModulePath* path);
 static void StaticGeneratedModule(FILE* fout, LabelId* label_id, FbleCompiledModule* module);
 
+static void MovImm(FILE* fout, const char* rdst, size_t value);
+static void AddImm(FILE* fout, const char* op, const char* rdst, const char* rsrc, size_t value);
+static void LoadStore(FILE* fout, const char* op, const char* reg, const char* base, size_t offset);
 static void GetFrameVar(FILE* fout, const char* rdst, FbleVar index);
 static void SetFrameVar(FILE* fout, const char* rsrc, FbleLocalIndex index);
 static void DoAbort(FILE* fout, size_t func_id, size_t pc, const char* lmsg, FbleLoc loc);
@@ -401,6 +404,68 @@ static void StaticGeneratedModule(FILE* fout, LabelId* label_id, FbleCompiledMod
   FbleFreeString(module_name);
 }
 
+/**
+ * @func[MovImm] Generates code to set a register to a constant.
+ *  @arg[FILE*][fout] The output stream.
+ *  @arg[const char*][rdst] The name of the register to set.
+ *  @arg[size_t][value] The value to set the register to.
+ *
+ *  @sideeffects
+ *   Writes to the output stream.
+ */
+static void MovImm(FILE* fout, const char* rdst, size_t value)
+{
+  fprintf(fout, "  mov %s, #%zi\n", rdst, value & 0xffff);
+  size_t shift = 0;
+  for (value >>= 16; value != 0; value >>= 16) {
+    shift += 16;
+    fprintf(fout, "  movk %s, #%zi, lsl #%zi\n", rdst, value & 0xffff, shift);
+  }
+}
+
+/**
+ * @func[AddImm] Generates code to add or subtract a constant.
+ *  @arg[FILE*][fout] The output stream.
+ *  @arg[const char*][op] The instruction to use: add or sub.
+ *  @arg[const char*][rdst] The name of the register for the result.
+ *  @arg[const char*][rsrc] The name of the register to add to.
+ *  @arg[size_t][value] The value to add, which should be less than 2^24.
+ *
+ *  @sideeffects
+ *   Writes to the output stream.
+ */
+static void AddImm(FILE* fout, const char* op, const char* rdst, const char* rsrc, size_t value)
+{
+  // Each instruction has 12 bits for the value, optionally shifted by 12.
+  if (value > 0xfff) {
+    fprintf(fout, "  %s %s, %s, #%zi, lsl #12\n", op, rdst, rsrc, value >> 12);
+    rsrc = rdst;
+  }
+  fprintf(fout, "  %s %s, %s, #%zi\n", op, rdst, rsrc, value & 0xfff);
+}
+
+/**
+ * @func[LoadStore] Generates code to load or store an xword.
+ *  @arg[FILE*][fout] The output stream.
+ *  @arg[const char*][op] The instruction to use: ldr or str.
+ *  @arg[const char*][reg] The name of the register to load or store.
+ *  @arg[const char*][base] The name of the register with the base address.
+ *  @arg[size_t][offset] The offset in bytes from the base address.
+ *
+ *  @sideeffects
+ *   Writes to the output stream. The generated code may clobber x16.
+ */
+static void LoadStore(FILE* fout, const char* op, const char* reg, const char* base, size_t offset)
+{
+  // Each instruction has 12 bits for the offset, scaled by 8.
+  if (offset > 8 * 0xfff) {
+    AddImm(fout, "add", "x16", base, offset);
+    fprintf(fout, "  %s %s, [x16]\n", op, reg);
+    return;
+  }
+  fprintf(fout, "  %s %s, [%s, #%zi]\n", op, reg, base, offset);
+}
+
 /**
  * @func[GetFrameVar]
  * @ Generates code to read var from the current frame into register rdst.
@@ -415,7 +480,7 @@ static void StaticGeneratedModule(FILE* fout, LabelId* label_id, FbleCompiledMod
 static void GetFrameVar(FILE* fout, const char* rdst, FbleVar var)
 {
   static const char* regs[] = { "R_STATICS", "R_ARGS", "R_LOCALS" };
-  fprintf(fout, "  ldr %s, [%s, #%zi]\n", rdst, regs[var.tag], sizeof(FbleValue*) * var.index);
+  LoadStore(fout, "ldr", rdst, regs[var.tag], sizeof(FbleValue*) * var.index);
 }
 
 /**
@@ -430,7 +495,7 @@ static void GetFrameVar(FILE* fout, const char* rdst, FbleVar var)
  */
 static void SetFrameVar(FILE* fout, const char* rsrc, FbleLocalIndex index)
 {
-  fprintf(fout, "  str %s, [R_LOCALS, #%zi]\n", rsrc, sizeof(FbleValue*) * index);
+  LoadStore(fout, "str", rsrc, "R_LOCALS", sizeof(FbleValue*) * index);
 }
 
 /**
@@ -455,8 +520,8 @@ static void DoAbort(FILE* fout, size_t func_id, size_t pc, const char* lmsg, Fbl
   SanitizeString(loc.source->str, label);
   Adr(fout, "x2", ".L.loc.%s", label);
 
-  fprintf(fout, "  mov x3, %zi\n", loc.line);
-  fprintf(fout, "  mov x4, %zi\n", loc.col);
+  MovImm(fout, "x3", loc.line);
+  MovImm(fout, "x4", loc.col);
   Adr(fout, "x5", "%s", lmsg);
   fprintf(fout, "  bl fprintf\n");
 
@@ -555,7 +620,8 @@ static void EmitSearch(Context* context, Interval* interval)
   size_t mid = interval->num_targets / 2;
   size_t mid_tag = interval->targets[mid].tag;
   size_t mid_target = interval->targets[mid].target;
-  fprintf(fout, "  cmp x0, %zi\n", mid_tag);
+  MovImm(fout, "x1", mid_tag);
+  fprintf(fout, "  cmp x0, x1\n");
   fprintf(fout, "  b.eq .Lr.%04zx.%zi\n", func_id, mid_target);
 
   Interval low = {
@@ -640,26 +706,26 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
 
       // Allocate space for the arguments array on the stack.
       size_t sp_offset = StackBytesForCount(argc);
-      fprintf(fout, "  sub SP, SP, %zi\n", sp_offset);
+      AddImm(fout, "sub", "SP", "SP", sp_offset);
       for (size_t i = 0; i < argc; ++i) {
         GetFrameVar(fout, "x0", struct_instr->args.xs[i]);
-        fprintf(fout, "  str x0, [SP, #%zi]\n", sizeof(FbleValue*) * i);
+        LoadStore(fout, "str", "x0", "SP", sizeof(FbleValue*) * i);
       };
 
       fprintf(fout, "  mov x0, R_HEAP\n");
-      fprintf(fout, "  mov x1, %zi\n", argc);
+      MovImm(fout, "x1", argc);
       fprintf(fout, "  mov x2, SP\n");
       fprintf(fout, "  bl FbleNewStructValue\n");
       SetFrameVar(fout, "x0", struct_instr->dest);
 
-      fprintf(fout, "  add SP, SP, #%zi\n", sp_offset);
+      AddImm(fout, "add", "SP", "SP", sp_offset);
       return;
     }
 
     case FBLE_UNION_VALUE_INSTR: {
       FbleUnionValueInstr* union_instr = (FbleUnionValueInstr*)instr;
       fprintf(fout, "  mov x0, R_HEAP\n");
-      fprintf(fout, "  mov x1, %zi\n", union_instr->tag);
+      MovImm(fout, "x1", union_instr->tag);
       GetFrameVar(fout, "x2", union_instr->arg);
       fprintf(fout, "  bl FbleNewUnionValue\n");
       SetFrameVar(fout, "x0", union_instr->dest);
@@ -669,7 +735,7 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
     case FBLE_STRUCT_ACCESS_INSTR: {
       FbleAccessInstr* access_instr = (FbleAccessInstr*)instr;
       GetFrameVar(fout, "x0", access_instr->obj);
-      fprintf(fout, "  mov x1, #%zi\n", access_instr->tag);
+      MovImm(fout, "x1", access_instr->tag);
       fprintf(fout, "  bl FbleStructValueField\n");
       SetFrameVar(fout, "x0", access_instr->dest);
       fprintf(fout, "  cbz x0, .Lo.%04zx.%zi.u\n", func_id, pc);
@@ -680,7 +746,7 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
       FbleAccessInstr* access_instr = (FbleAccessInstr*)instr;
 
       GetFrameVar(fout, "x0", access_instr->obj);
-      fprintf(fout, "  mov x1, #%zi\n", access_instr->tag);
+      MovImm(fout, "x1", access_instr->tag);
       fprintf(fout, "  bl FbleUnionValueField\n");
       SetFrameVar(fout, "x0", access_instr->dest);
 
@@ -742,20 +808,20 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
 
       // Allocate space for the statics array on the stack.
       size_t sp_offset = StackBytesForCount(func_instr->code->executable.num_statics);
-      fprintf(fout, "  sub SP, SP, %zi\n", sp_offset);
+      AddImm(fout, "sub", "SP", "SP", sp_offset);
       for (size_t i = 0; i < func_instr->code->executable.num_statics; ++i) {
         GetFrameVar(fout, "x0", func_instr->scope.xs[i]);
-        fprintf(fout, "  str x0, [SP, #%zi]\n", sizeof(FbleValue*) * i);
+        LoadStore(fout, "str", "x0", "SP", sizeof(FbleValue*) * i);
       }
 
       fprintf(fout, "  mov x0, R_HEAP\n");
       Adr(fout, "x1", ".Lr.%04zx.%zi.exe", func_id, pc);
-      fprintf(fout, "  add x2, R_PROFILE_BLOCK_ID, #%zi\n", func_instr->profile_block_offset);
+      AddImm(fout, "add", "x2", "R_PROFILE_BLOCK_ID", func_instr->profile_block_offset);
       fprintf(fout, "  mov x3, SP\n");
       fprintf(fout, "  bl FbleNewFuncValue\n");
       SetFrameVar(fout, "x0", func_instr->dest);
 
-      fprintf(fout, "  add SP, SP, #%zi\n", sp_offset);
+      AddImm(fout, "add", "SP", "SP", sp_offset);
       return;
     }
 
@@ -764,21 +830,21 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
 
       // Allocate space for the arguments array on the stack.
       size_t sp_offset = StackBytesForCount(call_instr->args.size);
-      fprintf(fout, "  sub SP, SP, %zi\n", sp_offset);
+      AddImm(fout, "sub", "SP", "SP", sp_offset);
       for (size_t i = 0; i < call_instr->args.size; ++i) {
         GetFrameVar(fout, "x0", call_instr->args.xs[i]);
-        fprintf(fout, "  str x0, [SP, #%zi]\n", sizeof(FbleValue*) * i);
+        LoadStore(fout, "str", "x0", "SP", sizeof(FbleValue*) * i);
       }
 
       fprintf(fout, "  mov x0, R_HEAP\n");
       fprintf(fout, "  mov x1, R_PROFILE\n");
       GetFrameVar(fout, "x2", call_instr->func);
-      fprintf(fout, "  mov x3, %zi\n", call_instr->args.size);
+      MovImm(fout, "x3", call_instr->args.size);
       fprintf(fout, "  mov x4, SP\n");          // args
 
       fprintf(fout, "  bl FbleCall\n");
       SetFrameVar(fout, "x0", call_instr->dest);
-      fprintf(fout, "  add SP, SP, #%zi\n", sp_offset);
+      AddImm(fout, "add", "SP", "SP", sp_offset);
       fprintf(fout, "  cbz x0, .Lo.%04zx.%zi.abort\n", func_id, pc);
       return;
     }
@@ -797,16 +863,16 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
 
       // Set up the arguments.
       size_t sp_offset = StackBytesForCount(call_instr->args.size);
-      fprintf(fout, "  sub SP, SP, %zi\n", sp_offset);
+      AddImm(fout, "sub", "SP", "SP", sp_offset);
       for (size_t i = 0; i < call_instr->args.size; ++i) {
         GetFrameVar(fout, "x9", call_instr->args.xs[i]);
-        fprintf(fout, "  str x9, [SP, #%zi]\n", sizeof(FbleValue*) * i);
+        LoadStore(fout, "str", "x9", "SP", sizeof(FbleValue*) * i);
       }
-      fprintf(fout, "  mov x3, %zi\n", call_instr->args.size);
+      MovImm(fout, "x3", call_instr->args.size);
       fprintf(fout, "  mov x4, SP\n");              // args
 
       fprintf(fout, "  bl FbleTailCall\n");
-      fprintf(fout, "  add SP, SP, #%zi\n", sp_offset);
+      AddImm(fout, "add", "SP", "SP", sp_offset);
 
       fprintf(fout, "  b .Lr.%04zx.exit\n", func_id);
       return;
@@ -864,19 +930,19 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
 
       // Allocate space on the stack for the array of arguments.
       size_t sp_offset = StackBytesForCount(argc);
-      fprintf(fout, "  sub SP, SP, #%zi\n", sp_offset);
+      AddImm(fout, "sub", "SP", "SP", sp_offset);
       for (size_t i = 0; i < argc; ++i) {
         GetFrameVar(fout, "x9", list_instr->args.xs[i]);
-        fprintf(fout, "  str x9, [SP, #%zi]\n", 8 * i);
+        LoadStore(fout, "str", "x9", "SP", 8 * i);
       }
 
       fprintf(fout, "  mov x0, R_HEAP\n");
-      fprintf(fout, "  mov x1, %zi\n", argc);
+      MovImm(fout, "x1", argc);
       fprintf(fout, "  mov x2, SP\n");
       fprintf(fout, "  bl FbleNewListValue\n");
 
       SetFrameVar(fout, "x0", list_instr->dest);
-      fprintf(fout, "  add SP, SP, #%zi\n", sp_offset);
+      AddImm(fout, "add", "SP", "SP", sp_offset);
       return;
     }
 
@@ -894,7 +960,7 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
       fprintf(fout, "  .text\n");
       fprintf(fout, "  .align 2\n");
       fprintf(fout, "  mov x0, R_HEAP\n");
-      fprintf(fout, "  mov x1, %zi\n", argc);
+      MovImm(fout, "x1", argc);
       Adr(fout, "x2", ".Lr.%04zx.%zi.letters", func_id, pc);
       fprintf(fout, "  bl FbleNewLiteralValue\n");
       SetFrameVar(fout, "x0", literal_instr->dest);
@@ -931,7 +997,7 @@ static void EmitOutlineCode(FILE* fout, size_t func_id, size_t pc, FbleInstr* in
         case FBLE_PROFILE_ENTER_OP: {
           fprintf(fout, "  mov x0, R_PROFILE\n");
           fprintf(fout, "  mov x1, R_PROFILE_BLOCK_ID\n");
-          fprintf(fout, "  add x1, x1, #%zi\n", op->arg);
+          AddImm(fout, "add", "x1", "x1", op->arg);
           fprintf(fout, "  bl FbleProfileEnterBlock\n");
           break;
         }
@@ -939,7 +1005,7 @@ static void EmitOutlineCode(FILE* fout, size_t func_id, size_t pc, FbleInstr* in
         case FBLE_PROFILE_REPLACE_OP: {
           fprintf(fout, "  mov x0, R_PROFILE\n");
           fprintf(fout, "  mov x1, R_PROFILE_BLOCK_ID\n");
-          fprintf(fout, "  add x1, x1, #%zi\n", op->arg);
+          AddImm(fout, "add", "x1", "x1", op->arg);
           fprintf(fout, "  bl FbleProfileReplaceBlock\n");
           break;
         }
@@ -952,7 +1018,7 @@ static void EmitOutlineCode(FILE* fout, size_t func_id, size_t pc, FbleInstr* in
 
         case FBLE_PROFILE_SAMPLE_OP: {
           fprintf(fout, "  mov x0, R_PROFILE\n");
-          fprintf(fout, "  mov x1, #%zi\n", op->arg);
+          MovImm(fout, "x1", op->arg);
           fprintf(fout, "  bl FbleProfileRandomSample\n");
           break;
         }
@@ -1057,7 +1123,7 @@ static void EmitCode(FILE* fout, FbleNameV profile_blocks, FbleCode* code)
 
   // Set up stack and frame pointer.
   size_t sp_offset = StackBytesForCount(code->num_locals);
-  fprintf(fout, "  sub SP, SP, %zi\n", sp_offset);
+  AddImm(fout, "sub", "SP", "SP", sp_offset);
   fprintf(fout, "  stp FP, LR, [SP, #-%zi]!\n", sizeof(RunStackFrame));
   fprintf(fout, "  mov FP, SP\n");
 
@@ -1086,7 +1152,7 @@ static void EmitCode(FILE* fout, FbleNameV profile_blocks, FbleCode* code)
   fprintf(fout, "  ldp R_ARGS, R_STATICS, [SP, #%zi]\n", offsetof(RunStackFrame, r_args_save));
   fprintf(fout, "  ldp R_PROFILE_BLOCK_ID, R_PROFILE, [SP, #%zi]\n", offsetof(RunStackFrame, r_profile_block_id_save));
   fprintf(fout, "  ldp FP, LR, [SP], #%zi\n", sizeof(RunStackFrame));
-  fprintf(fout, "  add SP, SP, #%zi\n", sp_offset);
+  AddImm(fout, "add", "SP", "SP", sp_offset);
   fprintf(fout, "  ret\n");
 
   // Emit code that's outside of the main execution path.
-- 
2.43.0


From 15170d1b244be18f09f1fc13c3373bcbc089e2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:35 +0000
Subject: [PATCH 25/26] fix: select on a union with a single tag aborts the
 interpreter

---
 lib/interpret.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/interpret.c b/lib/interpret.c
index 992dc5d..cc628eb 100644
--- a/lib/interpret.c
+++ b/lib/interpret.c
@@ -5,7 +5,6 @@
 
 #include "interpret.h"
 
-#include <assert.h>   // for assert
 #include <stdlib.h>   // for rand
 #include <string.h>   // for memcpy
 
@@ -165,7 +164,6 @@ static FbleValue* Interpret(
         }
 
         // Binary search for the matching tag.
-        assert(select_instr->targets.size > 0);
         size_t target = select_instr->default_;
         size_t lo = 0;
         size_t hi = select_instr->targets.size;
-- 
2.43.0


From a73e21a2214b37b09a3d48c5cff392a02b35d8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:12 +0000
Subject: [PATCH 26/26] fix: fbld accepts commands without a name

---
 fbld/parse.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fbld/parse.c b/fbld/parse.c
index b2b4e22..674fe65 100644
--- a/fbld/parse.c
+++ b/fbld/parse.c
@@ -386,6 +386,12 @@ static FbldMarkup* ParseInlineCommand(Lex* lex)
   markup->refcount = 1;
   FbldInitVector(markup->markups);
 
+  if (markup->text->str[0] == '\0') {
+    FbldReportError("missing command name\n", markup->text->loc);
+    FbldFreeMarkup(markup);
+    return NULL;
+  }
+
   if (!ParseInlineArgs(lex, &markup->markups)) {
     FbldFreeMarkup(markup);
     return NULL;
@@ -522,6 +528,12 @@ static FbldMarkup* ParseBlockCommand(Lex* lex)
   markup->refcount = 1;
   FbldInitVector(markup->markups);
 
+  if (markup->text->str[0] == '\0') {
+    FbldReportError("missing command name\n", markup->text->loc);
+    FbldFreeMarkup(markup);
+    return NULL;
+  }
+
   while (true) {
     // Inline args.
     if (!ParseInlineArgs(lex, &markup->markups)) {
-- 
2.43.0

